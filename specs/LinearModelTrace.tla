------------------------ MODULE LinearModelTrace -------------------------
(* Judges recorded experiments.  T.init: what the constructor did; T.ops: *)
(* the operations and what they returned.  Predictions are in hundredths. *)
EXTENDS LinearModel, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLE t
T == Traces[t]
ErrM == "BEEPMLExperimentError"
Want == LET e == Exper(T.X, T.y, T.nf, T.c) IN
        IF T.unusable THEN [refused |-> TRUE, feats |-> << >>, rows |-> << >>, X |-> << >>] ELSE e
InitClause(E) ==
  CASE T.init.refused # E.refused -> IF T.init.refused THEN "refused-usable-training-data" ELSE "accepted-unusable-training-data"
    [] T.init.refused -> ""
    [] T.init.feats # E.feats -> "training-features"
    [] T.init.rows # E.rows -> "training-samples"
    [] T.init.X # E.X -> "training-values"
    [] T.init.y # [i \in Ix(E.rows) |-> T.y[E.rows[i]]] -> "training-targets"
    [] ~T.init.unchanged -> "inputs-modified"
    [] OTHER -> ""
(* training on a part without the missing values may leave a model although the scoring of the rest fails *)
Half(E, i) == HasNA(E.X) /\ \E j \in 1..i-1 : T.ops[j].op = "train" /\ T.ops[j].frac
LastTrain(i) == LET S == {j \in 1..i-1 : T.ops[j].op = "train" /\ T.ops[j].ok} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : k <= j
OpClause(E, i) ==
  LET o == T.ops[i]
      lt == LastTrain(i)
  IN IF o.op = "train" THEN
        CASE HasNA(E.X) -> IF o.ok THEN "trained-on-missing-values" ELSE ""
          [] ~o.ok -> "training-fails"
          [] ~o.alpha -> "hyperparameter-not-among-candidates"
          [] ~o.refit -> "model-not-fitted-as-configured"
          [] o.mae # -1 /\ Abs(o.mae - o.remae) > 1 + o.remae \div 100000 -> "training-error"
          [] T.exact /\ ~o.frac /\ o.mae > T.tol -> "training-error-of-exact-data"
          [] ~o.unchanged -> "inputs-modified"
          [] OTHER -> ""
     ELSE IF o.op = "reload" THEN
        CASE lt = 0 -> IF o.ok /\ ~Half(E, i) THEN "saved-untrained" ELSE ""
          [] ~o.ok -> "reload-fails"
          [] ~o.same -> "reloaded-state"
          [] OTHER -> ""
     ELSE \* predict
        LET p == Pred(o.P, o.cols, E.feats, o.pp, T.c.impute) IN
        CASE lt = 0 -> IF ~Half(E, i) /\ (o.ok \/ o.err # ErrM) THEN "predicts-untrained" ELSE ""
          [] p.refused /\ o.ok -> IF p.why = "missing-features" THEN "predicts-without-its-features" ELSE "predicts-from-nothing"
          [] p.refused -> IF p.why = "missing-features" /\ o.err # ErrM THEN "wrong-error" ELSE ""
          [] ~o.ok -> "prediction-fails"
          [] o.rows # p.rows -> "predicted-samples"
          [] o.dropped # p.dropped -> "dropped-samples"
          [] Len(o.vals) # Len(p.rows) \/ \E k \in Ix(o.vals) : Len(o.vals[k]) # Len(T.w) -> "prediction-shape"
          [] T.exact /\ ~T.ops[lt].frac /\ \E k \in Ix(o.vals) : \E g \in Ix(T.w) :
                Abs(o.vals[k][g] - 100 * Linear(p.Z[k], [q \in Ix(E.feats) |-> T.w[g][E.feats[q]]], T.b[g])) > T.tol -> "prediction-value"
          [] \E j \in lt+1 .. i-1 : T.ops[j].op = "predict" /\ T.ops[j].ok /\ T.ops[j].mid = o.mid /\ T.ops[j].pp = o.pp /\
                (Len(T.ops[j].vals) # Len(o.vals) \/ \E k \in Ix(o.vals) : \E g \in Ix(o.vals[k]) : Abs(T.ops[j].vals[k][g] - o.vals[k][g]) > 1)
                -> "prediction-changes"
          [] ~o.unchanged -> "inputs-modified"
          [] OTHER -> ""
Clause ==
  LET E == Want
      ic == InitClause(E)
  IN IF ic # "" \/ T.init.refused THEN ic
     ELSE LET bad == {i \in Ix(T.ops) : OpClause(E, i) # ""} IN
          IF bad = {} THEN "" ELSE OpClause(E, CHOOSE i \in bad : \A j \in bad : i <= j)
TraceInit == t = 1
TraceNext == /\ t <= Len(Traces)
             /\ LET cl == Clause IN PrintT("@@" \o ToJson([id |-> T.id, ok |-> cl = "", clause |-> cl]))
             /\ t' = t + 1
TraceSpec == TraceInit /\ [][TraceNext]_t
==========================================================================
