------------------------- MODULE TrainPredictTrace -----------------------
(* T: the session.  X, y: training matrices, P: prediction matrix with    *)
(* the columns cols.  cmds[i] carries the options and what was observed:  *)
(* exit (0/1), status [written, op, created, output, tb, chk], file (what *)
(* the model file holds now), changed (files touched beside the outputs), *)
(* pred [exists, rows, same].                                             *)
EXTENDS TrainPredict, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLE t
T == Traces[t]
Good(o) == o.op = "train" /\ ~TrainRefused(o) /\ ~TrainFails(o)
ModelAt(i) == LET S == {j \in 1..i : Good(T.cmds[j])} IN
              IF S = {} THEN None ELSE Settings(T.cmds[CHOOSE j \in S : \A k \in S : k <= j])
Cfg(m) == [pf |-> m.pf, ps |-> m.ps, impute |-> m.impute, dropnan |-> TRUE]
FileClause(i) ==
  LET m == ModelAt(i)
      f == T.cmds[i].file
      e == Exper(T.X, T.y, T.nf, Cfg(m))
  IN CASE f.is # m.is -> IF f.is THEN "model-file-without-success" ELSE "no-model-file"
       [] ~m.is -> ""
       [] f.pf # m.pf \/ f.ps # m.ps \/ f.pp # m.pp -> "thresholds-of-the-model"
       [] f.impute # m.impute \/ f.homog # m.homog -> "features-options-of-the-model"
       [] f.kfold # m.kfold \/ f.iter # m.iter \/ f.tol # m.tol -> "training-options-of-the-model"
       [] f.l1 # m.l1 -> "l1-ratios-of-the-model"
       [] f.alphas # m.alphas -> "alphas-of-the-model"
       [] f.model # m.model -> "model-name"
       [] f.feats # e.feats \/ f.rows # e.rows -> "training-data-of-the-model"
       [] OTHER -> ""
CmdClause(i) ==
  LET o == T.cmds[i]
      m == ModelAt(i - 1)
      refused == IF o.op = "train" THEN TrainRefused(o) ELSE ~m.is
      P == IF m.is /\ o.op = "predict" THEN
              LET e == Exper(T.X, T.y, T.nf, Cfg(m)) IN Pred(T.P, T.cols, e.feats, PredPP(o, m), m.impute)
           ELSE [refused |-> FALSE, rows |-> << >>]
      fails == IF o.op = "train" THEN TrainFails(o) ELSE o.kind # "ok" \/ P.refused
      good == ~refused /\ ~fails
  IN CASE o.exit # (IF refused \/ (fails /\ o.halt) THEN 1 ELSE 0) -> IF o.exit = 1 THEN "exit-code-signals-failure" ELSE "exit-code-hides-failure"
       [] o.changed -> "other-files-touched"
       [] o.status.written # (o.exit = 0 \/ (o.exit = 1 /\ o.status.written /\ ~refused)) -> "status-written"
       [] o.status.written /\ ~o.status.meta -> "status-metadata"
       [] o.status.written /\ o.status.created # good -> "status-created"
       [] o.status.written /\ o.status.output # good -> "status-output"
       [] o.status.written /\ o.status.tb = good -> "status-traceback"
       [] FileClause(i) # "" -> FileClause(i)
       [] o.op = "predict" /\ o.pred.exists # good -> IF good THEN "no-predictions-file" ELSE "predictions-without-success"
       [] o.op = "predict" /\ good /\ o.pred.rows # P.rows -> "predicted-samples"
       [] o.op = "predict" /\ good /\ ~o.pred.same -> "predicted-values"
       [] OTHER -> ""
Clause == LET bad == {i \in Ix(T.cmds) : CmdClause(i) # ""} IN
          IF bad = {} THEN "" ELSE CmdClause(CHOOSE i \in bad : \A j \in bad : i <= j)
TraceInit == t = 1
TraceNext == /\ t <= Len(Traces)
             /\ LET cl == Clause IN PrintT("@@" \o ToJson([id |-> T.id, ok |-> cl = "", clause |-> cl]))
             /\ t' = t + 1
TraceSpec == TraceInit /\ [][TraceNext]_t
==========================================================================
