-------------------------- MODULE DataSplitTrace -------------------------
EXTENDS DataSplit, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLE t
T == Traces[t]
Grouped == T.X # << >> /\ Len(T.S[1]) > 0
Data(E, o) == \* what a splitter holds
  CASE o.feats # E.feats -> "features"
    [] o.rows # E.rows -> "samples"
    [] o.X # E.X -> "values"
    [] o.y # [i \in Ix(E.rows) |-> T.y[E.rows[i]]] -> "targets"
    [] OTHER -> ""
FoldData(E, o) == \* values inside the folds
  LET at(r) == CHOOSE i \in Ix(E.rows) : E.rows[i] = r
      side(rows, vals, ys) == \/ Len(vals) # Len(rows) \/ Len(ys) # Len(rows)
                              \/ \E i \in Ix(rows) : vals[i] # E.X[at(rows[i])] \/ ys[i] # T.y[rows[i]]
  IN \E f \in Ix(o.folds) : side(o.folds[f].train, o.folds[f].trainX, o.folds[f].trainy) \/ side(o.folds[f].test, o.folds[f].testX, o.folds[f].testy)
Folds(E, o) ==
  LET k == FoldClause(T.S, E.rows, Grouped, T.k, o.folds) IN
  IF k # "" THEN k ELSE IF FoldData(E, o) THEN "values-of-a-set" ELSE ""
Same(a, b) == a.folds = b.folds
OpClause(E, i) ==
  LET o == T.ops[i]
      can == Splittable(T.S, E.rows, Grouped, T.k)
      prev == {j \in 1..i-1 : T.ops[j].ok}
  IN CASE ~can /\ o.ok -> "split-impossible"
       [] ~can -> ""
       [] ~o.ok -> o.op \o "-fails"
       [] o.op = "reload" /\ Data(E, o) # "" -> "reloaded-" \o Data(E, o)
       [] Folds(E, o) # "" -> Folds(E, o)
       [] \E j \in prev : ~Same(o, T.ops[j]) -> "split-changes"
       [] ~o.same -> "reloaded-settings"
       [] OTHER -> ""
Clause ==
  LET E == Cleaned(T.X, T.S, T.B, T.y, T.nf, T.c)
      ref == T.unusable \/ E.refused
  IN CASE T.init.refused # ref -> IF ref THEN "accepted-unusable-data" ELSE "refused-usable-data"
       [] T.init.refused -> ""
       [] Data(E, T.init) # "" -> Data(E, T.init)
       [] OTHER -> LET bad == {i \in Ix(T.ops) : OpClause(E, i) # ""} IN
                   IF bad = {} THEN "" ELSE OpClause(E, CHOOSE i \in bad : \A j \in bad : i <= j)
TraceInit == t = 1
TraceNext == /\ t <= Len(Traces)
             /\ LET cl == Clause IN PrintT("@@" \o ToJson([id |-> T.id, ok |-> cl = "", clause |-> cl]))
             /\ t' = t + 1
TraceSpec == TraceInit /\ [][TraceNext]_t
==========================================================================
