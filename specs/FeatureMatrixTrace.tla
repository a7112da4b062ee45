------------------------ MODULE FeatureMatrixTrace ------------------------
(* observed: refused, rows (sequence of files), cols (sequence of column  *)
(* names as [cls, f, h], h numbering distinct hyperparameter tags), vals  *)
(* (vals[r][c] = 0 for missing, else the value encoded as a cell record   *)
(* [file, cls, hp, f])                                                    *)
EXTENDS FeatureMatrix, TLC, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLE t
T == Traces[t]
Judge(M) ==
  LET got == {<<r, c>> \in (1..Len(M.rows)) \X (1..Len(M.cols)) : ~M.vals[r][c].nan}
      cellset == {[file |-> M.vals[p[1]][p[2]].file, cls |-> M.vals[p[1]][p[2]].cls,
                   hp |-> M.vals[p[1]][p[2]].hp, f |-> M.vals[p[1]][p[2]].f] : p \in got}
  IN CASE {M.rows[i] : i \in 1..Len(M.rows)} # Rows(T.rs) -> "row-set"
       [] Len(M.rows) # Cardinality(Rows(T.rs)) -> "duplicate-row"
       [] Len(M.cols) # Cardinality(Cols(T.rs)) -> "column-count"
       [] \E i, j \in 1..Len(M.cols) : i # j /\ M.cols[i] = M.cols[j] -> "duplicate-column"
       [] \E p \in got : M.vals[p[1]][p[2]].file # M.rows[p[1]] -> "value-in-wrong-row"
       [] \E p \in got : M.vals[p[1]][p[2]].cls # M.cols[p[2]].cls \/ M.vals[p[1]][p[2]].f # M.cols[p[2]].f -> "value-in-wrong-column"
       [] \E p, q \in got : p[2] = q[2] /\ M.vals[p[1]][p[2]].hp # M.vals[q[1]][q[2]].hp -> "column-mixes-hyperparameters"
       [] \E p, q \in got : M.vals[p[1]][p[2]].cls = M.vals[q[1]][q[2]].cls /\
              (M.vals[p[1]][p[2]].hp = M.vals[q[1]][q[2]].hp) # (M.cols[p[2]].h = M.cols[q[2]].h) -> "hyperparameter-tag"
       [] cellset # Cells(T.rs) -> "cells-lost-or-invented"
       [] OTHER -> ""
Clause ==
  IF T.refused # ~Accepted(T.rs) THEN IF T.refused THEN "refused-joinable" ELSE "accepted-unjoinable"
  ELSE IF T.refused THEN (IF T.errkind # "matrix" THEN "wrong-error" ELSE "")
  ELSE LET a == Judge(T.m) IN
       IF a # "" THEN a
       ELSE IF T.re.err # "" THEN "reload-fails"
       ELSE LET b == Judge(T.re) IN
            IF b # "" THEN "reloaded-" \o b
            ELSE IF ~T.same THEN "reload-differs"
            ELSE IF ~T.inputs THEN "inputs-modified" ELSE ""
TraceInit == t = 1
TraceNext == /\ t <= Len(Traces)
             /\ LET c == Clause IN PrintT("@@" \o ToJson([id |-> T.id, ok |-> c = "", clause |-> c]))
             /\ t' = t + 1
TraceSpec == TraceInit /\ [][TraceNext]_t
==========================================================================
