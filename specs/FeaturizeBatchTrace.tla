----------------------- MODULE FeaturizeBatchTrace -----------------------
EXTENDS FeaturizeBatch, TLC, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES t, s
vars == <<t, s>>
T == Traces[t]
FirstBad(f) == LET B == {i \in 1..Len(f) : f[i] # ""} IN
               IF B = {} THEN "" ELSE f[CHOOSE i \in B : \A j \in B : i <= j]
SubClause(e, x, name, sv) ==
  CASE e.name # name -> "featurizer-report"
    [] e.valid # x.valid -> "valid-flag"
    [] e.featurized # x.featurized -> "featurized-flag"
    [] e.tb # x.tb -> "failure-report"
    [] e.output # (IF sv /\ x.featurized THEN "right" ELSE "none") -> "saved-featurizer"
    [] e.md5 # (IF sv /\ x.featurized THEN "right" ELSE "none") -> "saved-featurizer-checksum"
    [] OTHER -> ""
EntryClause(e, x, kind) ==
  IF ~e.present THEN "status-file-incomplete"
  ELSE IF e.md5 # "right" THEN "input-checksum"
  ELSE IF e.tb # ~x.loaded THEN "load-failure-report"
  ELSE IF Len(e.subs) # Len(x.subs) THEN "featurizers-reported"
  ELSE FirstBad([j \in 1..Len(x.subs) |-> SubClause(e.subs[j], x.subs[j], T.feats[j], T.save)])
(* the feature matrix: one row per file with a result, every cell right   *)
Cells(st) == {[file |-> r[1], feat |-> T.feats[r[2]], k |-> k] : r \in st.results, k \in 1..3}
MatrixClause(st) ==
  LET want == UNION {{[file |-> r[1], feat |-> T.feats[r[2]], k |-> k] : k \in 1..T.nfeat[r[2]]} : r \in st.results}
      got == {T.cells[i] : i \in 1..Len(T.cells)}
  IN CASE T.matrix = "none" -> "matrix-missing"
       [] T.matrix = "elsewhere" -> "matrix-location"
       [] T.matrix = "unreadable" -> "matrix-unreadable"
       [] got # want \/ Len(T.cells) # Cardinality(want) -> "matrix-cells"
       [] T.rows # Cardinality({r[1] : r \in st.results}) -> "matrix-rows"
       [] OTHER -> ""
Saved(st) == IF T.save THEN Cardinality(st.results) ELSE 0
Final(st) ==
  LET ex == IF st.phase = "halted" THEN 1 ELSE 0
      status == st.phase # "halted" IN
  CASE T.exit # ex -> "exit-code"
    [] T.status # status -> "status-file"
    [] T.saved # Saved(st) -> "saved-files"
    [] T.strays > 0 -> "stray-files"
    [] ~T.inputs -> "input-modified"
    [] status /\ ~T.meta -> "status-metadata"
    [] status /\ T.created # (st.phase = "done") -> "matrix-report"
    [] st.phase # "done" /\ T.matrix # "none" -> "matrix-unexpected"
    [] OTHER -> IF status
                THEN LET ec == FirstBad([i \in 1..Len(st.done) |-> EntryClause(T.entries[i], st.done[i], T.files[i])]) IN
                     IF ec # "" THEN ec ELSE IF st.phase = "done" THEN MatrixClause(st) ELSE ""
                ELSE ""
TraceInit == t = 1 /\ s = FStart
TraceNext ==
  /\ t <= Len(Traces)
  /\ IF Active(s) THEN s' = FNext(s, T) /\ UNCHANGED t
     ELSE /\ LET c == Final(s) IN PrintT("@@" \o ToJson([id |-> T.id, ok |-> c = "", clause |-> c]))
          /\ t' = t + 1 /\ s' = FStart
TraceSpec == TraceInit /\ [][TraceNext]_vars
==========================================================================
