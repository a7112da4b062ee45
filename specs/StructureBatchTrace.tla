----------------------- MODULE StructureBatchTrace -----------------------
(* Validates recorded runs of the real command: one event per file.       *)
EXTENDS StructureBatch, TLC, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES t, s, n
vars == <<t, s, n>>
T == Traces[t]
Verdict(c, at) == PrintT("@@" \o ToJson([id |-> T.id, ok |-> c = "", clause |-> c, at |-> at]))

EntryClause(e, x, kind) ==   \* observed e, expected x
  CASE e.validated # x.validated -> "validated-flag"
    [] e.structured # x.structured -> "structured-flag"
    [] e.tb # x.tb -> "failure-report"
    [] e.schema # x.schema -> "schema-report"
    [] ~e.rawmd5 -> "raw-checksum"
    [] e.output # (IF x.structured THEN "right" ELSE "none") -> "output-report"
    [] e.outmd5 # (IF x.structured THEN "right" ELSE "none") -> "output-checksum"
    [] e.params # (IF x.structured THEN "right" ELSE "none") -> "parameters-report"
    [] OTHER -> ""
FileClause(f, produced, noraw) ==
  CASE produced /\ ~f.exists -> "output-missing"
    [] ~produced /\ f.exists -> "unreported-output"
    [] produced /\ ~f.content -> "output-content"
    [] produced /\ f.raw = noraw -> "raw-data-option"
    [] OTHER -> ""
FirstBad(f) == LET B == {i \in 1..Len(f) : f[i] # ""} IN
               IF B = {} THEN "" ELSE f[CHOOSE i \in B : \A j \in B : i <= j]

Final(st) ==
  LET fc == FirstBad([i \in 1..Len(T.files) |-> FileClause(T.outs[i], i \in st.outs, T.o.noraw)]) IN
  CASE T.exit # ExitCode(st) -> "exit-code"
    [] fc # "" -> fc
    [] T.strays > 0 -> "stray-files"
    [] ~T.inputs -> "input-modified"
    [] st.phase = "done" /\ ~T.status -> "status-file-missing"
    [] st.phase = "done" /\ Len(T.entries) # Len(T.files) -> "status-file-incomplete"
    [] st.phase = "done" /\ ~T.meta -> "status-metadata"
    [] OTHER -> ""

TraceInit == t = 1 /\ n = 0 /\ s = [phase |-> "none"]
TraceNext ==
  /\ t <= Len(Traces)
  /\ IF s.phase = "none" THEN s' = BStart(T.files, T.o) /\ UNCHANGED <<t, n>>
     ELSE IF s.phase = "running"
     THEN LET x == BStep(s, T.files, T.o)
              bad == IF Len(x.entries) = Len(s.entries) \/ ~T.status THEN ""
                     ELSE IF Len(T.entries) < Len(x.entries) THEN "status-file-incomplete"
                     ELSE EntryClause(T.entries[Len(x.entries)], x.entries[Len(x.entries)], T.files[s.i]) IN
          IF bad # "" THEN Verdict(bad, s.i) /\ t' = t + 1 /\ s' = [phase |-> "none"] /\ n' = n + 1
          ELSE s' = x /\ UNCHANGED <<t, n>>
     ELSE Verdict(Final(s), 0) /\ t' = t + 1 /\ s' = [phase |-> "none"] /\ UNCHANGED n
TraceSpec == TraceInit /\ [][TraceNext]_vars
==========================================================================
