--------------------------- MODULE DispatchTrace ---------------------------
(* C10: real files loaded by name; saved runs loaded back.                *)
EXTENDS Dispatch, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLE t
T == Traces[t]
LoadClause == LET f == Format(T.name) IN
              IF f = "none" THEN (IF T.got = "ValueError" THEN "" ELSE "unknown-format-accepted")
              ELSE IF T.got = Class(f) THEN "" ELSE IF T.got = "ValueError" THEN "format-not-recognized" ELSE "wrong-reader"
SaveClause == IF T.err # "" /\ T.kind # "other" THEN T.err
              ELSE IF T.got # Reloaded(T.kind, T.fmt) THEN "reloaded-as-other-class"
              ELSE IF T.kind = "other" THEN ""
              ELSE IF T.path # T.file THEN "structured-path"
              ELSE IF T.after.summary # T.before.summary THEN "summary-changed"
              ELSE IF T.after.data # T.before.data THEN "cycles-changed"
              ELSE IF T.kind = "own" /\ T.after.dsummary # T.before.dsummary THEN "diagnostic-summary-changed"
              ELSE IF T.kind = "own" /\ T.after.ddata # T.before.ddata THEN "diagnostic-cycles-changed"
              ELSE IF T.kind = "own" /\ T.after.diag # T.before.diag THEN "diagnostic-changed"
              ELSE IF T.kind = "own" /\ T.after.types # T.before.types THEN "column-types-changed"
              ELSE IF T.kind = "own" /\ T.after.schema # T.before.schema THEN "schema-changed"
              ELSE IF T.kind = "own" /\ T.after.raw # T.before.raw THEN "paths-changed"
              ELSE IF T.kind = "own" /\ T.after.meta # T.before.meta THEN "metadata-changed"
              ELSE IF T.kind = "own" /\ T.after.params # T.before.params THEN "parameters-changed"
              ELSE IF T.before.summary = << >> \/ (T.before.data = << >> /\ T.before.ddata = << >>) THEN "nothing-structured" ELSE ""
Clause == IF T.what = "load" THEN LoadClause ELSE SaveClause
TraceInit == t = 1
TraceNext == /\ t <= Len(Traces)
             /\ LET c == Clause IN PrintT("@@" \o ToJson([id |-> T.id, ok |-> c = "", clause |-> c]))
             /\ t' = t + 1
TraceSpec == TraceInit /\ [][TraceNext]_t
==========================================================================
