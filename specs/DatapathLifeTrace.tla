------------------------- MODULE DatapathLifeTrace -------------------------
(* T.ops[i] = [k, a, result, obs], obs the visible state afterwards       *)
EXTENDS DatapathLife, TLC, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLE t
T == Traces[t]
NoFiles == <<Blank, Blank>>
RECURSIVE Walk(_, _, _)
Judge(d, o) ==
  CASE o.structured # Structured(d) -> "is-structured"
    [] o.res # d.res -> "structured-content"
    [] o.par # d.par -> "structuring-parameters"
    [] o.diag # d.diag -> "diagnostic-configuration"
    [] o.raw # (IF d.raw THEN "same" ELSE "none") -> "raw-data"
    [] ~o.meta -> "metadata"
    [] d.file # 0 /\ o.file # d.file -> "structured-path"
    [] OTHER -> ""
Walk(d, files, i) ==
  IF i > Len(T.ops) THEN ""
  ELSE LET op == T.ops[i]
           want == OpResult(d, files, op)
           d2 == OpEffect(d, files, op)
           j == Judge(d2, op.obs)
       IN IF op.result # want THEN op.k \o "-" \o op.result
          ELSE IF j # "" THEN op.k \o "-" \o j
          ELSE Walk(d2, FileEffect(d, files, op), i + 1)
TraceInit == t = 1
TraceNext == /\ t <= Len(Traces)
             /\ LET c == Walk(Blank, NoFiles, 1) IN PrintT("@@" \o ToJson([id |-> T.id, ok |-> c = "", clause |-> c]))
             /\ t' = t + 1
TraceSpec == TraceInit /\ [][TraceNext]_t
==========================================================================
