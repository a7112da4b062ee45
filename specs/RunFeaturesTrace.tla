--------------------------- MODULE RunFeaturesTrace --------------------------
(* C25: features computed one after the other from one run, by the real     *)
(* featurizers: steps [f, h, valid, err, out], out: names and values in the *)
(* order of the columns; kept: the run is as it was.                        *)
EXTENDS RunFeatures, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLE t
T == Traces[t]
Valid(e) == CASE e.f = "CycleSummaryStats" -> CycleStatsValid(T.d, e.h)
              [] e.f = "DiagnosticSummaryStats" -> DiagStatsValid(T.u, e.h)
              [] e.f = "DeltaQFastCharge" -> DeltaQValid(T.s, e.h)
              [] OTHER -> TRUE
Want(e) == CASE e.f = "CycleSummaryStats" -> CycleStats(T.d, e.h)
             [] e.f = "DiagnosticSummaryStats" -> DiagStats(T.g, T.u, e.h)
             [] e.f = "DeltaQFastCharge" -> DeltaQ(T.d, T.s, e.h)
             [] OTHER -> RawData(T.g, e.h)
(* a value that is missing (<<NA>>) is given as missing; values are given to four decimals, large ones to as many digits as there are *)
Near(x, v) == x # NA /\ v # NA /\ Abs(x - v) <= 2 + Abs(v) \div 1000000
Same(e, o, w) == IF e.f = "RawInterpolatedData" THEN o.z = w[2] ELSE w[2] = <<>> \/ (w[2][1] = NA /\ o.v = NA) \/ Near(o.v, w[2][1])
StepClause(e) ==
  IF e.valid # Valid(e) THEN e.f \o (IF e.valid THEN ":accepts-a-run-without-the-cycles" ELSE ":refuses-a-run-with-the-cycles")
  ELSE IF ~e.valid THEN ""
  ELSE LET W == Want(e) IN
       IF W = <<>> THEN ""                             \* nothing to return: a failure is as good
       ELSE IF e.err # "" THEN e.f \o ":fails"
       ELSE IF Len(W) # Len(e.out) THEN e.f \o ":columns"
       ELSE IF \E i \in 1..Len(W) : W[i][1] # e.out[i].n THEN e.f \o ":names"
       ELSE LET bad == {i \in 1..Len(W) : ~Same(e, e.out[i], W[i])} IN
            IF bad = {} THEN "" ELSE e.f \o ":" \o W[Min(bad)][1]
Clause == LET bad == {i \in 1..Len(T.steps) : StepClause(T.steps[i]) # ""} IN
          IF bad # {} THEN StepClause(T.steps[Min(bad)]) ELSE IF ~T.kept THEN "run-changed" ELSE ""
TraceInit == t = 1
TraceNext == /\ t <= Len(Traces)
             /\ LET c == Clause IN PrintT("@@" \o ToJson([id |-> T.id, ok |-> c = "", clause |-> c]))
             /\ t' = t + 1
TraceSpec == TraceInit /\ [][TraceNext]_t
=============================================================================
