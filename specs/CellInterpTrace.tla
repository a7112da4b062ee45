------------------------- MODULE CellInterpTrace -------------------------
(* C18: the interpolated regular cycles of a real structured run.         *)
EXTENDS CellRun, TLC, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLE t
T == Traces[t]
raw == T.raw
Reg == Cycles(raw) \ Range(T.diag)
Used == Reg \ Range(T.exclude)
Keys(cs) == UNION {{<<c, s>> : s \in Steps(raw, c)} : c \in cs}
Type(c, s) == StepType(raw, StepRows(raw, c, s), T.default)
WfType(c, s) == StepType(raw, StepRows(raw, c, s), "charge")
Wanted == {<<k[1], k[2], Type(k[1], k[2])>> : k \in {k \in Keys(Used) : Cardinality(StepRows(raw, k[1], k[2])) >= 2}}
(* only isolated single rows: nothing shows what the step does *)
Unclear == {<<k[1], k[2], ty>> : k \in {k \in Keys(Used) : \A j \in StepRows(raw, k[1], k[2]) : (j - 1) \notin StepRows(raw, k[1], k[2])},
                                ty \in {"charge", "discharge"}}
HasWf(type) == \E k \in Keys(Reg) : WfType(k[1], k[2]) = type /\ \E j \in StepRows(raw, k[1], k[2]) : raw[j].wf = 1
AxisOf(type) == IF HasWf(type) THEN "t" ELSE IF type = "charge" THEN T.caxis ELSE T.daxis
All == 1..Len(raw)
Lo(type, S) == LET a == AxisOf(type) IN
   CASE a = "t" -> MinOf(raw, S, "t") [] a = "v" -> T.vlo [] OTHER -> MinOf(raw, All, a)
Hi(type, S) == LET a == AxisOf(type) IN
   CASE a = "t" -> MaxOf(raw, S, "t") [] a = "v" -> T.vhi [] OTHER -> MaxOf(raw, All, a)
Got == {<<T.groups[k].cyc, T.groups[k].step, T.groups[k].type>> : k \in 1..Len(T.groups)}
GC1(g) == LET S == StepRows(raw, g.cyc, g.step) IN
   GroupClause(raw, S, AxisOf(g.type), Lo(g.type, S), Hi(g.type, S), T.R, g.pts)
Clause ==
  IF T.err # "" THEN "structuring-fails"
  ELSE IF \E g \in Got : g[1] \notin Used THEN (IF \E g \in Got : g[1] \notin Reg THEN "diagnostic-cycle-among-regular" ELSE "excluded-cycle")
  ELSE IF Got \ Unclear # Wanted \ Unclear \/ {<<g[1], g[2]>> : g \in Got} # {<<g[1], g[2]>> : g \in Wanted} THEN
     (IF {<<g[1], g[2]>> : g \in Got} # {<<g[1], g[2]>> : g \in Wanted} THEN "steps-lost-or-invented" ELSE "step-type")
  ELSE IF Len(T.groups) # Cardinality(Got) THEN "duplicate-step"
  ELSE LET bad == {k \in 1..Len(T.groups) : GC1(T.groups[k]) # ""} IN
       IF bad = {} THEN "" ELSE GC1(T.groups[MinS(bad)])
TraceInit == t = 1
TraceNext == /\ t <= Len(Traces)
             /\ LET c == Clause IN PrintT("@@" \o ToJson([id |-> T.id, ok |-> c = "", clause |-> c]))
             /\ t' = t + 1
TraceSpec == TraceInit /\ [][TraceNext]_t
==========================================================================
