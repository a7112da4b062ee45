--------------------------- MODULE LifeTargetTrace ---------------------------
(* C26: histories of cells and what the featurizers and helpers say of them *)
EXTENDS LifeTarget, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLE t
T == Traces[t]
NearV(x, v) == IF v = NA THEN x = NA ELSE x # NA /\ Abs(x - v) <= 2 + Abs(v) \div 1000000
CourseClause(e) == IF ~Again(T.r, T.u) THEN "" ELSE
  LET c == Course(T.r, T.u, e.metric, e.ty) y0 == First(T.u, e.metric) x == Initial(T.r, T.u, e.metric) IN
  IF e.err # "" THEN (IF Len(c) = 0 THEN "" ELSE "course-fails")
  ELSE IF Len(e.rows) # Len(c) THEN "course-length"
  ELSE IF \E i \in 1..Len(c) : e.rows[i].cyc # c[i].cyc THEN "course-cycles"
  ELSE IF \E i \in 1..Len(c) : ~NearV(e.rows[i].f, Ratio(c[i].q, y0)) THEN "fraction"
  ELSE IF \E i \in 1..Len(c) : e.rows[i].x # x * K THEN "initial-throughput"
  ELSE IF \E i \in 1..Len(c) : ~NearV(e.rows[i].n, SDec(c[i].n, x)) THEN "regular-throughput"
  ELSE IF \E i \in 1..Len(c) : ~NearV(e.rows[i].m, SDec(c[i].m, x)) THEN "diagnostic-throughput"
  ELSE IF \E i \in 1..Len(c) : e.rows[i].at # c[i].at THEN "epoch"
  ELSE IF \E i \in 1..Len(c) : e.rows[i].start # T.p.start \/ e.rows[i].every # T.p.every THEN "schedule-of-diagnostics"
  ELSE ""
SinceClause(e) == LET w == After100(T.u, e.metric, e.ty) IN
  IF e.err # "" THEN "since-100-fails" ELSE IF Len(w) # Len(e.rows) THEN "since-100-length"
  ELSE IF \E i \in 1..Len(w) : e.rows[i].cyc # w[i][1] \/ ~NearV(e.rows[i].f, w[i][2]) THEN "since-100" ELSE ""
ParamClause(e) == LET w == Row(T.tables, e.project, e.seq) IN
  IF w = <<>> THEN (IF e.got = <<>> THEN "" ELSE "parameters-of-another")
  ELSE IF e.err # "" THEN "parameters-fail" ELSE IF e.got # w THEN "parameters" ELSE ""
ValidOf(e) == T.has = "diag" /\ (e.k \in {"exclude", "protocol"} => T.paths # "none")
Feature(e) == IF e.valid # ValidOf(e) THEN (IF e.valid THEN "accepts-an-unusable-run" ELSE "refuses-a-usable-run")
              ELSE IF ~e.valid THEN ""
              ELSE CASE e.k = "target" -> TargetClause(T.r, T.u, e.h, e.o)
                     [] e.k = "exclude" -> ExclusionClause(T.r, T.u, T.d, T.p, e.h, e.o)
                     [] e.k = "protocol" -> IF e.err # "" \/ e.got # e.want THEN "charging-protocol" ELSE ""
StepClause(e) == CASE e.k = "course" -> CourseClause(e) [] e.k = "since" -> SinceClause(e) [] e.k = "param" -> ParamClause(e) [] OTHER -> Feature(e)
Clause == LET bad == {i \in 1..Len(T.steps) : StepClause(T.steps[i]) # ""} IN
          IF bad # {} THEN StepClause(T.steps[Min(bad)]) ELSE IF ~T.kept THEN "run-changed" ELSE ""
TraceInit == t = 1
TraceNext == /\ t <= Len(Traces)
             /\ LET c == Clause IN PrintT("@@" \o ToJson([id |-> T.id, ok |-> c = "", clause |-> c]))
             /\ t' = t + 1
TraceSpec == TraceInit /\ [][TraceNext]_t
=============================================================================
