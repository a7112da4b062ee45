-------------------------- MODULE CellDiagTrace --------------------------
(* C12: the interpolated diagnostic cycles of a real structured run.      *)
EXTENDS CellRun, TLC, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLE t
T == Traces[t]
raw == T.raw
Diag == Range(T.diag) \cap Cycles(raw)
TypeOf(c) == T.types[CHOOSE k \in 1..Len(T.diag) : T.diag[k] = c]
Wanted == {<<c, r>> \in UNION {{<<c, r>> : r \in 1..RunCount(raw, c)} : c \in Diag} : Cardinality(RunRows(raw, c, r)) >= 2}
GotSeq == [k \in 1..Len(T.groups) |-> <<T.groups[k].cyc, T.groups[k].step_index_counter>>]
(* points in the order of the axis: discharge steps are stored by time, i.e. by falling voltage *)
RECURSIVE Rev(_)
Rev(s) == IF s = << >> THEN << >> ELSE Append(Rev(Tail(s)), Head(s))
Ordered(pts, a) == IF pts[1][a] <= pts[Len(pts)][a] THEN pts ELSE Rev(pts)
DQ(pts, dv, f, g) == \A k \in 2..Len(pts) :
   \/ pts[k][f] = NIL \/ pts[k - 1][f] = NIL
   \/ /\ pts[k][g] \notin {NIL, HUGE}
      /\ Mul(pts[k][g], dv)
      /\ Near(pts[k][g] * dv, (pts[k][f] - pts[k - 1][f]) * 100 * T.R, 400 * T.R + dv)
ByTime(pts) == \A k \in 2..Len(pts) : pts[k].t = NIL \/ (pts[k - 1].t # NIL /\ pts[k - 1].t <= pts[k].t)
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
G1(g) ==
  LET S == RunRows(raw, g.cyc, g.step_index_counter)
      dv == MaxOf(raw, S, "v") - MinOf(raw, S, "v")
      a == IF dv >= 1 THEN "v" ELSE "t"
      pts == Ordered(g.pts, a)
      c == GroupClause(raw, S, a, MinOf(raw, S, a), MaxOf(raw, S, a), T.R, pts)
  IN IF g.step # raw[First(S)].step THEN "step-index"
     ELSE IF g.cycle_type # TypeOf(g.cyc) THEN "cycle-type"
     ELSE IF g.order # StepOrder(raw, g.cyc, g.step) THEN "step-order"
     ELSE IF c # "" THEN c
     ELSE IF ~ByTime(g.pts) THEN "time-order"
     ELSE IF a = "v" /\ ~DQ(pts, dv, "dc", "dq") THEN "discharge-dqdv"
     ELSE IF a = "v" /\ ~DQ(pts, dv, "cc", "cq") THEN "charge-dqdv"
     ELSE ""
RegGot == {T.reg[k] : k \in 1..Len(T.reg)}
Clause ==
  IF T.err # "" THEN "structuring-fails"
  ELSE IF RegGot \cap Diag # {} THEN "diagnostic-cycle-among-regular"
  ELSE IF Range(GotSeq) # Wanted THEN "runs-lost-or-invented"
  ELSE IF Len(GotSeq) # Cardinality(Wanted) THEN "duplicate-run"
  ELSE IF \E k \in 2..Len(GotSeq) : ~Before(GotSeq[k - 1], GotSeq[k]) THEN "run-order"
  ELSE LET bad == {k \in 1..Len(T.groups) : G1(T.groups[k]) # ""} IN
       IF bad = {} THEN "" ELSE G1(T.groups[MinS(bad)])
TraceInit == t = 1
TraceNext == /\ t <= Len(Traces)
             /\ LET c == Clause IN PrintT("@@" \o ToJson([id |-> T.id, ok |-> c = "", clause |-> c]))
             /\ t' = t + 1
TraceSpec == TraceInit /\ [][TraceNext]_t
==========================================================================
