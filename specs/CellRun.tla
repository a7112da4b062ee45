----------------------------- MODULE CellRun -----------------------------
(* A cycler run is a sequence of rows                                     *)
(*   [cyc, step, t, date, v, i, cc, dc, ce, de, ir, temp, wf]             *)
(* in integer units (mV, mA, mAh, mWh, mOhm, 0.1 C, s).  This module      *)
(* defines, declaratively, what structuring a run means: the partition    *)
(* into regular and diagnostic cycles and into steps, the per-cycle       *)
(* summary, and the interpolation of a step on an axis.                   *)
EXTENDS Integers, Sequences, FiniteSets

NIL == -(2^30)          \* a missing value
HUGE == NIL + 1         \* an infinite or unrepresentable one
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Abs(a - b) <= tol
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
MinS(S) == CHOOSE x \in S : \A y \in S : y >= x
RECURSIVE SumS(_, _)
SumS(f, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN f[k] + SumS(f, S \ {k})
Mul(a, m) == Abs(a) <= 2000000000 \div (IF m = 0 THEN 1 ELSE Abs(m))   \* a * m can be computed
Range(s) == {s[k] : k \in 1..Len(s)}

(* ------------------------------------------------------- partition ---- *)
Cycles(raw) == {raw[k].cyc : k \in 1..Len(raw)}
RowsOf(raw, c) == {k \in 1..Len(raw) : raw[k].cyc = c}
First(S) == MinS(S)
Last(S) == MaxS(S)
Steps(raw, c) == {raw[k].step : k \in RowsOf(raw, c)}
StepRows(raw, c, s) == {k \in RowsOf(raw, c) : raw[k].step = s}
(* contiguous runs of one step inside a cycle, numbered from 1 *)
RunStart(raw, c, k) == k \in RowsOf(raw, c) /\ (k = First(RowsOf(raw, c)) \/ raw[k - 1].step # raw[k].step)
RunNo(raw, c, k) == Cardinality({j \in RowsOf(raw, c) : j <= k /\ RunStart(raw, c, j)})
RunCount(raw, c) == Cardinality({j \in RowsOf(raw, c) : RunStart(raw, c, j)})
RunRows(raw, c, r) == {k \in RowsOf(raw, c) : RunNo(raw, c, k) = r}
(* position of a step among the distinct steps of its cycle, from 0 *)
StepOrder(raw, c, s) ==
   Cardinality({u \in Steps(raw, c) : First(StepRows(raw, c, u)) < First(StepRows(raw, c, s))})

(* ------------------------------------------------- charge/discharge --- *)
(* growth of a capacity inside the contiguous parts of a step *)
Growth(raw, S, f(_)) == SumS([k \in S |-> IF (k - 1) \in S THEN f(raw[k]) - f(raw[k - 1]) ELSE 0], S)
GC(raw, S) == Growth(raw, S, LAMBDA r : r.cc)
GD(raw, S) == Growth(raw, S, LAMBDA r : r.dc)
StepType(raw, S, default) ==
   IF GC(raw, S) > 0 /\ GD(raw, S) = 0 THEN "charge"
   ELSE IF GD(raw, S) > 0 /\ GC(raw, S) = 0 THEN "discharge"
   ELSE IF GD(raw, S) = 0 /\ GC(raw, S) = 0 THEN default
   ELSE "mixed"

(* ---------------------------------------------------- interpolation --- *)
(* y at x (scaled by R like every axis value) from the rows S: between    *)
(* the nearest measured neighbours on the axis, never extrapolated.       *)
(* Observed values are in hundredths.                                     *)
OnLine(y, x, x0, y0, x1, y1) ==
   IF x1 = x0 THEN Near(y, 100 * y0, 2) \/ Near(y, 100 * y1, 2)
   ELSE /\ Abs(y - 100 * y0) <= 100 * Abs(y1 - y0) + 2
        /\ Near((y - 100 * y0) * (x1 - x0), 100 * (y1 - y0) * (x - x0), 2 * (x1 - x0))
InterpOK(raw, S, X(_), Y(_), R, x, y) ==
   LET xs == {R * X(raw[k]) : k \in S}
       lo == {u \in xs : u <= x}
       hi == {u \in xs : u >= x}
       at(u) == {k \in S : R * X(raw[k]) = u}
   IN IF lo = {} THEN y = NIL \/ \E k \in at(MinS(xs)) : Near(y, 100 * Y(raw[k]), 2)
      ELSE IF hi = {} THEN y = NIL \/ \E k \in at(MaxS(xs)) : Near(y, 100 * Y(raw[k]), 2)
      ELSE \/ x = MinS(xs) /\ y = NIL
           \/ y # NIL /\ y # HUGE /\ \E a \in at(MaxS(lo)), b \in at(MinS(hi)) :
                OnLine(y, x, R * X(raw[a]), Y(raw[a]), R * X(raw[b]), Y(raw[b]))
ColNames == {"t", "v", "i", "cc", "dc", "ce", "de", "ir", "temp"}
GridPt(lo, hi, R, k) == R * lo + (k - 1) * (hi - lo)        \* scaled by R
(* clause for a sequence of points of one interpolated group *)
GroupClause(raw, S, axis, lo, hi, R, pts) ==
   IF Len(pts) # (IF lo = hi THEN 1 ELSE R + 1) THEN "number-of-points"
   ELSE IF \E k \in 1..Len(pts) : pts[k][axis] \in {NIL, HUGE} \/ ~Mul(pts[k][axis], R) \/ ~Near(R * pts[k][axis], 100 * GridPt(lo, hi, R, k), 2 * R) THEN "grid"
   ELSE IF \E k \in 1..Len(pts) : \E c \in ColNames \ {axis} :
             ~InterpOK(raw, S, LAMBDA r : r[axis], LAMBDA r : r[c], R, GridPt(lo, hi, R, k), pts[k][c])
        THEN LET k == CHOOSE k \in 1..Len(pts) : \E c \in ColNames \ {axis} :
                    ~InterpOK(raw, S, LAMBDA r : r[axis], LAMBDA r : r[c], R, GridPt(lo, hi, R, k), pts[k][c])
                 c == CHOOSE c \in ColNames \ {axis} :
                    ~InterpOK(raw, S, LAMBDA r : r[axis], LAMBDA r : r[c], R, GridPt(lo, hi, R, k), pts[k][c])
             IN "value-" \o c
   ELSE ""

(* ----------------------------------------------------------- summary -- *)
MaxOf(raw, S, f) == MaxS({raw[k][f] : k \in S})
MinOf(raw, S, f) == MinS({raw[k][f] : k \in S})
SumOf(raw, S, f) == SumS([k \in S |-> raw[k][f]], S)
Gaps(raw, S) == {raw[k].date - raw[k - 1].date : k \in S \ {First(S)}}
Paused(raw, S) == IF \E g \in Gaps(raw, S) : g > 3600 THEN MaxS(Gaps(raw, S)) ELSE 0
(* twice the time-temperature integral, in 0.1 C s *)
TempTime(raw, S) == SumS([k \in S |-> IF k = First(S) THEN 0
                          ELSE (raw[k].temp + raw[k - 1].temp) * (raw[k].date - raw[k - 1].date)], S)
(* seconds from the start of the cycle until 2*cc reaches thr2 (twice the threshold) *)
Duration(raw, S, thr2) ==
   LET hit == {k \in S : 2 * raw[k].cc >= thr2} IN
   IF hit = {} THEN NIL ELSE raw[First(hit)].date - raw[First(S)].date
(* constant-voltage segment of the rows Q taken in order *)
NextIn(Q, k) == MinS({j \in Q : j > k})
CVAt(raw, Q, k) == /\ k # Last(Q)
                   /\ LET n == NextIn(Q, k)  dt == raw[n].t - raw[k].t IN
                      /\ dt >= 1
                      /\ 100 * Abs(raw[n].v - raw[k].v) <= dt
                      /\ 10 * Abs(raw[n].i - raw[k].i) >= dt
HasCV(raw, Q) == Q # {} /\ \E k \in Q : CVAt(raw, Q, k)
CVStart(raw, Q) == LET k == MinS({k \in Q : CVAt(raw, Q, k)})
                       before == {j \in Q : j < k}
                   IN IF before = {} THEN k ELSE MaxS(before)
ChargeRows(raw, S) == {k \in S : raw[k].i > 0}
(* was the cycle finished when the run ended?  TRUE, FALSE, or unclear *)
Complete(raw, S) == /\ MinOf(raw, S, "v") < 3300
                    /\ MaxOf(raw, S, "v") > 3300
                    /\ 100 * MaxOf(raw, S, "dc") > 97 * MaxOf(raw, S, "cc")
Borderline(raw, S) == 100 * MaxOf(raw, S, "dc") = 97 * MaxOf(raw, S, "cc")
ErrE == 1000000000       \* 1e6 Wh in mWh
Bad(x) == x > ErrE
==========================================================================
