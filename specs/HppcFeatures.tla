----------------------------- MODULE HppcFeatures ----------------------------
(* C27: what a pulse test (HPPC) says of a cell.  A diagnostic cycle is a   *)
(* sequence of visits of steps, a visit is [step, t, v, i, q]: its points   *)
(* (columns; NA: missing).  Voltages, currents and capacities in 1/64,      *)
(* times in seconds.                                                        *)
EXTENDS RunFeatures
----------------------------------------------------------------------------
(* Visits recorded late under an early cycle number belong to the test at   *)
(* the end of life; visits without any time were not measured.              *)
Measured(c, h) == SelectSeq(c.visits, LAMBDA a : LET p == Present(a.t) IN Len(p) > 0 /\ ~(c.cyc < h.early /\ MinOf(p) > h.late))
Points(a) == SelectSeq([k \in 1..Len(a.i) |-> k], LAMBDA k : a.i[k] # NA)
Known2(a) == LET ix == TLCEval(Points(a)) IN TLCEval([step |-> a.step, t |-> Pick(a.t, ix), v |-> Pick(a.v, ix), i |-> Pick(a.i, ix), q |-> Pick(a.q, ix)])
(* points in the order of time *)
InTime(a) == LET ix == TLCEval(SortSeq([k \in 1..Len(a.t) |-> k], LAMBDA x, y : a.t[x] < a.t[y])) IN
             TLCEval([step |-> a.step, t |-> Pick(a.t, ix), v |-> Pick(a.v, ix), i |-> Pick(a.i, ix), q |-> Pick(a.q, ix)])
Duration(a) == MaxOf(Present(a.t)) - MinOf(Present(a.t))
----------------------------------------------------------------------------
(* What a step is for: by its current (in terms of the nominal capacity),   *)
(* how long it lasts, whether it recurs and whether it is the last.         *)
Of(vs, s) == SelectSeq(vs, LAMBDA a : a.step = s)
StepsOf(vs) == {vs[k].step : k \in 1..Len(vs)}
Role(vs, s, nominal) ==
  LET own == TLCEval(Of(vs, s))
      m2 == Median2(Flat([k \in 1..Len(own) |-> own[k].i]))          \* twice the median current
      d2 == Median2([k \in 1..Len(own) |-> Duration(own[k])])        \* twice the median duration
      last == MaxOf(Flat([k \in 1..Len(own) |-> Present(own[k].t)])) = MaxOf(Flat([k \in 1..Len(vs) |-> Present(vs[k].t)]))
  IN IF 100 * Abs(m2) < nominal THEN (IF d2 > 1200 THEN "hppc_long_rest" ELSE "hppc_short_rest")
     ELSE IF m2 <= -nominal /\ d2 < 240 THEN "hppc_discharge_pulse"
     ELSE IF m2 >= nominal /\ d2 < 240 THEN "hppc_charge_pulse"
     ELSE IF m2 < 0 /\ last /\ Len(own) = 1 THEN "hppc_final_discharge"
     ELSE IF m2 < 0 THEN "hppc_discharge_to_next_soc" ELSE "hppc_charge_to_soc"
Roles(vs, nominal) == TLCEval([s \in StepsOf(vs) |-> Role(vs, s, nominal)])
In(vs, ro, role) == SelectSeq(vs, LAMBDA a : ro[a.step] = role)
Side(vs, s, ty) == LET own == Of(vs, s) m2 == Median2(Flat([k \in 1..Len(own) |-> own[k].i])) IN ty \o (IF m2 > 0 THEN "_charge" ELSE "_discharge")
----------------------------------------------------------------------------
(* Resistance in window w (from 1) as <<change of voltage, five times the   *)
(* change of current>>: from the end of the rest before to the pulse at     *)
(* once, after three seconds at most, or at its end.  <<>>: no such pulse.  *)
Ordered(vs) == TLCEval([k \in 1..Len(vs) |-> InTime(Known2(vs[k]))])
Pulses(vs, ro, dir) == LET z == Ordered(In(vs, ro, IF dir = "d" THEN "hppc_discharge_pulse" ELSE "hppc_charge_pulse"))
                           y == Ordered(In(vs, ro, IF dir = "d" THEN "hppc_long_rest" ELSE "hppc_short_rest"))
                       IN TLCEval([k \in 1..(IF Len(z) < Len(y) THEN Len(z) ELSE Len(y)) |-> [rest |-> y[k], pulse |-> z[k]]])
Resist(ps, when, w) ==
  IF w > Len(ps) THEN <<>>
  ELSE LET a == ps[w].rest
           p == ps[w].pulse
           n == Len(a.t)
           at == CASE when = "end" -> Len(p.t) [] when = "0s" -> 1 [] when = "3s" -> Max({k \in 1..Len(p.t) : p.t[k] - p.t[1] <= 3})
       IN <<p.v[at] - a.v[n], 5 * p.i[at] - Sum(SubSeq(a.i, n - 4, n))>>
(* relative change of the resistance from r0 to r1 *)
Change(r1, r0) == IF r1 = <<>> \/ r0 = <<>> THEN NA
                  ELSE IF r0[1] = 0 \/ r1[2] = 0 THEN NA
                  ELSE LET p == r1[1] * r0[2] q == r1[2] * r0[1] IN (IF q < 0 THEN SDec(-p, -q) ELSE SDec(p, q)) - K
Resistances(v0, o0, v1, o1) ==
  Flat([d \in 1..2 |-> LET dir == <<"c", "d">>[d] p0 == Pulses(v0, o0, dir) p1 == Pulses(v1, o1, dir) IN
     Flat([s \in 1..3 |-> [w \in 1..9 |-> LET when == <<"0s", "3s", "end">>[s] IN
        <<"r_" \o dir \o "_" \o when \o "_" \o ToString(w - 1) \o "0", Change(Resist(p1, when, w), Resist(p0, when, w))>>]])])
----------------------------------------------------------------------------
(* Statistics, signed; skew by its sign and square.  <<>>: not said.        *)
Signed(name, s) ==
  IF Len(s) = 0 THEN <<>> ELSE
  CASE name = "var" -> Stat("var", s)
    [] name = "min" -> <<MinOf(s) * K>>
    [] name = "mean" -> <<SDec(Sum(s), Len(s))>>
    [] name = "skew" -> IF M2(s) > 500 \/ M2(s) = 0 THEN <<>> ELSE <<(IF M3(s) < 0 THEN -1 ELSE 1) * Stat("skew", s)[1]>>
    [] name = "kurtosis" -> IF M2(s) > 1500 THEN <<>> ELSE IF M2(s) = 0 \/ Len(s) < 4 THEN <<>> ELSE
                             LET n == Len(s) IN <<(IF (n - 1) * ((n + 1) * M4(s) - 3 * (n - 1) * M2(s) * M2(s)) + 3 * (n - 2) * (n - 3) * M2(s) * M2(s) < 0 THEN -1 ELSE 1) * Stat("kurtosis", s)[1]>>
    [] name = "sum" -> Stat("abs", s)
    [] name = "sum_square" -> Stat("square", s)
StatNames == <<"var", "min", "mean", "skew", "kurtosis", "sum", "sum_square">>
Stats(label, s) == [k \in 1..7 |-> <<StatNames[k] \o "_" \o label, Signed(StatNames[k], s)>>]
Least(a, b) == IF a < b THEN a ELSE b
(* of the relaxed voltages, window by window: first cycle less this one *)
Ocv(v0, o0, v1, o1) ==
  LET a == In(v0, o0, "hppc_long_rest") b == In(v1, o1, "hppc_long_rest")
      end(x) == LET z == Known2(x).v IN z[Len(z)]
  IN [w \in 1..Least(9, Least(Len(a), Len(b))) |-> end(a[w]) - end(b[w])]
(* of the voltages while discharging to the next state of charge, at the    *)
(* capacities of this cycle that lie inside those of the first              *)
Along(v0, o0, v1, o1, w) ==
  LET a == In(v0, o0, "hppc_discharge_to_next_soc") b == In(v1, o1, "hppc_discharge_to_next_soc") IN
  IF w + 1 > Len(a) \/ w + 1 > Len(b) THEN <<>>
  ELSE LET x == a[w + 1] y == b[w + 1]
           qs == Present(x.q)
           ix == Where(Len(y.q), LAMBDA k : y.q[k] # NA /\ y.q[k] > MinOf(qs) /\ y.q[k] < MaxOf(qs))
       IN [k \in 1..Len(ix) |-> x.v[CHOOSE j \in 1..Len(x.q) : x.q[j] = y.q[ix[k]]] - y.v[ix[k]]]
(* the slopes of the relaxation after the discharge pulses; c.slope[w]: of  *)
(* the last third of the points of the rest in window w                     *)
Slopes(c, vs, ro) == LET n == Least(9, Least(Len(In(vs, ro, "hppc_discharge_pulse")), Len(In(vs, ro, "hppc_short_rest")))) IN SubSeq(c.slope, 1, n)
Diffusion(s0, s1) == [k \in 1..8 |-> <<"D_" \o ToString(k), IF k + 1 > Len(s0) \/ k + 1 > Len(s1) THEN NA ELSE IF s0[k + 1] < 0 THEN SDec(s0[k + 1] - s1[k + 1], -s0[k + 1]) ELSE SDec(s1[k + 1] - s0[k + 1], s0[k + 1])>>]
=============================================================================
