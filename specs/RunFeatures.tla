------------------------------ MODULE RunFeatures ---------------------------
(* C25: features of a structured run are the statistics of the cycles,      *)
(* steps and quantities they name.  Quantities are integers (NA: missing),  *)
(* rational results are given as decimals, scaled by K.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
NA == -1000000
K == 10000
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Digits(_, _, _)
Digits(r, q, k) == IF k = 0 THEN 0
                   ELSE ((r * 10) \div q) * (IF k = 4 THEN 1000 ELSE IF k = 3 THEN 100 ELSE IF k = 2 THEN 10 ELSE 1) + Digits((r * 10) % q, q, k - 1)
(* p/q to four decimals *)
Dec(p, q) == (p \div q) * K + Digits(p % q, q, 4)
SDec(p, q) == IF p < 0 THEN -Dec(-p, q) ELSE Dec(p, q)
Pow(x, k) == IF k = 1 THEN x ELSE IF k = 2 THEN x * x ELSE IF k = 3 THEN x * x * x ELSE x * x * x * x
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
PowSum(s, k) == FoldLeft(LAMBDA a, x : a + Pow(x, k), 0, s)
Present(s) == SelectSeq(s, LAMBDA x : x # NA)
MaxOf(s) == FoldLeft(LAMBDA a, x : IF x > a THEN x ELSE a, s[1], s)
MinOf(s) == FoldLeft(LAMBDA a, x : IF x < a THEN x ELSE a, s[1], s)
Unknown == "any"
(* n^k times the k-th central moment *)
M2(s) == Len(s) * PowSum(s, 2) - Sum(s) * Sum(s)
M3(s) == LET n == Len(s) S1 == Sum(s) IN n * n * PowSum(s, 3) - 3 * n * S1 * PowSum(s, 2) + 2 * S1 * S1 * S1
M4(s) == LET n == Len(s) S1 == Sum(s) IN n * n * n * PowSum(s, 4) - 4 * n * n * S1 * PowSum(s, 3) + 6 * n * S1 * S1 * PowSum(s, 2) - 3 * Pow(S1, 4)
(* the absolute value of a statistic of s (skew: its square); Unknown where it is not defined *)
Stat(name, s) ==
  LET n == Len(s) IN
  CASE name = "var" -> <<Dec(M2(s), n * n)>>
    [] name = "min" -> <<Abs(MinOf(s)) * K>>
    [] name = "mean" -> <<Dec(Abs(Sum(s)), n)>>
    [] name = "skew" -> IF M2(s) = 0 THEN <<>> ELSE <<Dec(M3(s) * M3(s), Pow(M2(s), 3))>>
    [] name = "kurtosis" -> IF M2(s) = 0 \/ n < 4 THEN <<>>          \* unbiased, 3 for a normal distribution
                            ELSE LET p == (n - 1) * ((n + 1) * M4(s) - 3 * (n - 1) * M2(s) * M2(s)) + 3 * (n - 2) * (n - 3) * M2(s) * M2(s)
                                 IN <<Dec(Abs(p), (n - 2) * (n - 3) * M2(s) * M2(s))>>
    [] name = "excess" -> IF M2(s) = 0 THEN <<>> ELSE <<Dec(Abs(M4(s) - 3 * M2(s) * M2(s)), M2(s) * M2(s))>>
    [] name = "abs" -> <<Sum([i \in 1..n |-> Abs(s[i])]) * K>>
    [] name = "square" -> <<PowSum(s, 2) * K>>
Diff(a, b) == [i \in 1..Len(a) |-> IF a[i] = NA \/ b[i] = NA THEN NA ELSE a[i] - b[i]]
Where(n, P(_)) == SetToSortSeq({i \in 1..n : P(i)}, <)
Pick(col, ix) == [i \in 1..Len(ix) |-> col[ix[i]]]
----------------------------------------------------------------------------
(* Differences of two regular cycles; d: columns of the interpolated data.  *)
StepCol(d, cyc, st, col) == Pick(d[col], Where(Len(d.cyc), LAMBDA i : d.cyc[i] = cyc /\ d.st[i] \in {st, ""}))
Quantities == << <<"charging_capacity", "charge", "cc">>, <<"discharging_capacity", "discharge", "dc">>,
                 <<"charging_energy", "charge", "ce">>, <<"discharging_energy", "discharge", "de">> >>
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Named(label, stats, s) == [i \in 1..Len(stats) |-> <<stats[i] \o "_" \o label, Stat(stats[i], s)>>]
CycleStats(d, h) == Flat([k \in 1..4 |-> LET q == Quantities[k] IN
                       Named(q[1], h.stats, Present(Diff(StepCol(d, h.comp[2], q[2], q[3]), StepCol(d, h.comp[1], q[2], q[3]))))])
CycleStatsValid(d, h) == \A k \in {1, 2} : \E i \in 1..Len(d.cyc) : d.cyc[i] = h.comp[k]
----------------------------------------------------------------------------
(* Differences of two diagnostic cycles of one type; g: interpolated        *)
(* diagnostic data, u: their summaries.                                     *)
Late(g, h, i) == g.t[i] # NA /\ g.t[i] > h.late /\ g.cyc[i] < h.early
Timed(g, h, i) == \E j \in 1..Len(g.cyc) : ~Late(g, h, j) /\ g.cyc[j] = g.cyc[i] /\ g.step[j] = g.step[i] /\ g.ctr[j] = g.ctr[i] /\ g.t[j] # NA
Kept(g, h) == Where(Len(g.cyc), LAMBDA i : ~Late(g, h, i) /\ Timed(g, h, i))
Firsts(s) == FoldLeft(LAMBDA a, x : IF \E i \in 1..Len(a) : a[i] = x THEN a ELSE Append(a, x), <<>>, s)
CyclesOf(g, ix, ty) == Firsts(Pick(g.cyc, SelectSeq(ix, LAMBDA i : g.ty[i] = ty)))
(* twice the median of the present values *)
Median2(s) == LET z == SortSeq(Present(s), <) n == Len(z) IN IF n % 2 = 1 THEN 2 * z[(n + 1) \div 2] ELSE z[n \div 2] + z[n \div 2 + 1]
StepOf(g, ix, ty, cyc, sign) ==
  LET rows == SelectSeq(ix, LAMBDA i : g.ty[i] = ty /\ g.cyc[i] = cyc)
      steps == Firsts(Pick(g.step, rows))
      S(k) == LET m == Median2(Pick(g.cur, SelectSeq(rows, LAMBDA i : g.step[i] = steps[k]))) IN IF m > 0 THEN 1 ELSE IF m < 0 THEN -1 ELSE 0
  IN CHOOSE s \in {steps[k] : k \in 1..Len(steps)} : \E k \in 1..Len(steps) : steps[k] = s /\ S(k) = sign
DQuantities == << <<"charging_capacity", 1, "cc">>, <<"discharging_capacity", -1, "dc">>, <<"charging_energy", 1, "ce">>,
                  <<"discharging_energy", -1, "de">>, <<"charging_dQdV", 1, "cq">>, <<"discharging_dQdV", -1, "dq">> >>
DiagCol(g, ix, ty, cyc, sign, col) ==
  LET st == StepOf(g, ix, ty, cyc, sign) IN Pick(g[col], SelectSeq(ix, LAMBDA i : g.cyc[i] = cyc /\ g.step[i] = st))
Types == <<"rpt_0.2C", "rpt_1C", "rpt_2C">>
Metrics == << <<"discharge_capacity", "dcap">>, <<"discharge_energy", "den">>, <<"charge_capacity", "ccap">>, <<"charge_energy", "cen">> >>
SumAt(u, ty, col, pos) == LET ix == Where(Len(u.cyc), LAMBDA i : u.ty[i] = ty) IN u[col][ix[pos + 1]]
SummaryDiffs(u, h) ==
  Flat([k \in 1..3 |-> [m \in 1..4 |->
     LET a == SumAt(u, Types[k], Metrics[m][2], h.pos[1]) b == SumAt(u, Types[k], Metrics[m][2], h.pos[2])
     IN <<"diag_sum_diff_" \o ToString(h.pos[1]) \o "_" \o ToString(h.pos[2]) \o "_" \o Types[k] \o Metrics[m][1], <<SDec(b - a, a)>>>>]])
DiagStats(g, u, h) ==
  LET ix == Kept(g, h)
      cs == CyclesOf(g, ix, h.ty)
      c0 == cs[h.pos[1] + 1]
      c1 == cs[h.pos[2] + 1]
  IN Flat([k \in 1..6 |-> LET q == DQuantities[k] IN
        Named(q[1], h.stats, Present(Diff(DiagCol(g, ix, h.ty, c1, q[2], q[3]), DiagCol(g, ix, h.ty, c0, q[2], q[3]))))]) \o SummaryDiffs(u, h)
Max2(a, b) == IF a > b THEN a ELSE b
DiagStatsValid(u, h) == Cardinality({u.cyc[i] : i \in {j \in 1..Len(u.cyc) : u.ty[j] = h.ty}}) > Max2(h.pos[1], h.pos[2])
----------------------------------------------------------------------------
(* Features of the early cycles; s: summaries (row k+1: cycle k).           *)
Mean(z) == IF Len(z) = 0 THEN <<>> ELSE <<SDec(Sum(z), Len(z))>>
Slope(z, from) ==                                  \* of z[from..] against the cycle number
  LET n == Len(z) X == [i \in 1..n |-> from + i - 1] Sxy == Sum([i \in 1..n |-> X[i] * z[i]])
      q == n * PowSum(X, 2) - Sum(X) * Sum(X)
  IN [slope |-> <<SDec(n * Sxy - Sum(X) * Sum(z), q)>>, inter |-> <<SDec(Sum(z) * PowSum(X, 2) - Sum(X) * Sxy, q)>>]
NoneLost(z) == \A i \in 1..Len(z) : z[i] # NA
DeltaQ(d, s, h) ==
  LET f == h.final
      last == f                                     \* row of the final cycle
      dq == Diff(StepCol(d, f - 1, "discharge", "dc"), StepCol(d, h.init - 1, "discharge", "dc"))
      pr == Present(dq)
      cap(i, j) == SubSeq(s.dcap, i, j)
      ir == SelectSeq(SubSeq(s.ir, 2, last), LAMBDA x : x # NA /\ x # 0)
      A == Slope(cap(2, last), 1)
      B == Slope(cap(h.mid, last), h.mid - 1)
      mm == Median2(SubSeq(s.dcap, 1, IF h.nom < Len(s.dcap) THEN h.nom ELSE Len(s.dcap)))
      full(name) == IF Len(dq) = 0 THEN <<NA>> ELSE IF Len(pr) = Len(dq) /\ Len(dq) > 0 THEN Stat(name, dq) ELSE <<>>
      some(name) == IF Len(dq) = 0 THEN <<NA>> ELSE IF Len(pr) > 0 THEN Stat(name, pr) ELSE <<>>
  IN << <<"discharge_capacity_cycle_2", <<s.dcap[2] * K>>>>,
        <<"max_discharge_capacity_difference", <<(MaxOf(cap(1, last)) - s.dcap[2]) * K>>>>,
        <<"discharge_capacity_cycle_100", <<s.dcap[last] * K>>>>,
        <<"integrated_time_temperature_cycles_1:100", <<Sum(Present(SubSeq(s.tti, 1, last))) * K>>>>,
        <<"charge_time_cycles_1:5", Mean(Present(SubSeq(s.dur, 2, 6)))>>,
        <<"abs_min_discharge_capacity_difference_cycles_2:100", some("min")>>,
        <<"abs_mean_discharge_capacity_difference_cycles_2:100", some("mean")>>,
        <<"abs_variance_discharge_capacity_difference_cycles_2:100", some("var")>>,
        <<"abs_skew_discharge_capacity_difference_cycles_2:100", full("skew")>>,
        <<"abs_kurtosis_discharge_capacity_difference_cycles_2:100", full("excess")>>,
        <<"abs_first_discharge_capacity_difference_cycles_2:100", IF Len(dq) = 0 \/ dq[1] = NA THEN <<NA>> ELSE <<Abs(dq[1]) * K>>>>,
        <<"max_temperature_cycles_1:100", <<MaxOf(Present(SubSeq(s.tmax, 2, last))) * K>>>>,
        <<"min_temperature_cycles_1:100", <<MinOf(Present(SubSeq(s.tmin, 2, last))) * K>>>>,
        <<"slope_discharge_capacity_cycle_number_2:100", A.slope>>,
        <<"intercept_discharge_capacity_cycle_number_2:100", A.inter>>,
        <<"slope_discharge_capacity_cycle_number_91:100", B.slope>>,
        <<"intercept_discharge_capacity_cycle_number_91:100", B.inter>>,
        <<"min_internal_resistance_cycles_2:100", IF Len(ir) = 0 THEN <<>> ELSE <<MinOf(ir) * K>>>>,
        <<"internal_resistance_cycle_2", <<s.ir[2] * K>>>>,
        <<"internal_resistance_difference_cycles_2:100", <<(s.ir[last] - s.ir[2]) * K>>>>,
        <<"nominal_capacity_by_median", <<SDec(mm, 2)>>>> >>
DeltaQValid(s, h) == Len(s.dcap) - 1 > h.final /\ h.mid > 10 /\ h.final > h.mid
----------------------------------------------------------------------------
(* The interpolated diagnostic data as they are.                            *)
FFill(z) == [i \in 1..Len(z) |-> LET P == {j \in 1..i : z[j] # NA} IN IF P = {} THEN NA ELSE z[Max(P)]]
BFill(z) == [i \in 1..Len(z) |-> LET P == {j \in i..Len(z) : z[j] # NA} IN IF P = {} THEN NA ELSE z[Min(P)]]
Zero(z) == [i \in 1..Len(z) |-> IF z[i] = NA THEN 0 ELSE z[i]]
Min2(a, b) == IF a < b THEN a ELSE b
Combine(c, d) == LET m == IF Len(Present(c)) = 0 THEN NA ELSE MaxOf(Present(c)) IN
                 [i \in 1..Len(c) |-> IF c[i] = NA \/ d[i] = NA \/ m = NA THEN NA ELSE Min2(c[i], m - d[i])]
Plus(a, b) == [i \in 1..Len(a) |-> IF a[i] = NA \/ b[i] = NA THEN NA ELSE a[i] + b[i]]
Since(z) == LET m == IF Len(Present(z)) = 0 THEN NA ELSE MinOf(Present(z)) IN [i \in 1..Len(z) |-> IF z[i] = NA THEN NA ELSE z[i] - m]
RawChannel(g, ty, metric, k, pos, impute) ==
  LET all == Where(Len(g.cyc), LAMBDA i : g.ty[i] = ty)
      cyc == Firsts(Pick(g.cyc, all))[pos + 1]
      rows == SelectSeq(all, LAMBDA i : g.cyc[i] = cyc)
      st == Firsts(Pick(g.step, rows))[k]
      ix == SelectSeq(rows, LAMBDA i : g.step[i] = st)
      z == CASE metric = "capacity" -> Combine(Pick(g.cc, ix), Pick(g.dc, ix))
             [] metric = "energy" -> Combine(Pick(g.ce, ix), Pick(g.de, ix))
             [] metric = "test_time" -> Since(Pick(g.t, ix))
             [] metric = "dQdV" -> Plus(Pick(g.cq, ix), Pick(g.dq, ix))
             [] metric = "current" -> Pick(g.cur, ix)
  IN IF ~impute \/ metric = "current" THEN z
     ELSE IF metric \in {"capacity", "energy"} THEN BFill(FFill(z)) ELSE Zero(z)
TwoSteps(g, ty) == LET all == Where(Len(g.cyc), LAMBDA i : g.ty[i] = ty)
                       c == g.cyc[all[1]]
                   IN Cardinality({g.step[i] : i \in {j \in 1..Len(g.cyc) : g.ty[j] = ty /\ g.cyc[j] = c}}) = 2
RawData(g, h) ==
  LET tys == SelectSeq(h.tys, LAMBDA ty : TwoSteps(g, ty)) IN
  Flat([a \in 1..Len(tys) |-> Flat([m \in 1..Len(h.metrics) |-> Flat([k \in 1..2 |-> [p \in 1..Len(h.pos) |->
     <<"diag_cycle_" \o ToString(h.pos[p]) \o "_" \o tys[a] \o "_" \o h.metrics[m] \o "_step_" \o ToString(k - 1),
       RawChannel(g, tys[a], h.metrics[m], k, h.pos[p], h.impute)>>]])])])
=============================================================================
