------------------------------ MODULE LifeTarget -----------------------------
(* C26: how far a cell has degraded at each diagnostic, when it crosses a   *)
(* threshold, whether it is to be left out, and the parameters it was       *)
(* cycled with.  Quantities are integers (NA: missing); rational results    *)
(* are decimals scaled by K.                                                *)
EXTENDS RunFeatures
----------------------------------------------------------------------------
(* r: regular summary [cyc, dcap, den, cth], u: diagnostic summary [cyc,    *)
(* ty, dcap, den, ccap, cen, at].                                           *)
Norm(metric) == IF metric \in {"discharge_energy", "charge_energy"} THEN "den" ELSE "dcap"
ColOf(metric) == CASE metric = "discharge_energy" -> "den" [] metric = "discharge_capacity" -> "dcap"
                   [] metric = "charge_energy" -> "cen" [] metric = "charge_capacity" -> "ccap"
Vals(s) == {s[i] : i \in 1..Len(s)}
Regular(r, u) == Where(Len(r.cyc), LAMBDA i : r.cyc[i] # 0 /\ r.cyc[i] \notin Vals(u.cyc))
RegCycles(r, u) == Pick(r.cyc, Regular(r, u))
(* the last of the regular cycles before the second diagnostics *)
LastInitial(r, u) == LET c == RegCycles(r, u) IN c[Min({i \in 1..Len(c) - 1 : c[i + 1] - c[i] > 1})]
Before(r, u, cyc, col) == Sum(Present(Pick(r[col], SelectSeq(Regular(r, u), LAMBDA i : r.cyc[i] < cyc))))
DiagBefore(u, cyc, col) == Sum(Present(Pick(u[col], Where(Len(u.cyc), LAMBDA i : u.cyc[i] < cyc))))
Initial(r, u, metric) == Before(r, u, LastInitial(r, u) + 1, Norm(metric))
(* two sets of diagnostics with something in between *)
Again(r, u) == LET c == RegCycles(r, u) IN
  IF \E i \in 1..Len(c) - 1 : c[i + 1] - c[i] > 1 THEN Initial(r, u, "discharge_energy") > 0 /\ Initial(r, u, "discharge_capacity") > 0 ELSE FALSE
OfType(r, u, ty) == Where(Len(u.cyc), LAMBDA i : u.ty[i] = ty /\ u.cyc[i] <= Max(Vals(RegCycles(r, u))))
(* one entry for each diagnostic cycle of the type: cycle, quantity, regular and diagnostic throughput before it, time *)
Course(r, u, metric, ty) ==
  LET ix == OfType(r, u, ty) IN
  [k \in 1..Len(ix) |-> LET i == ix[k] IN [cyc |-> u.cyc[i], q |-> u[ColOf(metric)][i], n |-> Before(r, u, u.cyc[i], Norm(metric)),
                                           m |-> DiagBefore(u, u.cyc[i], Norm(metric)), at |-> u.at[i]]]
Ratio(a, b) == IF a = NA THEN NA ELSE SDec(a, b)
First(u, metric) == u[ColOf(metric)][1]
After100(u, metric, ty) == LET ix == Where(Len(u.cyc), LAMBDA i : u.ty[i] = ty /\ u.cyc[i] > 100) IN
  [k \in 1..Len(ix) |-> <<u.cyc[ix[k]], Ratio(u[ColOf(metric)][ix[k]], First(u, metric))>>]
----------------------------------------------------------------------------
(* Crossing of pct/100 by the line through the points (x[i], y[i]/y0).      *)
Side(y, y0, pct) == LET d == 100 * y - pct * y0 IN IF d > 0 THEN 1 ELSE IF d < 0 THEN -1 ELSE 0
Crosses(y, y0, pct, i) == Side(y[i], y0, pct) * Side(y[i + 1], y0, pct) <= 0
(* where the line through points i and i+1 is at the threshold *)
Meets(x, y, y0, pct, i) ==
  IF y[i] = y[i + 1] THEN x[i] * K
  ELSE LET s == IF y[i + 1] > y[i] THEN 1 ELSE -1 IN x[i] * K + SDec(s * (pct * y0 - 100 * y[i]) * (x[i + 1] - x[i]), 100 * s * (y[i + 1] - y[i]))
Crossings(x, y, y0, pct) == {Meets(x, y, y0, pct, i) : i \in {j \in 1..Len(x) - 1 : Crosses(y, y0, pct, j)}}
NotReached(y, y0, pct) == \A i \in 1..Len(y) : Side(y[i], y0, pct) = 1
Below(y, y0, pct) == \A i \in 1..Len(y) : Side(y[i], y0, pct) = -1
Falling(y) == y[Len(y)] < y[Len(y) - 1]
(* of the line through the last two points; NA: too far away to say *)
Beyond(x, y, y0, pct) ==
  LET n == Len(x) far == ((100 * y[n] - (pct - 10) * y0) * (x[n] - x[n - 1])) \div (100 * (y[n - 1] - y[n])) IN
  IF far > 20000 THEN NA ELSE Meets(x, y, y0, pct, n - 1)
(* v lies within one thousandth of the way of w *)
Step(x, y, y0, pct, ext) ==
  LET n == Len(x) last == IF ext THEN Meets(x, y, y0, pct - 10, n - 1) \div K + 1 ELSE x[n] IN Dec(last - x[1], 999) + 3
Touches(x, y, y0, pct, v, h) == \E i \in 1..Len(x) : Abs(100 * y[i] - pct * y0) <= 60 /\ Abs(v - x[i] * K) <= h
----------------------------------------------------------------------------
(* Cycles from the first on whose second difference of the fraction is      *)
(* below a negative cutoff kink/1000 are left out.                          *)
Kink(y, y0, kink) == IF kink = 0 THEN {} ELSE {i \in 3..Len(y) : 1000 * (y[i] - 2 * y[i - 1] + y[i - 2]) < kink * y0}
Kept3(c, y0, kink) == LET b == Kink([i \in 1..Len(c) |-> c[i].q], y0, kink) IN IF b = {} THEN c ELSE SubSeq(c, 1, Min(b) - 1)
Known(c) == SelectSeq(c, LAMBDA e : e.q # NA)
Axis(c, ax) == [i \in 1..Len(c) |-> CASE ax = "cycle_index" -> c[i].cyc [] ax = "normalized_regular_throughput" -> c[i].n [] ax = "normalized_diagnostic_throughput" -> c[i].m]
(* verdict on a set of values v (raw units of each axis, times K), err: refused *)
Increasing(x) == \A i \in 1..Len(x) - 1 : x[i] < x[i + 1]
AxisOk(c, y, y0, h, k, v) ==
  LET x == Axis(c, h.axes[k])
      ext == NotReached(y, y0, h.pct)
      far == IF ext THEN Beyond(x, y, y0, h.pct) ELSE 0
      st == IF far = NA THEN 0 ELSE Step(x, y, y0, h.pct, ext)
      goals == IF ext THEN {far} ELSE Crossings(x, y, y0, h.pct)
  IN far = NA \/ (\E g \in goals : Abs(v[k] - g) <= st) \/ Touches(x, y, y0, h.pct, v[k], st)
TargetClause(r, u, h, o) ==
  LET c == Kept3(Known(Course(r, u, h.metric, h.ty)), First(u, h.metric), h.kink)
      y == [i \in 1..Len(c) |-> c[i].q]
      y0 == First(u, h.metric)
  IN IF ~Again(r, u) THEN ""                          \* only one set of diagnostics: no throughput to compare with
     ELSE IF Len(c) < 2 THEN (IF Len(c) = 0 /\ o.err = "" THEN "target-without-any-cycle" ELSE "")
     ELSE IF NotReached(y, y0, h.pct) /\ ~h.ext THEN (IF o.err = "BEEPFeaturizationError" THEN "" ELSE "threshold-not-crossed-but-target-given")
     ELSE IF NotReached(y, y0, h.pct) /\ ~Falling(y) THEN ""
     ELSE IF Below(y, y0, h.pct) THEN ""
     ELSE IF \E k \in 1..Len(h.axes) : ~Increasing(Axis(c, h.axes[k])) THEN ""
     ELSE IF o.err # "" THEN (IF Side(y[1], y0, h.pct) <= 0 THEN "" ELSE "target-fails")   \* at the start: not a positive distance
     ELSE IF o.init # Initial(r, u, h.metric) * K THEN "initial-throughput"
     ELSE IF \E k \in 1..Len(h.axes) : ~AxisOk(c, y, y0, h, k, o.v) THEN "target-misplaced"
     ELSE IF "normalized_regular_throughput" \in Vals(h.axes) /\ o.real = NA THEN "real-throughput-missing"
     ELSE IF "normalized_regular_throughput" \in Vals(h.axes) /\
             Abs(o.real - o.v[Min({k \in 1..Len(h.axes) : h.axes[k] = "normalized_regular_throughput"})]) > 2 THEN "real-throughput"
     ELSE ""
----------------------------------------------------------------------------
(* Exclusion.  d: [cyc, ch, t, v, i] points of the regular cycles (t = NA:  *)
(* not measured), p: parameters of the run.                                 *)
Onset(t, v, i) == LET n == Len(t) ks == {k \in 1..n - 1 : t[k + 1] > t[k] /\ v[k + 1] = v[k] /\ i[k + 1] # i[k]} IN
                  IF ks = {} THEN Max({n - 1, 1}) ELSE Min(ks)
(* early with the point before the onset / with the onset: both must agree for a verdict *)
Early(d, cyc, pct, back) ==
  LET all == Where(Len(d.cyc), LAMBDA k : d.cyc[k] = cyc /\ d.t[k] # NA)
      ch == SelectSeq(all, LAMBDA k : d.ch[k])
      T == Pick(d.t, ch)
      o == Onset(T, Pick(d.v, ch), Pick(d.i, ch))
      k == Max({o - back, 1})
      t0 == MinOf(Pick(d.t, all)) t1 == MaxOf(Pick(d.t, all))
  IN 100 * (T[k] - t0) < pct * (t1 - t0)

Exclusion(r, u, d, p, h) ==
  LET c == Course(r, u, h.q, h.ty)
      y0 == First(u, h.q)
      filled == FFill([i \in 1..Len(c) |-> c[i].q])
      n == Len(c)
      lastq == IF filled[n] > y0 /\ n > 1 THEN filled[n - 1] ELSE filled[n]
      below == 100 * lastq < h.pct * y0
      firsts == {i \in 1..n : c[i].q # NA /\ 100 * c[i].q < h.pct * y0}
      cut == IF below THEN c[Min(firsts)].cyc ELSE c[n].cyc
      upto == Where(Len(r.cyc), LAMBDA i : r.cyc[i] <= cut)
      full == FFill(r.cth)[upto[Len(upto)]]
      cycles == {r.cyc[i] : i \in Vals(upto)}
      early(back) == p.cc1 > p.cc2 /\ \E k \in cycles : Early(d, k, h.cv, back)
      thr == IF r.cth[h.n + 1] = NA THEN 0 ELSE r.cth[h.n + 1]
  IN [first |-> thr, above |-> thr > h.cutn, frac |-> SDec(lastq, y0), below |-> below, efc |-> SDec(full, p.nominal), full |-> full > h.efc * p.nominal,
      early |-> {early(0), early(1)}, ok |-> lastq # NA]
ExclusionClause(r, u, d, p, h, o) ==
  IF ~Again(r, u) THEN "" ELSE LET w == Exclusion(r, u, d, p, h) IN
  IF ~w.ok THEN ""
  ELSE IF o.err # "" THEN "exclusion-fails"
  ELSE IF o.first # w.first * K \/ o.above # w.above THEN "first-cycles-throughput"
  ELSE IF Abs(o.frac - w.frac) > 2 \/ o.below # w.below THEN "end-of-test-capacity"
  ELSE IF Abs(o.efc - w.efc) > 2 \/ o.full # w.full THEN "equivalent-full-cycles"
  ELSE IF \A e \in w.early : o.late # ~e THEN "early-constant-voltage"
  ELSE IF o.inc # (o.above /\ o.below /\ o.full /\ o.late) THEN "to-include"
  ELSE ""
----------------------------------------------------------------------------
(* Parameters: tables [project, rows of [seq, v]]; the row of the project   *)
(* and sequence number in the name of the file.                             *)
Table(ts, proj) == {i \in 1..Len(ts) : ts[i].project = proj}
Row(ts, proj, seq) ==
  IF Table(ts, proj) = {} THEN <<>>
  ELSE LET rows == ts[CHOOSE i \in Table(ts, proj) : TRUE].rows IN
       IF \E k \in 1..Len(rows) : rows[k].seq = seq THEN <<rows[CHOOSE k \in 1..Len(rows) : rows[k].seq = seq].v>> ELSE <<>>
=============================================================================
