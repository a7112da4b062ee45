---------------------------- MODULE IngestMC ----------------------------
(* Programs of segments are rendered as rows; the readers' machines must  *)
(* give back what was charged, discharged and how long it took.           *)
EXTENDS Ingest, Json
CONSTANTS MaxSegs, Emit
Kinds == {"C", "D", "R", "W"}                          \* W: a waveform step, both directions
Seg(k, nc, same, n, mid, gap) == [k |-> k, nc |-> nc, same |-> same, n |-> n, mid |-> mid, gap |-> gap]
(* nc: a new cycle begins; same: the step number is that of the segment before (only with a new cycle); mid: an end code / a suspended row inside; gap: time before the first record *)
Segs == {Seg(k, nc, FALSE, n, m, g) : k \in Kinds, nc \in BOOLEAN, n \in 1..2, m \in {FALSE}, g \in 0..1}
        \cup {Seg(k, nc, FALSE, 2, TRUE, 0) : k \in Kinds \ {"R"}, nc \in BOOLEAN} \cup {Seg(k, TRUE, TRUE, 2, FALSE, 0) : k \in Kinds}
VARIABLES prog, rows, i, mc, md, clk, start, done
vars == <<prog, rows, i, mc, md, clk, start, done>>
CycOf(p, j) == 1 + Cardinality({k \in 2..j : p[k].nc})
StepOf(p, j) == j - Cardinality({k \in 2..j : p[k].same})
Row(p, j, k) == LET s == p[j]
                    wave == s.k = "W"
                    susp == s.mid /\ k = 1 /\ ~wave           \* a suspended row: state S, still the same step
                IN [seg |-> j, cyc |-> CycOf(p, j), step |-> StepOf(p, j), st |-> IF wave THEN "D" ELSE IF susp /\ s.n > 1 THEN "S" ELSE s.k,
                    es |-> IF k = s.n THEN 129 ELSE IF s.mid THEN 192 ELSE 1,
                    q |-> IF s.k \in {"C", "D"} THEN k * (2 ^ j) ELSE 0, e |-> 0,
                    wcq |-> IF wave THEN k ELSE NA, wdq |-> IF wave THEN k * (2 ^ j) ELSE NA, wce |-> NA, wde |-> NA,
                    s |-> 10 * (k - 1) + s.gap, i |-> CASE s.k = "C" -> 1 [] s.k = "R" -> 0 [] OTHER -> -1]
RECURSIVE Render(_, _)
Render(p, j) == IF j > Len(p) THEN << >> ELSE [k \in 1..p[j].n |-> Row(p, j, k)] \o Render(p, j + 1)
Dur(p, j) == 10 * (p[j].n - 1) + p[j].gap
RECURSIVE SumDur(_, _)
SumDur(p, j) == IF j = 0 THEN 0 ELSE Dur(p, j) + SumDur(p, j - 1)
TrueT(p, r) == SumDur(p, r.seg - 1) + r.s
Init == /\ \E n \in 1..MaxSegs : prog \in [1..n -> Segs]
        /\ prog[1].gap = 0 /\ ~prog[1].same /\ ~prog[1].nc
        /\ \A j \in 2..Len(prog) : prog[j].same => prog[j].k = prog[j - 1].k
        /\ rows = Render(prog, 1) /\ i = 1 /\ done = FALSE
        /\ mc = MeterStep(Meter0, rows[1], rows[1], MVal(rows[1], "C", "q"))
        /\ md = MeterStep(Meter0, rows[1], rows[1], MVal(rows[1], "D", "q"))
        /\ clk = 0 /\ start = 0
Next == IF i < Len(rows)
        THEN LET p == rows[i] r == rows[i + 1] IN
             /\ mc' = MeterStep(mc, p, r, MVal(r, "C", "q")) /\ md' = MeterStep(md, p, r, MVal(r, "D", "q"))
             /\ clk' = ClockStep(clk, p, r)
             /\ start' = StartStep(start, p, [r EXCEPT !.i = r.i] @@ [t |-> TrueT(prog, r)])
             /\ i' = i + 1 /\ UNCHANGED <<prog, rows, done>>
        ELSE ~done /\ done' = TRUE /\ UNCHANGED <<prog, rows, i, mc, md, clk, start>>
Spec == Init /\ [][Next]_vars
R == rows[i]
(* what the segments of this cycle before this one passed in direction d, and this one up to its kth row *)
SegTotal(j, d) == LET s == prog[j] IN CASE s.k = d -> s.n * (2 ^ j) [] s.k = "W" -> IF d = "D" THEN s.n * (2 ^ j) ELSE s.n [] OTHER -> 0
RECURSIVE SumTot(_, _, _)
SumTot(j, d, c) == IF j = 0 \/ CycOf(prog, j) # c THEN 0 ELSE SegTotal(j, d) + SumTot(j - 1, d, c)
LastOfSeg == i = Len(rows) \/ rows[i + 1].seg # R.seg
ChargeRight == LastOfSeg => Reading(mc) = SumTot(R.seg, "C", R.cyc)
DischargeRight == LastOfSeg => Reading(md) = SumTot(R.seg, "D", R.cyc)
ClockRight == clk = TrueT(prog, R)
StartNotLater == start <= TrueT(prog, R)
NonDecreasing == [][(i' > i /\ rows[i'].cyc = rows[i].cyc) => Reading(mc') >= Reading(mc) /\ Reading(md') >= Reading(md)]_vars
FreshCycle == [][(i' > i /\ rows[i'].cyc # rows[i].cyc) => mc'.base = 0 /\ md'.base = 0]_vars
EmitRun == (Emit /\ i = 1 /\ ~done) => PrintT("@@" \o ToJson([prog |-> prog]))
==========================================================================
