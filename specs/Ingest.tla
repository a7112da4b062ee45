----------------------------- MODULE Ingest -----------------------------
(* Reading raw cycler files into the standard table.  A raw file is a     *)
(* sequence of rows r; prev is the row before (or the row itself at the   *)
(* beginning); m is the state the reader carries from row to row.         *)
(* Units: capacities uAh, energies uWh, mA, 0.1 mV, times 0.01 s, 0.1 C.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Ix(s) == 1..Len(s)
Max(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
(* ---------------- Maccor: quantities of a step start again at zero with each step ----------------*)
NA == -1
Ended(prev, r) == prev.es >= 128 /\ prev.es <= 255 /\ prev.step # r.step      \* an end code within a step does not end it
NewCycle(prev, r) == prev.cyc # r.cyc
Meter0 == [base |-> 0, cur |-> 0]
MeterStep(m, prev, r, val) == [base |-> IF NewCycle(prev, r) THEN 0 ELSE IF Ended(prev, r) THEN m.base + m.cur ELSE m.base,
                               cur |-> IF NewCycle(prev, r) \/ Ended(prev, r) THEN val ELSE Max(m.cur, val)]
Reading(m) == m.base + m.cur
(* what a row says for direction d: the waveform column if it is filled in, else the step's quantity if the row is of that direction *)
MVal(r, d, col) == CASE col = "q" -> IF d = "C" THEN (IF r.wcq # NA THEN r.wcq ELSE IF r.st = "C" THEN r.q ELSE 0)
                                     ELSE (IF r.wdq # NA THEN r.wdq ELSE IF r.st = "D" THEN r.q ELSE 0)
                     [] OTHER -> IF d = "C" THEN (IF r.wce # NA THEN r.wce ELSE IF r.st = "C" THEN r.e ELSE 0)
                                 ELSE (IF r.wde # NA THEN r.wde ELSE IF r.st = "D" THEN r.e ELSE 0)
(* ---------------- Neware: the time of a step starts again with each step ----------------*)
NewStep(prev, r) == prev.step # r.step \/ r.s < prev.s
ClockStep(t, prev, r) == IF NewStep(prev, r) THEN t + r.s ELSE t + (r.s - prev.s)
(* ---------------- Battery Archive: steps are runs of rest, charge and discharge ----------------*)
SignStep(r) == IF r.i = 0 THEN 1 ELSE IF r.i > 0 THEN 2 ELSE 3
StartStep(start, prev, r) == IF SignStep(prev) # SignStep(r) THEN r.t ELSE start
(* ---------------- BioLogic: cycle numbers from the rules of the converted protocol ----------------*)
Trans(rules, a, b) == LET S == {j \in Ix(rules.trans) : rules.trans[j].a = a /\ rules.trans[j].b = b} IN
                      IF S = {} THEN 0 ELSE rules.trans[CHOOSE j \in S : TRUE].n
CycleStep(c, rules, prev, r) == IF rules.loops /\ prev.loop # r.loop THEN c + rules.onloop
                                ELSE IF prev.step # r.step THEN c + Trans(rules, prev.step, r.step) ELSE c
(* ---------------- Novonix: the capacity counts up while charging, and down from there while discharging ----------------*)
NCharge == {1, 7, 8}
NDis == {2, 9, 10}
MaxOver(S) == CHOOSE x \in S : \A y \in S : y <= x
CycTop(rows, c, f) == LET ch == {rows[j][f] : j \in {j \in Ix(rows) : rows[j].cyc = c /\ rows[j].type \in NCharge}}
                      IN IF ch # {} THEN MaxOver(ch) ELSE MaxOver({rows[j][f] : j \in {j \in Ix(rows) : rows[j].cyc = c}})
NDone(last, prev, r, top, f) == IF r.type \in NDis THEN top - r[f]                      \* discharged so far in this cycle
                                ELSE IF NewCycle(prev, r) THEN 0 ELSE last
(* ---------------- Indigo: half cycles alternate, odd ones charge ----------------*)
Half(r, d, x) == IF ((r.step % 2) = 1) = (d = "C") THEN Abs(x) ELSE 0
==========================================================================
