------------------------------ MODULE Waveform ------------------------------
(* C20: what a cycler is made to do second by second.                      *)
(*  - a profile (one sample per second) is compressed to the lines of a    *)
(*    waveform file: each line holds one value for a number of seconds;    *)
(*  - the power of a drive cycle follows from the velocity of the vehicle; *)
(*  - a rapid charge goes through windows of state of charge at the rate   *)
(*    of each, stepwise or smooth.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Abs(x) == IF x < 0 THEN -x ELSE x
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Peak(xs) == LET M == MaxOf({Abs(x) : x \in Range(xs)}) IN IF M = 0 THEN 1 ELSE M
(* ---- the compressor: a machine that reads one sample at a time ---- *)
Begin == [lines |-> << >>, pos |-> 0]                      \* lines: [x, start, dur]
Read(s, x) == [lines |-> IF s.lines # << >> /\ Last(s.lines).x = x
                         THEN [s.lines EXCEPT ![Len(s.lines)].dur = @ + 1]
                         ELSE Append(s.lines, [x |-> x, start |-> s.pos + 1, dur |-> 1]),
               pos |-> s.pos + 1]
Compress(xs) == FoldLeft(Read, Begin, xs).lines
(* the sample the lines give at second i *)
At(lines, i) == LET k == CHOOSE k \in 1..Len(lines) : lines[k].start <= i /\ i < lines[k].start + lines[k].dur IN lines[k].x
(* ---- a line of the file ---- *)
State(x) == IF x > 0 THEN "C" ELSE "D"
Mode(cfg, what, x) == IF what = "power" /\ cfg.mode = "P" /\ x = 0 THEN "I" ELSE cfg.mode
Fields(cfg, x) == IF x > 0 THEN cfg.charge ELSE cfg.discharge       \* limit mode, limit, end mode, operation, end value
(* is v the |x|-th part of M of the scale, both in 1e-5?  scale = s1 * 1000 + s0; twice the difference times M at most slack * M *)
ValueOk(v, x, M, s1, s0, slack) ==
    LET a == Abs(x)
        q == (a * s1) \div M
        r == (a * s1) % M
        d == v - q * 1000
    IN /\ Abs(d) <= 2000000000 \div (2 * M)
       /\ Abs(d - ((r * 1000 + a * s0) \div M)) <= slack + 1
       /\ (slack = 0 /\ M <= 100000 => Abs(d) <= 10000 /\ 2 * Abs(d * M - (r * 1000 + a * s0)) <= M + 2)
(* ---- power of a vehicle ---- *)
(* velocities in tenths of the unit; 1500 kg, rolling resistance 147 N, drag 0.3644375 kg/m, a mile is 1600 m.
   acc: 1500 f^2 = acc[1]/acc[2], roll: 147 f = roll[1]/roll[2], drag: 1/drag = 0.3644375 f^3 with f metres per second per tenth of the unit *)
Unit(u) == CASE u = "mph"  -> [acc |-> <<80, 27>>, roll |-> <<98, 15>>, drag |-> 31255]
             [] u = "kmph" -> [acc |-> <<125, 108>>, roll |-> <<49, 12>>, drag |-> 128022]
             [] u = "mps"  -> [acc |-> <<15, 1>>, roll |-> <<147, 10>>, drag |-> 2744]
(* rate of change: second order inside, also on uneven times; one-sided at the ends *)
Grad(t, v, i) == IF i = 1 THEN <<v[2] - v[1], t[2] - t[1]>>
                 ELSE IF i = Len(v) THEN <<v[i] - v[i - 1], t[i] - t[i - 1]>>
                 ELSE LET h == t[i] - t[i - 1]
                          g == t[i + 1] - t[i]
                      IN <<h * h * v[i + 1] + (g * g - h * h) * v[i] - g * g * v[i - 1], h * g * (h + g)>>
Power(u, t, v, i) == LET U == Unit(u)
                         G == Grad(t, v, i)
                     IN -((((v[i] * G[1]) \div G[2]) * U.acc[1]) \div U.acc[2] + (v[i] * U.roll[1]) \div U.roll[2] + (v[i] * v[i] * v[i]) \div U.drag)
PowerSlack(u) == LET U == Unit(u) IN 3 + U.acc[1] \div U.acc[2]
(* ---- rapid charge ---- *)
(* windows: state of charge (1e-4) at their ends, rates (1e-2 C); charge already in, in 1e-4 *)
Window(mesh, soc) == CHOOSE j \in 1..Len(mesh) : /\ (j = 1 \/ mesh[j] <= soc) /\ (j = Len(mesh) \/ soc < mesh[j + 1])
Near(mesh, soc, d) == \E j \in 1..Len(mesh) : Abs(mesh[j] - soc) <= d
Rising(mesh) == \A j \in 1..Len(mesh) - 1 : mesh[j] < mesh[j + 1]
=============================================================================
