--------------------------- MODULE CycleLifeMC ---------------------------
(* A cell ages cycle by cycle; an online detector remembers the first     *)
(* crossing.  The definition agrees with it and is monotone in the        *)
(* threshold while the capacity only fades.                               *)
EXTENDS CycleLife, TLC, Json
CONSTANTS MaxLen, Cutoff, Caps, Emit
VARIABLES sm, first
Thr == {80, 90, 100}
P(cap, thr) == AtOrBelow(cap, 22000, thr)
Init == sm = << >> /\ first = [x \in Thr |-> 0]
Next == /\ Len(sm) < MaxLen
        /\ \E c \in Caps, g \in {1, 3} :
             LET id == IF sm = << >> THEN g - 1 ELSE sm[Len(sm)].cyc + g IN
             /\ sm' = Append(sm, [cyc |-> id, cap |-> c])
             /\ first' = [x \in Thr |-> IF first[x] = 0 /\ P(c, x) THEN Len(sm) + 1 ELSE first[x]]
Spec == Init /\ [][Next]_<<sm, first>>
Online == sm # << >> => \A x \in Thr :
   LifeBy(sm, LAMBDA c : P(c, x)) = (IF P(sm[Len(sm)].cap, x) THEN sm[first[x]].cyc ELSE Len(sm) + 1)
Fading == \A i \in 2..Len(sm) : sm[i].cap <= sm[i - 1].cap
Dense == \A i \in 1..Len(sm) : sm[i].cyc = i - 1
Monotone == sm # << >> /\ Fading /\ Dense => \A x, y \in Thr : x < y => LifeBy(sm, LAMBDA c : P(c, y)) <= LifeBy(sm, LAMBDA c : P(c, x))
MedianInRange == Len(sm) > Cutoff =>
   LET m == Med2(sm, Cutoff)  S == {sm[i].cap : i \in 1..Cutoff} IN
   \E lo, hi \in S : 2 * lo <= m /\ m <= 2 * hi
EmitInv == IF Emit /\ sm # << >> THEN PrintT("@@" \o ToJson([sm |-> sm])) ELSE TRUE
==========================================================================
