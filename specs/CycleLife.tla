---------------------------- MODULE CycleLife ----------------------------
(* End of life of a cell from its cycle summary: a sequence of            *)
(* [cyc, cap] (capacity in 0.1 mAh).  thr is the threshold in percent.    *)
EXTENDS Integers, Sequences, FiniteSets
(* twice the median of the first n capacities *)
Med2(sm, n) ==
  LET I == 1..n
      rank(i) == Cardinality({j \in I : sm[j].cap < sm[i].cap \/ (sm[j].cap = sm[i].cap /\ j < i)})
      at(r) == sm[CHOOSE i \in I : rank(i) = r].cap
  IN at((n - 1) \div 2) + at(n \div 2)
Ref2(sm, cutoff) == IF Len(sm) > cutoff THEN Med2(sm, cutoff) ELSE 2 * 11000
AtOrBelow(cap, ref2, thr) == 200 * cap <= thr * ref2
Below(cap, ref2, thr) == 200 * cap < thr * ref2
FirstSuch(sm, P(_)) == sm[CHOOSE i \in 1..Len(sm) : P(sm[i].cap) /\ \A j \in 1..(i - 1) : ~P(sm[j].cap)].cyc
LifeBy(sm, P(_)) == IF P(sm[Len(sm)].cap) THEN FirstSuch(sm, P) ELSE Len(sm) + 1
(* both readings of "reaching" the threshold exactly are allowed *)
Lives(sm, cutoff, thr) ==
  LET r == Ref2(sm, cutoff) IN
  {LifeBy(sm, LAMBDA c : AtOrBelow(c, r, thr)), LifeBy(sm, LAMBDA c : Below(c, r, thr))}
CapAt(sm, pos) == IF pos + 1 <= Len(sm) THEN sm[pos + 1].cap ELSE 0
==========================================================================
