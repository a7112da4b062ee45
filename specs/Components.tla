----------------------------- MODULE Components ------------------------------
(* C29: principal components of runs whose features move in groups.  A      *)
(* training set T is [S, f, k, skew]: S samples, features [g, e, m, s] and  *)
(* the number of components kept.  Feature j of sample i is m + e*s*H/2     *)
(* where the patterns H(T, g, .) have mean 0 and deviation 2, are           *)
(* uncorrelated and                                                         *)
(* the groups have different sizes, group 1 the largest: so the groups are  *)
(* the components.  Standing of a sample in a group: the mean of its        *)
(* standardised features, here in units of 1/24 (group sizes divide 12,     *)
(* standardised values are halves).                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumOf(Tail(s))
RECURSIVE Bit(_, _)
Bit(x, b) == IF b = 0 THEN x % 2 ELSE Bit(x \div 2, b - 1)
(* Walsh patterns *)
Walsh(g, i) == LET b(n) == Bit(g, n) * Bit(i - 1, n) IN IF (b(0) + b(1) + b(2)) % 2 = 0 THEN 2 ELSE -2
(* or one of five samples far out, independently in each group *)
H(T, g, i) == IF ~T.skew THEN Walsh(g, i) ELSE IF ((i - 1) \div 5^(g - 1)) % 5 = 0 THEN 4 ELSE -1
Train(T) == [i \in 1..T.S |-> [j \in 1..Len(T.f) |-> T.f[j].m + (T.f[j].e * T.f[j].s * H(T, T.f[j].g, i)) \div 2]]
Size(T, g) == Cardinality({j \in 1..Len(T.f) : T.f[j].g = g})
Groups(T) == Cardinality({T.f[j].g : j \in 1..Len(T.f)})
(* twice the standardised value *)
Z2(T, x, j) == (2 * (x[j] - T.f[j].m)) \div T.f[j].s
Standing(T, x, g) == (12 * SumOf([j \in 1..Len(T.f) |-> IF T.f[j].g = g THEN T.f[j].e * Z2(T, x, j) ELSE 0])) \div Size(T, g)
Standings(T, x) == TLCEval([g \in 1..T.k |-> Standing(T, x, g)])
(* 24 times the sample that the kept components stand for *)
Recon(T, x) == LET w == Standings(T, x) IN [j \in 1..Len(T.f) |-> 24 * T.f[j].m + (IF T.f[j].g <= T.k THEN T.f[j].s * T.f[j].e * w[T.f[j].g] ELSE 0)]
(* 24 * number of features times the error *)
Error(T, x) == LET r == TLCEval(Recon(T, x)) IN SumOf([j \in 1..Len(T.f) |-> Abs(r[j] - 24 * x[j])])
TrainError(T, i) == 12 * SumOf([j \in 1..Len(T.f) |-> IF T.f[j].g > T.k THEN T.f[j].s * Abs(H(T, T.f[j].g, i)) ELSE 0])
MaxTrainError(T) == LET E == {TrainError(T, i) : i \in 1..T.S} IN CHOOSE m \in E : \A n \in E : n <= m
(* 576 times the square of the distance of the standings to their median *)
Middle(T) == IF T.skew THEN -12 ELSE 0
Distance2(T, x) == LET w == Standings(T, x) IN SumOf([g \in 1..T.k |-> (w[g] - Middle(T)) * (w[g] - Middle(T))])
(* number of components that explain more than p percent *)
Enough(T, p) == LET B == {c \in 1..T.k : 100 * SumOf([g \in 1..c |-> Size(T, g)]) > p * Len(T.f)} IN IF B = {} THEN 0 ELSE CHOOSE c \in B : \A d \in B : c <= d
(* percentile of sg times the standings of the training set, of which some  *)
(* are low and the rest high, in 1/2400                                     *)
Percentile(T, p, sg) == LET pos == p * (T.S - 1) lo == pos \div 100 fr == pos % 100
                            few == IF ~T.skew THEN T.S \div 2 ELSE IF sg = 1 THEN 4 * (T.S \div 5) ELSE T.S \div 5
                            small == IF ~T.skew THEN -2400 ELSE IF sg = 1 THEN -1200 ELSE -4800
                            large == IF ~T.skew THEN 2400 ELSE IF sg = 1 THEN 4800 ELSE 1200
                            at(n) == IF n < few THEN small ELSE large
                        IN at(lo) + (fr * (at(IF lo + 1 > T.S - 1 THEN T.S - 1 ELSE lo + 1) - at(lo))) \div 100
(* An outlier lies outside of the percentiles in a component.  A component  *)
(* may have either sign, sg the signs: "yes", "no" or "either" on the edge. *)
Out1(T, x, up, lo, g, sg) == LET w == 100 * sg * Standings(T, x)[g] IN
  IF w > Percentile(T, up, sg) + 1 \/ w < Percentile(T, lo, sg) - 1 THEN "yes"
  ELSE IF w < Percentile(T, up, sg) - 1 /\ w > Percentile(T, lo, sg) + 1 THEN "no" ELSE "either"
Outlier(T, x, up, lo, sg) == LET a == {Out1(T, x, up, lo, g, sg[g]) : g \in 1..T.k} IN IF "yes" \in a THEN "yes" ELSE IF "either" \in a THEN "either" ELSE "no"
----------------------------------------------------------------------------
(* The table made of runs: one row for each discharge of a cycle asked for, *)
(* runs in the order given, its columns the points, -1 where a cycle has    *)
(* none.                                                                    *)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Table(runs, wanted) == Flat([r \in 1..Len(runs) |-> LET cs == SelectSeq(runs[r], LAMBDA c : c.cyc \in wanted /\ c.dis) IN [k \in 1..Len(cs) |-> cs[k].q]])
=============================================================================
