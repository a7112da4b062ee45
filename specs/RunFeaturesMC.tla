---------------------------- MODULE RunFeaturesMC ----------------------------
(* C25: the statistics over all short sequences of differences, built point *)
(* by point.                                                                *)
EXTENDS RunFeatures, Json
CONSTANTS MaxLen, Top, Emit
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E x \in (-Top..Top) \cup {NA} : s' = Append(s, x)
Spec == Init /\ [][Next]_s
P == Present(s)
Has == Len(P) > 0
V(name) == Stat(name, P)
Shift(z, k) == [i \in 1..Len(z) |-> z[i] + k]
Neg(z) == [i \in 1..Len(z) |-> -z[i]]
Decimal == \A p \in 0..9 : \A q \in 1..9 : Dec(p, q) = (p * K) \div q
Spread == Has => /\ V("var")[1] >= 0 /\ (V("var")[1] = 0 <=> M2(P) = 0)
                 /\ V("mean")[1] <= V("square")[1]
                 /\ V("abs")[1] <= V("square")[1]
                 /\ V("min")[1] <= V("abs")[1]
Invariant == Has => \A n \in {"var", "skew", "kurtosis", "excess"} :
                 Stat(n, P) = Stat(n, Shift(P, 1)) /\ Stat(n, P) = Stat(n, Neg(P)) /\ Stat(n, P) = Stat(n, Reverse(P))
Bounds == Has => (M2(P) > 0 => Pow(M2(P), 2) <= M4(P) /\ M4(P) <= Len(P) * Pow(M2(P), 2))     \* 1 <= kurtosis <= n
Fills == Has => NoneLost(BFill(FFill(s)))
Medians == Has => LET m == Median2(s) IN 2 * Cardinality({i \in 1..Len(P) : 2 * P[i] <= m}) >= Len(P) /\ 2 * Cardinality({i \in 1..Len(P) : 2 * P[i] >= m}) >= Len(P)
EmitRun == Emit => (Has => PrintT("@@" \o ToJson([d |-> s])))
=============================================================================
