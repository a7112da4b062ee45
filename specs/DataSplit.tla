---------------------------- MODULE DataSplit ----------------------------
(* Splitting a feature matrix into training and test sets.                *)
(* X: feature columns, S: split columns (grouping), B: exclusion columns  *)
(* (1 keep, 0 exclude, NA: exclude), y: targets.  NA is a missing value.  *)
EXTENDS LinearModel
Count(P(_), n) == Cardinality({i \in 1..n : P(i)})
Cleaned(X, S, B, y, nf, c) ==
    LET n == Len(X)
        ns == IF n = 0 THEN 0 ELSE Len(S[1])
        nb == IF n = 0 THEN 0 ELSE Len(B[1])
        fs == KeepF(X, nf, c.pf)
        tot == Len(fs) + ns + nb
        pres(r) == Count(LAMBDA k : X[r][fs[k]] # NA, Len(fs)) + ns + Count(LAMBDA k : B[r][k] # NA, nb)
        r1 == Filter(Upto(n), LAMBDA r : pres(r) * 100 >= c.ps * tot)
        Z == Imputed(X, r1, fs, c.impute)
        inc(r) == \A k \in 1..nb : B[r][k] = 1
        In(g) == {i \in Ix(r1) : S[r1[i]] = g}
        gone(g) == nb > 0 /\ ns > 0 /\ Cardinality({i \in In(g) : inc(r1[i])}) * 100 < c.dthr * Cardinality(In(g))
        k1 == Filter(Upto(Len(r1)), LAMBDA i : inc(r1[i]) /\ ~gone(S[r1[i]]))
        bad == {i \in Ix(k1) : \E q \in Ix(y[r1[k1[i]]]) : y[r1[k1[i]]][q] = NA}
        k2 == Filter(Upto(Len(k1)), LAMBDA i : i \notin bad)
        rows == [i \in Ix(k2) |-> r1[k1[k2[i]]]]
    IN IF Len(fs) = 0 \/ Len(k1) < 2 \/ (bad # {} /\ ~c.dropnan) \/ Len(k2) < 2
       THEN [refused |-> TRUE, feats |-> << >>, rows |-> << >>, X |-> << >>]
       ELSE [refused |-> FALSE, feats |-> fs, rows |-> rows, X |-> [i \in Ix(k2) |-> Z[k1[k2[i]]]]]
RangeOf(s) == {s[i] : i \in Ix(s)}
Groups(S, rows, grouped) == IF grouped THEN {S[rows[i]] : i \in Ix(rows)} ELSE RangeOf(rows)
Splittable(S, rows, grouped, k) == k >= 2 /\ Cardinality(Groups(S, rows, grouped)) >= k
(* folds: a sequence of [train, test], sequences of rows *)
FoldClause(S, rows, grouped, k, folds) ==
    LET R == RangeOf(rows)
        Key(r) == IF grouped THEN S[r] ELSE r
        ng(f) == Cardinality({Key(r) : r \in RangeOf(folds[f].test)})
        N == Cardinality(Groups(S, rows, grouped))
    IN CASE Len(folds) # k -> "number-of-folds"
         [] \E f \in Ix(folds) : Len(folds[f].train) # Cardinality(RangeOf(folds[f].train)) \/ Len(folds[f].test) # Cardinality(RangeOf(folds[f].test)) -> "sample-twice-in-a-set"
         [] \E f \in Ix(folds) : RangeOf(folds[f].train) \cap RangeOf(folds[f].test) # {} -> "training-and-test-sets-overlap"
         [] \E f \in Ix(folds) : RangeOf(folds[f].train) \cup RangeOf(folds[f].test) # R -> "sample-in-neither-set"
         [] \E r \in R : Cardinality({f \in Ix(folds) : r \in RangeOf(folds[f].test)}) # 1 -> "sample-not-tested-once"
         [] \E f \in Ix(folds) : \E r \in RangeOf(folds[f].train), q \in RangeOf(folds[f].test) : Key(r) = Key(q) -> "group-on-both-sides"
         [] \E f \in Ix(folds) : ng(f) # N \div k /\ ng(f) # N \div k + 1 -> "unbalanced-folds"
         [] OTHER -> ""
==========================================================================
