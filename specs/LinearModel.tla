--------------------------- MODULE LinearModel ---------------------------
(* A linear model experiment: cleaning of the training matrix, training,  *)
(* prediction on other matrices, saving and loading.                      *)
(* A matrix is a sequence of rows of integers, NA for a missing value     *)
(* (NaN or infinite in the code).  Thresholds are percentages.  Values    *)
(* are multiples of 840, so means over up to 8 rows are integers.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NA == 99999
Ix(s) == 1..Len(s)
RECURSIVE Sum(_)
Sum(s) == IF s = << >> THEN 0 ELSE Head(s) + Sum(Tail(s))
Filter(s, P(_)) == SelectSeq(s, P)
Upto(n) == [i \in 1..n |-> i]
(* features present in at least pf percent of the samples *)
KeepF(X, nf, pf) == Filter(Upto(nf), LAMBDA f : Cardinality({r \in Ix(X) : X[r][f] # NA}) * 100 >= pf * Len(X))
(* samples having at least ps percent of these features *)
KeepR(X, fs, ps) == Filter(Upto(Len(X)), LAMBDA r : Cardinality({k \in Ix(fs) : X[r][fs[k]] # NA}) * 100 >= ps * Len(fs))
Present(X, rows, f) == LET rs == Filter(rows, LAMBDA r : X[r][f] # NA) IN [i \in Ix(rs) |-> X[rs[i]][f]]
Median(s) == LET o == SortSeq(s, LAMBDA a, b : a < b)
                 n == Len(s)
             IN IF n % 2 = 1 THEN o[(n + 1) \div 2] ELSE (o[n \div 2] + o[n \div 2 + 1]) \div 2
Fill(X, rows, f, how) == LET p == Present(X, rows, f) IN
    IF how = "none" \/ Len(p) = 0 THEN NA
    ELSE IF how = "mean" THEN Sum(p) \div Len(p) ELSE Median(p)
Imputed(X, rows, fs, how) ==
    LET fill == [k \in Ix(fs) |-> Fill(X, rows, fs[k], how)]
    IN [i \in Ix(rows) |-> [k \in Ix(fs) |-> IF X[rows[i]][fs[k]] # NA THEN X[rows[i]][fs[k]] ELSE fill[k]]]
HasNA(Z) == \E i \in Ix(Z) : \E k \in Ix(Z[i]) : Z[i][k] = NA

(* the experiment made from X, y: refused, or the clean training data *)
Exper(X, y, nf, c) ==
    LET fs == KeepF(X, nf, c.pf)
        r1 == KeepR(X, fs, c.ps)
        bad == {i \in Ix(r1) : \E k \in Ix(y[r1[i]]) : y[r1[i]][k] = NA}
        Z == Imputed(X, r1, fs, c.impute)
        keep == Filter(Upto(Len(r1)), LAMBDA i : i \notin bad)
    IN IF \/ Len(fs) < 1 \/ Len(r1) < 2
          \/ bad # {} /\ ~c.dropnan
          \/ Len(keep) < 2
       THEN [refused |-> TRUE, feats |-> << >>, rows |-> << >>, X |-> << >>]
       ELSE [refused |-> FALSE, feats |-> fs, rows |-> [i \in Ix(keep) |-> r1[keep[i]]], X |-> [i \in Ix(keep) |-> Z[keep[i]]]]

(* prediction on matrix P whose columns are the features cols, by a model *)
(* trained on the features fs                                             *)
Pred(P, cols, fs, pp, how) ==
    LET has(f) == \E j \in Ix(cols) : cols[j] = f
        at(f) == CHOOSE j \in Ix(cols) : cols[j] = f
        missing == \E k \in Ix(fs) : ~has(fs[k])
        js == [k \in Ix(fs) |-> at(fs[k])]
        rows == KeepR(P, js, pp)
        Z == Imputed(P, rows, js, how)
    IN IF missing THEN [refused |-> TRUE, why |-> "missing-features", rows |-> << >>, dropped |-> << >>, Z |-> << >>]
       ELSE IF Len(rows) = 0 \/ HasNA(Z) THEN [refused |-> TRUE, why |-> "no-values", rows |-> << >>, dropped |-> << >>, Z |-> << >>]
       ELSE [refused |-> FALSE, why |-> "", rows |-> rows,
             dropped |-> Filter(Upto(Len(P)), LAMBDA r : ~ \E i \in Ix(rows) : rows[i] = r), Z |-> Z]
Linear(z, w, b) == b + Sum([k \in Ix(z) |-> z[k] * w[k]])
Abs(n) == IF n < 0 THEN -n ELSE n
==========================================================================
