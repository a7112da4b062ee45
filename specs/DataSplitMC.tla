--------------------------- MODULE DataSplitMC ---------------------------
(* Deals groups to folds one by one in any order and explores all small   *)
(* matrices; checks that every dealing satisfies FoldClause and that      *)
(* cleaning keeps what it must.                                           *)
EXTENDS DataSplit, Json
CONSTANTS NR, K, Emit
VARIABLES X, S, B, y, c, deal, left
vars == <<X, S, B, y, c, deal, left>>
Init == /\ X \in [1..NR -> [1..1 -> {840, NA}]]
        /\ S \in [1..NR -> [1..1 -> {1, 2, 3}]]
        /\ B \in [1..NR -> [1..1 -> {0, 1, NA}]]
        /\ y \in {[i \in 1..NR |-> <<840>>], [i \in 1..NR |-> IF i = 1 THEN <<NA>> ELSE <<840>>]}
        /\ c \in [pf : {50}, ps : {0, 50, 100}, impute : {"median"}, dropnan : BOOLEAN, dthr : {50, 100}]
        /\ deal = << >> /\ left = {<< >>}
E == Cleaned(X, S, B, y, 1, c)
G == Groups(S, E.rows, TRUE)
Start == ~E.refused /\ left = {<< >>} /\ deal = << >> /\ Splittable(S, E.rows, TRUE, K) /\ left' = G /\ UNCHANGED deal
Deal(g) == deal' = Append(deal, g) /\ left' = left \ {g}
Next == (Start \/ (left # {<< >>} /\ \E g \in left : Deal(g))) /\ UNCHANGED <<X, S, B, y, c>>
Spec == Init /\ [][Next]_vars
\* group number i of the deal is tested in fold ((i-1) mod K) + 1
FoldOf(g) == (((CHOOSE i \in Ix(deal) : deal[i] = g) - 1) % K) + 1
Folds == [f \in 1..K |-> [train |-> Filter(E.rows, LAMBDA r : FoldOf(S[r]) # f), test |-> Filter(E.rows, LAMBDA r : FoldOf(S[r]) = f)]]
DealtRight == (left = {} /\ deal # << >>) => FoldClause(S, E.rows, TRUE, K, Folds) = ""
KeptIncluded == ~E.refused => \A i \in Ix(E.rows) : B[E.rows[i]][1] = 1 /\ y[E.rows[i]][1] # NA
EmitRun == (Emit /\ deal = << >> /\ left = {<< >>}) => PrintT("@@" \o ToJson([X |-> X, S |-> S, B |-> B, y |-> y, c |-> c]))
==========================================================================
