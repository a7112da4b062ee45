------------------------- MODULE FeatureMatrixMC -------------------------
EXTENDS FeatureMatrix, TLC, Json
CONSTANTS MaxRes, Files, Classes, Hps, Emit
VARIABLES rs, cells, dead   \* results joined so far; matrix built incrementally
R == [file : Files, cls : Classes, hp : Hps, feats : {<<1>>, <<1, 2>>}, form : {"row", "none"}]
Init == rs = << >> /\ cells = {} /\ dead = FALSE
Join(r) == LET new == Cells(<<r>>) IN
           /\ rs' = Append(rs, r)
           /\ dead' = (dead \/ ~FOk(r) \/ new \cap cells # {})
           /\ cells' = cells \cup new
Next == Len(rs) < MaxRes /\ ~dead /\ \E r \in R : Join(r)
Spec == Init /\ [][Next]_<<rs, cells, dead>>
Confluent == ~dead => cells = Cells(rs)
DeadIffRefused == dead <=> ~Accepted(rs)
OneCellPerResult == ~dead => Cardinality(cells) =
    LET S[i \in 0..Len(rs)] == IF i = 0 THEN 0 ELSE S[i-1] + Len(rs[i].feats) IN S[Len(rs)]
EmitRun == (Emit /\ Len(rs) > 0) => PrintT("@@" \o ToJson([rs |-> rs]))
==========================================================================
