-------------------------- MODULE FeatureMatrix --------------------------
(* A feature matrix joins featurizer results: one row per structured      *)
(* file, one column per (feature, featurizer class, hyperparameters).     *)
(* A result is [file, cls, hp, feats]: file 0 means it has no structured  *)
(* file, feats is a sequence of feature numbers, `form` says whether the  *)
(* features were created and have exactly one row.                        *)
EXTENDS Naturals, Sequences, FiniteSets
FOk(r) == r.form = "row" /\ r.file # 0
Ops(rs) == {<<rs[i].file, rs[i].cls, rs[i].hp, rs[i].feats[k]>> : i \in 1..Len(rs), k \in 1..3}
Cells(rs) == UNION {{[file |-> rs[i].file, cls |-> rs[i].cls, hp |-> rs[i].hp, f |-> rs[i].feats[k]] :
                       k \in 1..Len(rs[i].feats)} : i \in 1..Len(rs)}
Collide(a, b) == a.file = b.file /\ a.cls = b.cls /\ a.hp = b.hp /\
                 \E k \in 1..Len(a.feats), l \in 1..Len(b.feats) : a.feats[k] = b.feats[l]
Collision(rs) == \E i, j \in 1..Len(rs) : i < j /\ Collide(rs[i], rs[j])
Accepted(rs) == (\A i \in 1..Len(rs) : FOk(rs[i])) /\ ~Collision(rs)
Rows(rs) == {rs[i].file : i \in 1..Len(rs)}
Cols(rs) == {[cls |-> c.cls, hp |-> c.hp, f |-> c.f] : c \in Cells(rs)}
==========================================================================
