-------------------------- MODULE LinearModelMC --------------------------
(* Explores all small training matrices and all histories of operations   *)
(* on the experiment.  `trained` counts trainings (0: none), mem is what  *)
(* the model remembers, loaded says the object came from a file.          *)
EXTENDS LinearModel, Json
CONSTANTS NR, NF, Vals, PFs, PSs, MaxOps, Emit
VARIABLES X, y, c, ops, trained, mem
vars == <<X, y, c, ops, trained, mem>>
Cfgs == [pf : PFs, ps : PSs, impute : {"median", "mean"}, dropnan : BOOLEAN]
Init == /\ X \in [1..NR -> [1..NF -> Vals \cup {NA}]]
        /\ y \in [1..NR -> [1..1 -> {840, NA}]]
        /\ \A i \in 1..NR : i > 1 => y[i] = <<840>>       \* a missing target at most in the first row
        /\ c \in Cfgs
        /\ ops = << >> /\ trained = 0 /\ mem = << >>
E0 == Exper(X, y, NF, c)
Train == trained' = trained + 1 /\ mem' = <<E0.feats, E0.rows>> /\ ops' = Append(ops, "train")
Reload == trained > 0 /\ ops' = Append(ops, "reload") /\ UNCHANGED <<trained, mem>>
Predict == ops' = Append(ops, "predict") /\ UNCHANGED <<trained, mem>>
Next == ~E0.refused /\ Len(ops) < MaxOps /\ (Train \/ Reload \/ Predict) /\ UNCHANGED <<X, y, c>>
Spec == Init /\ [][Next]_vars

(* cleaning keeps exactly what the thresholds say *)
CleanExact == ~E0.refused =>
   /\ \A f \in 1..NF : (\E k \in Ix(E0.feats) : E0.feats[k] = f) <=> Cardinality({r \in 1..NR : X[r][f] # NA}) * 100 >= c.pf * NR
   /\ \A i \in Ix(E0.rows) : y[E0.rows[i]][1] # NA
   /\ \A i \in Ix(E0.rows), k \in Ix(E0.feats) : X[E0.rows[i]][E0.feats[k]] # NA => E0.X[i][k] = X[E0.rows[i]][E0.feats[k]]
   /\ \A i, j \in Ix(E0.rows) : i < j => E0.rows[i] < E0.rows[j]
(* the order of the samples does not matter *)
Rev(s) == [i \in Ix(s) |-> s[Len(s) + 1 - i]]
OrderFree == LET F == Exper(Rev(X), Rev(y), NF, c) IN
   /\ F.refused = E0.refused
   /\ ~F.refused => F.feats = E0.feats /\ F.X = Rev(E0.X) /\ F.rows = Rev([i \in Ix(E0.rows) |-> NR + 1 - E0.rows[i]])
(* with a feature threshold above zero nothing is left to guess from nothing *)
NoNAleft == ~E0.refused /\ c.pf > 0 /\ c.ps = 0 => ~HasNA(E0.X)
(* predicting on the training matrix keeps every sample that has all features, with its own values *)
PredOwn == ~E0.refused => LET P == Pred(X, Upto(NF), E0.feats, 100, c.impute) IN
   ~P.refused => \A i \in Ix(P.rows) : \A k \in Ix(E0.feats) : P.Z[i][k] = X[P.rows[i]][E0.feats[k]]
MemIsTraining == trained > 0 => mem = <<E0.feats, E0.rows>>
EmitRun == (Emit /\ (Len(ops) = MaxOps \/ E0.refused)) =>
           PrintT("@@" \o ToJson([X |-> X, y |-> y, c |-> c, ops |-> ops]))
==========================================================================
