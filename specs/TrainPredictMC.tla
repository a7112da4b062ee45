-------------------------- MODULE TrainPredictMC -------------------------
EXTENDS TrainPredict, Json
CONSTANTS MaxCmds, Emit
VARIABLES cmds, model, preds
vars == <<cmds, model, preds>>
Base == [op |-> "train", kind |-> "ok", halt |-> FALSE, pf |-> -1, ps |-> -1, pp |-> -1, impute |-> "", kfold |-> -1, iter |-> -1,
         tol |-> -1, homog |-> -1, l1 |-> << >>, alpha |-> <<-1, -1, -1>>, model |-> "ridge"]
TrainOpts == {Base} \cup {[Base EXCEPT !.kind = k, !.halt = h] : k \in {"target", "model", "garbage", "nofile", "impute"}, h \in BOOLEAN}
   \cup {[Base EXCEPT !.pf = v] : v \in {0, 50, 100}} \cup {[Base EXCEPT !.ps = v, !.pf = 0] : v \in {0, 100}}
   \cup {[Base EXCEPT !.pp = v] : v \in {0, 50, 100}} \cup {[Base EXCEPT !.impute = "mean"], [Base EXCEPT !.kfold = 2], [Base EXCEPT !.iter = 500],
   [Base EXCEPT !.tol = 1000], [Base EXCEPT !.homog = 0], [Base EXCEPT !.homog = 1], [Base EXCEPT !.l1 = <<500, 1000>>, !.model = "elasticnet"],
   [Base EXCEPT !.model = "lasso"]}
   \cup {[Base EXCEPT !.alpha = a] : a \in {<<100, 500, 5>>, <<250, 500, 2>>, <<100, -1, -1>>, <<-1, -1, 5>>, <<100, 500, -1>>}}
PredOpts == {[op |-> "predict", kind |-> k, halt |-> h, pp |-> pp] : k \in {"ok", "missing", "garbage"}, h \in BOOLEAN, pp \in {-1, 0, 50, 100}}
Init == cmds = << >> /\ model = None /\ preds = << >>
TrainStep(o) == /\ cmds' = Append(cmds, o)
                /\ model' = IF TrainRefused(o) \/ TrainFails(o) THEN model ELSE Settings(o)
                /\ UNCHANGED preds
PredStep(o) == /\ cmds' = Append(cmds, o)
               /\ preds' = IF model.is /\ o.kind = "ok" THEN Append(preds, [pp |-> PredPP(o, model), at |-> Len(cmds) + 1]) ELSE preds
               /\ UNCHANGED model
Next == Len(cmds) < MaxCmds /\ (\E o \in TrainOpts : TrainStep(o) \/ \E p \in PredOpts : PredStep(p))
Spec == Init /\ [][Next]_vars
(* the model file always holds the settings of the last training that worked *)
LastGood == LET S == {i \in Ix(cmds) : cmds[i].op = "train" /\ ~TrainRefused(cmds[i]) /\ ~TrainFails(cmds[i])}
            IN IF S = {} THEN None ELSE Settings(cmds[CHOOSE i \in S : \A j \in S : j <= i])
ModelIsLastGood == model = LastGood
NothingPredictedBeforeTraining == \A i \in Ix(preds) : \E j \in 1..(preds[i].at - 1) : cmds[j].op = "train"
OverrideWins == \A i \in Ix(preds) : cmds[preds[i].at].pp # -1 => preds[i].pp = cmds[preds[i].at].pp
EmitRun == (Emit /\ Len(cmds) = MaxCmds) => PrintT("@@" \o ToJson([cmds |-> cmds]))
==========================================================================
