--------------------------- MODULE TrainPredict --------------------------
(* Sessions of `beep train` and `beep predict` on one model file.         *)
(* An option is -1 (not given) or its value: percentages, kfold, max_iter,*)
(* alphas in thousandths.  The state is the model file: none, or the      *)
(* settings it was trained with.                                          *)
EXTENDS LinearModel
None == [is |-> FALSE]
Def(v, d) == IF v = -1 THEN d ELSE v
Linspace(lo, hi, n) == [i \in 1..n |-> lo + ((hi - lo) * (i - 1)) \div (n - 1)]   \* hi - lo is a multiple of n - 1
AlphaGiven(o) == {k \in {1, 2, 3} : o.alpha[k] # -1}
AlphaRefused(o) == AlphaGiven(o) \notin {{}, {1, 2, 3}}
Settings(o) == [is |-> TRUE, pf |-> Def(o.pf, 95), ps |-> Def(o.ps, 50), pp |-> Def(o.pp, 75),
    impute |-> IF o.impute = "" THEN "median" ELSE o.impute, kfold |-> Def(o.kfold, 5), iter |-> Def(o.iter, 1000000),
    tol |-> Def(o.tol, 100), homog |-> o.homog # 0,
    l1 |-> IF o.l1 = << >> THEN <<1, 100, 500, 700, 900, 950, 1000>> ELSE o.l1,
    alphas |-> IF AlphaGiven(o) = {} THEN << >> ELSE Linspace(o.alpha[1], o.alpha[2], o.alpha[3]), model |-> o.model]
(* kind: "ok", or what is wrong with the command: "target", "model" (unknown name), "garbage" (unreadable feature   *)
(* matrix), "impute" (unknown strategy): reported failures; "nofile" (no such matrix), partial alphas: refused      *)
TrainFails(o) == o.kind \in {"target", "model", "garbage", "impute"}
TrainRefused(o) == o.kind = "nofile" \/ AlphaRefused(o)
(* the effective prediction threshold *)
PredPP(o, m) == Def(o.pp, m.pp)
==========================================================================
