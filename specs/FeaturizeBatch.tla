------------------------- MODULE FeaturizeBatch -------------------------
(* `beep featurize`: every featurizer is applied to every structured      *)
(* file; the successful results are joined into one feature matrix.       *)
EXTENDS Naturals, Sequences, FiniteSets

Sub(v, f, tb) == [valid |-> v, featurized |-> f, tb |-> tb]
SubOutcome(p) == CASE p = "ok" -> Sub(TRUE, TRUE, "none")
                   [] p = "invalid" -> Sub(FALSE, FALSE, "featurization")
                   [] OTHER -> Sub(TRUE, FALSE, "other")
(* sc: [files, feats, plan, halt, save, naming]                           *)
Dup(sc) == \E a, b \in 1..Len(sc.feats) : a < b /\ sc.feats[a] = sc.feats[b]
FStart == [i |-> 1, j |-> 0, phase |-> "running", subs |-> << >>, done |-> << >>, results |-> {}]
FStep(s, sc) ==
  IF s.i > Len(sc.files) THEN [s EXCEPT !.phase = "joining"]
  ELSE IF s.j = 0      \* load the file
  THEN IF sc.files[s.i] = "ok" THEN [s EXCEPT !.j = 1, !.subs = << >>]
       ELSE IF sc.halt THEN [s EXCEPT !.phase = "halted"]
       ELSE [s EXCEPT !.i = @ + 1, !.done = Append(@, [loaded |-> FALSE, subs |-> << >>])]
  ELSE IF s.j > Len(sc.feats)
  THEN [s EXCEPT !.i = @ + 1, !.j = 0, !.done = Append(@, [loaded |-> TRUE, subs |-> s.subs])]
  ELSE LET x == SubOutcome(sc.plan[s.i][s.j]) IN
       [s EXCEPT !.j = @ + 1, !.subs = Append(@, x),
                 !.phase = IF sc.halt /\ x.tb # "none" THEN "halted" ELSE @,
                 !.results = IF x.featurized THEN @ \cup {<<s.i, s.j>>} ELSE @]
Joinable(s, sc) == s.results # {} /\
   ~ \E r, q \in s.results : r[1] = q[1] /\ r[2] # q[2] /\ sc.feats[r[2]] = sc.feats[q[2]]
FJoin(s, sc) == [s EXCEPT !.phase = IF Joinable(s, sc) THEN "done" ELSE IF sc.halt THEN "halted" ELSE "nomatrix"]
FNext(s, sc) == IF s.phase = "joining" THEN FJoin(s, sc) ELSE FStep(s, sc)
Active(s) == s.phase \in {"running", "joining"}
==========================================================================
