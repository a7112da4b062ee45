------------------------ MODULE FeaturizeBatchMC ------------------------
EXTENDS FeaturizeBatch, TLC, Json
CONSTANTS MaxFiles, FeatLists, Emit
VARIABLES sc, s
Seqs(S, n) == [1..n -> S]
Init == /\ s = FStart
        /\ \E n \in 1..MaxFiles, fl \in FeatLists, h, sv \in BOOLEAN, nm \in {"auto", "dir", "file", "filedir"} :
           \E fs \in Seqs({"ok", "bad"}, n), pl \in Seqs(Seqs({"ok", "invalid", "boom"}, Len(fl)), n) :
             /\ \A i \in 1..n, a, b \in 1..Len(fl) : fl[a] = fl[b] => pl[i][a] = pl[i][b]
             /\ sc = [files |-> fs, feats |-> fl, plan |-> pl, halt |-> h, save |-> sv, naming |-> nm]
Next == Active(s) /\ s' = FNext(s, sc) /\ UNCHANGED sc
Spec == Init /\ [][Next]_<<sc, s>> /\ WF_<<sc, s>>(Next)
Terminates == <>(~Active(s))
Complete == s.phase \in {"done", "nomatrix"} => Len(s.done) = Len(sc.files)
Independent == \A i \in 1..Len(s.done) :
   s.done[i] = IF sc.files[i] # "ok" THEN [loaded |-> FALSE, subs |-> << >>]
               ELSE [loaded |-> TRUE, subs |-> [j \in 1..Len(sc.feats) |-> SubOutcome(sc.plan[i][j])]]
ResultsReported == s.phase \in {"done", "nomatrix"} =>
   s.results = {r \in (1..Len(sc.files)) \X (1..Len(sc.feats)) :
                  sc.files[r[1]] = "ok" /\ sc.plan[r[1]][r[2]] = "ok"}
MatrixNeedsResults == s.phase = "done" => s.results # {}
EmitRun == (Emit /\ s = FStart) => PrintT("@@" \o ToJson(sc))
L1 == {<<"A0">>, <<"A0", "B0">>, <<"A0", "A1">>, <<"A0", "A0">>}
==========================================================================
