--------------------------- MODULE ProcScheduleMC ---------------------------
(* every procedure of up to MaxLen steps with nested loops and gotos       *)
EXTENDS ProcSchedule, Json
CONSTANTS MaxLen, Counts, Emit
VARIABLES p, open, len
Step(k, lev, n, ends) == [k |-> k, lev |-> lev, n |-> n, ends |-> ends]
End(go) == [go |-> go]
Init == p = << >> /\ open = 0 /\ len \in 2..MaxLen
Left == len - 1 - Len(p)
(* gotos forward to any step, or back within the same body *)
Here == Len(p) + 1
Back == {i \in 1..Here : open = 0 \/ i > Do(p, Len(p), open)} \ {i \in 1..Here : \E j \in i..Len(p) : p[j].k \in {"D", "L"}}
Targets == Back \cup {len}
Add(s) == p' = Append(p, s) /\ UNCHANGED len
Next == \/ /\ Left > open /\ UNCHANGED open
           /\ \/ Add(Step("A", 0, 0, << >>))
              \/ \E g \in Targets : Add(Step("M", 0, 0, <<End(Here + 1)>> \o (IF g = Here + 1 THEN << >> ELSE <<End(g)>>)))
        \/ /\ Left > open + 1 /\ open < 2 /\ Add(Step("D", open + 1, 0, << >>)) /\ open' = open + 1
        \/ /\ Left > 0 /\ open > 0 /\ \E n \in Counts : Add(Step("L", open, n, <<End(Here + 1)>>)) /\ open' = open - 1
        \/ /\ Left = 0 /\ Len(p) = len - 1 /\ Add(Step("E", 0, 0, << >>)) /\ UNCHANGED open
Spec == Init /\ [][Next]_<<p, open, len>>
Done == Len(p) = len
Bisimilar == Done => Lockstep(p, Converted(p), 1000) = ""
EmitRun == Done /\ Emit => PrintT("@@" \o ToJson([prog |-> p]))
=============================================================================
