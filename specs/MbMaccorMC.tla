----------------------------- MODULE MbMaccorMC -----------------------------
(* every program of up to MaxLen sequences *)
EXTENDS MbMaccor, Json
CONSTANTS MaxLen, Reps, Emit
VARIABLES p, done
Lims(n) == {[act |-> a, seq |-> 0] : a \in {"next", "end"}} \cup {[act |-> "goto", seq |-> g] : g \in 0..(n - 1)}
Init == /\ done = FALSE
        /\ \E n \in 1..MaxLen : p = [i \in 1..n |-> [k |-> "-", rep |-> 0, to |-> 0, lims |-> << >>]]
Open == {i \in Ix(p) : p[i].k = "-"}
Next == IF Open = {} THEN done = FALSE /\ done' = TRUE /\ UNCHANGED p
        ELSE LET i == CHOOSE i \in Open : \A j \in Open : i <= j IN
             /\ UNCHANGED done
             /\ \/ \E l \in Lims(Len(p)) : p' = [p EXCEPT ![i] = [k |-> "M", rep |-> 0, to |-> 0, lims |-> <<[act |-> "next", seq |-> 0], l>>]]
                \/ \E r \in Reps, t \in 0..(i - 1) : (r > 0 \/ t = 0) /\ p' = [p EXCEPT ![i] = [k |-> "L", rep |-> r, to |-> t, lims |-> << >>]]
Spec == Init /\ [][Next]_<<p, done>>
(* what must be converted can be, and the converted program does the same *)
Bisimilar == done /\ Convertible(p) => Specified(p) /\ Lockstep(p, Converted(p)) = ""
EmitRun == done /\ Emit => PrintT("@@" \o ToJson([prog |-> p, conv |-> Convertible(p)]))
=============================================================================
