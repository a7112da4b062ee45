------------------------------ MODULE SpliceMC ------------------------------
(* A test writes a counter that only grows, is interrupted and goes on in   *)
(* a new file, with the counter started again or not.                      *)
EXTENDS Splice, Json
CONSTANTS MaxParts, MaxRows, Top, Emit
VARIABLES parts, true          \* the files so far; the counter as it would be without interruptions
Init == \E x \in 0..1 : parts = <<<<x>>>> /\ true = <<x>>
Row == /\ Len(Last(parts)) < MaxRows
       /\ \E d \in 0..1 : /\ Last(true) + d <= Top
                          /\ parts' = [parts EXCEPT ![Len(parts)] = Append(@, Last(@) + d)]
                          /\ true' = Append(true, Last(true) + d)
Interrupt == /\ Len(parts) < MaxParts
             /\ \/ \E x \in 0..(Last(Last(parts)) - 1) : /\ Last(true) + x <= Top        \* started again, at x
                                                         /\ parts' = Append(parts, <<x>>) /\ true' = Append(true, Last(true) + x)
                \/ \E d \in 0..1 : /\ Last(true) + d <= Top                              \* not started again
                                   /\ Last(Last(parts)) = Last(true)
                                   /\ parts' = Append(parts, <<Last(true) + d>>) /\ true' = Append(true, Last(true) + d)
Next == Row \/ Interrupt
Spec == Init /\ [][Next]_<<parts, true>>
OneRun == JoinAll(parts) = true                        \* the spliced file is that of the test without the interruption
Grows == Rising(JoinAll(parts))
EmitRun == (Emit /\ Len(parts) > 1) => PrintT("@@" \o ToJson(parts))
=============================================================================
