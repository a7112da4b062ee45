-------------------------- MODULE DatapathLifeMC --------------------------
EXTENDS DatapathLife, TLC, Json
CONSTANTS MaxLen, Emit
VARIABLES d, files, hist
vars == <<d, files, hist>>
Ops == {[k |-> "setdiag", a |-> x] : x \in {"d1", "d2", None}} \cup {[k |-> "structure", a |-> x] : x \in {"p1", "p2"}}
       \cup {[k |-> x, a |-> None] : x \in {"badstructure", "unstructure", "life", "validate"}}
       \cup {[k |-> x, a |-> f] : x \in {"save", "savelean", "load", "mload"}, f \in {1, 2}}
Init == d = Blank /\ files = <<[Blank EXCEPT !.file = 0], [Blank EXCEPT !.file = 0]>> /\ hist = << >>
Next == /\ Len(hist) < MaxLen
        /\ \E op \in Ops : /\ Enabled(files, op)
                           /\ op.k = "load" => op.a = 1 \/ files[2] # files[1]
                           /\ d' = OpEffect(d, files, op)
                           /\ files' = FileEffect(d, files, op)
                           /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_vars
(* parameters are recorded exactly while there are results, and are theirs *)
ParMatch == Structured(d) = (d.par # None) /\ (Structured(d) => d.res[1] = d.par)
(* raw data are never lost except by loading a lean file; files hold what was saved *)
RawKept == d.raw \/ d.file # 0
ReadOnly == [][~d.raw /\ ~d'.raw /\ d.file = d'.file => d'.res = d.res \/ \E f \in 1..2 : d' = files[f]]_vars
SaveFaithful == [][\A f \in 1..2 : files'[f] # files[f] => files'[f].res = d.res /\ files'[f].par = d.par /\ files'[f].diag = d.diag]_vars
View == <<d, files>>
EmitInv == IF Emit /\ Len(hist) = MaxLen THEN PrintT("@@" \o ToJson([h |-> hist])) ELSE TRUE
==========================================================================
