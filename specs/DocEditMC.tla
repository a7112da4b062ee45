----------------------------- MODULE DocEditMC -----------------------------
(* Sessions that edit a schedule of a few steps with the same or different *)
(* labels; each step has one limit.                                        *)
EXTENDS DocEdit, Json
CONSTANTS Steps, MaxOps, Emit
S(i) == "Step" \o ToString(i)
Doc0(lab, lim) == FlattenSeq([i \in 1..Steps |->
     << Field(<<"Schedule", S(i), "m_szLabel">>, lab[i]), Field(<<"Schedule", S(i), "m_szCtrlValue">>, "1"),
        Field(<<"Schedule", S(i), "Limit0", "m_bStepLimit">>, lim[i][1]), Field(<<"Schedule", S(i), "Limit0", "Equation0_szLeft">>, lim[i][2]),
        Field(<<"Schedule", S(i), "Limit0", "Equation0_szCompareSign">>, "<"), Field(<<"Schedule", S(i), "Limit0", "Equation0_szRight">>, "0") >>])
Ops == {[op |-> "steps", label |-> l, key |-> k, v |-> v, mode |-> m] : l \in {"a", "b"}, k \in {"m_szCtrlValue", "m_szLabel"}, v \in {"a", "7"}, m \in {"first", "all"}}
       \cup {[op |-> "limits", label |-> l, var |-> x, sign |-> ">", v |-> "5"] : l \in {"a", "b"}, x \in {"x", "y"}}
       \cup {[op |-> "save"]}
VARIABLES doc0, doc, ops
Init == \E lab \in [1..Steps -> {"a", "b"}], lim \in [1..Steps -> {<<"1", "x">>, <<"0", "x">>, <<"1", "y">>}] :
           doc0 = Doc0(lab, lim) /\ doc = doc0 /\ ops = << >>
Next == Len(ops) < MaxOps /\ \E o \in Ops : ops' = Append(ops, o) /\ doc' = Apply(doc, o) /\ UNCHANGED doc0
Spec == Init /\ [][Next]_<<doc0, doc, ops>>
Changed(a, b) == {i \in Ix(a) : a[i] # b[i]}
(* the paths stay; one edit reaches one step only unless all are asked for, and within it only its own fields *)
Frame == \A o \in Ops : LET d == Apply(doc, o)
                            c == Changed(doc, d)
                        IN /\ Len(d) = Len(doc) /\ \A i \in Ix(d) : d[i].p = doc[i].p
                           /\ (o.op = "save" => c = {})
                           /\ (c # {} => Labelled(doc, o.label) # << >>)
                           /\ ((o.op = "limits" \/ (o.op = "steps" /\ o.mode = "first")) => \A i \in c : d[i].p[2] = Labelled(doc, o.label)[1])
                           /\ (o.op = "steps" => \A i \in c : d[i].p[3] = o.key)
                           /\ (o.op = "limits" => \A i \in c : Len(d[i].p) = 4 /\ d[i].p[4] \in {"Equation0_szCompareSign", "Equation0_szRight"})
Twice == \A o \in Ops : (o.op = "steps" => o.key # "m_szLabel") => Apply(Apply(doc, o), o) = Apply(doc, o)
Whole == doc = Edited(doc0, ops)
EmitRun == (Emit /\ ops # << >>) => PrintT("@@" \o ToJson([doc |-> doc0, ops |-> ops]))
=============================================================================
