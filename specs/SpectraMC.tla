------------------------------ MODULE SpectraMC -----------------------------
(* Every history of writing, removing, loading, saving and reading back.    *)
EXTENDS Spectra, Json
CONSTANTS MaxV, Depth, Emit
Kinds == <<"mine", "deep", "other">>
VARIABLES s, hist, last, prev
vars == <<s, hist, last, prev>>
F == 1..Len(Kinds)
Op(o, f, fs) == [op |-> o, f |-> f, fs |-> fs]
Orders(S) == {q \in [1..Cardinality(S) -> S] : \A a, b \in 1..Cardinality(S) : a # b => q[a] # q[b]}
Rise(S) == CHOOSE q \in Orders(S) : \A a \in 1..Cardinality(S) - 1 : q[a] < q[a + 1]
Givens == {<<f>> : f \in F} \cup {<<f, g>> : f, g \in F}
Ops == {Op("write", f, <<>>) : f \in {g \in F : s.top[g] < MaxV}} \cup {Op("remove", f, <<>>) : f \in {g \in F : Here(s, g)}}
       \cup {Op("given", 1, fs) : fs \in Givens}
       \cup {Op("all", 1, q) : q \in IF Emit THEN {Rise(Found(s, Kinds))} ELSE Orders(Found(s, Kinds))}
       \cup (IF s.has THEN {Op("save", 1, <<>>)} ELSE {}) \cup (IF s.saved THEN {Op("reload", 1, <<>>)} ELSE {})
Init == s = Start(Kinds) /\ hist = <<>> /\ last = Op("none", 1, <<>>) /\ prev = s
Next == /\ IF Emit THEN Len(hist) < Depth ELSE TRUE
        /\ \E o \in Ops : s' = Step(s, o) /\ last' = o /\ prev' = s /\ hist' = IF Emit THEN Append(hist, o) ELSE hist
Spec == Init /\ [][Next]_vars
(* a spectrum for every path, in the same order, of a version that was there *)
Paired == s.has => /\ Len(s.spectra) = Len(s.paths)
                   /\ \A k \in 1..Len(s.paths) : s.spectra[k].f = s.paths[k] /\ s.spectra[k].v \in 1..s.top[s.paths[k]]
(* finding them by name takes all of the run's and no other *)
AllMine == last.op = "all" => {s.paths[k] : k \in 1..Len(s.paths)} = Found(s, Kinds) /\ \A k \in 1..Len(s.paths) : s.spectra[k].v = s.ver[s.paths[k]]
(* a failing load leaves what was loaded as it was; files change nothing until loaded again *)
Same(a, b) == <<a.has, a.spectra, a.known, a.paths>> = <<b.has, b.spectra, b.known, b.paths>>
Atomic == (last.op \in {"write", "remove", "save"} \/ (last.op = "given" /\ Fails(prev, last))) => Same(s, prev)
Back == last.op = "reload" => s.paths = prev.spaths /\ ~s.has
EmitRun == (Emit /\ Len(hist) = Depth) => PrintT("@@" \o ToJson([kinds |-> Kinds, ops |-> hist]))
=============================================================================
