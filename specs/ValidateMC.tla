----------------------------- MODULE ValidateMC ---------------------------
(* All data sets of up to two columns and MaxLen rows under all schemas of *)
(* a family that exercises every kind of rule.                             *)
EXTENDS Validate, Json
CONSTANTS MaxLen
VARIABLES D, S, ph
vars == <<D, S, ph>>
Vals == {NA, -10, 0, 5, 10, 20}
Rules == {[R("a", ty, mx, mn) EXCEPT !.reach = rc, !.below = bl, !.mono = mo] :
            ty \in {"", "integer", "float"}, mx \in {NA, 10}, mn \in {NA, 0}, rc \in {NA, 10}, bl \in {NA, 0}, mo \in BOOLEAN}
TypeRules == {R("a", ty, NA, NA) : ty \in {"integer", "float", "numeric", "string"}}
Second == {<< >>, << R("b", "float", 10, 0) >>}
Init == D = << >> /\ S = << >> /\ ph = "pick"
Choose == /\ ph = "pick" /\ ph' = "go"
          /\ \E r \in Rules \cup TypeRules, s2 \in Second, k \in {"float", "int", "str"} :
               /\ (k = "str" => r \in TypeRules)
               /\ S' = <<r>> \o s2
               /\ \E cols \in {"a", "ab", "b"} :
                    D' = (IF cols \in {"a", "ab"} THEN << [name |-> "a", kind |-> k, vals |-> << >>] >> ELSE << >>) \o
                         (IF cols \in {"b", "ab"} THEN << [name |-> "b", kind |-> "float", vals |-> << >>] >> ELSE << >>)
Extend(c, v) == [c EXCEPT !.vals = Append(@, v)]
Row == /\ ph = "go" /\ D # << >> /\ Len(D[1].vals) < MaxLen
       /\ \E v \in (IF D[1].kind = "int" THEN {-10, 0, 10, 20} ELSE Vals), w \in {0, 20} :
            D' = [i \in Ix(D) |-> IF D[i].name = "a" THEN Extend(D[i], v) ELSE Extend(D[i], w)]
       /\ UNCHANGED <<S, ph>>
Next == Choose \/ Row
Spec == Init /\ [][Next]_vars
Rev(s) == [i \in Ix(s) |-> s[Len(s) + 1 - i]]
(* Validity is decided column by column ... *)
ColumnWise == Valid(D, S) = \A i \in Ix(S) : Valid(D, <<S[i]>>)
(* ... does not depend on the order of the schema or of the columns, nor of the rows where order is not at issue *)
OrderFree == /\ Valid(D, Rev(S)) = Valid(D, S) /\ Valid(Rev(D), S) = Valid(D, S)
             /\ (\A i \in Ix(S) : ~S[i].mono) => Valid([i \in Ix(D) |-> [D[i] EXCEPT !.vals = Rev(@)]], S) = Valid(D, S)
(* every failure can be explained *)
Explained == \A i \in Ix(S) : \A k \in Fails(D, S[i]) :
                k \in {"missing", "type", "mono"} \/ Culprits(Col(D, S[i].col), S[i], k) # {}
(* loosening a limit never refuses more *)
Loosen == \A i \in Ix(S) : Valid(D, S) => Valid(D, [S EXCEPT ![i].max = NA])
(* data that leave the limits stay invalid whatever follows *)
Persistent == [][ph = "go" /\ (\E i \in Ix(S) : Fails(D, S[i]) \cap {"max", "min", "mono", "type"} # {}) => ~Valid(D', S')]_vars
EmitRun == (ph = "go" /\ D # << >> /\ Len(D[1].vals) = MaxLen) => PrintT("@@" \o ToJson([D |-> D, S |-> S]))
============================================================================
