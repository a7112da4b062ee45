---------------------------- MODULE S3InputsMC ------------------------------
(* The command goes through the paths given, fetches what is in the bucket  *)
(* and reads each input where it lies: each output must be of its own input *)
(* and local files must be left alone, whatever was fetched in between.     *)
EXTENDS S3Inputs, Json, SequencesExt
CONSTANTS MaxArgs, Emit
Chars(s) == s
KeyNames == <<Chars(<<"a","/","r","1","_","C","H","1",".","c","s","v">>), <<"a","/","x","/","r","3","_","C","H","2",".","c","s","v">>,
              <<"b","/","r","1","_","C","H","1",".","c","s","v">>, <<"r","2","_","C","H","1",".","c","s","v">>>>
LocalNames == <<(<<"i","n","/","r","1","_","C","H","1",".","c","s","v">>), <<"i","n","/","r","4","_","C","H","1",".","c","s","v">>,
                <<"r","2","_","C","H","1",".","c","s","v">>, <<"r","3","_","C","H","2",".","c","s","v">>>>
Patterns == {<<"*">>, <<"a","/","*">>, <<"*","r","1","*">>, <<"*","/","r","?","_","C","H","1",".","c","s","v">>, <<"n","o","*">>}
ArgNames == {KeyNames[k] : k \in 1..4} \cup {LocalNames[k] : k \in 1..4} \cup Patterns
Subs(q) == {SelectSeq(q, LAMBDA x : x \in S) : S \in SUBSET {q[k] : k \in 1..Len(q)}}
VARIABLES w, args, ph, ins, k, disk, outs
vars == <<w, args, ph, ins, k, disk, outs>>
Init == /\ w \in [keys : Subs(KeyNames), locals : Subs(LocalNames), cache : BOOLEAN]
        /\ \E n \in 1..MaxArgs : args \in [1..n -> ArgNames]
        /\ ph = "expand" /\ ins = <<>> /\ k = 1 /\ disk = <<>> /\ outs = <<>>
(* what lies at a place: the last one put there *)
At(d, p) == LET B == {j \in 1..Len(d) : d[j].at = p} IN IF B = {} THEN <<>> ELSE <<d[CHOOSE j \in B : \A i \in B : i <= j].of>>
Grow == /\ ph = "expand"
        /\ IF k <= Len(args) THEN ins' = ins \o Expand(w, args[k]) /\ k' = k + 1 /\ UNCHANGED <<ph, disk>>
           ELSE /\ UNCHANGED ins /\ k' = 1
                /\ ph' = (IF Missing(w, ins) \/ Overwrites(w, ins) THEN "refused" ELSE "fetch")
                /\ disk' = [j \in 1..Len(w.locals) |-> [at |-> Dest(w, Local(w.locals[j])[1]), of |-> Local(w.locals[j])[1]]]
        /\ UNCHANGED <<w, args, outs>>
Fetch == /\ ph = "fetch"
         /\ IF k <= Len(ins) THEN /\ disk' = (IF ins[k].s3 THEN Append(disk, [at |-> Dest(w, ins[k]), of |-> ins[k]]) ELSE disk)
                                  /\ k' = k + 1 /\ UNCHANGED ph
            ELSE ph' = "read" /\ k' = 1 /\ UNCHANGED disk
         /\ UNCHANGED <<w, args, ins, outs>>
Read == /\ ph = "read"
        /\ IF k <= Len(ins) THEN outs' = Append(outs, At(disk, Dest(w, ins[k]))) /\ k' = k + 1 /\ UNCHANGED ph
           ELSE ph' = "done" /\ UNCHANGED <<outs, k>>
        /\ UNCHANGED <<w, args, ins, disk>>
Next == Grow \/ Fetch \/ Read \/ (ph \in {"done", "refused"} /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
(* each output is made of its own input *)
OwnOutput == ph = "done" => Len(outs) = Len(ins) /\ \A j \in 1..Len(ins) : outs[j] = <<ins[j]>>
SameInputs == ph \in {"fetch", "read", "done"} => ins = Inputs(w, args)
(* local files asked for are never replaced *)
LocalKept == ph \in {"read", "done"} => \A j \in 1..Len(ins) : ~ins[j].s3 => At(disk, Dest(w, ins[j])) = <<ins[j]>>
(* a command without anything in the bucket works on local files as ever *)
NoBucket == ph = "done" /\ w.keys = <<>> => \A j \in 1..Len(ins) : ~ins[j].s3 /\ ins[j].name = args[j]
(* more keys never take away a local file *)
Priority == ph = "done" => \A j \in 1..Len(args) : In(args[j], w.locals) => In(Local(args[j])[1], ins)
EmitRun == Emit => (ph \in {"done", "refused"} => PrintT("@@" \o ToJson([keys |-> w.keys, locals |-> w.locals, cache |-> w.cache, args |-> args, r |-> ph = "refused"])))
=============================================================================
