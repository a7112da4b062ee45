---------------------------- MODULE TransferMC ------------------------------
(* The files are taken one by one through one folder on the local disk:     *)
(* fetched, rewritten to their new name, sent.  Sending may be refused.     *)
EXTENDS Transfer, Json
CONSTANTS MaxObj, Emit
Names == {<<"P", "a">>, <<"P", "b">>, <<"P", "a", "x">>, <<"Q", "a">>, <<"a", "P">>, <<"P", "P">>}
Heads == {<<"P">>, <<"d", "P", "P">>, <<>>}
Dirs == {"in", "below", "like"}
Excls == {<<>>, <<"x">>, <<"a", "x">>}
VARIABLES orig, src, test, dry, excl, todo, ph, k, local, sent, refused
vars == <<orig, src, test, dry, excl, todo, ph, k, local, sent, refused>>
Obj == {[dir |-> d, name |-> n, head |-> h, rest |-> 0] : d \in Dirs, n \in Names, h \in Heads}
Key(o) == <<o.dir, o.name>>
(* objects have keys of their own; what follows the first line tells them apart *)
Worlds == UNION {{[i \in 1..n |-> [s[i] EXCEPT !.rest = i]] : s \in {q \in [1..n -> {o \in Obj : (o.name[1] = "P" \/ o.head = <<"P">>) /\ (o.dir = "in" \/ o.name = <<"P", "a">>)}] :
                    \A a, b \in 1..n : a # b => Key(q[a]) # Key(q[b])}} : n \in 0..MaxObj}
Init == /\ src \in Worlds /\ orig = src /\ dry \in BOOLEAN /\ excl \in Excls /\ test = <<>>
        /\ todo = Listed(src, "in", excl) /\ ph = "fetch" /\ k = 1 /\ local = <<>> /\ sent = <<>> /\ refused = {}
L(n, h, r) == [dir |-> "local", name |-> n, head |-> h, rest |-> r]
Cur == todo[k]
Fetch == /\ ph = "fetch"
         /\ IF k > Len(todo) THEN ph' = "done" /\ UNCHANGED local
            ELSE ph' = "write" /\ local' = Put(local, L(Cur.name, Cur.head, Cur.rest))
         /\ UNCHANGED <<orig, src, test, dry, excl, todo, k, sent, refused>>
Got(n) == local[CHOOSE i \in At(local, "local", n) : TRUE]
Write == /\ ph = "write" /\ ph' = "send"
         /\ local' = Put(local, L(Ren(Cur.name), Ren(Got(Cur.name).head), Got(Cur.name).rest))
         /\ UNCHANGED <<orig, src, test, dry, excl, todo, k, sent, refused>>
Send == /\ ph = "send" /\ ph' = "fetch" /\ k' = k + 1
        /\ \E ok \in BOOLEAN :
             IF ok THEN LET g == Got(Ren(Cur.name)) o == [dir |-> Cur.dir, name |-> Ren(Cur.name), head |-> g.head, rest |-> g.rest] IN
                        /\ sent' = Append(sent, o) /\ UNCHANGED refused
                        /\ IF dry THEN test' = Put(test, o) /\ UNCHANGED src ELSE src' = Put(src, o) /\ UNCHANGED test
             ELSE refused' = refused \cup {k} /\ UNCHANGED <<sent, src, test>>
        /\ UNCHANGED <<orig, dry, excl, todo, local>>
Next == Fetch \/ Write \/ Send \/ (ph = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
(* everything sent is a listed file, under its new name and whole *)
SentIsMoved == \A i \in 1..Len(sent) : \E j \in 1..Len(todo) : sent[i] = Moved(todo[j])
AllArrive == ph = "done" => \A j \in 1..Len(todo) : j \notin refused => Moved(todo[j]) \in AsSet(IF dry THEN test ELSE src)
OnlyAsked == ph = "done" => Len(sent) = Len(todo) - Cardinality(refused)
(* no file of the project is lost or altered, and a dry run does not touch the bucket *)
OriginalsKept == \A j \in 1..Len(todo) : todo[j] \in AsSet(src)
DryRun == IF dry THEN src = orig ELSE test = <<>>
(* the order the files are taken in does not matter *)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
NewOnes == [j \in 1..Len(todo) |-> Moved(todo[j])]
AnyOrder == (ph = "done" /\ refused = {}) => AsSet(IF dry THEN test ELSE src) = AsSet(PutAll(IF dry THEN <<>> ELSE orig, Rev(NewOnes)))
(* nothing of the old name is left in what was sent *)
NoOldName == \A i \in 1..Len(sent) : ~Has(sent[i].name, "P") /\ ~Has(sent[i].head, "P")
EmitRun == Emit => ((ph = "fetch" /\ k = 1) => PrintT("@@" \o ToJson([objs |-> src, dry |-> dry, excl |-> excl])))
=============================================================================
