------------------------------ MODULE Transfer ------------------------------
(* C30: files of a bucket moved from one project to another.  A name and    *)
(* the first line of a file are sequences of words; the word "P" is the     *)
(* name of the project the files come from, "Q" that of the other one.  An  *)
(* object is [dir, name, head, rest]: head its first line, rest a number    *)
(* that stands for every byte after it.                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Ren(s) == [k \in 1..Len(s) |-> IF s[k] = "P" THEN "Q" ELSE s[k]]
Has(s, w) == \E k \in 1..Len(s) : s[k] = w
(* the files of the project: those that lie in its folder itself (not in   *)
(* one below, nor one whose name only begins like it), whose name begins   *)
(* with the project and holds none of the words to leave out               *)
Listed(objs, dir, excl) ==
  SelectSeq(objs, LAMBDA o : o.dir = dir /\ Len(o.name) > 0 /\ o.name[1] = "P" /\ \A k \in 1..Len(excl) : ~Has(o.name, excl[k]))
(* what arrives: same folder, everything after the first line as it was *)
Moved(o) == [dir |-> o.dir, name |-> Ren(o.name), head |-> Ren(o.head), rest |-> o.rest]
At(objs, d, n) == {k \in 1..Len(objs) : objs[k].dir = d /\ objs[k].name = n}
Put(objs, o) == LET S == At(objs, o.dir, o.name) IN
                IF S = {} THEN Append(objs, o) ELSE [k \in 1..Len(objs) |-> IF k \in S THEN o ELSE objs[k]]
RECURSIVE PutAll(_, _)
PutAll(objs, s) == IF s = <<>> THEN objs ELSE PutAll(Put(objs, Head(s)), Tail(s))
AsSet(s) == {s[k] : k \in 1..Len(s)}
=============================================================================
