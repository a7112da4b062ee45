------------------------------ MODULE S3Inputs ------------------------------
(* C28: the files a structure command with an S3 bucket works on.  Names    *)
(* are sequences of characters.  A world is [keys, locals, cache]: the keys *)
(* of the bucket in the order they are listed, the local paths that exist   *)
(* (as they can be given), and whether objects go to the cache rather than  *)
(* to the working directory.                                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
RECURSIVE Match(_, _)
Match(p, s) == IF p = <<>> THEN s = <<>>
               ELSE IF Head(p) = "*" THEN Match(Tail(p), s) \/ (s # <<>> /\ Match(p, Tail(s)))
               ELSE s # <<>> /\ (Head(p) = "?" \/ Head(p) = Head(s)) /\ Match(Tail(p), Tail(s))
Has(n, c) == \E k \in 1..Len(n) : n[k] = c
LastAt(n, c) == LET B == {k \in 1..Len(n) : n[k] = c} IN IF B = {} THEN 0 ELSE CHOOSE k \in B : \A j \in B : j <= k
Base(n) == SubSeq(n, LastAt(n, "/") + 1, Len(n))
(* without its last extension *)
Stem(n) == LET b == Base(n) d == LastAt(b, ".") IN IF d > 1 THEN SubSeq(b, 1, d - 1) ELSE b
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
In(x, s) == \E k \in 1..Len(s) : s[k] = x
----------------------------------------------------------------------------
(* A path given stands for the local file of that name if there is one,     *)
(* else for the key of that name, or for all keys it matches as a pattern.  *)
Local(n) == <<[s3 |-> FALSE, name |-> n]>>
Stored(ns) == [k \in 1..Len(ns) |-> [s3 |-> TRUE, name |-> ns[k]]]
Expand(w, a) == IF In(a, w.locals) THEN Local(a)
                ELSE IF Has(a, "*") THEN (LET ks == SelectSeq(w.keys, LAMBDA k : Match(a, k)) IN IF ks = <<>> THEN Local(a) ELSE Stored(ks))
                ELSE IF In(a, w.keys) THEN Stored(<<a>>) ELSE Local(a)
Inputs(w, args) == Flat([k \in 1..Len(args) |-> Expand(w, args[k])])
(* where an input lies when it is structured *)
Dest(w, x) == IF x.s3 THEN (IF w.cache THEN <<"cache", Base(x.name)>> ELSE <<"cwd", Base(x.name)>>)
              ELSE IF Has(x.name, "/") THEN <<"elsewhere", x.name>> ELSE <<"cwd", x.name>>
Missing(w, ins) == \E k \in 1..Len(ins) : ~ins[k].s3 /\ ~In(ins[k].name, w.locals)
Overwrites(w, ins) == \E k, j \in 1..Len(ins) : ins[k] # ins[j] /\ Dest(w, ins[k]) = Dest(w, ins[j])
(* outputs named automatically would be the same *)
Collides(w, ins) == \E k, j \in 1..Len(ins) : ins[k] # ins[j] /\ Stem(ins[k].name) = Stem(ins[j].name)
(* named: number of output names given, 0 when they are made of the inputs *)
Refused(w, args, named) == LET ins == Inputs(w, args) IN
  Missing(w, ins) \/ Overwrites(w, ins) \/ (IF named > 0 THEN named # Len(ins) ELSE Collides(w, ins))
=============================================================================
