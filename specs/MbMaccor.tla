------------------------------ MODULE MbMaccor ------------------------------
(* C08: a BioLogic Modulo Bat program as a Maccor procedure.               *)
(* Sequences: "M" measures until one of its limits is met, which goes to   *)
(* the next sequence, to another one or to the end; "L" goes back to       *)
(* sequence `to' (from 0) `rep' times.  Steps: "M", "D" (do), "A" (advance *)
(* the cycle), "L" (repeat from the do until the n-th pass), "E" (end).    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Ix(s) == 1..Len(s)
Blank(p, i) == p[i].k = "L" /\ p[i].rep = 0
(* an empty loop, gone back to once, only advances the cycle *)
Advances(p, i) == i > 1 /\ p[i].k = "L" /\ p[i].rep > 0 /\ p[i].to = i - 2 /\ Blank(p, i - 1)
Loops(p, i) == p[i].k = "L" /\ p[i].rep > 0 /\ ~Advances(p, i)
(* ---- the BioLogic machine ---- *)
RECURSIVE BTo(_, _)
BTo(p, b) ==
  IF b.si > Len(p) \/ p[b.si].k = "M" THEN b
  ELSE IF Blank(p, b.si) THEN BTo(p, [b EXCEPT !.si = @ + 1])
  ELSE IF Advances(p, b.si) THEN BTo(p, [b EXCEPT !.si = @ + 1, !.adv = @ + 1])
  ELSE IF b.cnt[b.si] < p[b.si].rep
  THEN BTo(p, [b EXCEPT !.si = p[b.si].to + 1, !.cnt[b.si] = @ + 1, !.adv = @ + 1])
  ELSE BTo(p, [b EXCEPT !.cnt[b.si] = 0, !.si = @ + 1, !.adv = @ + 1])
BStart(p) == BTo(p, [si |-> 1, cnt |-> [i \in Ix(p) |-> 0], adv |-> 0])
BEnded(p, b) == b.si > Len(p)
BFire(p, b, j) == LET l == p[b.si].lims[j] IN
                  BTo(p, [b EXCEPT !.adv = 0, !.si = IF l.act = "next" THEN b.si + 1 ELSE IF l.act = "end" THEN Len(p) + 1 ELSE l.seq + 1])
(* ---- the Maccor machine ---- *)
RECURSIVE Do(_, _)
Do(s, i) == IF i = 0 THEN 0 ELSE IF s[i].k = "D" THEN i ELSE Do(s, i - 1)
RECURSIVE MTo(_, _)
MTo(s, m) ==
  IF m.pc > Len(s) \/ m.pc < 1 THEN m
  ELSE CASE s[m.pc].k \in {"M", "E"} -> m
         [] s[m.pc].k = "D" -> MTo(s, [m EXCEPT !.pc = @ + 1, !.c = 1])
         [] s[m.pc].k = "A" -> MTo(s, [m EXCEPT !.pc = @ + 1, !.adv = @ + 1])
         [] OTHER -> IF m.c = 0 THEN [m EXCEPT !.pc = 0]       \* no loop is open
                     ELSE IF m.c < s[m.pc].n THEN MTo(s, [m EXCEPT !.pc = Do(s, m.pc) + 1, !.c = @ + 1])
                     ELSE MTo(s, [m EXCEPT !.pc = @ + 1, !.c = 0])
MStart(s) == MTo(s, [pc |-> 1, c |-> 0, adv |-> 0])
MEnded(s, m) == m.pc \in Ix(s) /\ s[m.pc].k = "E"
MFire(s, m, j) == MTo(s, [m EXCEPT !.adv = 0, !.pc = s[m.pc].ends[j].go])
(* ---- both do the same, whichever limit is met ---- *)
Same(p, s, b, m) == IF BEnded(p, b) \/ MEnded(s, m) THEN (IF BEnded(p, b) /\ MEnded(s, m) THEN "" ELSE IF MEnded(s, m) THEN "stops-early" ELSE "runs-past-end")
                    ELSE IF m.pc \notin Ix(s) THEN "lost"
                    ELSE IF s[m.pc].src # b.si THEN "wrong-step"
                    ELSE IF b.adv # m.adv THEN "cycle-advance"
                    ELSE IF Len(p[b.si].lims) # Len(s[m.pc].ends) THEN "end-condition-count" ELSE ""
RECURSIVE Run(_, _, _, _)
Run(p, s, new, old) ==
  IF new = {} THEN ""
  ELSE LET bad == {x \in new : Same(p, s, x[1], x[2]) # ""} IN
       IF bad # {} THEN LET x == CHOOSE x \in bad : TRUE IN Same(p, s, x[1], x[2])
       ELSE LET after == UNION {IF BEnded(p, x[1]) THEN {} ELSE {<<BFire(p, x[1], j), MFire(s, x[2], j)>> : j \in Ix(p[x[1].si].lims)} : x \in new}
            IN Run(p, s, after \ (old \cup new), old \cup new)
Lockstep(p, s) == Run(p, s, {<<BStart(p), MStart(s)>>}, {})
(* ---- which programs must be converted ---- *)
Inside(p, i) == {j \in Ix(p) : Loops(p, j) /\ p[j].to + 1 <= i /\ i <= j}
Disjoint(p) == \A j \in Ix(p) : p[j].k = "L" /\ p[j].rep > 0 =>
                 /\ p[j].to + 1 < j /\ (Loops(p, j) => p[p[j].to + 1].k = "M")
                 /\ \A i \in Ix(p) : i # j /\ p[i].k = "L" /\ p[i].rep > 0 => (i < p[j].to + 1 \/ j < p[i].to + 1)
LastEnd(p, i) == LET s == {j \in 1..(i - 1) : p[j].k = "L" /\ p[j].rep > 0} IN IF s = {} THEN 0 ELSE CHOOSE j \in s : \A k \in s : k <= j
(* into the own loop, out of it forward, or to the first sequence of a loop; never back over a loop *)
GotoOK(p, i, g) == /\ g \in Ix(p) /\ ~Blank(p, g) /\ ~Advances(p, g) /\ g > LastEnd(p, i)
                   /\ Inside(p, i) # {} /\ Inside(p, g) = {} => g > i
                   /\ Inside(p, g) # {} /\ Inside(p, g) # Inside(p, i) => \A j \in Inside(p, g) : g = p[j].to + 1 /\ g > i
Convertible(p) == /\ Disjoint(p)
                  /\ \A i \in Ix(p) : p[i].k = "M" => \A j \in Ix(p[i].lims) : p[i].lims[j].act = "goto" => GotoOK(p, i, p[i].lims[j].seq + 1)
(* leaving a loop backwards: BioLogic's count of passes is not specified *)
Specified(p) == \A i \in Ix(p) : p[i].k = "M" => \A j \in Ix(p[i].lims) :
                  p[i].lims[j].act = "goto" => LET g == p[i].lims[j].seq + 1 IN ~(Inside(p, i) # {} /\ g < i /\ (Inside(p, i) \ Inside(p, g)) # {})
(* ---- the conversion ---- *)
First(p, i) == \E j \in Ix(p) : Loops(p, j) /\ p[j].to + 1 = i
Width(p, i) == IF Blank(p, i) THEN 0 ELSE IF Advances(p, i) THEN 1 ELSE IF p[i].k = "L" THEN 2 ELSE IF First(p, i) THEN 2 ELSE 1
RECURSIVE Before(_, _)
Before(p, i) == IF i <= 1 THEN 0 ELSE Before(p, i - 1) + Width(p, i - 1)
At(p, i) == Before(p, i) + (IF i <= Len(p) /\ First(p, i) THEN 2 ELSE 1)      \* the step of a sequence
Enter(p, i) == Before(p, i) + 1                                               \* with the do before it
Go(p, i, l) == IF l.act = "end" THEN Before(p, Len(p) + 1) + 1
               ELSE IF l.act = "next" THEN At(p, i) + 1
               ELSE IF Inside(p, l.seq + 1) = Inside(p, i) THEN At(p, l.seq + 1) ELSE Enter(p, l.seq + 1)
Plain(k) == [k |-> k, src |-> 0, n |-> 0, ends |-> << >>]
Steps(p, i) == IF Blank(p, i) THEN << >>
               ELSE IF Advances(p, i) THEN <<Plain("A")>>
               ELSE IF p[i].k = "L" THEN <<Plain("A"), [Plain("L") EXCEPT !.n = p[i].rep + 1]>>
               ELSE (IF First(p, i) THEN <<Plain("D")>> ELSE << >>)
                    \o <<[Plain("M") EXCEPT !.src = i, !.ends = [j \in Ix(p[i].lims) |-> [go |-> Go(p, i, p[i].lims[j])]]]>>
Converted(p) == FoldLeft(LAMBDA acc, i : acc \o Steps(p, i), << >>, [i \in Ix(p) |-> i]) \o <<Plain("E")>>
=============================================================================
