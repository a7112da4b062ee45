------------------------- MODULE CyclerPrograms -------------------------
(* Two cycler instruments as abstract machines.                           *)
(*                                                                        *)
(* A Maccor procedure is a sequence of steps                              *)
(*   "M"  a measurement step (rest / charge / discharge)                  *)
(*   "S"  a measurement step with a limit: constant current up to the     *)
(*        limit, then a hold at the limit (two phases, one step)          *)
(*   "A"  advance the cycle counter                                       *)
(*   "D1" .. "L1", "D2" .. "L2"   a loop executed n times (level 1 / 2)   *)
(*                                                                        *)
(* A BioLogic settings file is a sequence of techniques, each a list of   *)
(* numbered sequences: measurements, or a loop ("L") that jumps back to   *)
(* sequence `to' `rep' times; a technique as a whole may be repeated.     *)
(* BioLogic has no cycle counter: it is reconstructed from the observed   *)
(* (technique, technique pass, sequence) stream with advancement rules.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

IsMeas(k) == k \in {"M", "S"}
Max2(a, b) == IF a > b THEN a ELSE b

--------------------------------------------------------------------------
(* Maccor machine: [pc, part, cyc, c1, c2]; halted when pc > Len(prog).   *)
(* MTo runs from pc to the next measurement.                              *)

LoopStart(prog, i, k) ==   \* the innermost Do of the given level before i
  CHOOSE d \in 1..(i-1) : prog[d].k = k /\ \A e \in (d+1)..(i-1) : prog[e].k # k

RECURSIVE MTo(_, _)
MTo(prog, m) ==
  IF m.pc > Len(prog) THEN m
  ELSE LET s == prog[m.pc] IN
    CASE s.k = "M" -> [m EXCEPT !.part = 0]
      [] s.k = "S" -> [m EXCEPT !.part = 1]
      [] s.k = "A" -> MTo(prog, [m EXCEPT !.pc = @ + 1, !.cyc = @ + 1])
      [] s.k = "D1" -> MTo(prog, [m EXCEPT !.pc = @ + 1, !.c1 = 1])
      [] s.k = "D2" -> MTo(prog, [m EXCEPT !.pc = @ + 1, !.c2 = 1])
      [] s.k = "L1" -> IF m.c1 < s.n
                       THEN MTo(prog, [m EXCEPT !.pc = LoopStart(prog, m.pc, "D1") + 1, !.c1 = @ + 1])
                       ELSE MTo(prog, [m EXCEPT !.pc = @ + 1])
      [] s.k = "L2" -> IF m.c2 < s.n
                       THEN MTo(prog, [m EXCEPT !.pc = LoopStart(prog, m.pc, "D2") + 1, !.c2 = @ + 1])
                       ELSE MTo(prog, [m EXCEPT !.pc = @ + 1])

MStart(prog) == MTo(prog, [pc |-> 1, part |-> 0, cyc |-> 1, c1 |-> 0, c2 |-> 0])
MStep(prog, m) == IF m.part = 1 THEN [m EXCEPT !.part = 2]
                  ELSE MTo(prog, [m EXCEPT !.pc = @ + 1])
MHalted(prog, m) == m.pc > Len(prog)

--------------------------------------------------------------------------
(* BioLogic machine.  A technique is                                      *)
(*  [loops, nt, seqs, start, onloop, trans]                               *)
(*  seqs[i] = [k |-> "M"|"L", src, part, rep, to]; trans = << [s,t,c] >>  *)
(* Machine state [ti, si, pass, cnt, cyc]; si counts from 0.              *)

Passes(t) == IF t.loops THEN Max2(t.nt, 1) ELSE 1

RECURSIVE BTo(_, _)
BTo(ts, b) ==
  IF b.ti > Len(ts) THEN b
  ELSE LET t == ts[b.ti] IN
    IF b.si >= Len(t.seqs)
    THEN IF b.pass + 1 < Passes(t)
         THEN BTo(ts, [b EXCEPT !.si = 0, !.pass = @ + 1, !.cnt = [i \in 1..Len(t.seqs) |-> 0]])
         ELSE BTo(ts, [b EXCEPT !.ti = @ + 1, !.si = 0, !.pass = 0,
                       !.cnt = IF b.ti + 1 > Len(ts) THEN << >>
                               ELSE [i \in 1..Len(ts[b.ti + 1].seqs) |-> 0]])
    ELSE LET q == t.seqs[b.si + 1] IN
      IF q.k # "L" THEN b
      ELSE IF b.cnt[b.si + 1] < q.rep
           THEN BTo(ts, [b EXCEPT !.cnt[b.si + 1] = @ + 1, !.si = q.to])
           ELSE BTo(ts, [b EXCEPT !.cnt[b.si + 1] = 0, !.si = @ + 1])

BHalted(ts, b) == b.ti > Len(ts)

RECURSIVE TransCount(_, _, _)
TransCount(tr, s, t) ==    \* a later entry for the same pair replaces an earlier one
  IF tr = << >> THEN 0
  ELSE LET l == tr[Len(tr)] IN
       IF l.s = s /\ l.t = t THEN l.c ELSE TransCount(SubSeq(tr, 1, Len(tr) - 1), s, t)

(* the cycle number assigned to the row at b2 given the previous row b1   *)
Reconstruct(ts, b1, b2) ==
  IF BHalted(ts, b2) THEN b1.cyc
  ELSE IF b2.ti # b1.ti THEN b1.cyc + ts[b2.ti].start
  ELSE IF b2.pass # b1.pass THEN b1.cyc + ts[b2.ti].onloop
  ELSE IF b2.si # b1.si THEN b1.cyc + TransCount(ts[b2.ti].trans, b1.si, b2.si)
  ELSE b1.cyc

BStart(ts) == LET b == BTo(ts, [ti |-> 1, si |-> 0, pass |-> 0, cyc |-> 1,
                                cnt |-> [i \in 1..Len(ts[1].seqs) |-> 0]]) IN
              IF BHalted(ts, b) THEN b ELSE [b EXCEPT !.cyc = 1 + ts[b.ti].start]
BStep(ts, b) == LET b2 == BTo(ts, [b EXCEPT !.si = @ + 1]) IN
                [b2 EXCEPT !.cyc = Reconstruct(ts, b, b2)]

--------------------------------------------------------------------------
(* The reference conversion.                                              *)

MatchLoop(prog, d, k) == CHOOSE l \in (d+1)..Len(prog) : prog[l].k = k /\ \A e \in (d+1)..(l-1) : prog[e].k # k

(* level-1 loops that contain a level-2 loop become looping techniques    *)
Nested(prog, d) == prog[d].k = "D1" /\ \E e \in (d+1)..(MatchLoop(prog, d, "L1") - 1) : prog[e].k = "D2"

RECURSIVE Segments(_, _, _)
Segments(prog, i, from) ==  \* << [from, to, loops, nt] >>: bodies of the techniques
  IF i > Len(prog) THEN IF from <= Len(prog) THEN << [from |-> from, to |-> Len(prog), loops |-> FALSE, nt |-> 0] >> ELSE << >>
  ELSE IF prog[i].k = "D1" /\ Nested(prog, i)
       THEN LET l == MatchLoop(prog, i, "L1") IN
            (IF from < i THEN << [from |-> from, to |-> i - 1, loops |-> FALSE, nt |-> 0] >> ELSE << >>)
            \o << [from |-> i + 1, to |-> l - 1, loops |-> TRUE, nt |-> prog[l].n] >>
            \o Segments(prog, l + 1, l + 1)
       ELSE Segments(prog, i + 1, from)

RECURSIVE SeqsOf(_, _, _, _, _)
SeqsOf(prog, i, to, acc, open) ==   \* open: seq number at the last Do
  IF i > to THEN acc
  ELSE LET s == prog[i] IN
    CASE s.k = "M" -> SeqsOf(prog, i + 1, to, Append(acc, [k |-> "M", src |-> i, part |-> 0, rep |-> 0, to |-> 0]), open)
      [] s.k = "S" -> SeqsOf(prog, i + 1, to, acc \o << [k |-> "M", src |-> i, part |-> 1, rep |-> 0, to |-> 0],
                                                       [k |-> "M", src |-> i, part |-> 2, rep |-> 0, to |-> 0] >>, open)
      [] s.k = "A" -> SeqsOf(prog, i + 1, to, acc, open)
      [] s.k \in {"D1", "D2"} -> SeqsOf(prog, i + 1, to, acc, Len(acc))
      [] OTHER -> SeqsOf(prog, i + 1, to, Append(acc, [k |-> "L", src |-> i, part |-> 0, rep |-> Max2(s.n - 1, 0), to |-> open]), open)

Advs(prog, a, b) == Cardinality({i \in a..b : prog[i].k = "A"})
Meas(prog, a, b) == {i \in a..b : IsMeas(prog[i].k)}
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y

FirstSeq(seqs, step) == (CHOOSE j \in 1..Len(seqs) : seqs[j].src = step /\ seqs[j].part \in {0, 1}) - 1
LastSeq(seqs, step) == (CHOOSE j \in 1..Len(seqs) : seqs[j].src = step /\ seqs[j].part \in {0, 2}) - 1

SetToSeq(S) == CHOOSE f \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => f[i] # f[j]

RulesOf(prog, sg, seqs) ==
  LET ms == Meas(prog, sg.from, sg.to)
      straight == { <<p, q>> \in ms \X ms : p < q /\ ~ \E r \in ms : p < r /\ r < q }
      loops == { <<d, l>> \in (sg.from..sg.to) \X (sg.from..sg.to) :
                   prog[d].k \in {"D1", "D2"} /\ l > d /\ prog[l].k \in {"L1", "L2"}
                   /\ ~ \E e \in (d+1)..(l-1) : prog[e].k \in {"D1", "D2", "L1", "L2"} }
      st == { [s |-> LastSeq(seqs, x[1]), t |-> FirstSeq(seqs, x[2]), c |-> Advs(prog, x[1], x[2])] : x \in straight }
      back == { LET inl == Meas(prog, x[1], x[2]) IN
                IF inl = {} THEN [s |-> 0, t |-> 0, c |-> 0]
                ELSE [s |-> LastSeq(seqs, MaxS(inl)), t |-> FirstSeq(seqs, MinS(inl)),
                      c |-> Advs(prog, MaxS(inl), x[2]) + Advs(prog, x[1], MinS(inl))] : x \in loops }
  IN { r \in st \union back : r.c > 0 }

RECURSIVE RefTechs(_, _, _)
RefTechs(prog, sgs, carry) ==
  IF sgs = << >> THEN << >>
  ELSE LET sg == Head(sgs)
           seqs == SeqsOf(prog, sg.from, sg.to, << >>, 0)
           ms == Meas(prog, sg.from, sg.to)
           lead == IF ms = {} THEN Advs(prog, sg.from, sg.to) ELSE Advs(prog, sg.from, MinS(ms))
           tail == IF ms = {} THEN carry + lead ELSE Advs(prog, MaxS(ms), sg.to)
       IN << [loops |-> sg.loops, nt |-> sg.nt, seqs |-> seqs, start |-> carry + lead,
              onloop |-> tail + lead, trans |-> SetToSeq(RulesOf(prog, sg, seqs))] >>
          \o RefTechs(prog, Tail(sgs), tail)

Convert(prog) == RefTechs(prog, Segments(prog, 1, 1), 0)

--------------------------------------------------------------------------
(* Programs whose cycle numbers can be reconstructed from what BioLogic   *)
(* reports; the converter must accept these and may refuse the others.    *)
AllMeas(prog) == Meas(prog, 1, Len(prog))
LoopPairs(prog) == { <<d, l>> \in (1..Len(prog)) \X (1..Len(prog)) :
                       /\ prog[d].k \in {"D1", "D2"} /\ l > d
                       /\ prog[l].k = (IF prog[d].k = "D1" THEN "L1" ELSE "L2")
                       /\ ~ \E e \in (d+1)..(l-1) : prog[e].k \in {prog[d].k, prog[l].k} }
Convertible(prog) ==
  LET sgs == Segments(prog, 1, 1) IN
  /\ prog # << >> /\ sgs # << >>
  /\ \A i \in 1..Len(sgs) : Meas(prog, sgs[i].from, sgs[i].to) # {}
  /\ \A x \in LoopPairs(prog) :
       LET inl == Meas(prog, x[1], x[2]) IN
       /\ inl # {}
       /\ ~ Nested(prog, x[1]) =>
            LET adv == Advs(prog, MaxS(inl), x[2]) + Advs(prog, x[1], MinS(inl)) IN
            adv > 0 => (Cardinality(inl) > 1 \/ \A m \in inl : prog[m].k = "S")

(* a level-1 loop may not be left open, level 2 only inside level 1       *)
RECURSIVE WF(_, _, _, _)
WF(prog, i, o1, o2) ==
  IF i > Len(prog) THEN ~o1 /\ ~o2
  ELSE LET k == prog[i].k IN
    CASE k = "D1" -> ~o1 /\ ~o2 /\ WF(prog, i + 1, TRUE, FALSE)
      [] k = "L1" -> o1 /\ ~o2 /\ WF(prog, i + 1, FALSE, FALSE)
      [] k = "D2" -> o1 /\ ~o2 /\ WF(prog, i + 1, o1, TRUE)
      [] k = "L2" -> o1 /\ o2 /\ WF(prog, i + 1, o1, FALSE)
      [] OTHER -> WF(prog, i + 1, o1, o2)
WellFormed(prog) == WF(prog, 1, FALSE, FALSE)
==========================================================================
