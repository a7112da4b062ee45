---------------------------- MODULE ProcSchedule ----------------------------
(* C07: a Maccor procedure as an Arbin schedule.                           *)
(* Procedure steps: "M" measures until an end entry is met and goes to its *)
(* step; "A" advances the cycle; "D"/"L" do and loop of a level: the body  *)
(* is passed n times, then the loop goes to its step; "E" ends.            *)
(* Schedule steps: "M" measures, "S" sets variables (counters reset and    *)
(* incremented by masks), "E" rests at the end; the limits of "S" are      *)
(* looked at in order, go 0 is the next step.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Levels == 1..4
Ix(s) == 1..Len(s)
RECURSIVE Do(_, _, _)
Do(s, i, lev) == IF i = 0 THEN 0 ELSE IF s[i].k = "D" /\ s[i].lev = lev THEN i ELSE Do(s, i - 1, lev)
(* ---- the Maccor machine: position, cycle, passes begun since the do ---- *)
MStart == [pc |-> 1, cyc |-> 0, c |-> [l \in Levels |-> 0]]
MNext(p, m, j) ==
  LET s == p[m.pc] IN
  CASE s.k = "M" -> [m EXCEPT !.pc = s.ends[j].go]
    [] s.k = "A" -> [m EXCEPT !.pc = @ + 1, !.cyc = @ + 1]
    [] s.k = "D" -> [m EXCEPT !.pc = @ + 1, !.c[s.lev] = 0]
    [] s.k = "L" -> IF m.c[s.lev] + 1 < s.n THEN [m EXCEPT !.pc = Do(p, m.pc, s.lev) + 1, !.c[s.lev] = @ + 1]
                    ELSE [m EXCEPT !.pc = s.ends[1].go, !.c[s.lev] = @ + 1]
MChoices(p, m) == IF p[m.pc].k = "E" THEN {} ELSE IF p[m.pc].k = "M" THEN Ix(p[m.pc].ends) ELSE {1}
(* ---- the Arbin machine ---- *)
Bit(x, b) == (x \div (2 ^ b)) % 2 = 1
Counters(s, c) == [l \in Levels |-> (IF Bit(s.reset, 15 + l) THEN 0 ELSE c[l]) + (IF Bit(s.inc, l) THEN 1 ELSE 0)]
Met(l, c) == IF l.left = "PV_CHAN_Step_Time" THEN TRUE
             ELSE \E k \in Levels : l.left = "TC_Counter" \o ToString(k) /\
                    CASE l.cmp = "<" -> c[k] < l.num [] l.cmp = "=" -> c[k] = l.num [] l.cmp = ">=" -> c[k] >= l.num [] OTHER -> FALSE
Stops(s) == SelectSeq(s.lims, LAMBDA l : l.stop)
ANext(q, a, j) ==
  LET s == q[a.pc] IN
  IF s.k = "S" THEN LET c == Counters(s, a.c)
                        ok == {i \in Ix(Stops(s)) : Met(Stops(s)[i], c)}
                        i == CHOOSE i \in ok : \A x \in ok : i <= x
                    IN [a EXCEPT !.c = c, !.cyc = @ + (IF Bit(s.inc, 0) THEN 1 ELSE 0),
                                 !.pc = IF ok = {} THEN 0 ELSE IF Stops(s)[i].go = 0 THEN @ + 1 ELSE Stops(s)[i].go]
  ELSE [a EXCEPT !.pc = IF Stops(s)[j].go = 0 THEN @ + 1 ELSE Stops(s)[j].go]
(* ---- lockstep over all choices of the end that is met ---- *)
Same(p, q, m, a) == IF a.pc \notin Ix(q) \/ m.pc \notin Ix(p) THEN "lost"
                    ELSE IF a.pc # m.pc THEN "wrong-step"
                    ELSE IF (p[m.pc].k = "M") # (q[a.pc].k = "M") \/ (p[m.pc].k = "E") # (q[a.pc].k = "E") THEN "wrong-kind"
                    ELSE IF a.cyc # m.cyc THEN "cycle-number"
                    ELSE IF p[m.pc].k = "M" /\ Len(p[m.pc].ends) # Len(Stops(q[a.pc])) THEN "end-condition-count" ELSE ""
RECURSIVE Run(_, _, _, _, _)
Run(p, q, new, old, fuel) ==
  IF new = {} \/ fuel = 0 THEN ""
  ELSE LET bad == {x \in new : Same(p, q, x[1], x[2]) # ""} IN
       IF bad # {} THEN LET x == CHOOSE x \in bad : TRUE IN Same(p, q, x[1], x[2])
       ELSE LET after == UNION {{<<MNext(p, x[1], j), ANext(q, x[2], j)>> : j \in MChoices(p, x[1])} : x \in new}
                \* cycles count on for ever in programs that go back: only the difference matters
                from0 == {<<[x[1] EXCEPT !.cyc = 0], [x[2] EXCEPT !.cyc = @ - x[1].cyc]>> : x \in after}
            IN Run(p, q, from0 \ (old \cup new), old \cup new, fuel - 1)
Lockstep(p, q, fuel) == Run(p, q, {<<MStart, MStart>>}, {}, fuel)
(* ---- the conversion of the control flow ---- *)
Limit(go, left, cmp, num) == [stop |-> TRUE, go |-> go, left |-> left, cmp |-> cmp, num |-> num]
On == <<Limit(0, "PV_CHAN_Step_Time", ">", 0)>>
Set(reset, inc, lims) == [k |-> "S", reset |-> reset, inc |-> inc, lims |-> lims]
To(i, go) == IF go = i + 1 THEN 0 ELSE go
StepOf(p, i) ==
  LET s == p[i] IN
  CASE s.k = "M" -> [k |-> "M", reset |-> 0, inc |-> 0, lims |-> [j \in Ix(s.ends) |-> Limit(To(i, s.ends[j].go), "x", ">", 0)]]
    [] s.k = "A" -> Set(15, 1, On)
    [] s.k = "D" -> Set(2 ^ (15 + s.lev), 0, On)
    [] s.k = "L" -> LET tc == "TC_Counter" \o ToString(s.lev) IN
                    Set(0, 2 ^ s.lev, <<Limit(Do(p, i, s.lev) + 1, tc, "<", s.n), Limit(To(i, s.ends[1].go), tc, "=", s.n)>>)
    [] s.k = "E" -> [k |-> "E", reset |-> 0, inc |-> 0, lims |-> On]
Converted(p) == [i \in Ix(p) |-> StepOf(p, i)]
=============================================================================
