------------------------- MODULE MaccorBiologic -------------------------
(* Design: every well-formed convertible Maccor procedure is built one    *)
(* step at a time, converted, and both machines are run in lockstep.      *)
EXTENDS CyclerPrograms, TLC, Json
CONSTANTS MaxLen, Counts, Kinds, Emit
VARIABLES prog, open, phase, ts, m, b

vars == <<prog, open, phase, ts, m, b>>
None == [pc |-> 0]

Init == prog = << >> /\ open = << >> /\ phase = "build" /\ ts = << >> /\ m = None /\ b = None

Add(k, n) == prog' = Append(prog, [k |-> k, n |-> n])
Room == Len(prog) + Len(open) < MaxLen

AddStep == \E k \in Kinds : Room /\ Add(k, 0) /\ UNCHANGED open
AddDo1 == open = << >> /\ Len(prog) + 2 <= MaxLen /\ Add("D1", 0) /\ open' = <<1>>
AddDo2 == open = <<1>> /\ Len(prog) + 3 <= MaxLen /\ Add("D2", 0) /\ open' = <<1, 2>>
AddLoop == /\ open # << >>
           /\ \E n \in Counts : Add(IF Len(open) = 1 THEN "L1" ELSE "L2", n)
           /\ open' = SubSeq(open, 1, Len(open) - 1)
Build == /\ phase = "build"
         /\ AddStep \/ AddDo1 \/ AddDo2 \/ AddLoop
         /\ UNCHANGED <<phase, ts, m, b>>

Start == /\ phase = "build" /\ open = << >> /\ prog # << >> /\ Convertible(prog)
         /\ phase' = "run"
         /\ ts' = Convert(prog)
         /\ m' = MStart(prog)
         /\ b' = BStart(Convert(prog))
         /\ UNCHANGED <<prog, open>>

Run == /\ phase = "run" /\ ~MHalted(prog, m)
       /\ m' = MStep(prog, m)
       /\ b' = IF BHalted(ts, b) THEN b ELSE BStep(ts, b)
       /\ UNCHANGED <<prog, open, phase, ts>>

Next == Build \/ Start \/ Run
Spec == Init /\ [][Next]_vars

Built == phase = "build" => (open = << >> => WellFormed(prog))
(* the converted program visits the same steps in the same order with the *)
(* same cycle numbers, and both stop together                             *)
Lockstep == phase = "run" =>
   /\ MHalted(prog, m) <=> BHalted(ts, b)
   /\ ~MHalted(prog, m) =>
        LET q == ts[b.ti].seqs[b.si + 1] IN q.src = m.pc /\ q.part = m.part /\ b.cyc = m.cyc
EmitProg == (Emit /\ phase = "run" /\ m = MStart(prog)) => PrintT("@@" \o ToJson([prog |-> prog]))
==========================================================================
