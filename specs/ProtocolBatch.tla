-------------------------- MODULE ProtocolBatch -------------------------
(* `beep protocol` / generate_protocol_files_from_csv: the rows of a csv  *)
(* are turned into protocol files one after another.  A row has a kind,   *)
(* the file it asks for (f), and for driving protocols the waveform file  *)
(* (w) with its content (c).  The machine is the contract of the command. *)
EXTENDS Naturals, Sequences, FiniteSets

Plain == {"good"}                    \* procedures and settings without a shared waveform
Bad == {"untpl", "unext", "sdu", "noseq", "noproject", "notemplate", "badset", "badval", "order", "blocked"}
Kinds == Plain \cup {"wave", "intr"} \cup Bad
Why(k) == CASE k \in {"untpl", "unext"} -> "Not Found" [] k = "sdu" -> "Not Implemented" [] OTHER -> "other"
File(r) == <<r.k, r.f>>

BStart(rows, o) == [i |-> 1, phase |-> IF o.csv = "missing" \/ o.out = "missing" THEN "refused" ELSE "running",
                    made |-> << >>,     \* rows generated, in order
                    fails |-> << >>,    \* reasons, in order
                    waves |-> << >>]    \* [w, c] the generated driving protocols refer to
HasFile(s, rows, r) == \E j \in 1..Len(s.made) : File(rows[s.made[j]]) = File(r)
HasWave(s, r) == \E j \in 1..Len(s.waves) : s.waves[j].w = r.w /\ s.waves[j].c # r.c
Outcome(s, rows, r) == CASE r.k \in Bad -> Why(r.k)
                         [] r.k = "wave" /\ HasWave(s, r) -> "other"
                         [] HasFile(s, rows, r) -> "other"
                         [] OTHER -> ""
BStep(s, rows, o) ==
  IF s.i > Len(rows) THEN [s EXCEPT !.phase = "done"]
  ELSE LET r == rows[s.i] IN
       IF r.k = "intr" THEN [s EXCEPT !.phase = "interrupted"]
       ELSE LET x == Outcome(s, rows, r) IN
            [s EXCEPT !.i = @ + 1,
                      !.made = IF x = "" THEN Append(@, s.i) ELSE @,
                      !.fails = IF x = "" THEN @ ELSE Append(@, x),
                      !.waves = IF x = "" /\ r.k = "wave" THEN Append(@, [w |-> r.w, c |-> r.c]) ELSE @]
ExitCode(s, o) == IF s.phase = "done" /\ ~(o.halt /\ s.fails # << >>) THEN 0 ELSE 1
==========================================================================
