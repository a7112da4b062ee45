------------------------- MODULE StructureBatch -------------------------
(* `beep structure`: a batch of raw files is processed one after another. *)
(* Each file has a kind saying what the file system and the file's own    *)
(* content make happen to it; nothing about one file may depend on        *)
(* another.  The machine below is the contract of the command.            *)
EXTENDS Naturals, Sequences, FiniteSets

FileKinds == {"good", "invalid", "badname", "corrupt", "nostruct", "unwritable", "interrupt", "missing"}
Entry(v, s, tb, sch) == [validated |-> v, structured |-> s, tb |-> tb, schema |-> sch]

(* what must be reported for one file *)
Outcome(kind, o) ==
  CASE kind = "good"       -> Entry(TRUE, ~o.vonly, "none", TRUE)
    [] kind = "unwritable" -> Entry(TRUE, FALSE, IF o.vonly THEN "none" ELSE "other", TRUE)
    [] kind = "nostruct"   -> Entry(TRUE, FALSE, IF o.vonly THEN "none" ELSE "other", TRUE)
    [] kind = "invalid"    -> Entry(FALSE, FALSE, "validation", TRUE)
    [] OTHER               -> Entry(FALSE, FALSE, "other", FALSE)   \* not loadable
Fails(kind, o) == Outcome(kind, o).tb # "none"

(* the command itself is bad: nothing is processed *)
BadCommand(files, o) ==
  \/ \E i \in 1..Len(files) : files[i] = "missing"
  \/ o.naming = "mismatch"
  \/ o.naming = "clash" /\ ~o.vonly

BStart(files, o) == [i |-> 1, phase |-> IF BadCommand(files, o) THEN "refused" ELSE "running",
                     entries |-> << >>, outs |-> {}]
Running(s, files) == s.phase = "running"
BStep(s, files, o) ==
  IF s.i > Len(files) THEN [s EXCEPT !.phase = "done"]
  ELSE LET k == files[s.i] IN
       IF k = "interrupt" THEN [s EXCEPT !.phase = "interrupted"]
       ELSE [s EXCEPT !.i = @ + 1,
                      !.phase = IF o.halt /\ Fails(k, o) THEN "halted" ELSE "running",
                      !.entries = Append(@, Outcome(k, o)),
                      !.outs = IF Outcome(k, o).structured THEN @ \cup {s.i} ELSE @]
ExitCode(s) == IF s.phase = "done" THEN 0 ELSE 1
==========================================================================
