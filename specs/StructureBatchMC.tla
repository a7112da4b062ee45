------------------------ MODULE StructureBatchMC ------------------------
EXTENDS StructureBatch, TLC, Json
CONSTANTS MaxFiles, Kinds, Namings, Emit
VARIABLES files, o, s
vars == <<files, o, s>>
Opts == [halt : BOOLEAN, vonly : BOOLEAN, noraw : BOOLEAN, naming : Namings]
Legal(f, x) == /\ (\E i \in 1..Len(f) : f[i] = "unwritable") => x.naming = "names"
               /\ x.naming = "clash" => Len(f) >= 2
               /\ Cardinality({i \in 1..Len(f) : f[i] = "interrupt"}) <= 1
Init == /\ \E n \in 1..MaxFiles : files \in [1..n -> Kinds]
        /\ o \in Opts /\ Legal(files, o)
        /\ s = BStart(files, o)
Next == Running(s, files) /\ s' = BStep(s, files, o) /\ UNCHANGED <<files, o>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Terminates == <>(s.phase # "running")
(* a file's report never depends on its neighbours *)
Independent == \A i \in 1..Len(s.entries) : s.entries[i] = Outcome(files[i], o)
OutputIffReported == s.outs = {i \in 1..Len(s.entries) : s.entries[i].structured}
NothingAfterStop == s.phase \in {"halted", "interrupted", "refused"} => \A i \in s.outs : i < s.i
CompleteReport == s.phase = "done" => Len(s.entries) = Len(files)
RefusedTouchesNothing == s.phase = "refused" => s.outs = {} /\ s.entries = << >>
SuccessOnlyIfDone == ExitCode(s) = 0 => s.phase = "done" /\ (o.halt => \A i \in 1..Len(files) : ~Fails(files[i], o))
ValidateOnlyWritesNothing == o.vonly => s.outs = {}
EmitRun == (Emit /\ s = BStart(files, o)) => PrintT("@@" \o ToJson([files |-> files, o |-> o]))
==========================================================================
