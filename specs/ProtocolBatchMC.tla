------------------------- MODULE ProtocolBatchMC ------------------------
EXTENDS ProtocolBatch, TLC, Json
CONSTANTS MaxRows, Emit
VARIABLES rows, o, s
vars == <<rows, o, s>>
Row(k, f, w, c) == [k |-> k, f |-> f, w |-> w, c |-> c]
AllRows == {Row("good", f, 0, 0) : f \in 1..2} \cup {Row("wave", f, w, c) : f \in 1..2, w \in 1..2, c \in 1..2}
           \cup {Row(k, 0, 0, 0) : k \in Bad \cup {"intr"}}
Opts == {[mode |-> "api", halt |-> FALSE, csv |-> "ok", out |-> "given"]}
        \cup [mode : {"cli"}, halt : BOOLEAN, csv : {"ok"}, out : {"given", "default"}]
        \cup {[mode |-> "cli", halt |-> FALSE, csv |-> "missing", out |-> "given"], [mode |-> "cli", halt |-> FALSE, csv |-> "ok", out |-> "missing"]}
Init == /\ \E n \in 0..MaxRows : rows \in [1..n -> AllRows]
        /\ \A i \in 1..Len(rows) : rows[i].f = 2 => \E j \in 1..(i - 1) : rows[j].k = rows[i].k /\ rows[j].f = 1
        /\ \A i \in 1..Len(rows) : rows[i].w = 2 => \E j \in 1..(i - 1) : rows[j].w = 1
        /\ o \in Opts
        /\ (o.csv = "missing" \/ o.out = "missing") => Len(rows) <= 1
        /\ s = BStart(rows, o)
Next == s.phase = "running" /\ s' = BStep(s, rows, o) /\ UNCHANGED <<rows, o>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Terminates == <>(s.phase # "running")
EveryRowAccountedFor == s.phase = "done" => Len(s.made) + Len(s.fails) = Len(rows)
NoFileTwice == \A i, j \in 1..Len(s.made) : i # j => File(rows[s.made[i]]) # File(rows[s.made[j]])
WavesConsistent == \A i, j \in 1..Len(s.waves) : s.waves[i].w = s.waves[j].w => s.waves[i].c = s.waves[j].c
(* a row that stands alone with its file and waveform is generated whatever the other rows are *)
Alone(i) == \A j \in 1..Len(rows) : j # i => File(rows[j]) # File(rows[i]) /\ (rows[i].k = "wave" => rows[j].w # rows[i].w)
GoodAreMade == s.phase = "done" => \A i \in 1..Len(rows) : rows[i].k \notin Bad /\ Alone(i) => \E j \in 1..Len(s.made) : s.made[j] = i
(* the first of the rows that ask for a file gets it, if its waveform is free *)
FirstWins == s.phase = "done" => \A i \in 1..Len(rows) : rows[i].k \in Plain /\ (\A j \in 1..(i - 1) : File(rows[j]) # File(rows[i]))
                => \E j \in 1..Len(s.made) : s.made[j] = i
BadAreNotMade == \A j \in 1..Len(s.made) : rows[s.made[j]].k \notin Bad
RefusedTouchesNothing == s.phase = "refused" => s.made = << >> /\ s.fails = << >>
EmitRun == (Emit /\ s = BStart(rows, o)) => PrintT("@@" \o ToJson([rows |-> rows, o |-> o]))
==========================================================================
