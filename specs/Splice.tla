------------------------------- MODULE Splice -------------------------------
(* C19: a run that was interrupted is recorded in several files; splicing  *)
(* them gives the file of one run.  A counter that was started again in    *)
(* the later file goes on where the earlier file ended.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Counters == {"Rec#", "Cyc#", "Test (Sec)", "Loop1", "Loop2", "Loop3", "Loop4"}
Restarted(a, b) == b[1] < Last(a)
Goes(a, b) == IF Restarted(a, b) THEN [i \in 1..Len(b) |-> b[i] + Last(a)] ELSE b
Join(a, b) == a \o Goes(a, b)
JoinAll(parts) == FoldLeft(Join, parts[1], Tail(parts))
Rising(a) == \A i \in 1..Len(a) - 1 : a[i] <= a[i + 1]
=============================================================================
