------------------------------- MODULE Spectra ------------------------------
(* C31: the impedance spectra of a run.  Files lie beside the file of the   *)
(* run; some carry its name (kind "mine", or "deep" with more dots between  *)
(* name and extension), others do not.  A file is written again under the   *)
(* same name (its version goes up), or removed.  Loading takes the files    *)
(* as they are now; what was loaded before is replaced as a whole, or,      *)
(* when a file cannot be read, kept as a whole.  Saving and reading back a  *)
(* run keeps where its spectra lie, not the spectra.                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Mine(kinds) == {f \in 1..Len(kinds) : kinds[f] \in {"mine", "deep"}}
Start(kinds) == [ver |-> [f \in 1..Len(kinds) |-> 0], top |-> [f \in 1..Len(kinds) |-> 0], has |-> FALSE, spectra |-> <<>>, known |-> FALSE, paths |-> <<>>,
                 saved |-> FALSE, sknown |-> FALSE, spaths |-> <<>>]
Here(s, f) == s.ver[f] > 0
Take(s, fs) == [k \in 1..Len(fs) |-> [f |-> fs[k], v |-> s.ver[fs[k]]]]
(* op: [op, f, fs]; fs, for "all", is the order in which the files were found *)
Fails(s, o) == o.op = "given" /\ \E k \in 1..Len(o.fs) : ~Here(s, o.fs[k])
Step(s, o) ==
  CASE o.op = "write"  -> [s EXCEPT !.ver[o.f] = s.top[o.f] + 1, !.top[o.f] = @ + 1]
    [] o.op = "remove" -> [s EXCEPT !.ver[o.f] = 0]
    [] o.op \in {"given", "all"} -> IF Fails(s, o) THEN s
                          ELSE [s EXCEPT !.has = TRUE, !.spectra = Take(s, o.fs), !.known = TRUE, !.paths = o.fs]
    [] o.op = "save"   -> [s EXCEPT !.saved = TRUE, !.sknown = s.known, !.spaths = s.paths]
    [] o.op = "reload" -> [s EXCEPT !.has = FALSE, !.spectra = <<>>, !.known = s.sknown, !.paths = s.spaths]
Found(s, kinds) == {f \in Mine(kinds) : Here(s, f)}
=============================================================================
