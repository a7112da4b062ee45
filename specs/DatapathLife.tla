--------------------------- MODULE DatapathLife ---------------------------
(* Life of a datapath: structured, unstructured, saved with or without    *)
(* its raw data, loaded again.  A state is what a user can see:           *)
(*   res    what the structured tables are a function of: "none" or the   *)
(*          pair <<parameters, diagnostic>> they were computed with       *)
(*   par    the recorded structuring parameters ("none" or a label)       *)
(*   diag   the diagnostic configuration set now                          *)
(*   raw    TRUE while the raw data are there; a datapath loaded from a   *)
(*          file without raw data is read-only                            *)
(*   file   which file it was loaded from (0: none)                       *)
EXTENDS Naturals, Sequences, FiniteSets
None == "none"
Blank == [res |-> <<None, None>>, par |-> None, diag |-> None, raw |-> TRUE, file |-> 0]
Structured(d) == d.res # <<None, None>>
(* op: [k, a] ; result "ok", "refused" (read-only datapath), "notstructured", "badaxis" *)
OpResult(d, files, op) ==
  CASE op.k \in {"structure", "badstructure", "unstructure", "save", "savelean", "validate"} /\ ~d.raw -> "refused"
    [] op.k = "badstructure" -> "badaxis"
    [] op.k = "life" /\ ~Structured(d) -> "notstructured"
    [] OTHER -> "ok"
OpEffect(d, files, op) ==
  IF OpResult(d, files, op) # "ok" THEN d
  ELSE CASE op.k = "setdiag" -> [d EXCEPT !.diag = op.a]
         [] op.k = "structure" -> [d EXCEPT !.res = <<op.a, d.diag>>, !.par = op.a]
         [] op.k = "unstructure" -> [d EXCEPT !.res = <<None, None>>, !.par = None, !.diag = None]
         [] op.k \in {"load", "mload"} -> files[op.a]
         [] OTHER -> d
FileEffect(d, files, op) ==
  IF op.k \in {"save", "savelean"} /\ OpResult(d, files, op) = "ok"
  THEN [files EXCEPT ![op.a] = [d EXCEPT !.raw = (op.k = "save"), !.file = op.a]]
  ELSE files
Enabled(files, op) == op.k \in {"load", "mload"} => files[op.a].file # 0
==========================================================================
