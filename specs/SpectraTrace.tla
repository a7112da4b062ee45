---------------------------- MODULE SpectraTrace ----------------------------
(* Records of real runs: kinds, ops, contents[f][v] of the files written,   *)
(* obs[k] seen after op k: err, run (is the rest of the run as before?),    *)
(* spectra, again (after a round trip), paths.                              *)
EXTENDS Spectra, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLE t
T == Traces[t]
Bag(q) == [x \in {q[k] : k \in 1..Len(q)} |-> Cardinality({k \in 1..Len(q) : q[k] = x})]
(* the content of file f, version v against a spectrum *)
Differs(want, got) ==
  IF got.cols # want.cols THEN "columns"
  ELSE IF got.rows # want.rows THEN "values"
  ELSE IF got.sweep # want.sweep THEN "frequency-sweep"
  ELSE IF got.method # want.method THEN "method"
  ELSE IF got.file # want.file THEN "file-name"
  ELSE IF got.start # want.start THEN "start"
  ELSE IF got.line # want.line THEN "settings"
  ELSE ""
Look(s, o, x) ==
  LET d == TLCEval([k \in 1..Len(x.spectra) |-> IF k > Len(s.spectra) THEN "count" ELSE Differs(T.contents[s.spectra[k].f][s.spectra[k].v], x.spectra[k])]) IN
  IF x.err # "" /\ ~Fails(s, o) THEN "fails-" \o o.op
  ELSE IF ~x.run THEN "rest-of-the-run-changed"
  ELSE IF x.paths # s.paths THEN "paths"
  ELSE IF (s.has \/ o.op # "reload") /\ Len(x.spectra) # Len(s.spectra) THEN "spectra-count"
  ELSE IF s.has /\ \E k \in 1..Len(d) : d[k] # "" THEN "spectrum-" \o d[CHOOSE k \in 1..Len(d) : d[k] # ""]
  ELSE IF x.again # x.spectra THEN "serialization"
  ELSE ""
RECURSIVE From(_, _)
From(s, k) ==
  IF k > Len(T.ops) THEN ""
  ELSE LET o0 == T.ops[k]
           x == T.obs[k]
           o == IF o0.op = "all" THEN [o0 EXCEPT !.fs = x.paths] ELSE o0
       IN IF o.op = "all" /\ x.err = "" /\ Bag(x.paths) # [f \in Found(s, T.kinds) |-> 1] THEN "files-of-the-run"
          ELSE IF o.op = "all" /\ x.err # "" THEN "fails-all"
          ELSE IF Fails(s, o) /\ x.err = "" THEN "missing-file-ignored"
          ELSE LET n == TLCEval(Step(s, o))
                   c == Look(n, o, x)
               IN IF Fails(s, o) THEN (LET e == Look(n, o, [x EXCEPT !.err = ""]) IN IF e # "" THEN "failed-load-" \o e ELSE From(n, k + 1))
                  ELSE IF c # "" THEN c ELSE From(n, k + 1)
Clause == IF T.plain.got # T.plain.want THEN "plain-spectrum" ELSE From(Start(T.kinds), 1)
TraceInit == t = 1
TraceNext == /\ t <= Len(Traces)
             /\ LET c == Clause IN PrintT("@@" \o ToJson([id |-> T.id, ok |-> c = "", clause |-> c]))
             /\ t' = t + 1
TraceSpec == TraceInit /\ [][TraceNext]_t
=============================================================================
