--------------------------- MODULE S3InputsTrace ----------------------------
(* Records of real commands: what was fetched, what each output holds.      *)
EXTENDS S3Inputs, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLE t
T == Traces[t]
W == [keys |-> T.keys, locals |-> T.locals, cache |-> T.cache]
Good(x) == ~In([s3 |-> x.s3, name |-> x.name], T.corrupt)
Same(a, b) == a.s3 = b.s3 /\ a.name = b.name
Distinct(s) == {s[k] : k \in 1..Len(s)}
Clause ==
  LET ins == TLCEval(Inputs(W, T.args))
      ref == Refused(W, T.args, T.named) IN
  IF ~T.kept THEN "local-file-changed"
  ELSE IF ref THEN (IF T.exit = 0 THEN (IF Missing(W, ins) THEN "missing-file-accepted" ELSE "inputs-mixed-up")
                    ELSE IF Len(T.outs) > 0 THEN "refused-but-written" ELSE "")
  ELSE IF T.exit # 0 THEN "refused"
  ELSE IF {T.fetched[k] : k \in 1..Len(T.fetched)} # {ins[k].name : k \in {j \in 1..Len(ins) : ins[j].s3}} THEN "fetched-other-objects"
  ELSE IF \E k \in 1..Len(ins) : ins[k].s3 /\ ~\E j \in 1..Len(T.lying) : T.lying[j].base = Base(ins[k].name) /\ T.lying[j].name = ins[k].name THEN "not-where-it-belongs"
  ELSE IF T.strays > 0 THEN "stray-files"
  ELSE IF T.entries # Cardinality(Distinct(ins)) THEN "status-report"
  ELSE IF T.named > 0
       THEN (IF \E k \in 1..Len(ins) : Good(ins[k]) /\ ~\E j \in 1..Len(T.outs) : T.outs[j].at = k /\ Same(T.outs[j], ins[k]) THEN "output-of-other-input"
             ELSE IF \E j \in 1..Len(T.outs) : ~Good(ins[T.outs[j].at]) THEN "output-of-corrupt-input" ELSE "")
       ELSE LET want == {[stem |-> Stem(ins[k].name), s3 |-> ins[k].s3, name |-> ins[k].name] : k \in {j \in 1..Len(ins) : Good(ins[j])}}
                got == {[stem |-> T.outs[j].stem, s3 |-> T.outs[j].s3, name |-> T.outs[j].name] : j \in 1..Len(T.outs)}
            IN IF got = want THEN "" ELSE IF \E g \in got : ~\E x \in want : x.name = g.name /\ x.s3 = g.s3 THEN "structured-other-input"
               ELSE "output-missing-or-misnamed"
TraceInit == t = 1
TraceNext == /\ t <= Len(Traces)
             /\ LET c == Clause IN PrintT("@@" \o ToJson([id |-> T.id, ok |-> c = "", clause |-> c]))
             /\ t' = t + 1
TraceSpec == TraceInit /\ [][TraceNext]_t
=============================================================================
