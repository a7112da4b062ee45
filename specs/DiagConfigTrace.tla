-------------------------- MODULE DiagConfigTrace --------------------------
EXTENDS DiagConfig, TLC, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLE t
T == Traces[t]
(* the configuration the real object must represent *)
Pairs == IF T.kind = "cfg" THEN UNION {{<<c, T.cfg[a].name>> : c \in Rng(T.cfg[a].ix)} : a \in 1..Len(T.cfg)}
         ELSE UNION {{<<c, T.rules[a].name>> : c \in RuleHits(T.rules[a], T.cycles)} : a \in 1..Len(T.rules)}
OK == (IF T.kind = "cfg" THEN ConfigOK(T.cfg) ELSE RulesOK(T.rules, T.cycles)) /\ T.params_ok
Ix(k) == {p[1] : p \in {p \in Pairs : k \in Classes(p[2])}}
ObsPairs(o) == {<<o.types[k].c, o.types[k].n>> : k \in 1..Len(o.types)}
ByType(o) == UNION {{<<c, o.bytype[k].n>> : c \in Rng(o.bytype[k].ix)} : k \in 1..Len(o.bytype)}
Judge(o) == CASE ObsPairs(o) # Pairs \/ Len(o.types) # Cardinality(Pairs) -> "type-of-cycle"
              [] ByType(o) # Pairs -> "cycles-of-type"
              [] Rng(o.all) # {p[1] : p \in Pairs} -> "all-cycles"
              [] Rng(o.hppc) # Ix("hppc") -> "hppc-cycles"
              [] Rng(o.rpt) # Ix("rpt") -> "rpt-cycles"
              [] Rng(o.reset) # Ix("reset") -> "reset-cycles"
              [] o.params # T.params -> "parameters"
              [] OTHER -> ""
Clause == IF T.refused # ~OK THEN (IF T.refused THEN "refused-valid" ELSE "accepted-invalid")
          ELSE IF T.refused THEN ""
          ELSE IF Judge(T.obs) # "" THEN Judge(T.obs)
          ELSE IF T.reerr # "" THEN "reload-fails"
          ELSE IF Judge(T.re) # "" THEN "reloaded-" \o Judge(T.re) ELSE ""
TraceInit == t = 1
TraceNext == /\ t <= Len(Traces)
             /\ LET c == Clause IN PrintT("@@" \o ToJson([id |-> T.id, ok |-> c = "", clause |-> c]))
             /\ t' = t + 1
TraceSpec == TraceInit /\ [][TraceNext]_t
==========================================================================
