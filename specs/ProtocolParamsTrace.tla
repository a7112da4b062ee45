----------------------- MODULE ProtocolParamsTrace ----------------------
(* T.form = "table": kind, p, d, idx, made, obs (field -> value), other    *)
(* (fields outside the table that differ from the template).              *)
(* T.form = "edit": q, before, after (steps), refused, other.             *)
EXTENDS ProtocolParams, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLE t
R0 == Traces[t]
TabClause ==
  LET tab == Table(R0.kind, R0.p, R0.d, R0.idx)
      bad == {i \in Ix(tab) : ~(tab[i].k \in DOMAIN R0.obs) \/ ~OkVal(tab[i], R0.obs[tab[i].k])}
  IN CASE Refused(R0.kind, R0.p) # ~R0.made -> IF R0.made THEN "impossible-request-honoured" ELSE "possible-request-refused"
       [] ~R0.made -> ""
       [] bad # {} -> "field " \o tab[CHOOSE i \in bad : \A j \in bad : i <= j].k
       [] R0.other # << >> -> "changed-field " \o R0.other[1]
       [] OTHER -> ""
EditClause == CASE R0.refused # (R0.q.op = "exp" /\ ExpRefused(R0.before)) -> IF R0.refused THEN "possible-edit-refused" ELSE "impossible-edit-made"
                [] R0.refused -> ""
                [] Len(R0.after) # Len(R0.before) -> "number-of-steps"
                [] R0.after # Edit(R0.before, R0.q) -> LET B == {i \in Ix(R0.after) : R0.after[i] # Edit(R0.before, R0.q)[i]} IN
                          R0.q.op \o "-step " \o ToString((CHOOSE i \in B : \A j \in B : i <= j) - 1)
                [] R0.other # << >> -> "changed-field " \o R0.other[1]
                [] OTHER -> ""
Clause == IF R0.form = "table" THEN TabClause ELSE EditClause
TraceInit == t = 1
TraceNext == /\ t <= Len(Traces)
             /\ LET cl == Clause IN PrintT("@@" \o ToJson([id |-> R0.id, ok |-> cl = "", clause |-> cl]))
             /\ t' = t + 1
TraceSpec == TraceInit /\ [][TraceNext]_t
==========================================================================
