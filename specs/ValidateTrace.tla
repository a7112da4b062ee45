---------------------------- MODULE ValidateTrace -------------------------
(* T: data D, schema S (or cycler and project, or the name of a schema),   *)
(* runs: what each validation said [via, err, valid, cols, nums] (cols,    *)
(* nums: columns and numbers its reason mentions), same: data unchanged.   *)
EXTENDS Validate, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLE t
T == Traces[t]
Set(s) == {s[i] : i \in Ix(s)}
Sch == CASE T.how = "rules" -> T.S
         [] T.how = "name" -> Schema(T.schema)
         [] OTHER -> Schema(SchemaOf(T.cycler, T.project))
RunClause(r) ==
  LET S == Sch IN
  CASE r.err -> "validation-raises"
    [] r.valid # Valid(T.D, S) -> IF r.valid THEN "accepts-bad-data" ELSE "refuses-good-data"
    [] r.valid /\ r.reason -> "reason-without-failure"
    [] ~r.valid /\ ~\E i \in Ix(S) : \E k \in Fails(T.D, S[i]) :
          S[i].col \in Set(r.cols) /\ Explains(T.D, S[i], k, Set(r.nums)) -> "reason"
    [] ~r.same -> "data-changed"
    [] OTHER -> ""
Clause == LET bad == {i \in Ix(T.runs) : RunClause(T.runs[i]) # ""} IN
          IF bad = {} THEN "" ELSE LET i == CHOOSE j \in bad : \A k \in bad : j <= k IN T.runs[i].via \o ":" \o RunClause(T.runs[i])
TraceInit == t = 1
TraceNext == /\ t <= Len(Traces)
             /\ LET cl == Clause IN PrintT("@@" \o ToJson([id |-> T.id, ok |-> cl = "", clause |-> cl]))
             /\ t' = t + 1
TraceSpec == TraceInit /\ [][TraceNext]_t
============================================================================
