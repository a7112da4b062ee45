-------------------------- MODULE HppcFeaturesTrace --------------------------
(* C27: pulse tests and what the featurizer and its helpers say of them     *)
EXTENDS HppcFeatures, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLE t
T == Traces[t]
Near(x, v) == IF v = NA THEN x = NA ELSE x # NA /\ Abs(x - v) <= 3 + Abs(v) \div 100000
At(m, key) == LET ks == {k \in 1..Len(m) : m[k][1] = key} IN IF ks = {} THEN NA ELSE m[CHOOSE k \in ks : TRUE][2]
Position(n, pos) == IF pos < 0 THEN n + pos + 1 ELSE pos + 1
Valid(h) == T.has = "diag" /\ Len(T.cycles) > (IF h.pos < 0 THEN -h.pos - 1 ELSE h.pos)
FeatureClause(e) ==
  LET h == e.h IN
  IF e.valid # Valid(h) THEN (IF e.valid THEN "accepts-an-unusable-run" ELSE "refuses-a-usable-run")
  ELSE IF ~e.valid THEN ""
  ELSE IF e.err # "" THEN "pulse-features-fail"
  ELSE LET c0 == T.cycles[1] c1 == T.cycles[Position(Len(T.cycles), h.pos)]
           v0 == TLCEval(Measured(c0, h)) v1 == TLCEval(Measured(c1, h))
           o0 == Roles(v0, T.nominal) o1 == Roles(v1, T.nominal)
           R == TLCEval(Resistances(v0, o0, v1, o1))
           O == Stats("ocv", TLCEval(Ocv(v0, o0, v1, o1)))
           along == TLCEval(Along(v0, o0, v1, o1, h.window))
           A == Stats("v_diff", along)
           D == Diffusion(Slopes(c0, v0, o0), Slopes(c1, v1, o1))
       IN IF \E k \in 1..54 : ~\E j \in 1..Len(e.m) : e.m[j][1] = R[k][1] THEN "resistance-missing"
          ELSE IF \E k \in 1..54 : ~Near(At(e.m, R[k][1]), R[k][2]) THEN "resistance"
          ELSE IF \E k \in 1..7 : O[k][2] # <<>> /\ ~Near(At(e.m, O[k][1]), O[k][2][1]) THEN "relaxed-voltage"
          ELSE IF along = <<>> /\ \E k \in 1..7 : At(e.m, A[k][1]) # NA THEN "voltage-of-a-window-not-there"
          ELSE IF along # <<>> /\ \E k \in 1..7 : A[k][2] # <<>> /\ ~Near(At(e.m, A[k][1]), A[k][2][1]) THEN "voltage-while-discharging"
          ELSE IF \E k \in 1..8 : ~Near(At(e.m, D[k][1]), D[k][2]) THEN "diffusion"
          ELSE ""
StepClause(e) ==
  IF e.err # "" THEN "step-index-fails"
  ELSE IF e.ty = "hppc" THEN
    LET vs == T.cycles[Position(Len(T.cycles), e.pos)].visits IN
    IF {<<e.m[k][2], e.m[k][1]>> : k \in 1..Len(e.m)} # {<<s, Role(vs, s, T.nominal)>> : s \in StepsOf(vs)} THEN "role-of-step" ELSE ""
  ELSE LET cs == SelectSeq(T.others, LAMBDA c : c.ty = e.ty) vs == cs[Position(Len(cs), e.pos)].visits IN
    IF {<<e.m[k][2], e.m[k][1]>> : k \in 1..Len(e.m)} # {<<s, Side(vs, s, e.ty)>> : s \in StepsOf(vs)} THEN "role-of-step" ELSE ""
One(e) == CASE e.k = "feature" -> FeatureClause(e) [] e.k = "step" -> StepClause(e)
Clause == LET bad == {i \in 1..Len(T.steps) : One(T.steps[i]) # ""} IN
          IF bad # {} THEN One(T.steps[Min(bad)]) ELSE IF ~T.kept THEN "run-changed" ELSE ""
TraceInit == t = 1
TraceNext == /\ t <= Len(Traces)
             /\ LET c == Clause IN PrintT("@@" \o ToJson([id |-> T.id, ok |-> c = "", clause |-> c]))
             /\ t' = t + 1
TraceSpec == TraceInit /\ [][TraceNext]_t
=============================================================================
