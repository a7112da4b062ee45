-------------------------- MODULE ProcScheduleTrace --------------------------
(* C07: procedures converted by the code.  prog: the procedure; steps: of  *)
(* the schedule written, its limits with their goto labels resolved.       *)
EXTENDS ProcSchedule, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLE t
T == Traces[t]
Neg(s, v) == IF s.dir = "Dischrge" THEN "-" \o v ELSE v
Ctrl(s) == IF s.mode = "Rest" THEN "Rest" ELSE IF s.lim # "" THEN "CCCV"
           ELSE IF s.mode = "Voltage" THEN "Voltage(V)" ELSE IF s.crate THEN "C-Rate" ELSE "Current(A)"
Value(s) == IF s.mode = "Rest" THEN "" ELSE IF s.mode = "Current" THEN Neg(s, s.v) ELSE IF s.lim # "" THEN Neg(s, s.lim) ELSE s.v
Ext(s) == IF s.lim = "" THEN "" ELSE IF s.mode = "Current" THEN s.lim ELSE s.v
Turn(op) == CASE op = "<=" -> ">=" [] op = ">=" -> "<=" [] op = "<" -> ">" [] op = ">" -> "<" [] OTHER -> op
EndOf(s, e) == CASE e.ty = "Voltage" -> [left |-> "PV_CHAN_Voltage", cmp |-> e.op, right |-> e.v]
                 [] e.ty = "StepTime" -> [left |-> "PV_CHAN_Step_Time", cmp |-> ">", right |-> e.v]
                 [] OTHER -> [left |-> IF Ctrl(s) = "CCCV" THEN "PV_CHAN_CV_Stage_Current" ELSE "PV_CHAN_Current",
                              cmp |-> IF s.dir = "Dischrge" THEN Turn(e.op) ELSE e.op, right |-> Neg(s, e.v)]
RepOf(e) == [left |-> CASE e.ty = "Voltage" -> "DV_Voltage" [] e.ty = "Current" -> "DV_Current" [] OTHER -> "DV_Time", cmp |-> ">", right |-> e.v]
Is(l, x) == l.left = x.left /\ l.cmp = x.cmp /\ l.right = x.right
Pick(bad) == IF bad = {} THEN "" ELSE (CHOOSE x \in bad : \A y \in bad : x[1] <= y[1])[2]
First(f(_), n) == Pick({<<j, f(j)>> : j \in 1..n} \ {<<j, "">> : j \in 1..n})
Step(s, q, i) ==
  LET st == Stops(q)  lg == SelectSeq(q.lims, LAMBDA l : ~l.stop) IN
  IF q.label # ToString(i) \o "-" \o s.note THEN "label"
  ELSE IF q.range # T.range THEN "current-range"
  ELSE IF q.num # Len(q.lims) THEN "limit-number"
  ELSE IF s.k # "M" THEN ""
  ELSE IF q.ctrl # Ctrl(s) THEN "control-type"
  ELSE IF q.value # Value(s) THEN "set-point"
  ELSE IF q.ext # Ext(s) THEN "limit-of-step"
  ELSE IF Len(st) # Len(s.ends) THEN "end-condition-count"
  ELSE IF Len(lg) # Len(s.reps) THEN "report-count"
  ELSE LET E(j) == IF ~Is(st[j], EndOf(s, s.ends[j])) THEN "end-condition" ELSE IF ~st[j].log THEN "end-not-recorded" ELSE ""
           R(j) == IF ~Is(lg[j], RepOf(s.reps[j])) THEN "report" ELSE IF ~lg[j].log THEN "report-not-recorded" ELSE ""
           e == First(E, Len(st))
       IN IF e # "" THEN e ELSE First(R, Len(lg))
Clause == IF T.refused THEN (IF T.left THEN "file-of-refused-procedure" ELSE IF ~T.unfit THEN "refused-convertible" ELSE "")
          ELSE IF T.unfit THEN "accepted-unrepresentable"
          ELSE IF T.err # "" THEN T.err
          ELSE IF ~T.kept THEN "procedure-changed"
          ELSE IF ~T.again THEN "second-file-differs"
          ELSE IF ~T.rest THEN "rest-of-schedule"
          ELSE IF ~T.scopes THEN "safety-scopes"
          ELSE IF Len(T.steps) # Len(T.prog) \/ T.number # Len(T.prog) THEN "step-count"
          ELSE LET S(i) == Step(T.prog[i], T.steps[i], i)
                   c == First(S, Len(T.prog))
               IN IF c # "" THEN c ELSE Lockstep(T.prog, T.steps, 400)
TraceInit == t = 1
TraceNext == /\ t <= Len(Traces)
             /\ LET c == Clause IN PrintT("@@" \o ToJson([id |-> T.id, ok |-> c = "", clause |-> c]))
             /\ t' = t + 1
TraceSpec == TraceInit /\ [][TraceNext]_t
=============================================================================
