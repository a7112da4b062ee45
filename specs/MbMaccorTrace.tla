--------------------------- MODULE MbMaccorTrace ---------------------------
(* C08: settings files converted by the code.  prog: the program; steps:   *)
(* of the procedure written; the n-th measurement of the one is the n-th   *)
(* of the other.                                                           *)
EXTENDS MbMaccor, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLE t
T == Traces[t]
Kind == [T |-> "StepTime", V |-> "Voltage", I |-> "Current", P |-> "Power"]
Oper(l) == IF l.cmp = "<" THEN "<=" ELSE IF l.ty = "T" THEN "=" ELSE ">="
Mode == [CC |-> "Current", CV |-> "Voltage", CR |-> "Resistance", CP |-> "Power", Rest |-> ""]
Pick(bad) == IF bad = {} THEN "" ELSE (CHOOSE x \in bad : \A y \in bad : x[1] <= y[1])[2]
Meas(q, s) == IF s.mode # Mode[q.ctrl] THEN "control-mode"
              ELSE IF (q.ctrl = "Rest") # (s.type = "Rest") THEN "control-mode"
              ELSE IF q.ctrl # "Rest" /\ s.type # q.dir /\ ~(q.dir = "Charge" /\ s.type = "Dischrge") THEN "direction"
              ELSE IF q.ctrl # "Rest" /\ s.v # q.v THEN "setpoint"
              ELSE IF Len(q.lims) # Len(s.ends) THEN "end-condition-count"
              ELSE IF Len(q.recs) # Len(s.reps) THEN "report-count"
              ELSE LET l == Pick({<<j, IF s.ends[j].ty # Kind[q.lims[j].ty] THEN "end-condition-type"
                                       ELSE IF s.ends[j].op # Oper(q.lims[j]) THEN "end-condition-comparison"
                                       ELSE IF s.ends[j].v # q.lims[j].v THEN "end-condition-value" ELSE "">> : j \in Ix(q.lims)}
                                 \ {<<j, "">> : j \in Ix(q.lims)})
                   IN IF l # "" THEN l
                      ELSE Pick({<<j, IF s.reps[j].ty # Kind[q.recs[j].ty] THEN "report-type" ELSE IF s.reps[j].v # q.recs[j].v THEN "report-value" ELSE "">> : j \in Ix(q.recs)}
                                \ {<<j, "">> : j \in Ix(q.recs)})
(* known: the count of a loop is written beside its place, one short, with *)
(* the do step as the step to go on with                                   *)
Loop(q, s, i) == IF s[i].value # "" THEN s[i].value = ToString(q.rep + 1) /\ s[i].go = i + 1
                 ELSE s[i].stray = ToString(q.rep) /\ s[i].go = Do(s, i)
Clause == IF ~T.refused /\ T.unfit THEN "accepted-unrepresentable"
          ELSE IF T.refused THEN (IF T.left THEN "file-of-refused-program" ELSE IF ~T.unfit /\ Convertible(T.prog) THEN "refused-convertible" ELSE "")
          ELSE IF ~Specified(T.prog) THEN ""
          ELSE IF T.err # "" THEN T.err
          ELSE LET p == T.prog
                   ms == SelectSeq([i \in Ix(p) |-> i], LAMBDA i : p[i].k = "M")
                   ls == SelectSeq([i \in Ix(p) |-> i], LAMBDA i : Loops(p, i))
                   k == SelectSeq([i \in Ix(T.steps) |-> i], LAMBDA i : T.steps[i].k = "M")
                   kl == SelectSeq([i \in Ix(T.steps) |-> i], LAMBDA i : T.steps[i].k = "L")
               IN IF Len(ms) # Len(k) THEN "step-count"
                  ELSE IF Len(ls) # Len(kl) THEN "loop-count"
                  ELSE LET bad == {<<j, Meas(p[ms[j]], T.steps[k[j]])>> : j \in Ix(ms)} \ {<<j, "">> : j \in Ix(ms)} IN
                  IF bad # {} THEN Pick(bad)
                  ELSE IF \E j \in Ix(ls) : ~Loop(p[ls[j]], T.steps, kl[j]) THEN "loop-passes"
                  ELSE LET s == [i \in Ix(T.steps) |->
                                   [T.steps[i] EXCEPT !.src = IF T.steps[i].k = "M" THEN ms[CHOOSE j \in Ix(k) : k[j] = i] ELSE 0,
                                                      !.n = IF T.steps[i].k = "L" THEN p[ls[CHOOSE j \in Ix(kl) : kl[j] = i]].rep + 1 ELSE 0]]
                       IN Lockstep(p, s)
Flag(w) == IF T.refused \/ T.err # "" THEN FALSE
           ELSE IF w = "direction" THEN LET k == SelectSeq(T.steps, LAMBDA s : s.k = "M")
                                            q == SelectSeq(T.prog, LAMBDA s : s.k = "M")
                                        IN Len(k) = Len(q) /\ \E j \in Ix(k) : q[j].ctrl # "Rest" /\ q[j].dir = "Charge" /\ k[j].type = "Dischrge"
           ELSE \E i \in Ix(T.steps) : T.steps[i].k = "L" /\ T.steps[i].value = ""
TraceInit == t = 1
TraceNext == /\ t <= Len(Traces)
             /\ LET c == Clause IN PrintT("@@" \o ToJson([id |-> T.id, ok |-> c = "", clause |-> c, direction |-> Flag("direction"), loop |-> Flag("loop"), any |-> ~T.refused /\ ~Specified(T.prog)]))
             /\ t' = t + 1
TraceSpec == TraceInit /\ [][TraceNext]_t
=============================================================================
