---------------------------- MODULE WaveformTrace ----------------------------
(* C20: real waveform files, vehicle powers and rapid charges.             *)
(* mwf:   in (samples), exact, what, cfg, lines [state, mode, v, lmode,    *)
(*        lval, dur, emode, op, eval, rmode, rval, range], kept            *)
EXTENDS Waveform, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLE t
T == Traces[t]
Mwf == IF T.err # "" THEN "profile-refused"
       ELSE LET n == Len(T.lines)
                L == T.lines
                starts == FoldLeft(LAMBDA acc, l : Append(acc, Last(acc) + l.dur), <<1>>, L)
                M == Peak(T.in)
                slack == IF T.exact THEN 0 ELSE 2 + (T.cfg.s1 * 1000 + T.cfg.s0) \div M
                x(k) == T.in[starts[k]]
                secs(k) == starts[k]..starts[k + 1] - 1
            IN IF starts[n + 1] # Len(T.in) + 1 \/ (\E k \in 1..n : L[k].dur < 1) THEN "duration"
               ELSE IF \E k \in 1..n : L[k].state # State(x(k)) THEN "charge-or-discharge"
               ELSE IF \E k \in 1..n : \E i \in secs(k) : ~ValueOk(L[k].v, T.in[i], M, T.cfg.s1, T.cfg.s0, slack) THEN "value"
               ELSE IF \E k \in 1..n : \E i \in secs(k) : T.in[i] # 0 /\ State(T.in[i]) # L[k].state THEN "direction-within-line"
               ELSE IF T.exact /\ [k \in 1..n |-> <<starts[k], L[k].dur>>] # [k \in 1..Len(Compress(T.in)) |-> <<Compress(T.in)[k].start, Compress(T.in)[k].dur>>] THEN "lines-not-shortest"
               ELSE IF \E k \in 1..n : L[k].mode # Mode(T.cfg, T.what, x(k)) THEN "control-mode"
               ELSE IF \E k \in 1..n : <<L[k].lmode, L[k].lval>> # <<Fields(T.cfg, x(k))[1], Fields(T.cfg, x(k))[2]>> THEN "limit"
               ELSE IF \E k \in 1..n : <<L[k].emode, L[k].op, L[k].eval>> # SubSeq(Fields(T.cfg, x(k)), 3, 5) THEN "end"
               ELSE IF \E k \in 1..n : <<L[k].rmode, L[k].rval, L[k].range>> # T.cfg.report THEN "report-or-range"
               ELSE IF ~T.kept THEN "callers-table-changed"
               ELSE IF T.name # T.want THEN "file-name" ELSE ""
Vehicle == IF T.err # "" THEN (IF T.unit \in {"mph", "kmph", "mps"} THEN "velocities-refused" ELSE "")
           ELSE IF T.unit \notin {"mph", "kmph", "mps"} THEN "unknown-unit-accepted"
           ELSE IF Len(T.p) # Len(T.v) THEN "power-rows"
           ELSE IF T.time # T.t THEN "power-time"
           ELSE IF \E i \in 1..Len(T.v) : Abs(T.p[i] - Power(T.unit, T.t, T.v, i)) > PowerSlack(T.unit) THEN "power" ELSE ""
(* soc: state of charge of both currents at each second, 1e-4; cs, cm: currents in 1e-3 C; d: how far windows are blurred *)
Blend(j, c) == LET near == {T.rates[k] : k \in {j - 1, j, j + 1} \cap (1..Len(T.rates))} \cup {T.rates[1] \div 2}
               IN \E a, b \in near : a <= c /\ c <= b
Charge == IF ~Rising(T.mesh) THEN (IF T.err = "AssertionError" THEN "" ELSE "falling-windows-accepted")
          ELSE IF T.err # "" THEN (IF T.err = "AssertionError" THEN (IF T.must THEN "charge-refused" ELSE "") ELSE "charge-fails")
          ELSE IF Len(T.cs) # Len(T.cm) \/ Len(T.cs) # Len(T.time) THEN "charge-lengths"
          ELSE IF \E i \in 1..Len(T.time) : T.time[i] # i - 1 THEN "charge-seconds"
          ELSE IF \E i \in 1..Len(T.cm) : ~Near(Append(T.mesh, T.final), T.socm[i], T.d) /\ T.cm[i] # T.rates[Window(T.mesh, T.socm[i])] THEN "window-rate"
          ELSE IF Abs(T.socm[Len(T.socm)] - T.final) > T.d THEN "stepwise-charge"
          ELSE IF Abs(T.socs[Len(T.socs)] - T.final) > T.d THEN "smooth-charge"
          ELSE IF \E i \in 1..Len(T.cs) : T.cs[i] < T.min \/ T.cs[i] > T.max THEN "smooth-outside-limits"
          ELSE ""
Clause == CASE T.kind = "mwf" -> Mwf [] T.kind = "vehicle" -> Vehicle [] T.kind = "charge" -> Charge
TraceInit == t = 1
TraceNext == /\ t <= Len(Traces)
             /\ LET c == Clause IN PrintT("@@" \o ToJson([id |-> T.id, ok |-> c = "", clause |-> c]))
             /\ t' = t + 1
TraceSpec == TraceInit /\ [][TraceNext]_t
=============================================================================
