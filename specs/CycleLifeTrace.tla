-------------------------- MODULE CycleLifeTrace --------------------------
EXTENDS CycleLife, TLC, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLE t
T == Traces[t]
(* below 0: the lowest capacity is below the first threshold times the highest; 0: not to be decided in floating point *)
Caps(sm) == {sm[i].cap : i \in 1..Len(sm)}
Cap(sm) == LET lo == CHOOSE x \in Caps(sm) : \A y \in Caps(sm) : x <= y hi == CHOOSE x \in Caps(sm) : \A y \in Caps(sm) : x >= y
           IN 100 * lo - T.tmax * hi
(* table of lives: thresholds max, max - step, ... while above min (min itself may be included) *)
ThrAt(k) == T.tmax - (k - 1) * T.tstep
NThr == {n \in 0..200 : (n = 0 \/ T.tmax - (n - 1) * T.tstep >= T.tmin) /\ T.tmax - n * T.tstep <= T.tmin}
PosAt(k) == T.cmin + (k - 1) * T.cstep
NPos == Cardinality({k \in 1..200 : PosAt(k) < T.cmax})
Judge(o) ==
  CASE o.err # "" -> "fails"
    [] o.life \notin Lives(T.sm, T.cutoff, T.thr) -> "cycle-life"
    [] Len(o.caps) # NPos \/ \E k \in 1..Len(o.caps) : o.caps[k].pos # PosAt(k) -> "cycle-columns"
    [] \E k \in 1..Len(o.caps) : o.caps[k].cap # CapAt(T.sm, PosAt(k)) -> "capacity-at-cycle"
    [] Len(o.lives) \notin NThr \/ \E k \in 1..Len(o.lives) : o.lives[k].thr # ThrAt(k) -> "threshold-columns"
    [] \E k \in 1..Len(o.lives) : o.lives[k].life \notin Lives(T.sm, 40, ThrAt(k)) -> "cycles-to-threshold"
    [] o.traj # o.lives -> "trajectory-features"          \* the featurizer gives the same table
    [] Cap(T.sm) # 0 /\ o.valid # (Cap(T.sm) < 0) -> "trajectory-validity"
    [] OTHER -> ""
Clause == IF ~T.refused_before THEN "answers-before-structuring"
          ELSE IF Judge(T.obs) # "" THEN Judge(T.obs)
          ELSE IF Judge(T.re) # "" THEN "reloaded-" \o Judge(T.re)
          ELSE IF T.obs # T.re THEN "reload-differs" ELSE ""
TraceInit == t = 1
TraceNext == /\ t <= Len(Traces)
             /\ LET c == Clause IN PrintT("@@" \o ToJson([id |-> T.id, ok |-> c = "", clause |-> c]))
             /\ t' = t + 1
TraceSpec == TraceInit /\ [][TraceNext]_t
==========================================================================
