---------------------------- MODULE CellRunMC ----------------------------
(* A cycler executes steps and logs rows; a streaming summarizer keeps    *)
(* one record per cycle as the rows arrive.  TLC checks, on every run the *)
(* cycler can produce within the bounds, that the declarative definitions *)
(* of CellRun agree with the streaming machine and that they partition    *)
(* the run; the skeletons are emitted to drive the real code.             *)
EXTENDS CellRun, TLC, Json
CONSTANTS MaxCycles, MaxSteps, Emit
Kinds == {"C", "V", "D", "R", "P"}
VARIABLES raw, skel, acc, open
vars == <<raw, skel, acc, open>>
Row(c, s, t, v, i, cc, dc, te, gap) ==
   [cyc |-> c, step |-> s, t |-> t, date |-> t + gap, v |-> v, i |-> i, cc |-> cc, dc |-> dc,
    ce |-> 3 * cc, de |-> 3 * dc, ir |-> s, temp |-> te, wf |-> 0]
(* rows logged by one step *)
StepLog(c, s, kind, prev) ==
   LET t0 == prev.t  g == prev.gap + (IF kind = "R" THEN 4000 ELSE 0)
       R1(n, v, i, cc, dc) == Row(c, s, t0 + 10 * n, v, i, cc, dc, 200 + 10 * n + s, g)
   IN CASE kind = "C" -> <<R1(1, prev.v, 1000, prev.cc, prev.dc), R1(2, prev.v + 200, 1000, prev.cc + 5, prev.dc),
                          R1(3, prev.v + 400, 1000, prev.cc + 9, prev.dc)>>
        [] kind = "V" -> <<R1(1, 3600, 900, prev.cc, prev.dc), R1(2, 3600, 500, prev.cc + 2, prev.dc)>>
        [] kind = "D" -> <<R1(1, prev.v, -1000, prev.cc, prev.dc), R1(2, prev.v - 300, -1000, prev.cc, prev.dc + 9)>>
        [] kind = "R" -> <<R1(1, prev.v, 0, prev.cc, prev.dc), R1(2, prev.v, 0, prev.cc, prev.dc)>>
        [] kind = "P" -> <<R1(1, prev.v, 0, prev.cc, prev.dc)>>
New == [cc |-> 0, dc |-> 0, tmax |-> 0, tmin |-> 10000, n |-> 0, tsum |-> 0, t0 |-> 0, last |-> 0, pause |-> 0,
        tt |-> 0, ltemp |-> 0, runs |-> 0, lstep |-> -1, ir |-> 0, dur |-> NIL, gc |-> 0, gd |-> 0, lcc |-> 0, ldc |-> 0]
Take(a, r) ==
   LET gap == IF a.n = 0 THEN 0 ELSE r.date - a.last IN
   [cc |-> IF r.cc > a.cc THEN r.cc ELSE a.cc, dc |-> IF r.dc > a.dc THEN r.dc ELSE a.dc,
    tmax |-> IF r.temp > a.tmax THEN r.temp ELSE a.tmax, tmin |-> IF r.temp < a.tmin THEN r.temp ELSE a.tmin,
    n |-> a.n + 1, tsum |-> a.tsum + r.temp, t0 |-> IF a.n = 0 THEN r.date ELSE a.t0, last |-> r.date,
    pause |-> IF gap > 3600 /\ gap > a.pause THEN gap ELSE a.pause,
    tt |-> IF a.n = 0 THEN 0 ELSE a.tt + (r.temp + a.ltemp) * gap, ltemp |-> r.temp,
    runs |-> IF r.step # a.lstep THEN a.runs + 1 ELSE a.runs, lstep |-> r.step, ir |-> r.ir,
    dur |-> IF a.dur = NIL /\ 2 * r.cc >= 15 THEN r.date - (IF a.n = 0 THEN r.date ELSE a.t0) ELSE a.dur,
    gc |-> IF r.step = a.lstep THEN a.gc + r.cc - a.lcc ELSE a.gc,
    gd |-> IF r.step = a.lstep THEN a.gd + r.dc - a.ldc ELSE a.gd, lcc |-> r.cc, ldc |-> r.dc]
RECURSIVE TakeAll(_, _)
TakeAll(a, rows) == IF rows = << >> THEN a ELSE TakeAll(Take(a, Head(rows)), Tail(rows))

Init == raw = << >> /\ skel = << >> /\ acc = << >> /\ open = FALSE
Base == [t |-> 0, v |-> 3200, cc |-> 0, dc |-> 0, gap |-> 0]
PrevOf == IF raw = << >> THEN Base
          ELSE LET r == raw[Len(raw)] IN
               IF open THEN [t |-> r.t, v |-> r.v, cc |-> r.cc, dc |-> r.dc, gap |-> r.date - r.t]
               ELSE [t |-> r.t, v |-> 3200, cc |-> 0, dc |-> 0, gap |-> r.date - r.t]
CurCyc == skel[Len(skel)].cyc
StartCycle == /\ Len(skel) < MaxCycles
              /\ skel # << >> => open
              /\ \E g \in {1, 2} :
                   LET c == IF skel = << >> THEN g - 1 ELSE CurCyc + g IN
                   /\ skel' = Append(skel, [cyc |-> c, steps |-> << >>])
                   /\ acc' = Append(acc, New)
              /\ open' = FALSE /\ UNCHANGED raw
StepsOf == skel[Len(skel)].steps
DoStep == /\ skel # << >> /\ Len(StepsOf) < MaxSteps
          /\ \E kind \in Kinds :
               LET same == {k \in 1..Len(StepsOf) : StepsOf[k].kind = kind}
                   fresh == 1 + Cardinality({StepsOf[k].s : k \in 1..Len(StepsOf)})
               IN \E s \in {fresh} \cup {StepsOf[k].s : k \in same} :
                    /\ StepsOf # << >> => StepsOf[Len(StepsOf)].s # s
                    /\ LET log == StepLog(CurCyc, s, kind, PrevOf) IN
                       /\ raw' = raw \o log
                       /\ acc' = [acc EXCEPT ![Len(acc)] = TakeAll(@, log)]
                    /\ skel' = [skel EXCEPT ![Len(skel)].steps = Append(@, [s |-> s, kind |-> kind])]
          /\ open' = TRUE
Next == StartCycle \/ DoStep
Spec == Init /\ [][Next]_vars

Done(k) == skel[k].steps # << >>
Streaming == \A k \in 1..Len(skel) : Done(k) =>
   LET S == RowsOf(raw, skel[k].cyc)  a == acc[k] IN
   /\ MaxOf(raw, S, "cc") = a.cc /\ MaxOf(raw, S, "dc") = a.dc
   /\ MaxOf(raw, S, "temp") = a.tmax /\ MinOf(raw, S, "temp") = a.tmin
   /\ SumOf(raw, S, "temp") = a.tsum /\ Cardinality(S) = a.n
   /\ raw[First(S)].date = a.t0 /\ Paused(raw, S) = a.pause /\ TempTime(raw, S) = a.tt
   /\ RunCount(raw, skel[k].cyc) = a.runs /\ raw[Last(S)].ir = a.ir
   /\ Duration(raw, S, 15) = a.dur
(* every row is in exactly one run and one step of its cycle; a run is inside one step *)
Partition == \A k \in 1..Len(skel) : Done(k) =>
   LET c == skel[k].cyc IN
   /\ UNION {RunRows(raw, c, r) : r \in 1..RunCount(raw, c)} = RowsOf(raw, c)
   /\ \A r \in 1..RunCount(raw, c) : Cardinality({raw[j].step : j \in RunRows(raw, c, r)}) = 1
   /\ \A q, r \in 1..RunCount(raw, c) : q < r => \A a \in RunRows(raw, c, q), b \in RunRows(raw, c, r) : a < b
   /\ UNION {StepRows(raw, c, s) : s \in Steps(raw, c)} = RowsOf(raw, c)
   /\ {StepOrder(raw, c, s) : s \in Steps(raw, c)} = 0..(Cardinality(Steps(raw, c)) - 1)
(* the capacity a step gained is what its type says; per cycle the gains add up *)
Typing == \A k \in 1..Len(skel) : Done(k) =>
   LET c == skel[k].cyc IN
   /\ \A j \in 1..Len(skel[k].steps) :
        LET ty == StepType(raw, StepRows(raw, c, skel[k].steps[j].s), "none")  kd == skel[k].steps[j].kind IN
        ty = (CASE kd \in {"C", "V"} -> "charge" [] kd = "D" -> "discharge" [] OTHER -> "none")
   /\ SumS([s \in Steps(raw, c) |-> GC(raw, StepRows(raw, c, s))], Steps(raw, c)) = acc[k].gc
   /\ SumS([s \in Steps(raw, c) |-> GD(raw, StepRows(raw, c, s))], Steps(raw, c)) = acc[k].gd
(* interpolation reproduces measured points and accepts nothing outside their neighbours' values *)
Interp == \A k \in 1..Len(skel) : Done(k) => \A s \in Steps(raw, skel[k].cyc) :
   LET S == StepRows(raw, skel[k].cyc, s) IN
   /\ \A j \in S : InterpOK(raw, S, LAMBDA r : r.t, LAMBDA r : r.v, 3, 3 * raw[j].t, 100 * raw[j].v)
   /\ \A j \in S : ~InterpOK(raw, S, LAMBDA r : r.t, LAMBDA r : r.v, 3, 3 * raw[j].t, 100 * MaxOf(raw, S, "v") + 100)
   /\ \A j \in S : ~InterpOK(raw, S, LAMBDA r : r.t, LAMBDA r : r.v, 3, 3 * raw[j].t, 100 * MinOf(raw, S, "v") - 100)
(* the constant-voltage segment starts no later than the first V row and is inside the charge rows *)
CVSane == \A k \in 1..Len(skel) : Done(k) =>
   LET Q == ChargeRows(raw, RowsOf(raw, skel[k].cyc)) IN
   HasCV(raw, Q) => CVStart(raw, Q) \in Q /\ CVStart(raw, Q) < Last(Q)
EmitInv == IF Emit /\ skel # << >> /\ \A j \in 1..Len(skel) : Done(j) THEN PrintT("@@" \o ToJson([sk |-> skel])) ELSE TRUE
==========================================================================
