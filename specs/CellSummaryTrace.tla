------------------------- MODULE CellSummaryTrace -------------------------
(* C23: the summary tables of a real structured run.                      *)
EXTENDS CellRun, TLC, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLE t
T == Traces[t]
raw == T.raw
Diag == Range(T.diag) 
Reg == Cycles(raw) \ Diag
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN << >> ELSE <<MinS(S)>> \o Asc(S \ {MinS(S)})
Want(keepLast) == LET s == Asc(Reg) IN
   IF Len(s) <= 1 \/ keepLast THEN s ELSE SubSeq(s, 1, Len(s) - 1)
CycSeq(q) == [k \in 1..Len(q) |-> q[k].cyc]
LastReg == RowsOf(raw, MaxS(Reg))
CommonClause(r, S) ==
  CASE ~Near(r.cc, 100 * MaxOf(raw, S, "cc"), 1) -> "charge-capacity"
    [] ~Near(r.dc, 100 * MaxOf(raw, S, "dc"), 1) -> "discharge-capacity"
    [] ~Near(r.tmax, 100 * MaxOf(raw, S, "temp"), 2) -> "temperature-maximum"
    [] ~Near(r.tmin, 100 * MinOf(raw, S, "temp"), 2) -> "temperature-minimum"
    [] ~Mul(r.tavg, Cardinality(S)) \/ ~Near(r.tavg * Cardinality(S), 100 * SumOf(raw, S, "temp"), 2 * Cardinality(S)) -> "temperature-average"
    [] r.date # raw[First(S)].date -> "start-date"
    [] r.paused # Paused(raw, S) -> "paused"
    [] OTHER -> ""
Energy(x, S, f) == IF Bad(MaxOf(raw, S, f)) THEN x = NIL ELSE Near(x, 100 * MaxOf(raw, S, f), 1)
Ratio(e, num, den) == IF den = 0 THEN e \in {NIL, HUGE} ELSE e \notin {NIL, HUGE} /\ Mul(e, den) /\ Near(e * den, num * 10000, den + 1)
CVClause(r, Q) ==
  IF Q = {} THEN (IF r.cvt # NIL \/ r.cvi # NIL \/ r.cvq # NIL THEN "cv-without-charge" ELSE "")
  ELSE IF ~HasCV(raw, Q) THEN ""
  ELSE LET a == CVStart(raw, Q)  b == Last(Q) IN
    CASE ~Near(r.cvt, 100 * (raw[b].t - raw[a].t), 2) -> "cv-time"
      [] ~Near(r.cvi, 100 * raw[b].i, 2) -> "cv-current"
      [] ~Near(r.cvq, 100 * (raw[b].cc - raw[a].cc), 2) -> "cv-capacity"
      [] OTHER -> ""
Upto(c) == {d \in Reg : d <= c}
Good(f, c) == {d \in Upto(c) : f = "cc" \/ ~Bad(MaxOf(raw, RowsOf(raw, d), f))}
Thru(f, c) == SumS([d \in Good(f, c) |-> MaxOf(raw, RowsOf(raw, d), f)], Good(f, c))
RegClause(r) ==
  LET S == RowsOf(raw, r.cyc)
      a == CommonClause(r, S)
      b == CVClause(r, ChargeRows(raw, S))
  IN CASE a # "" -> a
       [] ~Energy(r.ce, S, "ce") -> "charge-energy"
       [] ~Energy(r.de, S, "de") -> "discharge-energy"
       [] ~Near(r.ir, 100 * raw[Last(S)].ir, 2) -> "internal-resistance"
       [] ~Bad(MaxOf(raw, S, "ce")) /\ ~Bad(MaxOf(raw, S, "de")) /\
          ~(IF MaxOf(raw, S, "ce") = 0 THEN r.eff = NIL ELSE Ratio(r.eff, MaxOf(raw, S, "de"), MaxOf(raw, S, "ce"))) -> "energy-efficiency"
       [] ~Near(r.qthr, 10 * Thru("cc", r.cyc), 2) -> "charge-throughput"
       [] ~Bad(MaxOf(raw, S, "ce")) /\ ~Near(r.ethr, 10 * Thru("ce", r.cyc), 2) -> "energy-throughput"
       [] LET d == Duration(raw, S, T.thr2) IN IF d = NIL THEN r.dur # NIL ELSE ~Near(r.dur, 100 * d, 2) -> "charge-duration"
       [] ~Near(r.tti, TempTime(raw, S), 20) -> "time-temperature"
       [] OTHER -> b
DiagClause(r) ==
  LET S == RowsOf(raw, r.cyc)
      s0 == MinS(Steps(raw, r.cyc))
      a == CommonClause(r, S)
  IN CASE a # "" -> a
       [] ~Near(r.ce, 100 * MaxOf(raw, S, "ce"), 1) -> "charge-energy"
       [] ~Near(r.de, 100 * MaxOf(raw, S, "de"), 1) -> "discharge-energy"
       [] ~Ratio(r.eff, MaxOf(raw, S, "dc"), MaxOf(raw, S, "cc")) -> "coulombic-efficiency"
       [] r.type # T.types[CHOOSE k \in 1..Len(T.diag) : T.diag[k] = r.cyc] -> "cycle-type"
       [] OTHER -> CVClause(r, StepRows(raw, r.cyc, s0))
FirstBad(q, F(_)) == LET bad == {k \in 1..Len(q) : F(q[k]) # ""} IN IF bad = {} THEN "" ELSE F(q[MinS(bad)])
Clause ==
  IF T.err # "" THEN "structuring-fails"
  ELSE IF CycSeq(T.sum) # Want(TRUE) /\ CycSeq(T.sum) # Want(FALSE) THEN "summary-cycles"
  ELSE IF Cardinality(Reg) > 1 /\ ~Borderline(raw, LastReg) /\ (CycSeq(T.sum) = Want(TRUE)) # Complete(raw, LastReg) THEN "last-cycle"
  ELSE IF FirstBad(T.sum, RegClause) # "" THEN FirstBad(T.sum, RegClause)
  ELSE IF CycSeq(T.dsum) # Asc(Diag \cap Cycles(raw)) THEN "diagnostic-cycles"
  ELSE IF FirstBad(T.dsum, DiagClause) # "" THEN "diagnostic-" \o FirstBad(T.dsum, DiagClause)
  ELSE ""
TraceInit == t = 1
TraceNext == /\ t <= Len(Traces)
             /\ LET c == Clause IN PrintT("@@" \o ToJson([id |-> T.id, ok |-> c = "", clause |-> c]))
             /\ t' = t + 1
TraceSpec == TraceInit /\ [][TraceNext]_t
==========================================================================
