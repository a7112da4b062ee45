------------------------- MODULE ProtocolParams -------------------------
(* What a generated protocol must contain, as a function of the requested *)
(* parameters.  Units of the integers: C rates and volts 1/10000, Ah and  *)
(* A 1/1000 (A of reset cycles 1/10000), minutes 1/10, percent 1/10.      *)
(* A table entry is [k |-> field, u |-> unit, ...]: every field not in the *)
(* table must be that of the template.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Ix(s) == 1..Len(s)
Abs(x) == IF x < 0 THEN -x ELSE x
(* units: "A3"/"A4" amps written with 3 (4) decimals, obs in 1/10000 A, expected c * q (rate * capacity)
          "V"  obs in 1/10000, rounded to 3 decimals;  "W" the same, unrounded;   "T" seconds;   "N" a count;  "M" minutes, 3 decimals, obs 1/1000
          "R"  seconds from a quotient: obs = num / den (+ off), rounded;         "S" text;   "X" the fields of a waveform step *)
A3(k, c, q) == [k |-> k, u |-> "A3", a |-> c, b |-> q, c |-> 0]
A4(k, c, q) == [k |-> k, u |-> "A4", a |-> c, b |-> q, c |-> 0]
V(k, v) == [k |-> k, u |-> "V", a |-> v, b |-> 0, c |-> 0]
W(k, v) == [k |-> k, u |-> "W", a |-> v, b |-> 0, c |-> 0]
T(k, s) == [k |-> k, u |-> "T", a |-> s, b |-> 0, c |-> 0]
N(k, n) == [k |-> k, u |-> "N", a |-> n, b |-> 0, c |-> 0]
M(k, m) == [k |-> k, u |-> "M", a |-> m, b |-> 0, c |-> 0]
R(k, num, den, off) == [k |-> k, u |-> "R", a |-> num, b |-> den, c |-> off]
X(k) == [k |-> k, u |-> "X", a |-> 1, b |-> 0, c |-> 0]
OkVal(e, o) == CASE e.u = "A3" -> Abs(o * 1000 - e.a * e.b) <= 5001
                 [] e.u = "A4" -> Abs(o * 1000 - e.a * e.b) <= 501
                 [] e.u = "V" -> Abs(o - e.a) <= 5
                 [] e.u = "R" -> 2 * Abs((o - e.c) * e.b - e.a) <= e.b + 1
                 [] OTHER -> o = e.a
K(i, f) == ToString(i) \o "." \o f
SV == "StepValue"
E0 == "Ends.0.Value"
E1 == "Ends.1.Value"
LV == "Limits.Voltage"
Mins(m) == 6 * m                     \* tenths of a minute in seconds
(* -------- Maccor regular cycles -------- *)
CcTime(p) == R("", 36000 * p.pct, p.cc1, 0)
Charge(i, p, v3) == << A3(K(i, SV), p.cc1, p.cap), [CcTime(p) EXCEPT !.k = K(i, E0)] >>
   \o (IF v3 THEN <<V(K(i, E1), p.vch)>> ELSE << >>)
   \o << A3(K(i + 1, SV), p.cc2, p.cap), V(K(i + 1, E0), p.vch), W(K(i + 2, SV), p.vch), T(K(i + 2, E0), Mins(p.cvt)), T(K(i + 3, E0), Mins(p.crest)) >>
DisEnd(i, p, loop) == << T(K(i + 1, E0), Mins(p.drest)), N(K(i + 3, E0), IF loop = 1 THEN p.nstart ELSE p.nint) >>
Discharge(i, p, loop) == << A3(K(i, SV), p.dcc, p.cap), V(K(i, E0), p.vdis) >> \o DisEnd(i, p, loop)
Storage(i, p) == << A3(K(i, SV), 5000, p.cap), V(K(i, LV), p.vdis), A3(K(i, E0), 500, p.cap), A3(K(i + 1, SV), 5000, p.cap), T(K(i + 1, E0), 720) >>
(* -------- diagnostic cycles; d: the diagnostic parameter set -------- *)
Reset(i, p, d) == << A4(K(i, SV), d.reset, p.cap), V(K(i, LV), d.vch), A4(K(i, E0), d.resetcut, p.cap), A4(K(i + 1, SV), d.reset, p.cap), V(K(i + 1, E0), d.vdis) >>
Hppc(i, p, d) == << A3(K(i, SV), d.base, p.cap), V(K(i, LV), d.vch), A3(K(i, E0), d.cut, p.cap), T(K(i + 2, E0), Mins(d.rest)),
   A3(K(i + 3, SV), d.pulse1, p.cap), T(K(i + 3, E0), d.dur1), V(K(i + 3, E1), d.vdis), T(K(i + 4, E0), d.prest),
   A3(K(i + 5, SV), d.pulse2, p.cap), T(K(i + 5, E0), d.dur2), V(K(i + 5, E1), d.vpulse),
   A3(K(i + 6, SV), d.base, p.cap), R(K(i + 6, E0), 36000 * d.interval, d.base, -1), V(K(i + 6, E1), d.vdis),
   V(K(i + 8, SV), d.vdis), A3(K(i + 8, "Limits.Current"), d.base, p.cap), A3(K(i + 8, E0), d.cut, p.cap) >>
RptPart(i, p, d, dc) == << A3(K(i, SV), d.rptc, p.cap), V(K(i, LV), d.vch), A3(K(i, E0), d.cut, p.cap), A3(K(i + 1, SV), dc, p.cap), V(K(i + 1, E0), d.vdis) >>
Rpt(i, p, d) == RptPart(i, p, d, d.rpt1) \o RptPart(i + 3, p, d, d.rpt2) \o RptPart(i + 6, p, d, d.rpt3)
Diag2(p, d) == Reset(4, p, d) \o Hppc(8, p, d) \o Rpt(18, p, d) \o Reset(37, p, d) \o Hppc(40, p, d) \o Rpt(50, p, d)
Diag3(p, d) == Diag2(p, d) \o Reset(70, p, d) \o Hppc(74, p, d) \o Rpt(84, p, d)
Resist(p) == <<A3(K(1, SV), 10000, p.cap)>>
Rest0(idx) == <<T(K(0, E0), 10800 + 720 * (idx % 96))>>
(* -------- BioLogic formation: F(step, what) -------- *)
F(i, f) == ToString(i) \o "." \o f
Cc(i, c, p, v) == << A3(F(i, "ctrl1_val"), c, p.cap), V(F(i, "lim1_value"), v) >>
Cv(i, v, m) == << V(F(i, "ctrl1_val"), v), M(F(i, "lim1_value"), m * 100) >>
Formation(p) == Cc(2, p.ic1, p, p.iv1) \o Cv(3, p.iv1, p.ih1) \o <<M(F(4, "lim1_value"), p.ir1 * 100)>>
   \o Cc(5, p.ic2, p, p.iv2) \o Cv(6, p.iv2, p.ih2) \o <<M(F(7, "lim1_value"), p.ir2 * 100)>>
   \o Cc(8, p.idc, p, p.idv) \o Cc(9, p.mc, p, p.mv) \o Cc(10, p.mdc, p, p.mdv) \o <<N(F(11, "ctrl_repeat"), p.reps - 1)>>
   \o Cc(12, p.fc, p, p.fv) \o Cc(13, p.fdc, p, p.fdv) \o Cv(14, p.fdv, p.fdh)
(* -------- Arbin fast charge (amps and Ah in 1/10000, three decimals) -------- *)
Fast(p) == << V("CC1.m_szCtrlValue", p.cc1), V("CC1.limit", p.cap), V("CC2.m_szCtrlValue", p.cc2) >>
Table(kind, p, d, idx) ==
  CASE kind = "v2" -> Resist(p) \o Charge(28, p, FALSE) \o Discharge(32, p, 1) \o Charge(60, p, FALSE) \o Discharge(64, p, 2) \o Storage(69, p) \o Diag2(p, d)
    [] kind = "v3" -> Rest0(idx) \o Resist(p) \o Charge(28, p, TRUE) \o Discharge(32, p, 1) \o Charge(60, p, TRUE) \o Discharge(64, p, 2) \o Storage(93, p) \o Diag3(p, d)
    [] kind = "drive" -> Rest0(idx) \o Resist(p) \o Charge(28, p, TRUE) \o <<X(K(32, "wave"))>> \o DisEnd(32, p, 1)
                        \o Charge(60, p, TRUE) \o <<X(K(64, "wave"))>> \o DisEnd(64, p, 2) \o Storage(93, p) \o Diag3(p, d)
    [] kind = "rapid" -> Rest0(idx) \o Resist(p) \o <<X(K(28, "wave"))>> \o SubSeq(Charge(28, p, TRUE), 4, 8) \o Discharge(32, p, 1)
                        \o <<X(K(60, "wave"))>> \o SubSeq(Charge(60, p, TRUE), 4, 8) \o Discharge(64, p, 2) \o Storage(93, p) \o Diag3(p, d)
    [] kind = "form" -> Formation(p)
    [] kind = "fast" -> Fast(p)
(* requests that cannot be honoured *)
Refused(kind, p) == \/ kind \in {"v2", "v3", "drive", "rapid"} /\ p.vch <= p.vdis
                    \/ kind = "drive" /\ p.cc1 > p.cc2
                    \/ kind = "rapid" /\ p.offset <= 0
(* -------- edits of a given procedure -------- *)
(* a step: [type, mode, lim (voltage limit, or ""), ends: seq of [t, op, step, v], value] *)
InLoop(S, i) == \E a, b \in Ix(S) : S[a].type = "Do 1" /\ S[b].type = "Loop 1" /\ a < i /\ i < b
(* EXP procedures: charges get the cut-off voltage where they are voltage limited, the charge and discharge rates apply inside loop 1 *)
ExpStep(S, i, q) == LET s == S[i] IN
  [s EXCEPT !.lim = IF s.type = "Charge" /\ s.lim # "" THEN q.cut ELSE s.lim,
            !.value = IF s.type = "Charge" /\ s.mode = "Current" /\ InLoop(S, i) THEN q.chg
                      ELSE IF s.type = "Dischrge" /\ s.mode = "Current" /\ InLoop(S, i) THEN q.dis ELSE s.value]
ExpRefused(S) == ~(\E a \in Ix(S) : S[a].type = "Do 1") \/ ~(\E a \in Ix(S) : S[a].type = "Loop 1")
(* limits that skip to the ending diagnostic: every voltage end that goes to step key (of a step with several ends) *)
SkipEnd(s, e, q) == IF Len(s.ends) > 1 /\ e.t = "Voltage" /\ e.step = q.key /\ e.op \in {">=", "<="}
                    THEN [e EXCEPT !.v = IF e.op = ">=" THEN q.max ELSE q.min, !.step = IF q.new = "" THEN @ ELSE q.new] ELSE e
SkipStep(S, i, q) == [S[i] EXCEPT !.ends = [j \in Ix(S[i].ends) |-> SkipEnd(S[i], S[i].ends[j], q)]]
(* a waveform step: only the name of the waveform is left *)
WaveStep(S, i, q) == IF i = q.at + 1 THEN [type |-> "FastWave", mode |-> "", lim |-> S[i].lim, ends |-> << >>, value |-> q.name] ELSE S[i]
Edit(S, q) == [i \in Ix(S) |-> CASE q.op = "exp" -> ExpStep(S, i, q) [] q.op = "skip" -> SkipStep(S, i, q) [] OTHER -> WaveStep(S, i, q)]
==========================================================================
