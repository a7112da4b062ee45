---------------------- MODULE MaccorBiologicTrace ----------------------
(* Validates conversions performed by the real converter.  A trace is     *)
(*   prog, limits   the decorated Maccor procedure given to the converter *)
(*   refused        TRUE if the converter raised                          *)
(*   techs          the settings file and rule files it wrote             *)
(*   events         rows a BioLogic instrument produces for that settings *)
(*                  file, numbered by the real rule interpreter           *)
(* Every event must be the next step of the BioLogic machine and, at the  *)
(* same time, of the Maccor machine running the original procedure.       *)
EXTENDS CyclerPrograms, TLC, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES t, l, m, b, bad
vars == <<t, l, m, b, bad>>
T == Traces[t]
None == [pc |-> 0]
EndStep(p) == Len(p) + 1

--------------------------------------------------------------------------
Keep(e, lim) ==
  CASE e.ty = "V" /\ e.op = ">=" -> lim.vmax = -1 \/ e.v[1] < lim.vmax
    [] e.ty = "V" /\ e.op = "<=" -> lim.vmin = -1 \/ e.v[1] > lim.vmin
    [] e.ty = "I" /\ e.op = ">=" -> lim.imax = -1 \/ e.v[1] <= lim.imax
    [] e.ty = "I" /\ e.op = "<=" -> lim.imin = -1 \/ e.v[1] >= lim.imin
    [] OTHER -> TRUE
KeptEnds(s, lim) == SelectSeq(s.ends, LAMBDA e : Keep(e, lim))

SegOf(p, i) == LET sgs == Segments(p, 1, 1) IN
               sgs[CHOOSE j \in 1..Len(sgs) : sgs[j].from <= i /\ i <= sgs[j].to]
Lower(p, sg, i) ==
  LET c == {e \in sg.from..(i - 1) : p[e].k \in {"D1", "D2", "L1", "L2"}} IN
  IF c = {} THEN sg.from ELSE MaxS(c) + 1
GotoLegal(p, i, go) ==
  LET sg == SegOf(p, i) IN
  go = i + 1 \/ go = EndStep(p) \/ (Lower(p, sg, i) <= go /\ go <= sg.to)
GotoSeq(p, i, go, here) ==
  IF go = i + 1 THEN here + 1
  ELSE IF go = EndStep(p) THEN 9999
  ELSE Len(SeqsOf(p, SegOf(p, i).from, go - 1, << >>, 0))

MustAccept(tr) ==
  /\ Convertible(tr.prog)
  /\ \A i \in 1..Len(tr.prog) : IsMeas(tr.prog[i].k) =>
       /\ Len(KeptEnds(tr.prog[i], tr.limits)) <= 3
       /\ \A j \in 1..Len(KeptEnds(tr.prog[i], tr.limits)) :
            GotoLegal(tr.prog, i, KeptEnds(tr.prog[i], tr.limits)[j].go)
MustRefuse(tr) ==
  \E i \in 1..Len(tr.prog) : IsMeas(tr.prog[i].k) /\
       \/ Len(KeptEnds(tr.prog[i], tr.limits)) > 3
       \/ \E j \in 1..Len(KeptEnds(tr.prog[i], tr.limits)) :
            ~ GotoLegal(tr.prog, i, KeptEnds(tr.prog[i], tr.limits)[j].go)

LimOK(p, i, here, e, q) ==   \* converted limit q of Maccor end entry e
  CASE q.ty # (CASE e.ty = "T" -> "Time" [] e.ty = "V" -> "Ecell" [] OTHER -> "|I|") -> "end-condition-type"
    [] q.cmp # (IF e.op = "<=" THEN "<" ELSE ">") -> "end-condition-comparison"
    [] q.v # e.v -> "end-condition-value"
    [] e.go # i + 1 /\ (q.act # "Goto sequence" \/ q.seq # GotoSeq(p, i, e.go, here)) -> "goto-target"
    [] e.go = i + 1 /\ q.act = "Goto sequence" /\ q.seq # here + 1 -> "goto-target"
    [] OTHER -> ""
RecOK(e, q) ==
  CASE q.ty # (CASE e.ty = "T" -> "Time" [] e.ty = "V" -> "Ecell" [] OTHER -> "I") -> "report-type"
    [] q.v # e.v -> "report-value"
    [] OTHER -> ""
FirstBad(f) == LET B == {i \in 1..Len(f) : f[i] # ""} IN IF B = {} THEN "" ELSE f[MinS(B)]

SeqOK(tr, q, here) ==   \* one converted measurement sequence
  IF q.src = 0 THEN "unknown-sequence"
  ELSE LET s == tr.prog[q.src]
           kept == KeptEnds(s, tr.limits)
           ctrl == IF s.mode = "R" THEN "Rest"
                   ELSE IF (s.mode = "I") = (q.part \in {0, 1}) THEN "CC" ELSE "CV"
       IN
       IF q.ctrl # ctrl THEN "control-mode"
       ELSE IF s.mode # "R" /\ q.dir # s.dir THEN "charge-direction"
       ELSE IF s.mode # "R" /\ q.v # (IF q.part = 2 THEN s.lim ELSE s.val) THEN "setpoint"
       ELSE IF q.part = 1
            THEN IF Len(q.lims) = 0 THEN "limit-phase-never-ends"
                 ELSE IF ~ \E j \in 1..Len(q.lims) :
                            /\ q.lims[j].ty = (IF s.mode = "I" THEN "Ecell" ELSE "|I|")
                            /\ q.lims[j].v = s.lim
                            /\ q.lims[j].cmp = (IF s.dir = "C" THEN ">" ELSE "<")
                      THEN "limit-phase-end"
                 ELSE ""
       ELSE IF Len(q.lims) # Len(kept) THEN "end-condition-count"
       ELSE LET le == FirstBad([j \in 1..Len(kept) |-> LimOK(tr.prog, q.src, here, kept[j], q.lims[j])]) IN
            IF le # "" THEN le
            ELSE IF Len(q.recs) # Len(s.reps) THEN "report-count"
            ELSE FirstBad([j \in 1..Len(s.reps) |-> RecOK(s.reps[j], q.recs[j])])

TechOK(tr, k) ==
  LET x == tr.techs[k]
      f == [i \in 1..Len(x.seqs) |->
              IF x.seqs[i].ns # i - 1 THEN "sequence-number"
              ELSE IF x.seqs[i].k = "L" THEN "" ELSE SeqOK(tr, x.seqs[i], i - 1)]
  IN IF x.num # (IF k = 1 THEN 1 ELSE tr.techs[k-1].num + (IF tr.techs[k-1].loops THEN 2 ELSE 1)) THEN "technique-number"
     ELSE IF x.loops /\ (x.loopgoto # x.num \/ x.loopnum # x.num + 1) THEN "technique-loop-target"
     ELSE IF x.rulenum # x.num THEN "rule-file-technique"
     ELSE FirstBad(f)

(* the CC phase of a step with a limit keeps its own end conditions       *)
LostEnds(tr) == \E k \in 1..Len(tr.techs) : \E i \in 1..Len(tr.techs[k].seqs) :
   LET q == tr.techs[k].seqs[i] IN
   /\ q.k # "L" /\ q.part = 1 /\ q.src # 0
   /\ Len(q.lims) < 1 + Len(SelectSeq(KeptEnds(tr.prog[q.src], tr.limits),
                                      LAMBDA e : e.ty # (IF tr.prog[q.src].mode = "I" THEN "V" ELSE "I")))

Observable(tr) == \A k \in 1..Len(tr.techs) : \E i \in 1..Len(tr.techs[k].seqs) : tr.techs[k].seqs[i].k # "L"

Static(tr) ==
  IF tr.refused THEN IF MustAccept(tr) THEN "refused-convertible-procedure" ELSE ""
  ELSE IF MustRefuse(tr) THEN "accepted-unrepresentable-procedure"
  ELSE IF tr.ntech # tr.techs[Len(tr.techs)].num + (IF tr.techs[Len(tr.techs)].loops THEN 1 ELSE 0) THEN "technique-count"
  ELSE IF tr.safety.vmin # tr.limits.hmin \/ tr.safety.vmax # tr.limits.hmax THEN "safety-limits"
  ELSE FirstBad([k \in 1..Len(tr.techs) |-> TechOK(tr, k)])

Verdict(id, clause, lost, at) ==
  PrintT("@@" \o ToJson([id |-> id, ok |-> clause = "", clause |-> clause, lost |-> lost, at |-> at]))

TraceInit == t = 1 /\ l = 0 /\ m = None /\ b = None /\ bad = 0

NextTrace == t' = t + 1 /\ l' = 0 /\ m' = None /\ b' = None
Load ==
  /\ l = 0
  /\ LET c == Static(T)
         lost == ~T.refused /\ LostEnds(T) IN
     IF c # "" \/ T.refused \/ ~Observable(T)
     THEN Verdict(T.id, c, lost, 0) /\ NextTrace /\ bad' = bad + (IF c = "" THEN 0 ELSE 1)
     ELSE l' = 1 /\ m' = MStart(T.prog) /\ b' = BStart(T.techs) /\ UNCHANGED <<t, bad>>

Clause(e) ==
  LET q == T.techs[b.ti].seqs[b.si + 1] IN
  CASE MHalted(T.prog, m) -> "runs-past-end"
    [] q.src # m.pc -> "wrong-step-order"
    [] q.part # m.part -> "wrong-phase"
    [] e.cyc # m.cyc -> "cycle-number"
    [] e.tech # b.ti \/ e.ns # b.si \/ e.loop # b.pass -> "simulator"
    [] OTHER -> ""
Step ==
  /\ l > 0
  /\ IF BHalted(T.techs, b)
     THEN LET c == IF ~MHalted(T.prog, m) THEN "stops-early" ELSE IF l - 1 # Len(T.events) THEN "simulator" ELSE "" IN
          Verdict(T.id, c, LostEnds(T), l) /\ NextTrace /\ bad' = bad + (IF c = "" THEN 0 ELSE 1)
     ELSE IF l > Len(T.events)
     THEN Verdict(T.id, "simulator", LostEnds(T), l) /\ NextTrace /\ bad' = bad + 1
     ELSE LET c == Clause(T.events[l]) IN
          IF c # "" THEN Verdict(T.id, c, LostEnds(T), l) /\ NextTrace /\ bad' = bad + 1
          ELSE m' = MStep(T.prog, m) /\ b' = BStep(T.techs, b) /\ l' = l + 1 /\ UNCHANGED <<t, bad>>

TraceNext == t <= Len(Traces) /\ (Load \/ Step)
TraceSpec == TraceInit /\ [][TraceNext]_vars
==========================================================================
