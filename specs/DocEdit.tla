------------------------------ MODULE DocEdit ------------------------------
(* C22: procedures, schedules and settings are documents: fields in order, *)
(* each with a path and a text.  They are edited and written to the file   *)
(* format of the cycler and read back.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Field(p, v) == [p |-> p, v |-> v]
Ix(s) == 1..Len(s)
Begins(p, q) == Len(q) <= Len(p) /\ SubSeq(p, 1, Len(q)) = q
SetAt(doc, sel(_), v(_)) == [i \in Ix(doc) |-> IF sel(doc[i].p) THEN [doc[i] EXCEPT !.v = v(doc[i].p)] ELSE doc[i]]
SetOne(doc, p, v) == SetAt(doc, LAMBDA q : q = p, LAMBDA q : v)
Unset(doc, p) == SelectSeq(doc, LAMBDA f : ~Begins(f.p, p))
Value(doc, p) == LET s == {i \in Ix(doc) : doc[i].p = p} IN IF s = {} THEN "-none-" ELSE doc[CHOOSE i \in s : TRUE].v
(* ---- schedules: steps found by their label ---- *)
Labelled(doc, label) == LET fs == SelectSeq(doc, LAMBDA f : Len(f.p) = 3 /\ f.p[1] = "Schedule" /\ f.p[3] = "m_szLabel" /\ f.v = label)
                        IN [i \in Ix(fs) |-> fs[i].p[2]]
SetSteps(doc, label, key, v, mode) ==
    LET ss == Labelled(doc, label)
        which == IF mode = "first" /\ ss # << >> THEN {ss[1]} ELSE Range(ss)
    IN SetAt(doc, LAMBDA q : Len(q) = 3 /\ q[1] = "Schedule" /\ q[2] \in which /\ q[3] = key, LAMBDA q : v)
(* the stop limits of the variable in the first step with the label *)
SetLimits(doc, label, var, sign, v) ==
    LET ss == Labelled(doc, label)
        lims == {doc[i].p[3] : i \in {j \in Ix(doc) : /\ Len(doc[j].p) = 4 /\ doc[j].p[1] = "Schedule" /\ doc[j].p[2] = ss[1]
                                                                     /\ doc[j].p[4] = "Equation0_szLeft" /\ doc[j].v = var
                                                                     /\ Value(doc, <<"Schedule", ss[1], doc[j].p[3], "m_bStepLimit">>) = "1"}}
    IN IF ss = << >> THEN doc ELSE
       SetAt(doc, LAMBDA q : Len(q) = 4 /\ q[1] = "Schedule" /\ q[2] = ss[1] /\ q[3] \in lims /\ q[4] \in {"Equation0_szCompareSign", "Equation0_szRight"},
                  LAMBDA q : IF q[4] = "Equation0_szRight" THEN v ELSE sign)
(* ---- procedures: steps by number ---- *)
Step(n) == <<"MaccorTestProcedure", "ProcSteps", "TestStep", n>>
Modify(doc, n, type, v) == IF Value(doc, Step(n) \o <<"StepType">>) = type THEN SetOne(doc, Step(n) \o <<"StepValue">>, v) ELSE doc
Apply(doc, o) == CASE o.op = "set" -> SetOne(doc, o.p, o.v)
                   [] o.op = "unset" -> Unset(doc, o.p)
                   [] o.op = "merge" -> FoldLeft(LAMBDA d, f : SetOne(d, f.p, f.v), doc, o.with)
                   [] o.op = "steps" -> SetSteps(doc, o.label, o.key, o.v, o.mode)
                   [] o.op = "limits" -> SetLimits(doc, o.label, o.var, o.sign, o.v)
                   [] o.op = "modify" -> Modify(doc, o.n, o.type, o.v)
                   [] o.op = "save" -> doc                    \* writing and reading the file changes nothing
Edited(doc, ops) == FoldLeft(Apply, doc, ops)
=============================================================================
