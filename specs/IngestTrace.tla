--------------------------- MODULE IngestTrace ---------------------------
(* C04, C05, C09: real raw files read by the real readers, row by row.    *)
(* T.rows: what was written into the file; T.out: the table it was read   *)
(* into.  r.same: the columns that must simply be what the file says.     *)
EXTENDS Ingest, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES t, i, m, bad
vars == <<t, i, m, bad>>
T == Traces[t]
Nil == -999999999
Exact == {"data_point", "cycle_index", "step_index", "_ending_status", "step_num", "step_position"}
Near(a, b, tol) == a # Nil /\ b # Nil /\ Abs(a - b) <= tol
Tol(x) == 2 + (Abs(x) \div 1000000)
ZeroM == [cc |-> Meter0, dc |-> Meter0, ce |-> Meter0, de |-> Meter0, clk |-> 0, c |-> 0, ir |-> Nil, nq |-> 0, ne |-> 0]
Get(d, f) == IF f \in DOMAIN d THEN d[f] ELSE Nil
SameClause(r, o) == LET S == {f \in DOMAIN r.same : ~(Get(o, f) = r.same[f] \/ Near(Get(o, f), r.same[f], IF f \in Exact THEN 0 ELSE Tol(r.same[f])))}
                    IN IF S = {} THEN "" ELSE "column-" \o (CHOOSE f \in S : TRUE)
Expect(o, f, x) == IF Near(Get(o, f), x, Tol(x)) THEN "" ELSE f
First(a, b) == IF a # "" THEN a ELSE b
(* ---- one row: the reader's state after it, and what the table must say there ---- *)
RowIR == {j \in Ix(T.rows) : T.rows[j].dcir # Nil}
IR0 == IF RowIR = {} THEN Nil ELSE T.rows[CHOOSE j \in RowIR : \A k \in RowIR : j <= k].dcir
Moved(p, r, first) ==
  CASE T.fmt = "maccor" -> [m EXCEPT !.cc = MeterStep(IF first THEN Meter0 ELSE m.cc, p, r, MVal(r, "C", "q")),
                                     !.dc = MeterStep(IF first THEN Meter0 ELSE m.dc, p, r, MVal(r, "D", "q")),
                                     !.ce = MeterStep(IF first THEN Meter0 ELSE m.ce, p, r, MVal(r, "C", "e")),
                                     !.de = MeterStep(IF first THEN Meter0 ELSE m.de, p, r, MVal(r, "D", "e"))]
    [] T.fmt = "neware" -> [m EXCEPT !.clk = IF first THEN 0 ELSE ClockStep(m.clk, p, r),
                                     !.ir = IF r.dcir # Nil THEN r.dcir ELSE IF first THEN IR0 ELSE m.ir]
    [] T.fmt = "archive" -> [m EXCEPT !.clk = IF first THEN r.t ELSE StartStep(m.clk, p, r)]
    [] T.fmt = "biologic" -> [m EXCEPT !.c = IF first THEN 1 + T.rules.onstart ELSE CycleStep(m.c, T.rules, p, r)]
    [] T.fmt = "novonix" -> [m EXCEPT !.nq = NDone(IF first THEN 0 ELSE m.nq, p, r, CycTop(T.rows, r.cyc, "cap"), "cap"),
                                      !.ne = NDone(IF first THEN 0 ELSE m.ne, p, r, CycTop(T.rows, r.cyc, "en"), "en")]
    [] OTHER -> m
Derived(m2, r, o) ==
  CASE T.fmt = "maccor" -> First(First(Expect(o, "charge_capacity", Reading(m2.cc)), Expect(o, "discharge_capacity", Reading(m2.dc))),
                                 First(Expect(o, "charge_energy", Reading(m2.ce)), Expect(o, "discharge_energy", Reading(m2.de))))
    [] T.fmt = "neware" -> First(Expect(o, "test_time", m2.clk),
                                 IF m2.ir = Nil THEN (IF Get(o, "internal_resistance") = Nil THEN "" ELSE "internal_resistance") ELSE Expect(o, "internal_resistance", m2.ir))
    [] T.fmt = "archive" -> First(IF Get(o, "step_index") = SignStep(r) THEN "" ELSE "step_index", Expect(o, "step_time", r.t - m2.clk))
    [] T.fmt = "biologic" -> IF Get(o, "cycle_index") = (CASE T.mode = "rules" -> m2.c [] T.mode = "column" -> r.given [] OTHER -> r.number) THEN "" ELSE "cycle_index"
    [] T.fmt = "novonix" -> First(IF r.type \in NCharge THEN First(Expect(o, "charge_capacity", r.cap), Expect(o, "charge_energy", r.en))
                                  ELSE IF Get(o, "charge_capacity") \in {Nil, 0} /\ Get(o, "charge_energy") \in {Nil, 0} THEN "" ELSE "charge-outside-charge",
                                  IF r.type \in NCharge THEN (IF Get(o, "discharge_capacity") \in {Nil, 0} /\ Get(o, "discharge_energy") \in {Nil, 0} THEN "" ELSE "discharge-while-charging")
                                  ELSE First(Expect(o, "discharge_capacity", m2.nq), Expect(o, "discharge_energy", m2.ne)))
    [] T.fmt = "indigo" -> First(First(Expect(o, "charge_capacity", Half(r, "C", r.q)), Expect(o, "discharge_capacity", Half(r, "D", r.q))),
                                 First(First(Expect(o, "charge_energy", Half(r, "C", r.e)), Expect(o, "discharge_energy", Half(r, "D", r.e))),
                                       IF r.i = 0 THEN "" ELSE IF Abs((Get(o, "internal_resistance") * r.i) - (r.v * 100)) <= Abs(r.i) THEN "" ELSE "internal_resistance"))
    [] OTHER -> ""
(* ---- the file as a whole ---- *)
SchemaOf(fmt, project) == CASE fmt = "arbin" -> (CASE project \in {"Iris", "xIris"} -> "schema-arbin-nmc-phev.yaml"
                                                   [] project \in {"Talos", "PriorLAMVal", "LAMVal"} -> "schema-arbin-18650-2170.yaml"
                                                   [] OTHER -> "schema-arbin-lfp.yaml")
                            [] fmt = "maccor" -> "schema-maccor-2170.yaml"
                            [] fmt = "novonix" -> "schema-novonix.yaml"
                            [] OTHER -> ""
Kinds(rows) == {rows[j].cell : j \in Ix(rows)}
Unknown == T.fmt = "novonix" /\ \E j \in Ix(T.rows) : T.rows[j].type \notin {0} \cup NCharge \cup NDis
TwoCells == T.fmt = "indigo" /\ Cardinality(Kinds(T.rows)) > 1
WholeClause == IF Unknown \/ TwoCells THEN (IF T.err = "ValueError" THEN "" ELSE "not-refused")
               ELSE IF T.err # "" THEN "reading-fails"
               ELSE IF Len(T.out) # Len(T.rows) THEN "rows-lost-or-invented"
               ELSE LET K == {k \in DOMAIN T.meta_in : k \notin DOMAIN T.meta_out \/ T.meta_out[k] # T.meta_in[k]} IN
                    IF K # {} THEN "metadata-" \o (CHOOSE k \in K : TRUE)
                    ELSE IF T.schema # SchemaOf(T.fmt, T.project) THEN "schema"
                    ELSE IF T.fmt = "biologic" /\ ~(T.proto[1] = T.proto[2] /\ T.proto[1] # T.proto[3]) THEN "metadata-protocol"
                    ELSE IF ~T.stable THEN "file-changed" ELSE ""
Verdict(c) == PrintT("@@" \o ToJson([id |-> T.id, ok |-> c = "", clause |-> c, row |-> i]))
TraceInit == t = 1 /\ i = 0 /\ m = ZeroM /\ bad = ""
TraceNext ==
  /\ t <= Len(Traces)
  /\ LET w == IF i = 0 THEN WholeClause ELSE "" IN
     IF i = 0 /\ (w # "" \/ T.err # "")
     THEN Verdict(w) /\ t' = t + 1 /\ i' = 0 /\ m' = ZeroM /\ bad' = ""
     ELSE IF bad # "" \/ i = Len(T.rows)
     THEN Verdict(bad) /\ t' = t + 1 /\ i' = 0 /\ m' = ZeroM /\ bad' = ""
     ELSE LET r == T.rows[i + 1]
              p == IF i = 0 THEN r ELSE T.rows[i]
              m2 == Moved(p, r, i = 0)
              o == T.out[i + 1]
          IN m' = m2 /\ bad' = First(SameClause(r, o), Derived(m2, r, o)) /\ i' = i + 1 /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
==========================================================================
