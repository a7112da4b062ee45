--------------------------- MODULE HppcFeaturesMC ----------------------------
(* C27: a tester runs the pulse test twice on a cell of known resistances,  *)
(* with other step numbers; what is read off the points is what the cell    *)
(* had, whenever the test ends.                                             *)
EXTENDS HppcFeatures, Json
CONSTANTS MaxWindows, Ohms, Emit
VARIABLES vs, r, phase, stage, clock
vars == <<vs, r, phase, stage, clock>>
Nominal == 128
Order == <<"hppc_long_rest", "hppc_discharge_pulse", "hppc_short_rest", "hppc_charge_pulse", "hppc_discharge_to_next_soc">>
Number(ph, st) == IF st = 1 THEN 11 + ph ELSE 40 + ph
Init == vs = << <<[step |-> 10, t |-> <<0, 3000>>, v |-> <<200, 260>>, i |-> <<64, 64>>, q |-> <<0, 0>>]>>, <<>> >>
        /\ r = << <<>>, <<>> >> /\ phase = 1 /\ stage = 1 /\ clock = 3000
Windows == Cardinality({k \in 1..Len(vs[stage]) : vs[stage][k].step = Number(1, stage)})
Ramp(n, dt) == [k \in 1..n |-> clock + 1 + (k - 1) * dt]
Const(n, x) == [k \in 1..n |-> x]
Do(a) == vs' = [vs EXCEPT ![stage] = Append(@, a)] /\ clock' = MaxOf(a.t)
Pulse(sign) == \E ohm \in Ohms :
   /\ Do([step |-> Number(phase, stage), t |-> Ramp(5, 2), v |-> [k \in 1..5 |-> 240 + sign * (ohm * 2 + k - 1)], i |-> Const(5, sign * 80), q |-> Const(5, 0)])
   /\ r' = [r EXCEPT ![stage] = Append(@, <<sign, ohm>>)]
Visit == /\ phase = 1 => Windows < MaxWindows
         /\ CASE phase = 1 -> Do([step |-> Number(1, stage), t |-> Ramp(6, 300), v |-> Const(6, 240), i |-> Const(6, 0), q |-> Const(6, 0)]) /\ r' = r
              [] phase = 2 -> Pulse(-1)
              [] phase = 3 -> Do([step |-> Number(3, stage), t |-> Ramp(6, 8), v |-> Const(6, 240), i |-> Const(6, 0), q |-> Const(6, 0)]) /\ r' = r
              [] phase = 4 -> Pulse(1)
              [] phase = 5 -> Do([step |-> Number(5, stage), t |-> Ramp(4, 200), v |-> <<240, 239, 238, 237>>, i |-> Const(4, -64), q |-> <<1, 2, 3, 4>>]) /\ r' = r
         /\ phase' = IF phase = 5 THEN 1 ELSE phase + 1
         /\ stage' = stage
Finish == /\ Windows >= 2
          /\ Do([step |-> Number(7, stage), t |-> Ramp(3, 900), v |-> <<230, 200, 180>>, i |-> Const(3, -26), q |-> <<5, 6, 7>>])
          /\ stage' = stage + 1 /\ phase' = 1 /\ r' = r
Again == /\ stage = 2 /\ vs[2] = <<>>
         /\ Do([step |-> 40, t |-> Ramp(2, 3000), v |-> <<200, 260>>, i |-> Const(2, 64), q |-> <<0, 0>>]) /\ UNCHANGED <<r, phase, stage>>
Next == stage < 3 /\ (IF stage = 2 /\ vs[2] = <<>> THEN Again ELSE Visit \/ Finish)
Spec == Init /\ [][Next]_vars
Done == stage = 3
Ro(k) == Roles(vs[k], Nominal)
Planned(k) == [s \in StepsOf(vs[k]) |-> LET ph == s - Number(0, k) IN
               CASE ph = 7 -> "hppc_final_discharge" [] ph \in 1..5 -> Order[ph] [] OTHER -> "hppc_charge_to_soc"]
Told == Done => \A k \in {1, 2} : Ro(k) = Planned(k)
Had(k, sign) == SelectSeq(r[k], LAMBDA e : e[1] = sign)
(* the change read off is that of the planted resistances *)
Aged == Done => \A dir \in {"c", "d"} :
   LET sign == IF dir = "c" THEN 1 ELSE -1 a == Had(1, sign) b == Had(2, sign)
       p1 == Pulses(vs[1], Ro(1), dir) p2 == Pulses(vs[2], Ro(2), dir) IN
   /\ \A w \in 1..MaxWindows : LET x == Change(Resist(p2, "0s", w), Resist(p1, "0s", w)) IN
        IF w > Len(a) \/ w > Len(b) THEN x = NA ELSE Abs(x - SDec(b[w][2] - a[w][2], a[w][2])) <= 1
   (* later in the pulse the resistance is not smaller *)
   /\ \A w \in 1..Len(p1) : LET R(when) == Abs(Resist(p1, when, w)[1]) IN R("0s") <= R("3s") /\ R("3s") <= R("end")
Quiet == Done => LET o == TLCEval(Ocv(vs[1], Ro(1), vs[2], Ro(2))) R == TLCEval(Resistances(vs[1], Ro(1), vs[1], Ro(1))) IN
                 /\ \A w \in 1..Len(o) : o[w] = 0
                 /\ \A k \in 1..54 : R[k][2] \in {0, NA}
EmitRun == Emit => (Done => PrintT("@@" \o ToJson([a |-> [k \in 1..Len(vs[1]) |-> vs[1][k].step], b |-> [k \in 1..Len(vs[2]) |-> vs[2][k].step]])))
=============================================================================
