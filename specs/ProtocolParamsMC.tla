------------------------ MODULE ProtocolParamsMC ------------------------
EXTENDS ProtocolParams, Json
CONSTANTS Emit
VARIABLES kind, p, idx
vars == <<kind, p, idx>>
D == [vch |-> 42000, vdis |-> 27000, cut |-> 500, base |-> 3330, vpulse |-> 43900, pulse1 |-> 10000, pulse2 |-> 7500, dur1 |-> 30, prest |-> 40,
      dur2 |-> 10, interval |-> 100, rest |-> 600, rptc |-> 2000, rpt1 |-> 2000, rpt2 |-> 10000, rpt3 |-> 20000, reset |-> 1429, resetcut |-> 286]
Reg == [cc1: {500, 10000, 20000}, pct: {300, 1000}, cc2: {10000}, vch: {26000, 41000}, cvt: {5, 14400}, crest: {50}, dcc: {5000}, vdis: {27000},
        drest: {150}, nstart: {1, 30}, nint: {100, 200}, cap: {4840, 25000}, offset: {0, 100}]
Form == [ic1: {1000}, iv1: {35000}, ih1: {600}, ir1: {300}, ic2: {2000}, iv2: {42000}, ih2: {300}, ir2: {300}, idc: {2000}, idv: {30000}, mc: {5000},
         mv: {41000}, mdc: {5000}, mdv: {39000}, reps: {1, 2, 5}, fc: {10000}, fv: {42000}, fdc: {10000}, fdv: {35000}, fdh: {300}, cap: {200}]
Fasts == [cc1: {39600, 11000}, cap: {860}, cc2: {55000}]
Init == /\ kind \in {"v2", "v3", "drive", "rapid", "form", "fast"}
        /\ p \in (IF kind = "form" THEN Form ELSE IF kind = "fast" THEN Fasts ELSE Reg)
        /\ idx \in {0, 1, 95, 96}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Tab == Table(kind, p, D, idx)
(* no field is asked two things *)
OneValuePerField == LET tab == Tab IN Cardinality({tab[i].k : i \in Ix(tab)}) = Len(tab)
(* every requested value appears somewhere, for procedures that use it *)
Uses(tab, n) == \E i \in Ix(tab) : tab[i].k = n
LoopsParametrised == kind \in {"v2", "v3", "drive", "rapid"} => LET tab == Tab IN \A n \in {"35.Ends.0.Value", "67.Ends.0.Value", "33.Ends.0.Value"} : Uses(tab, n)
(* both regular cycle blocks are the same cycle, but for the number of repetitions *)
Block(tab, lo) == LET ks == {K(s, f) : s \in lo..(lo + 6), f \in {SV, E0, E1}} IN
                  {<<tab[i].u, tab[i].a, tab[i].b>> : i \in {j \in Ix(tab) : tab[j].k \in ks}}
BlocksEqual == kind \in {"v2", "v3", "drive", "rapid"} => LET tab == Tab IN Block(tab, 28) = Block(tab, 60)
(* the rest before the first measurement is between three hours and a day *)
RestBounded == kind \in {"v3", "drive", "rapid"} => Tab[1].a \in 10800..86399
EmitRun == (Emit /\ idx = 0 /\ p = CHOOSE x \in (IF kind = "form" THEN Form ELSE IF kind = "fast" THEN Fasts ELSE Reg) : TRUE)
           => PrintT("@@" \o ToJson([kind |-> kind, keys |-> [i \in Ix(Tab) |-> [k |-> Tab[i].k, u |-> Tab[i].u]]]))
==========================================================================
