---------------------------- MODULE LifeTargetMC -----------------------------
(* C26: a cell is cycled: diagnostics of two types, then regular cycles,    *)
(* and so on; throughputs are counted as the cycles happen and must be      *)
(* those read off the summaries afterwards.                                 *)
EXTENDS LifeTarget, Json
CONSTANTS MaxCycles, Top, Emit
VARIABLES r, u, reg, dia, init, block, notes
vars == <<r, u, reg, dia, init, block, notes>>
Init == /\ r = [cyc |-> <<0>>, dcap |-> <<1>>, den |-> <<1>>, cth |-> <<1>>]
        /\ u = [cyc |-> <<>>, ty |-> <<>>, dcap |-> <<>>, den |-> <<>>, ccap |-> <<>>, cen |-> <<>>, at |-> <<>>]
        /\ reg = 0 /\ dia = 0 /\ init = 0 /\ block = "diag" /\ notes = <<>>
Cyc == Len(r.cyc) + Len(u.cyc)
Diag == \E q \in 1..Top, ty \in {"a", "b"} :
        /\ u' = [cyc |-> Append(u.cyc, Cyc), ty |-> Append(u.ty, ty), dcap |-> Append(u.dcap, q), den |-> Append(u.den, q),
                 ccap |-> Append(u.ccap, q), cen |-> Append(u.cen, q), at |-> Append(u.at, 0)]
        /\ dia' = dia + q
        /\ notes' = Append(notes, [cyc |-> Cyc, n |-> reg, m |-> dia, q |-> q, ty |-> ty])
        /\ init' = IF block = "reg" /\ init = 0 THEN reg ELSE init
        /\ block' = "diag" /\ UNCHANGED <<r, reg>>
Reg == \E q \in 1..Top : /\ u.cyc # <<>>
       /\ r' = [cyc |-> Append(r.cyc, Cyc), dcap |-> Append(r.dcap, q), den |-> Append(r.den, q), cth |-> Append(r.cth, r.cth[Len(r.cth)] + q)]
       /\ reg' = reg + q /\ block' = "reg" /\ UNCHANGED <<u, dia, init, notes>>
Next == Cyc < MaxCycles /\ (Diag \/ Reg)
Spec == Init /\ [][Next]_vars
Done == init # 0 /\ block = "reg"                       \* a regular cycle after the second diagnostics
Rows(ty) == SelectSeq(notes, LAMBDA e : e.ty = ty)
Counted == Done => \A ty \in {"a", "b"} :
   LET c == Course(r, u, "discharge_energy", ty) w == Rows(ty) IN
   /\ Len(c) = Len(w)
   /\ \A i \in 1..Len(w) : c[i].cyc = w[i].cyc /\ c[i].q = w[i].q /\ c[i].n = w[i].n /\ c[i].m = w[i].m
FirstBlock == Done => Initial(r, u, "discharge_energy") = init
(* a threshold between the highest and the lowest is crossed, and every crossing lies between its two points *)
Percents == {50, 80, 100}
Crossed == Done => \A ty \in {"a", "b"}, pct \in Percents :
   LET c == Course(r, u, "discharge_energy", ty) y == [i \in 1..Len(c) |-> c[i].q] x == [i \in 1..Len(c) |-> c[i].cyc] y0 == u.den[1] IN
   Len(c) >= 2 =>
     /\ (Crossings(x, y, y0, pct) = {} <=> NotReached(y, y0, pct) \/ Below(y, y0, pct))
     /\ \A i \in 1..Len(x) - 1 : Crosses(y, y0, pct, i) => Meets(x, y, y0, pct, i) >= x[i] * K /\ Meets(x, y, y0, pct, i) <= x[i + 1] * K
     /\ (NotReached(y, y0, pct) /\ Falling(y) /\ Beyond(x, y, y0, pct) # NA => Beyond(x, y, y0, pct) > x[Len(x)] * K)
(* the same quantities in another unit give the same crossing *)
Units == Done => \A pct \in Percents :
   LET c == Course(r, u, "discharge_energy", "a") y == [i \in 1..Len(c) |-> c[i].q] z == [i \in 1..Len(c) |-> 3 * c[i].q] x == [i \in 1..Len(c) |-> c[i].cyc] y0 == u.den[1] IN
   Len(c) >= 2 => Crossings(x, y, y0, pct) = Crossings(x, z, 3 * y0, pct)
EmitRun == Emit => (Done => PrintT("@@" \o ToJson([u |-> [i \in 1..Len(u.cyc) |-> <<u.cyc[i], u.ty[i], u.dcap[i]>>], r |-> [i \in 1..Len(r.cyc) |-> <<r.cyc[i], r.dcap[i]>>]])))
=============================================================================
