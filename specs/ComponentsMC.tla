---------------------------- MODULE ComponentsMC -----------------------------
(* All training sets of up to N features in groups of different sizes, and  *)
(* all samples with standardised values -1, 0, 1/2 and 2.                   *)
EXTENDS Components, Json
CONSTANTS N, Emit
VARIABLES T, x
Shapes == {<<1>>, <<2>>, <<2, 1>>, <<3, 1>>, <<3, 2>>, <<3, 2, 1>>}
RECURSIVE Fill(_, _)
Fill(sh, g) == IF sh = <<>> THEN <<>> ELSE [j \in 1..Head(sh) |-> g] \o Fill(Tail(sh), g + 1)
Sum(sh) == SumOf(sh)
Init == /\ \E sh \in {q \in Shapes : Sum(q) <= N}, S \in {4, 5, 8, 25}, e \in [1..N -> {-1, 1}], sc \in [1..2 -> {2, 4}] :
             \E k \in 1..Len(sh) :
                /\ S \in {5, 25} => S = 5^Len(sh)
                /\ T = [S |-> S, skew |-> S \in {5, 25}, k |-> k, f |-> [j \in 1..Sum(sh) |-> [g |-> Fill(sh, 1)[j], e |-> e[j], m |-> 3 * j, s |-> sc[1 + (j % 2)]]]]
        /\ x = <<>>
Next == /\ Len(x) < Len(T.f)
        /\ \E z \in {-2, 0, 1, 4} : x' = Append(x, T.f[Len(x) + 1].m + (z * T.f[Len(x) + 1].s) \div 2)
        /\ UNCHANGED T
Spec == Init /\ [][Next]_<<T, x>>
Full == Len(x) = Len(T.f)
Tr == TLCEval(Train(T))
(* the training samples are known exactly, up to the components left out *)
Trained == x = <<>> => \A i \in 1..T.S : LET y == Tr[i] IN
  /\ \A g \in 1..T.k : Standing(T, y, g) = 12 * H(T, g, i)
  /\ ~T.skew => Distance2(T, y) = 576 * T.k
  /\ Error(T, y) = TrainError(T, i)
Sum2(i0, F(_)) == SumOf([i \in 1..i0 |-> F(i)])
Balanced == x = <<>> => \A g \in 1..Groups(T) : /\ Sum2(T.S, LAMBDA i : H(T, g, i)) = 0
                                                /\ Sum2(T.S, LAMBDA i : H(T, g, i) * H(T, g, i)) = 4 * T.S
                                                /\ \A h \in 1..Groups(T) : g # h => Sum2(T.S, LAMBDA i : H(T, g, i) * H(T, h, i)) = 0
(* half of the training set on either side of the middle, and a percentile  *)
(* has its share on either side                                             *)
Shares == x = <<>> => \A g \in 1..T.k, sg \in {1, -1}, p \in {0, 5, 10, 40, 50, 60, 90, 95, 100} :
  LET w == [i \in 1..T.S |-> 1200 * sg * H(T, g, i)] q == Percentile(T, p, sg) IN
  /\ 100 * Cardinality({i \in 1..T.S : w[i] < q - 1}) <= p * (T.S - 1) + 100
  /\ 100 * Cardinality({i \in 1..T.S : w[i] > q + 1}) <= (100 - p) * (T.S - 1) + 100
  /\ p = 50 => q = 100 * sg * Middle(T)
(* a reconstruction is its own reconstruction *)
Projected == Full => LET r == TLCEval(Recon(T, x)) IN (\A j \in 1..Len(r) : (r[j] - 24 * T.f[j].m) % (12 * T.f[j].s) = 0 /\ r[j] % 24 = 0) => Error(T, [j \in 1..Len(r) |-> r[j] \div 24]) = 0
Median == Full => Distance2(T, [j \in 1..Len(T.f) |-> T.f[j].m]) = Middle(T) * Middle(T) * T.k
Signs == Full /\ ~T.skew => \A g \in 1..T.k : Out1(T, x, 90, 10, g, 1) = Out1(T, x, 90, 10, g, -1)
EmitRun == Emit => (Full => PrintT("@@" \o ToJson([T |-> T, x |-> x])))
=============================================================================
