----------------------------- MODULE Dispatch -----------------------------
(* Which reader a raw file goes to, by its name alone; what a saved run   *)
(* is loaded back as.  A name is the sequence of its characters.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
At(n, s, k) == k >= 1 /\ k + Len(s) - 1 <= Len(n) /\ SubSeq(n, k, k + Len(s) - 1) = s
Has(n, s) == \E k \in 1..Len(n) : At(n, s, k)
Ends(n, s) == At(n, s, Len(n) - Len(s) + 1)
Before(n, k) == SubSeq(n, 1, Len(n) - k)                \* without the last k characters
Csv == <<".", "c", "s", "v">>
Txt == <<".", "t", "x", "t">>
CH == <<"C", "H">>
UCH == <<"_", "C", "H">>
UC == <<"_", "C">>
FastCharge == <<"F", "a", "s", "t", "C", "h", "a", "r", "g", "e">>
Xtesla == <<"x", "T", "E", "S", "L", "A", "D", "I", "A", "G">>
Neware == <<"n", "e", "w", "a", "r", "e">>
Series == <<"t", "i", "m", "e", "s", "e", "r", "i", "e", "s", ".", "c", "s", "v">>
Run(n, m) == \E k \in 1..Len(n) : k + m - 1 <= Len(n) /\ \A j \in k..(k + m - 1) : n[j] \in Digits
AllDigits(n) == \A k \in 1..Len(n) : n[k] \in Digits
IsArbin(n) == Ends(n, Csv) /\ (Has(Before(n, 4), CH) \/ Has(Before(n, 4), FastCharge))
IsMaccor(n) == \/ Len(n) > 3 /\ AllDigits(SubSeq(n, Len(n) - 2, Len(n))) /\ Run(Before(n, 3), 5)
               \/ Ends(n, Csv) /\ Has(Before(n, 4), Xtesla)
IsIndigo(n) == Ends(n, <<".", "h", "5">>)
IsBiologic(n) == ~Has(n, UCH) /\ (Ends(n, Csv) \/ Ends(n, Txt)) /\ Has(Before(n, 4), UC)
IsNeware(n) == Ends(n, Csv) /\ Has(Before(n, 4), Neware)
IsArchive(n) == Ends(n, Series)
Is(n, f) == CASE f = "arbin" -> IsArbin(n) [] f = "maccor" -> IsMaccor(n) [] f = "indigo" -> IsIndigo(n)
              [] f = "biologic" -> IsBiologic(n) [] f = "neware" -> IsNeware(n) [] OTHER -> IsArchive(n)
Order == <<"arbin", "maccor", "indigo", "biologic", "neware", "archive">>       \* the first that matches
Format(n) == LET M == {k \in 1..Len(Order) : Is(n, Order[k])} IN
             IF M = {} THEN "none" ELSE Order[CHOOSE k \in M : \A j \in M : k <= j]
Matches(n) == {Order[k] : k \in {k \in 1..Len(Order) : Is(n, Order[k])}}
(* ---- a processed file ---- *)
Class(f) == CASE f = "arbin" -> "ArbinDatapath" [] f = "maccor" -> "MaccorDatapath" [] f = "indigo" -> "IndigoDatapath"
              [] f = "biologic" -> "BiologicDatapath" [] f = "neware" -> "NewareDatapath" [] f = "novonix" -> "NovonixDatapath"
              [] OTHER -> "BatteryArchiveDatapath"
Reloaded(kind, f) == CASE kind = "own" -> Class(f) [] kind = "legacy" -> "ArbinDatapath" [] OTHER -> "TypeError"
==========================================================================
