---------------------------- MODULE DispatchMC ----------------------------
EXTENDS Dispatch, Json
CONSTANTS MaxTokens, Emit
Tokens == {<<"x">>, <<"_">>, CH, UCH, UC, <<"1", "2", "3", "4", "5">>, <<"1", "2", "3", "4">>, <<"9", "8", "7">>, <<".", "0", "9", "2">>, FastCharge, Xtesla,
           Neware, Series, Csv, Txt, <<".", "h", "5">>, <<".">>, <<"C">>,
           (* nearly the same *) <<"c", "h">>, <<"_", "c">>, <<".", "C", "S", "V">>, <<".", "t", "x", "t", "~">>, <<"N", "e", "w", "a", "r", "e">>}
VARIABLE n, k
Init == n = << >> /\ k = 0
Next == k < MaxTokens /\ \E s \in Tokens : n' = n \o s /\ k' = k + 1
Spec == Init /\ [][Next]_<<n, k>>
(* the formats a name may match together; everything else is told apart by the ending of the name alone *)
Disjoint == /\ ("indigo" \in Matches(n) => Matches(n) = {"indigo"})
            /\ (Len(n) > 3 /\ AllDigits(SubSeq(n, Len(n) - 2, Len(n))) => Matches(n) \subseteq {"maccor"})
            /\ (Ends(n, Txt) => Matches(n) \subseteq {"biologic"})
            /\ (Matches(n) # {} => Ends(n, Csv) \/ Ends(n, Txt) \/ Ends(n, <<".", "h", "5">>) \/ AllDigits(SubSeq(n, Len(n) - 2, Len(n))))
OwnName == /\ (Ends(n, Csv) /\ Has(Before(n, 4), CH) => Format(n) = "arbin")
           /\ (IsBiologic(n) /\ ~IsArbin(n) /\ ~IsMaccor(n) => Format(n) = "biologic")
Prefixed == Format(n) # "none" /\ ~Has(n, UC) => Format(<<"x">> \o n) = Format(n)       \* what comes before does not matter
EmitRun == (Emit /\ n # << >>) => PrintT("@@" \o ToJson([name |-> n, fmt |-> Format(n), many |-> Cardinality(Matches(n))]))
==========================================================================
