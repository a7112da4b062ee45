--------------------------- MODULE DiagConfigMC ---------------------------
(* Configurations are built one assignment at a time, cycles one step at  *)
(* a time.  Every cycle of a run is regular or has exactly one type.      *)
EXTENDS DiagConfig, TLC, Json
CONSTANTS NCyc, NType, NRule, Emit
VARIABLES cfg, rules, cycles
vars == <<cfg, rules, cycles>>
SeqOf(S) == CHOOSE s \in [1..Cardinality(S) -> S] : Rng(s) = S
Init == /\ cfg \in {[a \in 1..n |-> [name |-> TypeNames[a], ix |-> << >>]] : n \in 0..NType}
        /\ rules = << >> /\ cycles = << >>
Assign == /\ rules = << >> /\ cycles = << >>
          /\ \E a \in 1..Len(cfg), c \in 1..NCyc :
               /\ IF cfg[a].ix = << >> THEN TRUE ELSE cfg[a].ix[Len(cfg[a].ix)] < c
               /\ \A b \in (a + 1)..Len(cfg) : cfg[b].ix = << >>
               /\ cfg' = [cfg EXCEPT ![a].ix = Append(@, c)]
          /\ UNCHANGED <<rules, cycles>>
AddCycle == /\ cfg = << >> /\ rules = << >> /\ Len(cycles) < NCyc
            /\ \E st \in (SUBSET (1..3)) \ {{}} : cycles' = Append(cycles, [cyc |-> Len(cycles) + 1, steps |-> SeqOf(st)])
            /\ UNCHANGED <<cfg, rules>>
AddRule == /\ cycles # << >> /\ Len(rules) < NRule
           /\ \E h \in {"contains", "exact"}, p \in {{1}, {2}, {1, 2}, {1, 3}, {1, 2, 3}} :
                rules' = Append(rules, [name |-> TypeNames[Len(rules) + 1], how |-> h, pats |-> <<SeqOf(p)>>])
           /\ UNCHANGED <<cfg, cycles>>
Next == Assign \/ AddCycle \/ AddRule
Spec == Init /\ [][Next]_vars
OneType == ConfigOK(cfg) => \A c \in 1..NCyc : Cardinality(TypesOf(cfg, c)) = (IF c \in AllIx(cfg) THEN 1 ELSE 0)
Classy == \A k \in {"rpt", "hppc", "reset"} : OfClass(cfg, k) \subseteq AllIx(cfg)
ExactImpliesContains == \A a \in 1..Len(rules) :
   RuleHits([rules[a] EXCEPT !.how = "exact"], cycles) \subseteq RuleHits([rules[a] EXCEPT !.how = "contains"], cycles)
RulesGiveConfig == RulesOK(rules, cycles) =>
   ConfigOK([a \in 1..Len(rules) |-> [name |-> rules[a].name, ix |-> SeqOf(RuleHits(rules[a], cycles))]])
EmitInv == IF Emit /\ (cycles = << >> \/ rules # << >>)
           THEN PrintT("@@" \o ToJson([cfg |-> cfg, rules |-> rules, cycles |-> cycles])) ELSE TRUE
==========================================================================
