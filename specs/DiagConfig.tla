---------------------------- MODULE DiagConfig ----------------------------
(* Which cycles of a run are diagnostic, and of which type.               *)
(* A configuration is a sequence of [name, ix] (ix a sequence of cycle    *)
(* indices); rules are a sequence of [name, how, pats], pats a sequence   *)
(* of step-number sequences; cycles a sequence of [cyc, steps].           *)
EXTENDS Naturals, Sequences, FiniteSets
Rng(s) == {s[k] : k \in 1..Len(s)}
TypeNames == <<"rpt_0.2C", "hppc", "reset", "HPPC_final", "RPT/Reset", "custom cycle">>
Classes(n) == CASE n = "rpt_0.2C" -> {"rpt"} [] n = "hppc" -> {"hppc"} [] n = "reset" -> {"reset"}
                [] n = "HPPC_final" -> {"hppc"} [] n = "RPT/Reset" -> {"rpt", "reset"} [] OTHER -> {}
Overlap(cfg) == \E a, b \in 1..Len(cfg) : a < b /\ Rng(cfg[a].ix) \cap Rng(cfg[b].ix) # {}
ConfigOK(cfg) == Len(cfg) > 0 /\ ~Overlap(cfg)
AllIx(cfg) == UNION {Rng(cfg[a].ix) : a \in 1..Len(cfg)}
TypesOf(cfg, c) == {cfg[a].name : a \in {a \in 1..Len(cfg) : c \in Rng(cfg[a].ix)}}
OfClass(cfg, k) == UNION {Rng(cfg[a].ix) : a \in {a \in 1..Len(cfg) : k \in Classes(cfg[a].name)}}
Match(how, pat, steps) == IF how = "contains" THEN Rng(pat) \subseteq Rng(steps) ELSE Rng(pat) = Rng(steps)
RuleHits(rule, cycles) == {cycles[k].cyc : k \in {k \in 1..Len(cycles) :
                             \E p \in 1..Len(rule.pats) : Match(rule.how, rule.pats[p], cycles[k].steps)}}
(* a cycle matched by two rules has no single type: refused *)
RulesOK(rules, cycles) == Len(rules) > 0 /\ (\A a \in 1..Len(rules) : rules[a].how \in {"contains", "exact"})
                          /\ \A a, b \in 1..Len(rules) : a # b => RuleHits(rules[a], cycles) \cap RuleHits(rules[b], cycles) = {}
==========================================================================
