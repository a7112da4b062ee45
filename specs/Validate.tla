------------------------------ MODULE Validate ----------------------------
(* Validation of cycler data against a schema.  A data set is a sequence   *)
(* of columns [name, kind, vals]; values are integers in tenths (NA: the   *)
(* value is missing), kind is the type of the column: "float", "int" or    *)
(* "str".  A schema is a sequence of rules for columns                     *)
(*   [col, type, max, min, reach, below, mono]   ("" / NA / FALSE: none).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NA == -1000000
Ix(s) == 1..Len(s)
Present(c) == {c.vals[i] : i \in {j \in Ix(c.vals) : c.vals[j] # NA}}
Has(D, name) == \E i \in Ix(D) : D[i].name = name
Col(D, name) == D[CHOOSE i \in Ix(D) : D[i].name = name]
TypeOK(c, ty) == CASE ty = "integer" -> c.kind \in {"int", "float"} /\ \A i \in Ix(c.vals) : c.vals[i] # NA /\ c.vals[i] % 10 = 0
                   [] ty = "float" -> c.kind = "float"
                   [] ty = "numeric" -> c.kind \in {"int", "float"}
                   [] ty = "string" -> c.kind = "str"
                   [] OTHER -> TRUE
(* the rules of r that the column breaks *)
Broken(c, r) ==
  IF ~TypeOK(c, r.type) THEN {"type"}
  ELSE LET P == Present(c)
           s == SelectSeq(c.vals, LAMBDA v : v # NA)
       IN (IF r.max # NA /\ \E v \in P : v > r.max THEN {"max"} ELSE {}) \cup
          (IF r.min # NA /\ \E v \in P : v < r.min THEN {"min"} ELSE {}) \cup
          (IF r.reach # NA /\ ~\E v \in P : v >= r.reach THEN {"reach"} ELSE {}) \cup
          (IF r.below # NA /\ ~\E v \in P : v <= r.below THEN {"below"} ELSE {}) \cup
          (IF r.mono /\ \E i \in 1..(Len(s) - 1) : s[i] > s[i + 1] THEN {"mono"} ELSE {})
Fails(D, r) == IF ~Has(D, r.col) THEN {"missing"} ELSE Broken(Col(D, r.col), r)
Valid(D, S) == \A i \in Ix(S) : Fails(D, S[i]) = {}
(* what the reason may say about a broken rule: the limit and the value *)
LimitOf(r, k) == CASE k = "max" -> r.max [] k = "min" -> r.min [] k = "reach" -> r.reach [] k = "below" -> r.below [] OTHER -> NA
Culprits(c, r, k) ==
  LET P == Present(c) IN
  CASE k = "max" -> {v \in P : v > r.max}
    [] k = "min" -> {v \in P : v < r.min}
    [] k = "reach" -> IF P = {} THEN {NA} ELSE {CHOOSE v \in P : \A w \in P : w <= v}
    [] k = "below" -> IF P = {} THEN {NA} ELSE {CHOOSE v \in P : \A w \in P : w >= v}
    [] OTHER -> {NA}
Explains(D, r, k, nums) ==
  IF k \in {"missing", "type", "mono"} THEN TRUE
  ELSE LimitOf(r, k) \in nums /\ (Culprits(Col(D, r.col), r, k) = {NA} \/ Culprits(Col(D, r.col), r, k) \cap nums # {})
----------------------------------------------------------------------------
(* The limits shipped for each kind of cell. *)
R(col, ty, mx, mn) == [col |-> col, type |-> ty, max |-> mx, min |-> mn, reach |-> NA, below |-> NA, mono |-> FALSE]
Arbin(cap, tmin, tmax, vmin, vmax) ==
  << R("charge_capacity", "float", cap, 0), [R("cycle_index", "integer", NA, 0) EXCEPT !.reach = 10],
     R("discharge_capacity", "float", cap, 0), R("temperature", "float", tmax, tmin), R("test_time", "float", NA, NA),
     R("voltage", "float", vmax, vmin) >>
Maccor2170 ==
  << R("data_point", "integer", NA, NA), [R("cycle_index", "integer", NA, 0) EXCEPT !.below = 20, !.reach = 10, !.mono = TRUE],
     R("_state", "string", NA, NA), R("voltage", "float", 50, 0), [R("current", "float", 150, -150) EXCEPT !.below = 0],
     R("test_time", "float", NA, 0), R("step_time", "float", NA, 0), R("date_time", "string", NA, NA) >>
Schema(name) ==
  CASE name = "arbin-lfp" -> Arbin(20, 200, 800, 0, 38)
    [] name = "novonix" -> Arbin(20, 200, 800, 0, 50)
    [] name = "arbin-nmc-phev" -> Arbin(1000, 0, 5000, 0, 50)
    [] name = "arbin-18650-2170" -> Arbin(60, 0, 5000, 20, 50)
    [] name = "maccor-2170" -> Maccor2170
    [] name = "maccor-lfp" -> << R("data_point", "integer", NA, NA), R("_state", "string", NA, NA), R("voltage", "float", 44, 0) >>
(* which of them a file is validated with: by cycler and project *)
SchemaOf(cycler, project) ==
  CASE cycler = "maccor" -> "maccor-2170"
    [] project \in {"Iris", "xIris"} -> "arbin-nmc-phev"
    [] project \in {"Talos", "PriorLAMVal", "LAMVal"} -> "arbin-18650-2170"
    [] OTHER -> "arbin-lfp"
============================================================================
