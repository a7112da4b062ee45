----------------------------- MODULE SpliceTrace -----------------------------
(* C19: real files spliced by run_splice.  cols: per column its name, the   *)
(* values in each part (integers for counters, text for the others) and in  *)
(* the file written.                                                        *)
EXTENDS Splice, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLE t
T == Traces[t]
Flat(parts) == FoldLeft(LAMBDA a, b : a \o b, parts[1], Tail(parts))
Clause == IF T.err # "" THEN "splice-fails"
          ELSE IF T.meta # T.wantmeta THEN "metadata-line"
          ELSE IF T.order # [i \in 1..Len(T.cols) |-> T.cols[i].name] THEN "columns"
          ELSE IF \E i \in 1..Len(T.cols) : Len(T.cols[i].out) # Len(Flat(T.cols[i].parts)) THEN "rows"
          ELSE LET bad == {i \in 1..Len(T.cols) : LET c == T.cols[i] IN
                               c.out # (IF c.name \in Counters THEN JoinAll(c.parts) ELSE Flat(c.parts))}
               IN IF bad # {} THEN (IF T.cols[CHOOSE i \in bad : TRUE].name \in Counters THEN "counter" ELSE "values")
                  ELSE IF ~T.kept THEN "input-changed"
                  ELSE IF T.read # Len(T.cols[1].out) THEN "not-readable" ELSE ""
TraceInit == t = 1
TraceNext == /\ t <= Len(Traces)
             /\ LET c == Clause IN PrintT("@@" \o ToJson([id |-> T.id, ok |-> c = "", clause |-> c]))
             /\ t' = t + 1
TraceSpec == TraceInit /\ [][TraceNext]_t
=============================================================================
