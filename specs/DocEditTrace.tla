---------------------------- MODULE DocEditTrace ----------------------------
(* C22: real documents.  before: fields of the source file; ops; mem: of   *)
(* the object after the edits; disk: of the file written, read by an own   *)
(* parser; back: of that file read by the code.                            *)
EXTENDS DocEdit, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLE t
T == Traces[t]
First(a, b) == LET bad == {i \in Ix(a) : i > Len(b) \/ a[i] # b[i]} IN IF bad = {} THEN 0 ELSE CHOOSE i \in bad : \A j \in bad : i <= j
Clause == IF T.err # "" THEN T.err
          ELSE LET want == Edited(T.before, T.ops) IN
               IF T.loaded # T.before THEN "read"
               ELSE IF T.mem # want THEN "edit"
               ELSE IF T.disk # want THEN "written"
               ELSE IF T.back # want THEN "read-back"
               ELSE IF ~T.again THEN "second-file-differs"
               ELSE IF ~T.kept THEN "writing-changes-document"
               ELSE IF T.verbatim = "no" THEN "not-as-it-was"
               ELSE IF T.lines > Cardinality({i \in Ix(want) : i > Len(T.before) \/ want[i] # T.before[i]}) /\ Len(want) = Len(T.before) THEN "other-lines-changed"
               ELSE ""
At == IF T.err # "" THEN 0 ELSE LET want == Edited(T.before, T.ops) IN
      IF T.loaded # T.before THEN First(T.before, T.loaded) ELSE IF T.mem # want THEN First(want, T.mem) ELSE IF T.disk # want THEN First(want, T.disk) ELSE First(want, T.back)
TraceInit == t = 1
TraceNext == /\ t <= Len(Traces)
             /\ LET c == Clause IN PrintT("@@" \o ToJson([id |-> T.id, ok |-> c = "", clause |-> c, at |-> IF c = "" THEN 0 ELSE At]))
             /\ t' = t + 1
TraceSpec == TraceInit /\ [][TraceNext]_t
=============================================================================
