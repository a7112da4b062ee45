--------------------------- MODULE TransferTrace ----------------------------
(* Records of real moves over a stand-in for the store.                     *)
EXTENDS Transfer, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLE t
T == Traces[t]
Bag(s) == [x \in AsSet(s) |-> Cardinality({k \in 1..Len(s) : s[k] = x})]
Keys(s) == {<<s[k].dir, s[k].name>> : k \in 1..Len(s)}
Clause ==
  LET want == TLCEval(Listed(T.objs, "in", T.excl))
      todo == TLCEval([k \in 1..Len(T.todo) |-> T.objs[T.todo[k]]])
      ok == {k \in 1..Len(todo) : ~T.refuse[k]}
      new == TLCEval({Moved(todo[k]) : k \in ok})
      after == TLCEval(AsSet(IF T.dry THEN T.test ELSE T.src))
      before == TLCEval(IF T.dry THEN {} ELSE AsSet(T.objs))
      over == {o \in before : \E x \in new : x.dir = o.dir /\ x.name = o.name} IN
  IF T.lerr # "" THEN "listing-fails"
  ELSE IF \E k \in 1..Len(T.listed) : T.listed[k] \notin Keys(want) THEN "lists-other-files"
  ELSE IF \E x \in Keys(want) : x \notin AsSet(T.listed) THEN "file-not-listed"
  ELSE IF Len(T.listed) # Len(want) THEN "listed-twice"
  ELSE IF T.err # "" THEN "transfer-fails"
  ELSE IF T.dry /\ AsSet(T.src) # AsSet(T.objs) THEN "dry-run-writes"
  ELSE IF ~T.dry /\ Len(T.test) > 0 THEN "writes-to-test-bucket"
  ELSE IF \E o \in before \ over : o \notin after THEN "other-object-changed"
  ELSE IF \E x \in new : ~\E o \in after : o.dir = x.dir /\ o.name = x.name THEN "file-not-moved"
  ELSE IF \E x \in new : ~\E o \in after : o.dir = x.dir /\ o.name = x.name /\ o.head = x.head THEN "first-line"
  ELSE IF new \ after # {} THEN "content-changed"
  ELSE IF after # (before \ over) \cup new THEN "unasked-object"
  ELSE IF T.strays > 0 THEN "left-on-disk"
  ELSE ""
TraceInit == t = 1
TraceNext == /\ t <= Len(Traces)
             /\ LET c == Clause IN PrintT("@@" \o ToJson([id |-> T.id, ok |-> c = "", clause |-> c]))
             /\ t' = t + 1
TraceSpec == TraceInit /\ [][TraceNext]_t
=============================================================================
