------------------------ MODULE ProtocolBatchTrace ----------------------
(* T: rows, o, exit, files (row numbers returned, in order; 0 = unknown), *)
(* fails (error class, in order), result, comment, error (numbers in the  *)
(* messages), names (rows of the names file; nnames = number of such      *)
(* files), disk: per row [exists, right, stale] and waves: per row "ok",  *)
(* status ("none"/"right"/"wrong.."), strays.                             *)
EXTENDS ProtocolBatch, TLC, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES t, s
T == Traces[t]
InSeq(x, q) == \E j \in 1..Len(q) : q[j] = x
DiskClause(i, st) ==
  LET d == T.disk[i] IN
  CASE InSeq(i, st.made) /\ ~d.exists -> "protocol-missing"
    [] InSeq(i, st.made) /\ ~d.right -> "protocol-content"
    [] InSeq(i, st.made) /\ ~d.wave -> "waveform-content"
    [] ~InSeq(i, st.made) /\ d.unexpected -> "unreported-protocol"
    [] OTHER -> ""
FirstBad(f) == LET B == {i \in 1..Len(f) : f[i] # ""} IN IF B = {} THEN "" ELSE f[CHOOSE i \in B : \A j \in B : i <= j]
Num(a, b) == <<a, b>>
Final(st) ==
  LET dc == FirstBad([i \in 1..Len(T.rows) |-> DiskClause(i, st)])
      n == Len(T.rows)
      k == Len(st.fails)
      done == st.phase = "done"
      cli == T.o.mode = "cli"
  IN CASE T.escape # (~cli /\ st.phase = "interrupted") -> "exception-escapes"
       [] cli /\ T.exit # ExitCode(st, T.o) -> "exit-code"
       [] dc # "" -> dc
       [] T.strays > 0 -> "stray-files"
       [] done /\ T.files # st.made -> "files-reported"
       [] done /\ T.fails # st.fails -> "failures-reported"
       [] done /\ ~cli /\ T.result # (IF k = 0 THEN "success" ELSE "error") -> "result"
       [] done /\ ~cli /\ T.comment # Num(Len(st.made), n) -> "message"
       [] done /\ ~cli /\ T.error # (IF k = 0 THEN << >> ELSE Num(k, n)) -> "error-message"
       [] done /\ T.nnames # 1 -> "names-file"
       [] done /\ T.names # st.made -> "names"
       [] done /\ cli /\ T.status # "right" -> "status-file " \o T.status
       [] done /\ cli /\ T.tb # (k > 0) -> "status-traceback"
       [] st.phase = "refused" /\ T.status # "none" -> "refused-status"
       [] OTHER -> ""
TraceInit == t = 1 /\ s = [phase |-> "none"]
TraceNext ==
  /\ t <= Len(Traces)
  /\ IF s.phase = "none" THEN s' = BStart(T.rows, T.o) /\ UNCHANGED t
     ELSE IF s.phase = "running" THEN s' = BStep(s, T.rows, T.o) /\ UNCHANGED t
     ELSE LET c == Final(s) IN PrintT("@@" \o ToJson([id |-> T.id, ok |-> c = "", clause |-> c])) /\ t' = t + 1 /\ s' = [phase |-> "none"]
TraceSpec == TraceInit /\ [][TraceNext]_<<t, s>>
==========================================================================
