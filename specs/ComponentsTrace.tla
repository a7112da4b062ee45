--------------------------- MODULE ComponentsTrace ---------------------------
EXTENDS Components, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLE t
R == Traces[t]
T == [S |-> R.S, skew |-> R.skew, k |-> R.k, f |-> R.f]
Yes(u, b) == u = "either" \/ (u = "yes") = b
Signs == [1..T.k -> {1, -1}]
SampleClause(x, o) ==
  LET w == Standings(T, x)
      err == Error(T, x)
      lim == MaxTrainError(T) * R.thr10 IN
  IF \E g \in 1..T.k : Abs(o.emb[g]) # Abs(w[g]) THEN "embedding"
  ELSE IF o.recon # Recon(T, x) THEN "reconstruction"
  ELSE IF o.dist2 # Distance2(T, x) THEN "distance"
  ELSE IF o.err # err THEN "reconstruction-error"
  ELSE IF lim > 0 /\ 10 * err > lim /\ ~o.bad THEN "error-outlier-missed"
  ELSE IF (lim > 0 \/ err = 0) /\ 10 * err < lim /\ o.bad THEN "false-error-outlier"
  ELSE IF lim = 0 /\ err > 0 /\ ~o.bad THEN "error-outlier-missed" ELSE ""
First(s) == LET B == {i \in 1..Len(s) : s[i] # ""} IN IF B = {} THEN "" ELSE s[CHOOSE i \in B : \A j \in B : i <= j]
Clause ==
  IF R.what = "table" THEN
     (LET want == Table(R.runs, {R.wanted[k] : k \in 1..Len(R.wanted)}) IN
      IF R.err # "" THEN "table-fails" ELSE IF R.rows # want THEN (IF Len(R.rows) # Len(want) THEN "table-rows" ELSE "table-values") ELSE "")
  ELSE IF R.err # "" THEN "fails"
  ELSE IF R.enough # Enough(T, R.pct) THEN "components-needed"
  ELSE IF \E i \in 1..R.S : R.trainerr[i] # TrainError(T, R.order[i]) THEN "training-error"
  ELSE LET c == TLCEval(First([n \in 1..Len(R.xs) |-> SampleClause(R.xs[n], R.obs[n])])) IN
       IF c # "" THEN c
       ELSE IF ~\E sg \in Signs : \A n \in 1..Len(R.xs) : Yes(Outlier(T, R.xs[n], R.up, R.lo, sg), R.obs[n].out) THEN "outlier"
       ELSE IF ~R.same THEN "data-changed" ELSE ""
TraceInit == t = 1
TraceNext == /\ t <= Len(Traces)
             /\ LET c == Clause IN PrintT("@@" \o ToJson([id |-> R.id, ok |-> c = "", clause |-> c]))
             /\ t' = t + 1
TraceSpec == TraceInit /\ [][TraceNext]_t
=============================================================================
