--------------------------- MODULE FTTablesTrace ---------------------------
(***************************************************************************)
(* Recorded sessions that encode a feature matrix and select from it.  The *)
(* state W is the table; each line applies a call to it and shows the      *)
(* result, the argument afterwards, and whether the session goes on with   *)
(* the result.                                                             *)
(***************************************************************************)
EXTENDS FTTables, Json, IOUtils

VARIABLES l, W, bad
vars == <<l, W, bad>>
Trace == ndJsonDeserialize(IOEnv.FT_TRACE)
Verdict(i, clause, detail) ==
  PrintT("VERDICT " \o ToJson([line |-> i, sid |-> Trace[i].sid, clause |-> clause, detail |-> detail]))
Ok == <<"ok", <<>>>>
SameVals(x, y) == Len(x) = Len(y) /\ \A r \in 1..Len(x) : Matches(x[r], y[r])
Judge(ev) ==
  IF ev.ev = "Table" THEN Ok
  ELSE IF ev.ev = "Recalc" THEN       \* calculating the encoded definitions
    IF ev.err # "" THEN <<"error", <<ev.err>>>>
    ELSE LET n == Len(FeatureNames(W.f)) IN
         IF Names(ev.cols) # SubSeq(Names(W.m.cols), 1, n) THEN <<"recalculated-columns", <<Names(ev.cols)>>>>
         ELSE LET wrong == {j \in 1..n : \E r \in Rng(ev.rows) : ev.cols[j].v[r] # W.m.cols[j].v[r]} IN
              IF wrong # {} THEN LET j == CHOOSE j \in wrong : TRUE IN <<"recalculated", <<ev.cols[j], W.m.cols[j]>>>> ELSE Ok
  ELSE IF ev.op = "Encode" THEN
    IF ~CanEncode(W) THEN (IF ev.err = "" THEN <<"accepted", <<ev.op>>>> ELSE IF ev.after # W.m THEN <<"argument-changed", <<ev.op>>>> ELSE Ok)
    ELSE IF ev.err # "" THEN <<"error", <<ev.err>>>>
    ELSE LET w == EncodedOk(W, ev.args, ev.got) IN
         IF w # <<"ok">> THEN <<"encoded", w>>
         ELSE IF ev.args.inplace = 0 /\ ev.after # W.m THEN <<"argument-changed", <<ev.op>>>> ELSE Ok
  ELSE IF ev.args.bad = 1 THEN (IF ev.err = "" THEN <<"accepted", <<ev.op>>>> ELSE IF ev.after # W.m THEN <<"argument-changed", <<ev.op>>>> ELSE Ok)
  ELSE IF ev.err # "" THEN <<"error", <<ev.op, ev.err>>>>
  ELSE LET w == SelectedOk(W, ev.op, ev.args, ev.got, ev.withf) IN
       IF w # <<"ok">> THEN <<"selected", <<ev.op, w>>>>
       ELSE IF ev.after # W.m THEN <<"argument-changed", <<ev.op>>>>
       ELSE IF ev.again # ev.got.m THEN <<"again", <<ev.op, Names(ev.again.cols), Names(ev.got.m.cols)>>>> ELSE Ok
Step == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET ev == Trace[l]
               j == TLCEval(Judge(ev)) IN
             /\ bad' = bad + (IF j[1] = "ok" THEN 0 ELSE 1)
             /\ IF j[1] = "ok" THEN TRUE ELSE Verdict(l, j[1], j[2])
             /\ W' = IF ev.last = 1 THEN <<>> ELSE IF ev.ev = "Recalc" THEN W ELSE IF ev.go = 1 THEN ev.got ELSE W
Init == l = 1 /\ W = <<>> /\ bad = 0
TraceSpec == Init /\ [][Step]_vars
Consumed == /\ PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
