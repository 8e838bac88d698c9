-------------------------- MODULE FTPrimitivesTrace --------------------------
(***************************************************************************)
(* Recorded values of single primitives.  Every line carries one primitive *)
(* with its parameters, many inputs, and what the library returned for     *)
(* each: in a feature matrix (via "matrix") or from calling the primitive  *)
(* on the column (via "call").                                             *)
(*   Agg   cols[g] the columns of group g, obs[g] its outputs              *)
(*   Row   cols[r] the arguments of row r, obs[r] its value                *)
(*   Col   cols    the columns of one whole entity, obs[r] its values      *)
(***************************************************************************)
EXTENDS FTPrimitives, Json, IOUtils

VARIABLES l, bad
vars == <<l, bad>>
Trace == ndJsonDeserialize(IOEnv.FT_TRACE)
Verdict(i, clause, detail) ==
  PrintT("VERDICT " \o ToJson([line |-> i, sid |-> Trace[i].sid, clause |-> clause, detail |-> detail]))
Ok == <<"ok", <<>>>>

\* the population variance: what the documented example of STD shows, and what
\* calling it returns; in a matrix it is the sample's (known finding C30-1)
PopVar(t) == IF t = <<>> THEN NaN
             ELSE LET m == MeanOf(t) IN IF ~IsNum(m) THEN Unk ELSE RDivInt(SqDev(t, m, 1, Num(0)), Len(t))
AllMatch(s, r) == Len(s) = Len(r) /\ \A i \in 1..Len(s) : Matches(s[i], r[i])

\* a group without rows has the declared default, in all of its outputs
AggOk(ev, cols, out) ==
  IF cols[1] = <<>> THEN AllMatch([i \in 1..ev.q.n |-> DefaultOf(ev.p)], out)
  ELSE IF ev.p = "N_MOST_COMMON" THEN NMostCommonOk(cols[1], ev.q.n, out)
  ELSE IF ev.p = "STD" /\ ev.via = "call" THEN AllMatch(<<PopVar(NotNull(cols[1]))>>, out)
  ELSE AllMatch(AggFn(ev.p, ev.q, cols, ev.T), out)
Wrong(ev) ==
  CASE ev.ev = "Agg" -> {g \in 1..Len(ev.cols) : ~AggOk(ev, ev.cols[g], ev.obs[g])}
    [] ev.ev = "Row" -> {r \in 1..Len(ev.cols) : ~Matches(RowFn(ev.p, ev.q, ev.cols[r], ev.T), ev.obs[r])}
    [] ev.ev = "Col" -> LET exp == TLCEval(ColFn(ev.p, ev.q, ev.cols, ev.T))
                        IN {r \in 1..Len(exp) : ~Matches(exp[r], ev.obs[r])}
Size(ev) == IF ev.ev = "Col" THEN Len(ev.cols[1]) ELSE Len(ev.cols)
Judge(ev) ==
  IF ev.err # "" THEN <<"error", <<ev.p, ev.err>>>>
  ELSE IF Len(ev.obs) # Size(ev) THEN <<"rows", <<ev.p, Len(ev.obs), Size(ev)>>>>
  ELSE LET w == TLCEval(Wrong(ev)) IN
       IF w = {} THEN Ok
       ELSE LET g == CHOOSE g \in w : \A h \in w : g <= h
            IN <<"value", <<ev.p, ev.via, IF ev.ev = "Col" THEN ev.cols ELSE ev.cols[g], ev.obs[g], Cardinality(w)>>>>
Step == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET j == TLCEval(Judge(Trace[l])) IN
             /\ bad' = bad + (IF j[1] = "ok" THEN 0 ELSE 1)
             /\ IF j[1] = "ok" THEN TRUE ELSE Verdict(l, j[1], j[2])
Init == l = 1 /\ bad = 0
TraceSpec == Init /\ [][Step]_vars
Consumed == /\ PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
