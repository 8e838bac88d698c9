---------------------------- MODULE FTDefsTrace ----------------------------
(***************************************************************************)
(* Recorded definitions: "Defs" what a group of features say, "Variant" a  *)
(* copy under the same or another name, "Saved" a list of features before  *)
(* and after it was saved and loaded, "Matrix" what both calculate,        *)
(* "Version" loading text that another schema version wrote.               *)
(***************************************************************************)
EXTENDS FTDefs, FTDescribe, Json, IOUtils

FirstCompared == [nm |-> "", e |-> "", k |-> ""]   \* TLC compares records by these fields first

VARIABLES l, bad
vars == <<l, bad>>
Trace == ndJsonDeserialize(IOEnv.FT_TRACE)
Verdict(i, clause, detail) ==
  PrintT("VERDICT " \o ToJson([line |-> i, sid |-> Trace[i].sid, clause |-> clause, detail |-> detail]))
Ok == <<"ok", <<>>>>
Ctx(es) == [es |-> es, seeds |-> {}]
Pick(S) == CHOOSE x \in S : TRUE

\* the first way in which a report differs from what the definition implies
Fault(C, f, r) ==
  LET s == Says(C, f) IN
  CASE r.nm # s.nm -> <<"name", <<r.nm, s.nm>>>>
    [] r.names # s.names -> <<"output-names", <<r.names, s.names>>>>
    [] r.t # s.t -> <<"type", <<r.nm, r.t, s.t>>>>
    [] r.n # s.n -> <<"outputs", <<r.nm, r.n, s.n>>>>
    [] r.d # s.d -> <<"depth", <<r.nm, r.d, s.d>>>>
    [] r.e # s.e \/ r.un # s.un -> <<"entity", <<r.nm>>>>
    [] r.deps # s.deps -> <<"dependencies", <<r.nm, r.deps, s.deps>>>>
    [] Rng(r.deep) # Under(f) -> <<"deep-dependencies", <<r.nm, Rng(r.deep), Under(f)>>>>
    [] OTHER -> Ok
Faults(C, fs, says) == {x \in {TLCEval(Fault(C, fs[i], says[i])) : i \in 1..Len(fs)} : x # Ok}

JudgeDefs(ev) ==
  LET C == Ctx(ev.es)
      fs == Features(C, ev.nodes)
      F == TLCEval(Faults(C, fs, ev.says))
      pairs == {p \in (1..Len(fs)) \X (1..Len(fs)) : p[1] < p[2] /\ ev.says[p[1]].un = ev.says[p[2]].un /\ SameName(C, fs[p[1]], fs[p[2]])}
  IN IF F # {} THEN Pick(F)
     ELSE IF pairs # {} THEN <<"same-name", <<fs[Pick(pairs)[1]].nm>>>>
     ELSE IF ev.touched # 0 THEN <<"arguments-changed", <<>>>>
     ELSE Ok
JudgeVariant(ev) ==
  LET C == Ctx(ev.es)
      fs == Features(C, ev.nodes)
      F == TLCEval(Faults(C, fs, ev.says))
      f == fs[ev.of]
      g == fs[ev.is]
  IN IF ev.err # "" THEN <<"error", <<ev.err>>>>
     ELSE IF F # {} THEN Pick(F)
     ELSE IF ev.op = "rename" /\ g # Renamed(C, f, ev.nm) THEN <<"renamed", <<g.nm>>>>
     ELSE IF ev.op = "copy" /\ g \notin {f, Renamed(C, f, GenName(C, f))} THEN <<"copied", <<g.nm>>>>
     ELSE IF ev.before # ev.after THEN <<"original-changed", <<f.nm>>>>
     ELSE Ok
Listed(x) == LET fs == Features(Ctx(x.es), x.nodes) IN [i \in 1..Len(x.at) |-> fs[x.at[i]]]
\* the order of entities and variables may change
SameSchema(s, t) ==
  /\ s.rels = t.rels /\ Len(s.ents) = Len(t.ents)
  /\ \A x \in Rng(s.ents) : \E y \in Rng(t.ents) :
       x.id = y.id /\ x.index = y.index /\ x.tix = y.tix /\ Len(x.vars) = Len(y.vars) /\ Rng(x.vars) = Rng(y.vars)
JudgeSaved(ev) ==
  LET a == TLCEval(Listed(ev.before))
      b == TLCEval(Listed(ev.after))
      fb == Features(Ctx(ev.after.es), ev.after.nodes)
      diff == {i \in 1..Len(a) : i > Len(b) \/ a[i] # b[i]}
  IN IF ev.err # "" THEN <<"error", <<ev.err>>>>
     ELSE IF Len(a) # Len(b) THEN <<"number", <<Len(a), Len(b)>>>>
     ELSE IF diff # {} THEN LET i == Pick(diff) IN <<"definition", <<a[i].nm, b[i].nm>>>>
     ELSE IF ~SameSchema(ev.before.es, ev.after.es) THEN <<"schema", <<>>>>
     ELSE IF Cardinality(Rng(fb)) # Len(fb) THEN <<"shared", <<>>>>     \* one object for one definition
     ELSE IF ev.again # ev.before THEN <<"original-changed", <<>>>>
     ELSE Ok
Older(p, q) == \E i \in 1..3 : p[i] < q[i] /\ \A j \in 1..(i - 1) : p[j] = q[j]
JudgeVersion(ev) ==
  IF ev.err # "" THEN <<"error", <<ev.err>>>>
  ELSE IF (ev.newer = 1) # Older(ev.current, ev.saved) THEN <<"newer-version", <<ev.saved>>>>
  ELSE IF (ev.older = 1) # (ev.saved[1] < ev.current[1]) THEN <<"older-version", <<ev.saved>>>>
  ELSE Ok
JudgeDescribed(ev) ==
  LET C == Ctx(ev.es)
      fs == Features(C, ev.nodes)
      at == {i \in 1..Len(ev.of) : ev.said[i] # Describe(C, ev.x, fs[ev.of[i]])}
  IN IF at = {} THEN Ok ELSE LET i == Pick(at) IN <<"description", <<ev.said[i], Describe(C, ev.x, fs[ev.of[i]])>>>>
Judge(ev) ==
  CASE ev.ev = "Described" -> JudgeDescribed(ev)
    [] ev.ev = "Defs" -> JudgeDefs(ev)
    [] ev.ev = "Variant" -> JudgeVariant(ev)
    [] ev.ev = "Saved" -> JudgeSaved(ev)
    [] ev.ev = "Matrix" -> IF ev.a = ev.b THEN Ok ELSE <<"matrix", <<ev.a.err, ev.b.err, ev.a.cols>>>>
    [] OTHER -> JudgeVersion(ev)
Step == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET j == TLCEval(Judge(Trace[l])) IN
             /\ bad' = bad + (IF j[1] = "ok" THEN 0 ELSE 1)
             /\ IF j[1] = "ok" THEN TRUE ELSE Verdict(l, j[1], j[2])
Init == l = 1 /\ bad = 0
TraceSpec == Init /\ [][Step]_vars
Consumed == /\ PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
