------------------------- MODULE FTSynthesisTrace --------------------------
(***************************************************************************)
(* Recorded syntheses.  The state W is what the last "Synth" line built:   *)
(* the names of its features in order.  "Same" lines ask for the same in   *)
(* another way (other order, names or classes, another process).           *)
(***************************************************************************)
EXTENDS FTSynthesis, Json, IOUtils

FirstCompared == [nm |-> "", e |-> "", k |-> ""]   \* TLC compares records by these fields first

VARIABLES l, W, bad
vars == <<l, W, bad>>
Trace == ndJsonDeserialize(IOEnv.FT_TRACE)
Verdict(i, clause, detail) ==
  PrintT("VERDICT " \o ToJson([line |-> i, sid |-> Trace[i].sid, clause |-> clause, detail |-> detail]))
Ok == <<"ok", <<>>>>

\* what every feature that is returned has to satisfy, whatever was built
SeedParts(Q) == UNION {Deep(s) : s \in Rng(Q.seeds)}
Typed(f) ==
  f.k \in {"tra", "grp", "agg"} =>
    \E i \in 1..Len(Primitives[f.p.n].ins) :
      LET q == Primitives[f.p.n].ins[i] IN Len(q) = Len(f.b) /\ \A j \in 1..Len(q) : IsA(f.b[j].t, q[j])
PrimNames(S) == {x.p.n : x \in S}
\* known finding C19-1: direct features may be one deeper than allowed
DeviantDirect(f) == IF f.k = "dir" \/ (f.k = "sl" /\ f.b[1].k = "dir") THEN 1 ELSE 0
Unsound(Q, f) ==
  LET C == Context(Q)              \* depth of the stack; conditions and outputs apart
      RECURSIVE Stack(_)
      Stack(x) == IF x.k = "id" \/ IsSeed(C, x) THEN 0
                  ELSE (IF x.k = "sl" THEN 0 ELSE 1) + Max0({Stack(y) : y \in Rng(x.b \o x.g)}) IN
  LET all == Deep(f) \ SeedParts(Q)
      conds == UNION {Rng(x.w) : x \in all}
      asked == all \ conds
      w ==  IF f.e # Q.target THEN "entity"
            ELSE IF \E x \in all : ~Typed(x) THEN "types"
            ELSE IF Stack(f) > StartDepth(Q) + DeviantDirect(f) THEN "depth"
            ELSE IF \E x \in all : x.e \in IgnoredEnts(Q) THEN "ignored-entity"
            ELSE IF \E x \in all : x.k = "id" /\ x.v \in IgnoredVars(Q, x.e) THEN "ignored-variable"
            ELSE IF \E x \in asked : x.k = "agg" /\ x.p.n \notin PrimNames(Rng(Q.aggs)) THEN "primitive"
            ELSE IF \E x \in asked : x.k = "tra" /\ x.p.n \notin PrimNames(Rng(Q.trs)) THEN "primitive"
            ELSE IF \E x \in asked : x.k = "grp" /\ x.p.n \notin PrimNames(Rng(Q.grps)) THEN "primitive"
            ELSE IF \E x \in asked : x.k = "agg" /\ x.w # <<>> /\ x.p.n \notin PrimNames(Rng(Q.whs)) THEN "conditional-primitive"
            ELSE IF \E x \in asked : x.k = "agg" /\ ~Stacks(x.p, x.b) THEN "stacking"
            ELSE IF f.k = "id" /\ f.v = Ent(Q.es, Q.target).index THEN "identifier"
            ELSE IF ~Kept(Q, f) THEN "dropped"
            ELSE "" IN w

\* without a list of primitives, the default ones that the frames support
Default(names, dist) ==
  LET ns == SelectSeq(names, LAMBDA n : dist = 1 => n \in Distributed)
  IN [i \in 1..Len(ns) |-> [p |-> [n |-> ns[i], a |-> Primitives[ns[i]].pars, outs |-> 1], i |-> 0]]
Asked(ev) ==
  [[ev.q EXCEPT !.aggs = IF ev.q.defaults[1] = 1 THEN Default(DefaultAggs, ev.q.dist) ELSE @]
         EXCEPT !.trs = IF ev.q.defaults[2] = 1 THEN Default(DefaultTrans, ev.q.dist) ELSE @]
\* primitives that distributed frames do not support are refused
RefusedSynth(Q) ==
  Q.dist = 1 /\ ~(PrimNames(Rng(Q.aggs)) \cup PrimNames(Rng(Q.trs)) \cup PrimNames(Rng(Q.grps)) \cup PrimNames(Rng(Q.whs)) \subseteq Distributed)

Nm(S) == {f.nm : f \in S}
Min2(a, b) == IF a < b THEN a ELSE b
JudgeSynth(ev) ==
  LET Q0 == TLCEval(Asked(ev))
      C0 == [es |-> Q0.es, seeds |-> {}]
      seeds0 == Features(C0, Q0.seednodes)
      names == {<<seeds0[i].e, seeds0[i].nm>> : i \in Rng(Q0.seedat)}
      C == [es |-> Q0.es, seeds |-> names]
      sf == Features(C, Q0.seednodes)
      Q == TLCEval([seeds |-> [i \in 1..Len(Q0.seedat) |-> sf[Q0.seedat[i]]], seednames |-> names] @@ Q0)
      fs == Features(C, ev.nodes)
      got == TLCEval([i \in 1..Len(ev.list) |-> fs[ev.list[i].at]])
      G == TLCEval(Rng(got))
      bad1 == {i \in 1..Len(got) : got[i].nm # ev.list[i].nm}
      bad2 == {i \in 1..Len(got) : got[i].t # ev.list[i].t}
      full == Features(C0, ev.nodes)           \* depth in full, below seeds too
      dep == [i \in 1..Len(got) |-> full[ev.list[i].at].d]
      order == {i \in 1..(Len(got) - 1) : dep[i] > dep[i + 1]}
      unsound == {i \in 1..Len(got) : Unsound(Q, got[i]) # ""}
      B == TLCEval(Built(Q))
      cap == Q.maxf > 0
  IN IF RefusedSynth(Q0) THEN (IF ev.err # "" THEN Ok ELSE <<"accepted", <<>>>>)
     ELSE IF ev.err # "" THEN <<"error", <<ev.err>>>>
     ELSE IF bad1 # {} THEN LET i == CHOOSE i \in bad1 : TRUE IN <<"name", <<ev.list[i].nm, got[i].nm>>>>
     ELSE IF bad2 # {} THEN LET i == CHOOSE i \in bad2 : TRUE IN <<"type", <<got[i].nm, ev.list[i].t, got[i].t>>>>
     ELSE IF Cardinality(Nm(G)) # Len(got) THEN <<"duplicate", <<{x \in Nm(G) : Cardinality({i \in 1..Len(got) : got[i].nm = x}) > 1}>>>>
     ELSE IF unsound # {} THEN LET i == CHOOSE i \in unsound : TRUE IN <<"unsound", <<Unsound(Q, got[i]), got[i].nm>>>>
     ELSE IF order # {} THEN <<"depth-order", <<got[CHOOSE i \in order : TRUE].nm>>>>
     ELSE IF ~(G \subseteq B) THEN <<"not-permitted", <<Nm(G \ B)>>>>
     ELSE IF ~cap /\ G # B THEN <<"missing", <<Nm(B \ G)>>>>
     ELSE IF cap /\ Len(got) # Min2(Q.maxf, Cardinality(B)) THEN <<"number", <<Len(got), Cardinality(B)>>>>
     ELSE IF cap /\ Q.seeds = <<>> /\ \E f \in B \ G : \E g \in G : f.d < g.d THEN <<"shallow-first", <<Nm(B \ G)>>>>
     ELSE Ok
Judge(ev) ==
  IF ev.ev = "Synth" THEN JudgeSynth(ev)
  ELSE IF ev.err # "" THEN <<"error", <<ev.how, ev.err>>>>
  ELSE IF ev.names # W THEN
    <<IF Rng(ev.names) = Rng(W) THEN "order" ELSE "differs",
      LET d == (Rng(ev.names) \ Rng(W)) \cup (Rng(W) \ Rng(ev.names)) IN <<ev.how, d, IF d = {} THEN <<CHOOSE i \in 1..Len(W) : W[i] # ev.names[i]>> ELSE <<>>>>>>
  ELSE Ok
Step == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET ev == Trace[l]
               j == TLCEval(Judge(ev)) IN
             /\ bad' = bad + (IF j[1] = "ok" THEN 0 ELSE 1)
             /\ IF j[1] = "ok" THEN TRUE ELSE Verdict(l, j[1], j[2])
             /\ W' = IF ev.ev = "Synth" THEN [i \in 1..Len(ev.list) |-> ev.list[i].nm] ELSE W
Init == l = 1 /\ W = <<>> /\ bad = 0
TraceSpec == Init /\ [][Step]_vars
Consumed == /\ PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
