--------------------------- MODULE FTEntitiesTrace ---------------------------
(***************************************************************************)
(* Recorded sessions of the real library on entity sets, judged against    *)
(* FTEntities.  The state W is the sequence of all entity sets of the      *)
(* session.  Every line is one public call with the sets as they were      *)
(* afterwards; the call must have done exactly what the specification says *)
(* to exactly the set it was made on.                                      *)
(***************************************************************************)
EXTENDS FTEntities, Json, IOUtils

VARIABLES l, W, bad
vars == <<l, W, bad>>

Trace == ndJsonDeserialize(IOEnv.FT_TRACE)
Verdict(i, clause, detail) ==
  PrintT("VERDICT " \o ToJson([line |-> i, sid |-> Trace[i].sid, clause |-> clause, detail |-> detail]))

(* ---- recorded sets in the form of the specification ---- *)
NormEnt(o) == [id |-> o.id, cols |-> o.cols, index |-> o.index, tix |-> o.tix,
               sec |-> [i \in 1..Len(o.sec) |-> [t |-> o.sec[i].t, cs |-> Rng(o.sec[i].cs)]],
               lti |-> [has |-> o.lti.has, m |-> Rng(o.lti.m)]]
Norm(o) == [ents |-> [i \in 1..Len(o.ents) |-> NormEnt(o.ents[i])], rels |-> o.rels, tt |-> o.tt]
\* the frame of each entity: a column per variable in the same order, rows labelled by the index
FramesOk(o) == \A i \in 1..Len(o.ents) :
                 LET e == o.ents[i] IN /\ e.fr = Names(e.cols)
                                       /\ e.lab = Col(e, e.index).v
                                       /\ Len(e.lti.m) = Cardinality(Rng(e.lti.m))

(* ---- how two sets differ: the first place, for the report ---- *)
DiffEnt(e, f) ==
  IF e.id # f.id THEN <<"entity", e.id, f.id>>
  ELSE IF Names(e.cols) # Names(f.cols) THEN <<"columns", e.id, Names(e.cols), Names(f.cols)>>
  ELSE IF e.index # f.index \/ e.tix # f.tix THEN <<"index", e.id, <<e.index, e.tix>>, <<f.index, f.tix>>>>
  ELSE IF e.sec # f.sec THEN <<"second-times", e.id, e.sec, f.sec>>
  ELSE IF \E i \in 1..Len(e.cols) : e.cols[i] # f.cols[i]
       THEN LET i == CHOOSE i \in 1..Len(e.cols) : e.cols[i] # f.cols[i] /\ \A j \in 1..(i - 1) : e.cols[j] = f.cols[j]
            IN <<"column", e.id, e.cols[i], f.cols[i]>>
  ELSE <<"last-times", e.id, <<e.lti.has, e.lti.m \ f.lti.m>>, <<f.lti.has, f.lti.m \ e.lti.m>>>>
DiffSet(x, y) ==
  IF EntNames(x) # EntNames(y) THEN <<"entities", EntNames(x), EntNames(y)>>
  ELSE IF x.rels # y.rels THEN <<"relationships", x.rels, y.rels>>
  ELSE IF x.tt # y.tt THEN <<"time-type", x.tt, y.tt>>
  ELSE LET i == CHOOSE i \in 1..Len(x.ents) : x.ents[i] # y.ents[i] IN DiffEnt(x.ents[i], y.ents[i])

(* ---- operations on one set ---- *)
Can(es, op, a) == CASE op = "Add" -> CanAdd(es, a)
                    [] op = "Relate" -> CanRelate(es, a)
                    [] op = "Normalize" -> CanNormalize(es, a)
                    [] op = "Update" -> CanUpdate(es, a)
                    [] op = "SetTime" -> CanSetTime(es, a)
                    [] op = "LastTimes" -> CanLastTimes(es, Rng(a.ids))
                    [] op = "Interesting" -> TRUE
\* interesting values are a choice among equals: the recorded set is allowed or not
Do(es, op, a, seen) == CASE op = "Add" -> DoAdd(es, a)
                   [] op = "Relate" -> DoRelate(es, a)
                   [] op = "Normalize" -> DoNormalize(es, a)
                   [] op = "Update" -> DoUpdate(es, a)
                   [] op = "SetTime" -> DoSetTime(es, a)
                   [] op = "LastTimes" -> DoLastTimes(es, Rng(a.ids))
                   [] op = "Interesting" -> IF NoIv(seen) = NoIv(es) /\ InterestingAllowed(es, a.max, seen) THEN seen ELSE es

\* first of a list of <<name, holds, detail>> that fails
RECURSIVE FirstBad(_)
FirstBad(s) == IF s = <<>> THEN <<"ok", <<>>>>
               ELSE IF Head(s)[2] THEN FirstBad(Tail(s)) ELSE <<Head(s)[1], Head(s)[3]>>

Judge(i) ==
  LET ev == Trace[i]
      obs == TLCEval([j \in 1..Len(ev.obs) |-> Norm(ev.obs[j])])
      n == Len(W)
      others(x) == \A j \in 1..n : j # x => obs[j] = W[j]
      wrong(x) == CHOOSE j \in 1..n : j # x /\ obs[j] # W[j]
      whole == \A j \in 1..Len(obs) : FramesOk(ev.obs[j]) /\ WellFormed(obs[j])
      same(x, exp) == IF obs[x] = exp THEN <<"ok", <<>>>> ELSE <<"result", DiffSet(exp, obs[x])>>
      rest(x) == IF ~others(x) THEN <<"other-set-changed", DiffSet(W[wrong(x)], obs[wrong(x)])>>
                 ELSE IF ~whole THEN <<"ill-formed", <<ev.op>>>> ELSE <<"ok", <<>>>>
  IN IF ev.op = "New" THEN
       IF ev.err # "" THEN <<"error", <<ev.err>>>>
       ELSE IF obs[Len(obs)] # [ents |-> <<>>, rels |-> <<>>, tt |-> ""] THEN <<"result", <<>>>> ELSE rest(0)
     ELSE IF ev.op \in {"Copy", "Save"} THEN
       IF ev.err # "" THEN <<"error", <<ev.err>>>>
       ELSE IF Len(obs) # n + 1 THEN <<"result", <<"no set">>>>
       ELSE LET exp == IF ev.op = "Save" THEN Saved(W[ev.set], ev.args.order) ELSE W[ev.set] IN
            IF ev.op = "Save" /\ ev.args.before # ev.args.after
            THEN LET d == {x \in 1..Len(ev.args.before) : x > Len(ev.args.after) \/ ev.args.before[x] # ev.args.after[x]}
                 IN <<"properties", IF d = {} THEN <<>> ELSE LET x == CHOOSE x \in d : \A z \in d : x <= z IN
                      <<ev.args.how, ev.args.before[x], IF x > Len(ev.args.after) THEN "" ELSE ev.args.after[x]>>>>
            ELSE IF obs[n + 1] # exp THEN <<"not-the-same", DiffSet(exp, obs[n + 1])>> ELSE rest(0)
     ELSE IF ev.op = "Concat" THEN
       LET x == W[ev.set]
           y == W[ev.args.other]
           r == IF ev.args.inplace = 1 THEN ev.set ELSE n + 1
       IN IF ~CanConcat(x, y) THEN (IF ev.err = "" THEN <<"accepted", <<ev.op>>>> ELSE rest(0))
          ELSE IF ev.err # "" THEN <<"error", <<ev.err>>>>
          ELSE IF ~ConcatAllowed(x, y, obs[r]) THEN <<"result", DiffSet(DoConcat(x, y), obs[r])>>
          ELSE rest(IF ev.args.inplace = 1 THEN ev.set ELSE 0)
     ELSE IF ev.op = "Paths" THEN
       LET w == JudgePaths(W[ev.set], ev.args) IN IF w # <<"ok">> THEN <<"paths", w>> ELSE rest(0)
     ELSE
       LET es == W[ev.set]
           can == TLCEval(Can(es, ev.op, ev.args)) IN
       IF ev.err # "" THEN
         IF can THEN <<"error", <<ev.err>>>>
         ELSE IF obs[ev.set] # es THEN <<"rejected-with-effect", DiffSet(es, obs[ev.set])>> ELSE rest(ev.set)
       ELSE IF ~can THEN <<"accepted", <<ev.op, ev.args>>>>
       ELSE LET s == same(ev.set, TLCEval(Do(es, ev.op, ev.args, obs[ev.set]))) IN IF s[1] # "ok" THEN s ELSE rest(ev.set)

Step == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET j == TLCEval(Judge(l)) IN
             /\ bad' = bad + (IF j[1] = "ok" THEN 0 ELSE 1)
             /\ IF j[1] = "ok" THEN TRUE ELSE Verdict(l, j[1], j[2])
        /\ W' = IF Trace[l].last = 1 THEN <<>> ELSE [j \in 1..Len(Trace[l].obs) |-> Norm(Trace[l].obs[j])]
Init == l = 1 /\ W = <<>> /\ bad = 0
TraceSpec == Init /\ [][Step]_vars

Consumed == /\ PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
