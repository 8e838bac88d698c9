---------------------------- MODULE FTSynthesis ----------------------------
(***************************************************************************)
(* Deep feature synthesis: which features are built, from which primitives *)
(* and with which options.  The state of a synthesis is, per visited       *)
(* entity, its features by name (F) and its conditions (W).                *)
(* Q is the request:                                                       *)
(*   es, target, depth (-1 unlimited), aggs, trs, grps (primitives with an *)
(*   instance number or 0), wheres (primitive names), limit (stacking of   *)
(*   conditions), allowed [has, paths], ignE, ignV (<<entity, variables>>),*)
(*   opts (<<key, list of options>>), seeds, types, dropc, drope, maxf     *)
(***************************************************************************)
EXTENDS FTFeatures

(* options *)
Matching(Q, x) ==                  \* the options given for primitive x
  LET own == {i \in 1..Len(Q.opts) : Q.opts[i].inst = x.i /\ x.i # 0}
      gen == {i \in 1..Len(Q.opts) : Q.opts[i].inst = 0 /\ Q.opts[i].name = x.p.n}
  IN IF own # {} THEN Q.opts[CHOOSE i \in own : TRUE].list
     ELSE IF gen # {} THEN Q.opts[CHOOSE i \in gen : TRUE].list ELSE <<>>
Has(m, e) == \E i \in 1..Len(m) : m[i][1] = e
Of(m, e) == UNION {Rng(m[i][2]) : i \in {i \in 1..Len(m) : m[i][1] = e}}
Keys(m) == {m[i][1] : i \in 1..Len(m)}
Included(list) == UNION {(IF o.ie.has = 1 THEN Rng(o.ie.s) ELSE {}) \cup (IF o.iv.has = 1 THEN Keys(o.iv.m) ELSE {}) : o \in Rng(list)}
EntIds(Q) == {x.id : x \in Rng(Q.es.ents)}
\* normal form of an option: sets and functions, with what is ignored everywhere
Norm(Q, o, inc) ==
  [ie |-> IF o.ie.has = 1 THEN <<Rng(o.ie.s)>> ELSE <<>>,
   iv |-> IF o.iv.has = 1 THEN o.iv.m ELSE <<>>,
   xe |-> (IF o.xe.has = 1 THEN Rng(o.xe.s) ELSE {}) \cup (Rng(Q.ignE) \ inc),
   xv |-> [e \in EntIds(Q) |->
             LET own == IF o.xv.has = 1 /\ Has(o.xv.m, e) THEN Of(o.xv.m, e) ELSE {} IN
             IF ~Has(Q.ignV, e) THEN own
             ELSE IF o.xv.has = 1 /\ Has(o.xv.m, e) THEN own \cup Of(Q.ignV, e)
             ELSE IF e \in inc THEN {}
             ELSE Of(Q.ignV, e)],
   gie |-> IF o.gie.has = 1 THEN <<Rng(o.gie.s)>> ELSE <<>>,
   gxe |-> IF o.gxe.has = 1 THEN Rng(o.gxe.s) ELSE {},
   giv |-> IF o.giv.has = 1 THEN o.giv.m ELSE <<>>,
   gxv |-> IF o.gxv.has = 1 THEN o.gxv.m ELSE <<>>]
Everything(Q) ==
  [ie |-> <<>>, iv |-> <<>>, xe |-> Rng(Q.ignE), xv |-> [e \in EntIds(Q) |-> Of(Q.ignV, e)],
   gie |-> <<>>, gxe |-> {}, giv |-> <<>>, gxv |-> <<>>]
OptionsOf(Q, x) ==
  LET list == Matching(Q, x) IN
  IF list = <<>> THEN <<Everything(Q)>> ELSE [i \in 1..Len(list) |-> Norm(Q, list[i], Included(list))]
AllPrims(Q) == Rng(Q.aggs) \cup Rng(Q.trs) \cup Rng(Q.grps) \cup Rng(Q.whs)
\* entities and variables left out everywhere
IgnoredEnts(Q) == Rng(Q.ignE) \ UNION {Included(Matching(Q, x)) : x \in AllPrims(Q)}
IgnoredVars(Q, e) ==
  Of(Q.ignV, e) \ UNION {UNION {IF o.iv.has = 1 THEN Of(o.iv.m, e) ELSE {} : o \in Rng(Matching(Q, x))} : x \in AllPrims(Q)}

\* may a primitive with this option read feature f?
Readable(o, f) ==
  \A x \in Deep(f) :
    LET listed == x.k = "id" /\ Has(o.iv, x.e) IN
    IF listed THEN x.nm \in Of(o.iv, x.e)
    ELSE /\ ~(x.k = "id" /\ x.nm \in o.xv[x.e])
         /\ o.ie # <<>> => x.e \in o.ie[1]
         /\ x.e \notin o.xe
GroupReadable(o, f) ==
  /\ IsA(f.t, "Discrete")
  /\ \A x \in Deep(f) :
       LET listed == x.k = "id" /\ Has(o.giv, x.e) IN
       IF listed THEN x.nm \in Of(o.giv, x.e)
       ELSE /\ ~(x.k = "id" /\ x.nm \in Of(o.gxv, x.e))
            /\ o.gie # <<>> => x.e \in o.gie[1]
            /\ x.e \notin o.gxe
Skips(o, e) == ~Has(o.iv, e) /\ (e \in o.xe \/ (o.ie # <<>> /\ e \notin o.ie[1]))
SkipsGroup(o, e) == ~Has(o.giv, e) /\ (e \in o.gxe \/ (o.gie # <<>> /\ e \notin o.gie[1]))
SkipEntity(os, e) == \E o \in Rng(os) : Skips(o, e)
SkipGroups(os, e) == \E o \in Rng(os) : Skips(o, e) \/ SkipsGroup(o, e)
(* the order of names, which decides the order of interchangeable inputs *)
LOWER == " !\"#$%&'()*+,-./0123456789:;<=>?@[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
UPPER == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeIn(alpha) == [ch \in {SubSeq(alpha, i, i) : i \in 1..Len(alpha)} |-> CHOOSE i \in 1..Len(alpha) : SubSeq(alpha, i, i) = ch]
Exact == TLCEval(CodeIn(UPPER))
Letters == "abcdefghijklmnopqrstuvwxyz"
Capitals == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
CaseLess == TLCEval([ch \in DOMAIN Exact |->
  IF \E i \in 1..26 : SubSeq(Capitals, i, i) = ch
  THEN Exact[SubSeq(Letters, CHOOSE i \in 1..26 : SubSeq(Capitals, i, i) = ch, CHOOSE i \in 1..26 : SubSeq(Capitals, i, i) = ch)]
  ELSE Exact[ch]])
Key(codes, s) == [i \in 1..Len(s) |-> codes[SubSeq(s, i, i)]]
RECURSIVE SeqLess(_, _, _)
SeqLess(a, b, i) ==
  IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE SeqLess(a, b, i + 1)
Before(ka, kb) == IF ka[1] = kb[1] THEN SeqLess(ka[2], kb[2], 1) ELSE SeqLess(ka[1], kb[1], 1)
SortKeys(fs) == TLCEval([n \in {f.nm : f \in fs} |-> <<Key(CaseLess, n), Key(Exact, n)>>])

(* candidate inputs *)
Vals(g) == {g[n] : n \in DOMAIN g}
EntFeatures(st, e) == IF e \in DOMAIN st.F THEN Vals(st.F[e]) ELSE {}
\* each output of a feature of several outputs on its own
Split(C, fs) == UNION {IF f.n = 1 THEN {f} ELSE {Slice(C, f, i) : i \in 1..f.n} : f \in fs}
Upto(C, st, e, depth) == IF depth < 0 THEN {} ELSE {f \in Split(C, EntFeatures(st, e)) : f.d <= depth}
OfType(fs, t) == {f \in fs : IsA(f.t, t)}
Commutes(p) ==
  LET c == Primitives[p.n].comm IN
  IF c = "param" THEN ParText(p, "commutative") = "True" ELSE c = "yes"
\* inputs for p among fs that its options os admit; of two orders of the
\* inputs of a commutative primitive the one by name, unless only the other
\* one is admitted
Inputs2(p, os, A, B) ==
  LET oA == TLCEval([f \in A |-> Readable(os[1], f)])
      oB == TLCEval([f \in B |-> Readable(os[IF Len(os) > 1 THEN 2 ELSE 1], f)])
      rA == {f \in A : oA[f]}  rB == {f \in B : oB[f]}
      pairs == TLCEval({<<a, b>> \in rA \X rB : a.nm # b.nm})
      keys == SortKeys(rA \cup rB)
  IN IF ~Commutes(p) THEN pairs
     ELSE {x \in pairs : \/ Before(keys[x[1].nm], keys[x[2].nm])
                         \/ <<x[2], x[1]>> \notin pairs}
Tuples(p, os, fs) ==
  LET ins == Primitives[p.n].ins[1] IN
  IF Len(ins) = 1 THEN {<<m>> : m \in {f \in OfType(fs, ins[1]) : Readable(os[1], f)}}
  ELSE TLCEval(Inputs2(p, os, OfType(fs, ins[1]), OfType(fs, ins[2])))
HasDirect(x) == \E i \in 1..Len(x) : x[i].k = "dir"
OneParent(x) == \A i \in 1..Len(x) : x[i].k = "dir" /\ x[i].path = x[1].path

\* which primitives may be applied to which features
Stacks(p, x) ==
  LET P == Primitives[p.n]
      same(f) == f.p.n = p.n
      of(f) == IF f.p.n = "" THEN Free ELSE Primitives[f.p.n].of
  IN \A i \in 1..Len(x) :
       LET f == x[i] IN
       /\ (P.self \/ ~same(f))
       /\ f.p.n \notin P.notOn
       /\ f.p.n # "" => p.n \notin Primitives[f.p.n].notOf
       \* with a list on both sides, one of them has to admit the other
       /\ \/ (P.self /\ same(f))
          \/ P.on = Free
          \/ f.p.n \in P.on[1]
          \/ of(f) = Free
          \/ p.n \in of(f)[1]
IsTrans(f) == f.p.n # "" /\ ~Primitives[f.p.n].agg
Unstacked(x) ==                    \* transforms are not stacked on transforms
  \A i \in 1..Len(x) : ~IsTrans(x[i]) /\ (x[i].k = "dir" => ~IsTrans(x[i].b[1]))
NumConditions(x) ==                \* conditional aggregations in the inputs
  LET RECURSIVE N(_)
      Sum(q) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE N(q[i]) + S(i - 1) IN S(Len(q))
      N(f) == (IF f.k = "agg" /\ f.w # <<>> THEN 1 ELSE 0) + Sum(Inputs(f))
  IN Sum(x)
InPath(path, f) ==
  f.k = "id" /\ \E i \in 1..Len(path) : (path[i].ce = f.e /\ path[i].cv = f.v) \/ (path[i].pe = f.e /\ path[i].pv = f.v)

(* the steps *)
ByName(S) == TLCEval([n \in {f.nm : f \in S} |-> CHOOSE f \in S : f.nm = n])
\* features already there are kept; so are those of the first set
AddTo(st, e, S) == TLCEval([st EXCEPT !.F[e] = @ @@ ByName(S)])
Identities(C, Q, e) ==
  {Identity(C, e, v) : v \in {x.n : x \in Rng(Ent(Q.es, e).vars)} \ IgnoredVars(Q, e)}
Seeded(Q, e) == {f \in Rng(Q.seeds) : f.e = e}

AggSet(C, Q, st, path, depth) ==
  LET e == path[1].pe
      ch == path[Len(path)].ce
      ok(f) == ~(f.k = "dir" /\ f.b[1].e = e) /\ ~InPath(path, f)
      cand == {f \in Upto(C, st, ch, depth - 1) : ok(f)}
      of(x) ==
        LET os == OptionsOf(Q, x) IN
        IF SkipEntity(os, ch) THEN {}
        ELSE LET T == {m \in Tuples(x.p, os, cand) : Stacks(x.p, m)}
                 conds(m) == IF x.p.n \in {y.p.n : y \in Rng(Q.whs)} /\ NumConditions(m) < Q.limit
                             THEN {w \in st.W[ch] : \A i \in 1..Len(m) : w.b[1].nm # m[i].nm} ELSE {}
             IN {Aggregation(C, x.p, m, path, <<>>) : m \in T}
                \cup UNION {{Aggregation(C, x.p, m, path, <<w>>) : w \in conds(m)} : m \in T}
  IN IF ch \notin DOMAIN st.F THEN {} ELSE UNION {of(x) : x \in Rng(Q.aggs)}

TransSet(C, Q, st, e, depth, second) ==
  LET cand == Upto(C, st, e, depth - 1)
      of(x) ==
        LET os == OptionsOf(Q, x) IN
        IF SkipEntity(os, e) THEN {}
        ELSE LET T == Tuples(x.p, os, cand) IN
             {Transform(C, x.p, m) : m \in {m \in T : Unstacked(m) /\ (second => HasDirect(m) /\ ~OneParent(m))}}
      one(x) ==
        LET os == OptionsOf(Q, x)
            anyType == \E o \in Rng(os) : Has(o.giv, e)
            groups == {g \in cand : (anyType \/ IsA(g.t, "Id")) /\ GroupReadable(os[1], g)}
        IN IF SkipGroups(os, e) THEN {}
           ELSE LET T == {m \in Tuples(x.p, os, cand) : Unstacked(m)}
                    both == {<<m, g>> \in T \X groups :
                               second => LET all == Append(m, g) IN HasDirect(all) /\ ~OneParent(all)}
                IN {GroupBy(C, x.p, y[1], y[2]) : y \in both}
  IN UNION {of(x) : x \in Rng(Q.trs)} \cup UNION {one(x) : x \in Rng(Q.grps)}

DirectSet(C, Q, st, r, depth) ==
  {Direct(C, r, f) : f \in {f \in Upto(C, st, r.pe, depth) : ~InPath(<<r>>, f)}}
EqualTo(s) == [n |-> "equal_scalar", a |-> <<<<"value", s>>>>, outs |-> 1]
RECURSIVE Origin(_)
Origin(f) == IF f.k = "id" THEN <<f>> ELSE IF f.k = "dir" THEN Origin(f.b[1]) ELSE <<>>
Interesting(es, f) == Rng((CHOOSE x \in Rng(Ent(es, f.e).vars) : x.n = f.v).iv)
Conditions(C, Q, st, e) ==
  UNION {IF Origin(f) = <<>> THEN {}
         ELSE {Transform(C, EqualTo(s), <<f>>) : s \in Interesting(Q.es, Origin(f)[1])} : f \in EntFeatures(st, e)}

\* backward paths from e in order of relationships, deep
RECURSIVE DeepPaths(_, _)
DeepPaths(es, e) ==
  LET RECURSIVE From(_)
      From(i) ==
        IF i > Len(es.rels) THEN <<>>
        ELSE IF es.rels[i].pe # e THEN From(i + 1)
        ELSE LET r == es.rels[i]
                 sub == DeepPaths(es, r.ce)
             IN <<<<r>>>> \o [j \in 1..Len(sub) |-> <<r>> \o sub[j]] \o From(i + 1)
  IN From(1)
PathOk(Q, trail) == Q.allowed.has = 1 => trail \in Rng(Q.allowed.paths)
Trail(trail, e, path, back) ==     \* the entities along the way
  (IF trail = <<>> THEN <<e>> ELSE trail) \o [i \in 1..Len(path) |-> IF back THEN path[i].ce ELSE path[i].pe]

RECURSIVE Run(_, _, _, _, _, _)
Run(C, Q, e, trail, depth, st0) ==
  IF depth < 0 THEN st0
  ELSE
  LET ign == IgnoredEnts(Q)
      ids == Identities(C, Q, e)
      st1 == [F |-> (e :> ByName(ids \cup {f \in Seeded(Q, e) : f.nm \notin {x.nm : x \in ids}})) @@ st0.F,
              W |-> st0.W]
      RECURSIVE Visit(_, _, _)
      Visit(i, st, back) ==
        IF i > Len(Q.es.rels) THEN st
        ELSE LET r == Q.es.rels[i]
                 here == IF back THEN r.pe ELSE r.ce
                 there == IF back THEN r.ce ELSE r.pe
                 tr == Trail(trail, e, <<r>>, back)
             IN IF here # e \/ there \in DOMAIN st.F \/ there \in ign \/ ~PathOk(Q, tr) THEN Visit(i + 1, st, back)
                ELSE Visit(i + 1, TLCEval(Run(C, Q, there, tr, depth - 1, st)), back)
      st2 == TLCEval(Visit(1, st1, TRUE))
      paths == DeepPaths(Q.es, e)
      RECURSIVE Aggs(_, _)
      Aggs(i, st) ==
        IF i > Len(paths) THEN st
        ELSE IF paths[i][Len(paths[i])].ce \in ign \/ ~PathOk(Q, Trail(trail, e, paths[i], TRUE)) THEN Aggs(i + 1, st)
        ELSE Aggs(i + 1, AddTo(st, e, AggSet(C, Q, st, paths[i], depth)))
      st3 == TLCEval(Aggs(1, st2))
      st4 == AddTo(st3, e, TransSet(C, Q, st3, e, depth, FALSE))
      st5 == TLCEval(Visit(1, st4, FALSE))
      RECURSIVE Dirs(_, _)
      Dirs(i, st) ==
        IF i > Len(Q.es.rels) THEN st
        ELSE LET r == Q.es.rels[i] IN
             IF r.ce # e \/ r.pe \in ign \/ ~PathOk(Q, Trail(trail, e, <<r>>, FALSE)) THEN Dirs(i + 1, st)
             ELSE Dirs(i + 1, AddTo(st, e, DirectSet(C, Q, st, r, depth)))
      st6 == TLCEval(Dirs(1, st5))
      st7 == AddTo(st6, e, TransSet(C, Q, st6, e, depth, TRUE))
  IN TLCEval([st7 EXCEPT !.W[e] = @ \cup Conditions(C, Q, st7, e)])

Unlimited == 1000
StartDepth(Q) ==
  LET d == IF Q.depth = -1 THEN Unlimited ELSE Q.depth IN
  IF Len(Q.es.ents) = 1 /\ d > 1 THEN 1 ELSE d
Context(Q) == [es |-> Q.es, seeds |-> Q.seednames]
Contains(s, part) == \E i \in 1..(Len(s) - Len(part) + 1) : SubSeq(s, i, i + Len(part) - 1) = part
Returnable(Q, f) == Q.types = <<"all">> \/ \E t \in Rng(Q.types) : IsA(f.t, t)
Kept(Q, f) ==
  /\ Returnable(Q, f)
  /\ ~(f.k = "id" /\ f.v = Ent(Q.es, Q.target).index)
  /\ f.nm \notin Rng(Q.drope)
  /\ ~\E s \in Rng(Q.dropc) : Contains(f.nm, s)
Built(Q) ==
  LET C == Context(Q)
      st == Run(C, Q, Q.target, <<>>, StartDepth(Q), [F |-> <<>>, W |-> [e \in EntIds(Q) |-> {}]])
  IN {f \in Vals(st.F[Q.target]) : Kept(Q, f)}
=============================================================================
