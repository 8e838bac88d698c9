------------------------------- MODULE FTEval -------------------------------
(***************************************************************************)
(* What a feature means.                                                   *)
(*                                                                         *)
(* A scenario S has                                                        *)
(*   S.ents[e]  = [n, cols, tix, sec, lti]     n rows in entity order;     *)
(*                cols[c][r] value of column c in row r; cols[1] is the    *)
(*                index; tix the time index column (0: none); sec the      *)
(*                second time columns, each [t |-> column, cs |-> columns  *)
(*                that become known then]; lti the last times (or <<>>)    *)
(*   S.rels[k]  = [p, pc, c, cc]   column cc of entity c refers to column  *)
(*                pc (the index) of entity p                               *)
(*   S.nodes[i] = [k, e, p, q, b, path, w, u, g, c]   feature definitions, *)
(*                each using only earlier ones: k its kind ("id", "dir",   *)
(*                "agg", "tra", "grp"), e its entity, p the primitive and  *)
(*                q its parameters, b the bases <<node, output>>, path the *)
(*                relationships, w the condition, u the look-back, g the   *)
(*                group-by, c the column                                   *)
(* and features are evaluated in a context                                 *)
(*   ctx = [T, incl, win]   cutoff, whether rows at the cutoff count, and  *)
(*                training window in seconds (-1: none)                    *)
(***************************************************************************)
EXTENDS FTPrimitives

-----------------------------------------------------------------------------
(* Visibility                                                              *)
AtOrBefore(t, ctx) ==
  /\ ~IsNaN(t)
  /\ IF ctx.incl THEN Leq(t, ctx.T) ELSE Less(t, ctx.T)
\* the window is (T - w, ..] when the cutoff is included, [T - w, ..) otherwise
InWindow(t, ctx) ==
  /\ ~IsNaN(t)
  /\ LET lo == Time(ctx.T[2] - ctx.win)
     IN IF ctx.incl THEN Less(lo, t) ELSE Leq(lo, t)

Visible(S, e, r, ctx) ==
  LET E == S.ents[e] IN
  IF E.tix = 0 THEN TRUE
  ELSE /\ AtOrBefore(E.cols[E.tix][r], ctx)
       /\ \/ ctx.win < 0
          \/ InWindow(E.cols[E.tix][r], ctx)
          \/ E.lti # <<>> /\ InWindow(E.lti[r], ctx)

\* a column that becomes known at a second time is missing until that time has passed
Hidden(S, e, c, r, ctx) ==
  LET E == S.ents[e] IN
  \E i \in 1..Len(E.sec) :
    /\ \E j \in 1..Len(E.sec[i].cs) : E.sec[i].cs[j] = c
    /\ ~IsNaN(E.cols[E.sec[i].t][r])
    /\ Leq(ctx.T, E.cols[E.sec[i].t][r])
ColumnValue(S, e, c, r, ctx) ==
  IF Hidden(S, e, c, r, ctx) THEN NaN ELSE S.ents[e].cols[c][r]

-----------------------------------------------------------------------------
(* Relationships                                                           *)
RowWithId(E, v) == IF \E r \in 1..E.n : E.cols[1][r] = v
                   THEN CHOOSE r \in 1..E.n : E.cols[1][r] = v ELSE 0
ParentRow(S, k, r) ==
  LET R == S.rels[k]
      v == S.ents[R.c].cols[R.cc][r]
  IN IF IsNaN(v) THEN 0 ELSE RowWithId(S.ents[R.p], v)
LinksOf(S) == [k \in 1..Len(S.rels) |-> [r \in 1..S.ents[S.rels[k].c].n |-> ParentRow(S, k, r)]]

RECURSIVE Climb(_, _, _, _, _)
\* the row reached from row r of the last entity of a path by climbing its
\* relationships from position i up to 1; 0 if a link is missing or an
\* intermediate row is not visible
Climb(path, links, vis, rels, ir) ==
  LET i == ir[1]
      up == links[path[i]][ir[2]]
  IN IF up = 0 THEN 0
     ELSE IF i = 1 THEN up
     ELSE IF ~vis[rels[path[i]].p][up] THEN 0
     ELSE Climb(path, links, vis, rels, <<i - 1, up>>)

-----------------------------------------------------------------------------
(* Evaluation of one node, given the values of the earlier ones.           *)
(* vals[i][o][r]: output o of node i for row r of its entity.              *)
Iota(n) == [i \in 1..n |-> i]
RECURSIVE DefaultAt(_, _)
DefaultAt(S, i) ==
  LET N == S.nodes[i] IN
  CASE N.k = "agg" -> DefaultOf(N.p)
    [] N.k = "dir" -> DefaultAt(S, N.b[1][1])
    [] OTHER -> NaN
NOut(S, i) == S.nodes[i].o

LastK(s, k) == IF Len(s) <= k THEN s ELSE SubSeq(s, Len(s) - k + 1, Len(s))

EvalId(S, N, ctx) == <<[r \in 1..S.ents[N.e].n |-> ColumnValue(S, N.e, N.c, r, ctx)]>>

EvalDirect(S, i, vals, vis, links) ==
  LET N == S.nodes[i]
      k == N.path[1]
      pe == S.rels[k].p
      d == DefaultAt(S, i)
      base == vals[N.b[1][1]]
      outs == IF N.b[1][2] = 0 THEN Iota(NOut(S, i)) ELSE <<N.b[1][2]>>
  IN [o \in 1..Len(outs) |->
       [r \in 1..S.ents[N.e].n |->
          LET pr == links[k][r] IN
          IF pr = 0 THEN d
          ELSE IF ~vis[pe][pr] THEN d
          ELSE LET v == base[outs[o]][pr] IN IF IsNaN(v) THEN d ELSE v]]

\* most common values by rank; a rank shared by several values is not determined
NMC(s, n) ==
  LET t == NotNull(s)
      vs == Range(t)
      Above(v) == Cardinality({w \in vs : CountOf(t, w) > CountOf(t, v)})
      Equal(v) == Cardinality({w \in vs : CountOf(t, w) = CountOf(t, v)})
  IN [j \in 1..n |->
        IF HasUnk(s) THEN Unk
        ELSE IF j > Cardinality(vs) THEN NaN
        ELSE IF \E v \in vs : Above(v) = j - 1 /\ Equal(v) = 1
             THEN CHOOSE v \in vs : Above(v) = j - 1 /\ Equal(v) = 1
             ELSE Unk]

\* the rows of the child entity an aggregation uses for row r of its entity
AggRows(S, N, r, vals, vis, up, ctx) ==
  LET ce == S.rels[N.path[Len(N.path)]].c
      E == S.ents[ce]
      mine == SelectSeq(Iota(E.n), LAMBDA c :
                /\ up[c] = r
                /\ vis[ce][c]
                /\ (N.w = <<>> \/ vals[N.w[1]][N.w[2]][c] \in {TrueV, Unk}))
  IN CASE N.u.t = "none" -> mine
       [] N.u.t = "time" ->
            IF E.tix = 0 THEN mine
            ELSE SelectSeq(mine, LAMBDA c : Leq(Time(ctx.T[2] - N.u.n), E.cols[E.tix][c]))
       [] N.u.t = "rows" -> LastK(mine, N.u.n)

EvalAgg(S, i, vals, vis, links, ctx) ==
  LET N == S.nodes[i]
      last == Len(N.path)
      ce == S.rels[N.path[last]].c
      up == TLCEval([c \in 1..S.ents[ce].n |->
               IF vis[ce][c] THEN Climb(N.path, links, vis, S.rels, <<last, c>>) ELSE 0])
      d == DefaultOf(N.p)
      no == NOut(S, i)
      per == TLCEval([r \in 1..S.ents[N.e].n |->
         LET rows == AggRows(S, N, r, vals, vis, up, ctx)
             uncertain == N.w # <<>> /\ \E c \in 1..S.ents[ce].n :
                             up[c] = r /\ vis[ce][c] /\ vals[N.w[1]][N.w[2]][c] = Unk
             cols == [j \in 1..Len(N.b) |->
                        [x \in 1..Len(rows) |-> vals[N.b[j][1]][N.b[j][2]][rows[x]]]]
         IN IF uncertain THEN [o \in 1..no |-> Unk]
            ELSE IF rows = <<>> THEN [o \in 1..no |-> d]
            ELSE LET out == IF N.p = "N_MOST_COMMON" THEN NMC(cols[1], N.q.n)
                            ELSE AggFn(N.p, N.q, cols, ctx.T)
                 IN [o \in 1..no |-> IF IsNaN(out[o]) THEN d ELSE out[o]]])
  IN [o \in 1..no |-> [r \in 1..S.ents[N.e].n |-> per[r][o]]]

\* values at positions of a subset of rows, missing elsewhere
Scatter(rows, vs, n) ==
  [r \in 1..n |-> IF \E x \in 1..Len(rows) : rows[x] = r
                  THEN vs[CHOOSE x \in 1..Len(rows) : rows[x] = r] ELSE NaN]

EvalTransform(S, i, vals, vis, ctx) ==
  LET N == S.nodes[i]
      n == S.ents[N.e].n
      arg(j, r) == vals[N.b[j][1]][N.b[j][2]][r]
  IN IF N.p \in WholeColumn
     THEN LET rows == SelectSeq(Iota(n), LAMBDA r : vis[N.e][r])
              cols == [j \in 1..Len(N.b) |-> [x \in 1..Len(rows) |-> arg(j, rows[x])]]
          IN <<IF rows = <<>> THEN [r \in 1..n |-> NaN]
               ELSE Scatter(rows, TLCEval(ColFn(N.p, N.q, cols, ctx.T)), n)>>
     ELSE <<[r \in 1..n |->
               IF vis[N.e][r] THEN RowFn(N.p, N.q, [j \in 1..Len(N.b) |-> arg(j, r)], ctx.T) ELSE NaN]>>

EvalGroupBy(S, i, vals, vis, ctx) ==
  LET N == S.nodes[i]
      n == S.ents[N.e].n
      key(r) == vals[N.g[1]][N.g[2]][r]
      arg(j, r) == vals[N.b[j][1]][N.b[j][2]][r]
      rows == SelectSeq(Iota(n), LAMBDA r : vis[N.e][r] /\ ~IsNaN(key(r)))
      unk == \E x \in 1..Len(rows) : IsUnk(key(rows[x]))
      Group(k) == SelectSeq(rows, LAMBDA r : key(r) = k)
      Val(k) == LET g == Group(k)
                    cols == [j \in 1..Len(N.b) |-> [x \in 1..Len(g) |-> arg(j, g[x])]]
                IN IF N.p \in WholeColumn THEN ColFn(N.p, N.q, cols, ctx.T)
                   ELSE [x \in 1..Len(g) |-> RowFn(N.p, N.q, [j \in 1..Len(N.b) |-> cols[j][x]], ctx.T)]
      byKey == TLCEval([k \in {key(rows[x]) : x \in 1..Len(rows)} |-> TLCEval(Val(k))])
  IN IF unk THEN <<[r \in 1..n |-> Unk]>>
     ELSE <<[r \in 1..n |->
        IF ~vis[N.e][r] \/ IsNaN(key(r)) THEN NaN
        ELSE LET g == Group(key(r))
             IN byKey[key(r)][CHOOSE x \in 1..Len(g) : g[x] = r]]>>

EvalNode(S, i, vals, vis, links, ctx) ==
  LET k == S.nodes[i].k IN
  CASE k = "id" -> EvalId(S, S.nodes[i], ctx)
    [] k = "dir" -> EvalDirect(S, i, vals, vis, links)
    [] k = "agg" -> EvalAgg(S, i, vals, vis, links, ctx)
    [] k = "tra" -> EvalTransform(S, i, vals, vis, ctx)
    [] k = "grp" -> EvalGroupBy(S, i, vals, vis, ctx)

RECURSIVE EvalFrom(_, _, _, _, _, _, _)
EvalFrom(S, i, vals, vis, links, ctx, over) ==
  IF i > Len(S.nodes) THEN vals
  ELSE EvalFrom(S, i + 1,
         Append(vals, TLCEval(IF over[i] # <<>> THEN over[i]
                              ELSE EvalNode(S, i, vals, vis, links, ctx))),
         vis, links, ctx, over)

VisOf(S, ctx) == TLCEval([e \in 1..Len(S.ents) |-> [r \in 1..S.ents[e].n |-> Visible(S, e, r, ctx)]])
NoOver(S) == [i \in 1..Len(S.nodes) |-> <<>>]
\* values of every node for every row in a context
EvalAll(S, links, ctx, over) == EvalFrom(S, 1, <<>>, VisOf(S, ctx), links, ctx, over)

-----------------------------------------------------------------------------
(* The feature matrix: one row per request [id, t].                        *)
DefaultRow(S, want) ==
  [j \in 1..Len(want) |-> DefaultAt(S, want[j][1])]
InstanceRow(S, tgt, want, id, vals, ctx) ==
  LET r == RowWithId(S.ents[tgt], id)
  IN IF r = 0 THEN DefaultRow(S, want)
     ELSE IF ~Visible(S, tgt, r, ctx) THEN DefaultRow(S, want)
     ELSE [j \in 1..Len(want) |-> vals[want[j][1]][want[j][2]][r]]

\* exact calculation; opts = [incl, win]
Matrix(S, tgt, want, reqs, opts) ==
  LET links == TLCEval(LinksOf(S))
      ts == {reqs[x].t : x \in 1..Len(reqs)}
      ctxAt(t) == [T |-> t, incl |-> opts.incl, win |-> opts.win]
      at == TLCEval([t \in ts |-> EvalAll(S, links, ctxAt(t), NoOver(S))])
  IN [x \in 1..Len(reqs) |->
        InstanceRow(S, tgt, want, reqs[x].id, at[reqs[x].t], ctxAt(reqs[x].t))]

-----------------------------------------------------------------------------
(* Approximation.  An approximable request is a direct feature (possibly   *)
(* through several parents) of an aggregation; that aggregation is taken   *)
(* at the cutoff rounded down to a multiple of the window, as if it had    *)
(* been requested for the parent instance at that time.                    *)
RECURSIVE ChainBase(_, _)
\* (one output taken from a feature of several is not approximated)
ChainBase(S, i) ==
  IF S.nodes[i].k = "dir" /\ (S.nodes[i].b[1][2] = 0 \/ S.nodes[S.nodes[i].b[1][1]].o = 1)
  THEN ChainBase(S, S.nodes[i].b[1][1]) ELSE i
RECURSIVE Uses(_, _)
\* all nodes a node depends on, itself included
Uses(S, i) ==
  LET N == S.nodes[i]
      direct == {N.b[j][1] : j \in 1..Len(N.b)}
                \cup (IF N.w = <<>> THEN {} ELSE {N.w[1]})
                \cup (IF N.g = <<>> THEN {} ELSE {N.g[1]})
  IN {i} \cup UNION {Uses(S, j) : j \in direct}
\* a request is not approximated if a requested whole-entity feature reads it
FullEntityAbove(S, want, i) ==
  \E x \in 1..Len(want) : \E j \in Uses(S, want[x][1]) :
     /\ S.nodes[j].p \in WholeColumn
     /\ i \in Uses(S, j)
Approximable(S, want) ==
  {ChainBase(S, want[x][1]) : x \in {y \in 1..Len(want) :
      /\ S.nodes[want[y][1]].k = "dir"
      /\ S.nodes[ChainBase(S, want[y][1])].k = "agg"
      /\ ~FullEntityAbove(S, want, ChainBase(S, want[y][1]))}}

\* multiples are counted from 1970 for instants
BinDown(t, w) ==
  IF IsTime(t) THEN LET off == (EPOCHDAY * 86400) % w
                        pos == t[2] % w
                    IN Time(t[2] - ((pos + off) % w))
  ELSE Num((t[2] \div w) * w)

ApproxMatrix(S, tgt, want, reqs, opts) ==
  LET links == TLCEval(LinksOf(S))
      ap == Approximable(S, want)
      ts == {reqs[x].t : x \in 1..Len(reqs)}
      bs == {BinDown(t, opts.appr) : t \in ts}
      ctxAt(t) == [T |-> t, incl |-> opts.incl, win |-> opts.win]
      exact == TLCEval([b \in bs |-> EvalAll(S, links, ctxAt(b), NoOver(S))])
      over(b) == [i \in 1..Len(S.nodes) |->
                    IF i \notin ap THEN <<>>
                    ELSE [o \in 1..NOut(S, i) |->
                           [r \in 1..S.ents[S.nodes[i].e].n |->
                             IF Visible(S, S.nodes[i].e, r, ctxAt(b)) THEN exact[b][i][o][r]
                             ELSE DefaultAt(S, i)]]]
      at == TLCEval([t \in ts |-> EvalAll(S, links, ctxAt(t), over(BinDown(t, opts.appr)))])
  IN [x \in 1..Len(reqs) |->
        InstanceRow(S, tgt, want, reqs[x].id, at[reqs[x].t], ctxAt(reqs[x].t))]

\* Deviation of the implementation (known finding C08-1): when, apart from the
\* approximated aggregations, no aggregation remains, everything else is
\* evaluated as if now, without a training window.
NoAggLeft(S, want) ==
  LET ap == Approximable(S, want) IN
  \A x \in 1..Len(want) :
    /\ S.nodes[want[x][1]].k # "agg"
    /\ LET RECURSIVE Clean(_)
           Clean(i) == \/ i \in ap
                       \/ /\ S.nodes[i].k # "agg"
                          /\ \A j \in 1..Len(S.nodes[i].b) : Clean(S.nodes[i].b[j][1])
                          /\ (S.nodes[i].g = <<>> \/ Clean(S.nodes[i].g[1]))
       IN Clean(want[x][1])

DeviantMatrix(S, tgt, want, reqs, opts) ==
  LET links == TLCEval(LinksOf(S))
      ap == Approximable(S, want)
      ts == {reqs[x].t : x \in 1..Len(reqs)}
      bs == {BinDown(t, opts.appr) : t \in ts}
      ctxAt(t) == [T |-> t, incl |-> opts.incl, win |-> opts.win]
      exact == TLCEval([b \in bs |-> EvalAll(S, links, ctxAt(b), NoOver(S))])
      over(b) == [i \in 1..Len(S.nodes) |->
                    IF i \notin ap THEN <<>>
                    ELSE [o \in 1..NOut(S, i) |->
                           [r \in 1..S.ents[S.nodes[i].e].n |->
                             IF Visible(S, S.nodes[i].e, r, ctxAt(b)) THEN exact[b][i][o][r]
                             ELSE DefaultAt(S, i)]]]
      now == [T |-> <<CHOOSE k \in {t[1] : t \in ts} : TRUE, LIMIT, 1>>, incl |-> opts.incl, win |-> -1]
      at == TLCEval([b \in bs |-> EvalAll(S, links, now, over(b))])
  IN [x \in 1..Len(reqs) |-> InstanceRow(S, tgt, want, reqs[x].id, at[BinDown(reqs[x].t, opts.appr)], now)]
=============================================================================
