----------------------------- MODULE FTFeatures ----------------------------
(***************************************************************************)
(* Feature definitions: what a feature is, and the name, type, depth,      *)
(* number of outputs and dependencies that follow from its definition.     *)
(*                                                                         *)
(* A feature is a record                                                   *)
(*   k   "id" "dir" "agg" "tra" "grp" "sl" (one output of a feature)       *)
(*   e   its entity          v    the variable (id)                        *)
(*   p   the primitive [n: name, a: <<parameter, value>>.., outs]          *)
(*   b   base features       path relationships, from the feature's entity *)
(*   w   <<condition>> or <<>>   g  <<group>> or <<>>                      *)
(*   pv  the look-back, as printed, or ""                                  *)
(*   o   the output (sl)     cn   its custom name or ""                    *)
(* and, following from these, nm (name), t (type), n (outputs), d (depth). *)
(* C is the context: es (entities [id, index, tix, vars], relationships    *)
(* [pe, pv, ce, cv]) and seeds, the features at which depth is counted 0.  *)
(***************************************************************************)
EXTENDS FTCatalog, FiniteSets

Rng(q) == {q[i] : i \in 1..Len(q)}
NoPrim == [n |-> "", a |-> <<>>, outs |-> 1]

RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)

(* the schema *)
Ent(es, e) == CHOOSE x \in Rng(es.ents) : x.id = e
VarType(es, e, v) == (CHOOSE x \in Rng(Ent(es, e).vars) : x.n = v).t
RECURSIVE NumForward(_, _, _)
NumForward(es, from, to) ==       \* number of forward paths (no cycles)
  IF from = to THEN 1
  ELSE LET R == {i \in 1..Len(es.rels) : es.rels[i].ce = from}
           N[S \in SUBSET R] == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN NumForward(es, es.rels[i].pe, to) + N[S \ {i}]
       IN N[R]
OnlyLink(es, r) == Cardinality({i \in 1..Len(es.rels) : es.rels[i].ce = r.ce /\ es.rels[i].pe = r.pe}) = 1
UpName(es, r) == IF OnlyLink(es, r) THEN r.pe ELSE r.pe \o "[" \o r.cv \o "]"
DownName(es, r) == IF OnlyLink(es, r) THEN r.ce ELSE r.ce \o "[" \o r.cv \o "]"
PathName(es, path) ==
  LET last == path[Len(path)] IN
  IF NumForward(es, last.ce, path[1].pe) = 1 THEN last.ce
  ELSE Join([i \in 1..Len(path) |-> DownName(es, path[i])], ".")

(* names *)
NonDefault(p) ==
  LET D == Primitives[p.n].pars IN SelectSeq(p.a, LAMBDA x : ~\E i \in 1..Len(D) : D[i] = x)
ArgText(p) == LET q == NonDefault(p) IN Join([i \in 1..Len(q) |-> ", " \o q[i][1] \o "=" \o q[i][2]], "")
ParText(p, k) == (CHOOSE x \in Rng(p.a) : x[1] = k)[2]
TransName(p, names) ==
  LET f == Primitives[p.n].fmt IN
  CASE f[1] = "infix" -> names[1] \o " " \o f[2] \o " " \o names[2]
    [] f[1] = "scalar" -> names[1] \o " " \o f[2] \o " " \o ParText(p, "value")
    [] f[1] = "reversed" -> ParText(p, "value") \o " " \o f[2] \o " " \o names[1]
    [] f[1] = "isin" -> names[1] \o ".isin(" \o ParText(p, "list_of_outputs") \o ")"
    [] f[1] = "negate" -> "-(" \o names[1] \o ")"
    [] f[1] = "pair" -> f[2] \o "(" \o names[1] \o ", " \o names[2] \o ")"
    [] f[1] = "one" -> f[2] \o "(" \o names[1] \o ")"
    [] OTHER -> f[2] \o "(" \o Join(names, ", ") \o ArgText(p) \o ")"
AggName(p, pathname, names, cond, prev) ==
  LET f == Primitives[p.n].fmt IN
  IF f[1] = "count" THEN "COUNT(" \o pathname \o cond \o prev \o ")"
  ELSE f[2] \o "(" \o pathname \o "." \o Join(names, ", ") \o cond \o prev \o ArgText(p) \o ")"
BaseNames(f) == [i \in 1..Len(f.b) |-> f.b[i].nm]
Indexed(name, i) == name \o "[" \o ToString(i - 1) \o "]"
\* the name that follows from the definition (without a custom name)
RECURSIVE GenName(_, _), OutNames(_, _), GenNames(_, _)
GenName(C, f) ==
  CASE f.k = "id" -> f.v
    [] f.k = "dir" -> UpName(C.es, f.path[1]) \o "." \o f.b[1].nm
    [] f.k = "agg" -> AggName(f.p, PathName(C.es, f.path), BaseNames(f),
                              IF f.w = <<>> THEN "" ELSE " WHERE " \o f.w[1].nm,
                              IF f.pv = "" THEN "" ELSE ", Last " \o f.pv)
    [] f.k = "tra" -> TransName(f.p, BaseNames(f))
    [] f.k = "grp" -> TransName(f.p, BaseNames(f)) \o " by " \o f.g[1].nm
    [] OTHER -> OutNames(C, f.b[1])[f.o]
GenNames(C, f) ==                  \* names of the outputs of f, when several
  CASE f.k = "dir" -> LET q == OutNames(C, f.b[1]) IN [i \in 1..f.n |-> UpName(C.es, f.path[1]) \o "." \o q[i]]
    [] f.k = "grp" -> [i \in 1..f.n |-> Indexed(TransName(f.p, BaseNames(f)), i) \o " by " \o f.g[1].nm]
    [] OTHER -> [i \in 1..f.n |-> Indexed(GenName(C, f), i)]
OutNames(C, f) ==
  IF f.n = 1 THEN <<f.nm>>
  ELSE IF f.nm # GenName(C, f) THEN [i \in 1..f.n |-> Indexed(f.nm, i)]
  ELSE GenNames(C, f)

(* types *)
Plain(t, direct) ==
  IF t = "DatetimeTimeIndex" THEN "Datetime"
  ELSE IF t = "NumericTimeIndex" THEN "Numeric"
  ELSE IF t = "Index" THEN "Categorical"
  ELSE IF t = "Id" /\ ~direct THEN "Categorical"
  ELSE t
TypeOf(C, f) ==
  IF f.k = "id" THEN VarType(C.es, f.e, f.v)
  ELSE IF f.k = "dir" THEN f.b[1].t
  ELSE LET own == IF f.p.n = "" THEN "" ELSE Primitives[f.p.n].ret IN
       IF own # "" THEN own ELSE Plain(f.b[1].t, FALSE)
\* the features a feature is computed from, in order
Inputs(f) == f.b \o f.g \o f.w
IsSeed(C, f) == <<f.e, f.nm>> \in C.seeds
Max0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
DepthOf(C, f) ==
  IF f.k = "id" THEN 0
  ELSE IF IsSeed(C, f) THEN 0
  ELSE 1 + Max0({x.d : x \in {y \in Rng(Inputs(f)) : ~IsSeed(C, y)}})
OutputsOf(f) == IF f.k = "dir" THEN f.b[1].n ELSE IF f.k \in {"id", "sl"} THEN 1 ELSE NumOutputs(f.p)

Complete(C, f0) ==
  LET f1 == [f0 EXCEPT !.n = OutputsOf(f0)]
      f2 == [f1 EXCEPT !.nm = IF f1.cn = "" THEN GenName(C, f1) ELSE f1.cn]
      f3 == [f2 EXCEPT !.t = TypeOf(C, f2)]
  IN TLCEval([f3 EXCEPT !.d = DepthOf(C, f3)])
Blank == [k |-> "", e |-> "", v |-> "", p |-> NoPrim, b |-> <<>>, path |-> <<>>, w |-> <<>>, g |-> <<>>,
          pv |-> "", o |-> 0, cn |-> "", nm |-> "", t |-> "", n |-> 1, d |-> 0]
Identity(C, e, v) == Complete(C, [Blank EXCEPT !.k = "id", !.e = e, !.v = v])
Direct(C, r, f) == Complete(C, [Blank EXCEPT !.k = "dir", !.e = r.ce, !.b = <<f>>, !.path = <<r>>])
Aggregation(C, p, bases, path, cond) ==
  Complete(C, [Blank EXCEPT !.k = "agg", !.e = path[1].pe, !.p = p, !.b = bases, !.path = path, !.w = cond])
Transform(C, p, bases) == Complete(C, [Blank EXCEPT !.k = "tra", !.e = bases[1].e, !.p = p, !.b = bases])
GroupBy(C, p, bases, by) == Complete(C, [Blank EXCEPT !.k = "grp", !.e = bases[1].e, !.p = p, !.b = bases, !.g = <<by>>])
Slice(C, f, i) == Complete(C, [Blank EXCEPT !.k = "sl", !.e = f.e, !.b = <<f>>, !.o = i, !.p = f.p, !.path = f.path])

\* every feature f is computed from, and f
RECURSIVE Deep(_)
Deep(f) == {f} \cup UNION {Deep(x) : x \in Rng(Inputs(f))}

\* A recorded list of nodes, each after those it refers to by number,
\* becomes a list of features.
RECURSIVE FromNodes(_, _, _)
FromNodes(C, nodes, fs) ==
  IF Len(fs) = Len(nodes) THEN fs
  ELSE LET x == nodes[Len(fs) + 1]
           at(q) == [i \in 1..Len(q) |-> fs[q[i]]]
           f == [Blank EXCEPT !.k = x.k, !.e = x.e, !.v = x.v, !.p = x.p, !.b = at(x.b), !.w = at(x.w), !.g = at(x.g),
                              !.path = [i \in 1..Len(x.path) |-> C.es.rels[x.path[i]]], !.pv = x.pv, !.o = x.o, !.cn = x.cn]
           f2 == IF x.k = "sl" THEN [f EXCEPT !.p = fs[x.b[1]].p, !.path = fs[x.b[1]].path] ELSE f
       IN FromNodes(C, nodes, Append(fs, Complete(C, f2)))
Features(C, nodes) == TLCEval(FromNodes(C, nodes, <<>>))
=============================================================================
