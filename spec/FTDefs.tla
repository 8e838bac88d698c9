------------------------------- MODULE FTDefs -------------------------------
(***************************************************************************)
(* What a feature's definition implies about it, when names tell features  *)
(* apart, and what saving and loading has to preserve.                     *)
(***************************************************************************)
EXTENDS FTFeatures

\* what a feature with definition f has to say about itself
Says(C, f) ==
  [nm |-> f.nm, names |-> OutNames(C, f), t |-> f.t, n |-> f.n, d |-> f.d, e |-> f.e, un |-> f.e \o ": " \o f.nm,
   deps |-> [i \in 1..Len(Inputs(f)) |-> <<Inputs(f)[i].e, Inputs(f)[i].nm>>]]
Under(f) == {<<x.e, x.nm>> : x \in Deep(f) \ {f}}

(* Names with every operand delimited and every scalar quoted.  The        *)
(* library's names are these without the delimiters: arithmetic is written *)
(* without parentheses and strings without quotes (known finding C18-1),   *)
(* so two names may only be equal if these differ.                         *)
ClearTrans(p, q) ==
  LET f == Primitives[p.n].fmt IN
  CASE f[1] = "infix" -> "{" \o q[1] \o "}" \o f[2] \o "{" \o q[2] \o "}"
    [] f[1] = "scalar" -> "{" \o q[1] \o "}" \o f[2] \o "'" \o ParText(p, "value") \o "'"
    [] f[1] = "reversed" -> "'" \o ParText(p, "value") \o "'" \o f[2] \o "{" \o q[1] \o "}"
    [] f[1] = "isin" -> "{" \o q[1] \o "}.isin('" \o ParText(p, "list_of_outputs") \o "')"
    [] OTHER -> TransName(p, [i \in 1..Len(q) |-> "{" \o q[i] \o "}"])
RECURSIVE Clear(_, _)
Clear(C, f) ==
  LET q == [i \in 1..Len(f.b) |-> Clear(C, f.b[i])] IN
  IF f.cn # "" THEN "'" \o f.cn \o "'"
  ELSE CASE f.k = "id" -> "'" \o f.v \o "'"
         [] f.k = "dir" -> UpName(C.es, f.path[1]) \o ".{" \o q[1] \o "}"
         [] f.k = "agg" -> AggName(f.p, PathName(C.es, f.path), [i \in 1..Len(q) |-> "{" \o q[i] \o "}"],
                                   IF f.w = <<>> THEN "" ELSE " WHERE {" \o Clear(C, f.w[1]) \o "}",
                                   IF f.pv = "" THEN "" ELSE ", Last {" \o f.pv \o "}")
         [] f.k = "tra" -> ClearTrans(f.p, q)
         [] f.k = "grp" -> "{" \o ClearTrans(f.p, q) \o "} by {" \o Clear(C, f.g[1]) \o "}"
         [] OTHER -> "{" \o q[1] \o "}[" \o ToString(f.o) \o "]"
\* primitives whose names leave out a parameter that is not the default one
Silent(p) == p.n # "" /\ Primitives[p.n].fmt[1] \in {"infix", "count", "pair", "one", "negate"}
Plainly(f) == [f EXCEPT !.p = IF Silent(f.p) THEN [f.p EXCEPT !.a = <<>>] ELSE f.p]
RECURSIVE Core(_)
Core(f) == LET g == Plainly(f) IN [g EXCEPT !.b = [i \in 1..Len(g.b) |-> Core(g.b[i])], !.w = [i \in 1..Len(g.w) |-> Core(g.w[i])],
                                            !.g = [i \in 1..Len(g.g) |-> Core(g.g[i])]]
Named(f) == \E x \in Deep(f) : x.cn # ""
SameName(C, f, g) ==              \* a pair that the names fail to tell apart
  /\ f.e = g.e /\ f.nm = g.nm /\ Core(f) # Core(g)
  /\ ~Named(f) /\ ~Named(g)
  /\ Clear(C, f) = Clear(C, g)

Renamed(C, f, name) == Complete(C, [f EXCEPT !.cn = IF name = GenName(C, f) THEN "" ELSE name])
=============================================================================
