------------------------------ MODULE FTTables ------------------------------
(***************************************************************************)
(* What happens to a feature matrix after it is calculated: encoding and   *)
(* feature selection.                                                      *)
(*                                                                         *)
(* A table is [m |-> [idx, cols], f |-> definitions]:                      *)
(*   idx   the row labels                                                  *)
(*   cols  sequence of [n |-> name, k |-> "num" | "bool" | "other", v]     *)
(*   f     sequence of [d |-> descriptor, names |-> columns, disc |-> 0/1] *)
(* A descriptor says what a definition is: <<"old", k>> the k-th one of    *)
(* the calculation, <<"slice", k, i>> its i-th output alone, and for a     *)
(* definition e with one column <<"eq", e, label>> and <<"unk", e, labels>>*)
(***************************************************************************)
EXTENDS FTValues, FiniteSets

Rng(s) == {s[i] : i \in 1..Len(s)}
Names(cols) == [i \in 1..Len(cols) |-> cols[i].n]
ColOf(t, n) == (CHOOSE c \in Rng(t.m.cols) : c.n = n)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
FeatureNames(f) == Flat([i \in 1..Len(f) |-> f[i].names])

-----------------------------------------------------------------------------
(* Selection.  A criterion says of a column "keep", "drop" or "any" (the   *)
(* exact arithmetic of this specification cannot tell).                    *)
Missing(c) == Cardinality({r \in 1..Len(c.v) : IsNaN(c.v[r])})
Distinct(c) == {c.v[r] : r \in 1..Len(c.v)} \ {NaN}
KeepNull(c, th) == LET n == Len(c.v) IN
                   IF n = 0 THEN "drop"          \* the share of nothing is undefined and not below the limit
                   ELSE IF th[1] = 0 THEN (IF Missing(c) = 0 THEN "keep" ELSE "drop")
                   ELSE IF Missing(c) * th[2] < th[1] * n THEN "keep" ELSE "drop"
KeepSingle(c, countnan) == IF Cardinality(Distinct(c)) + (IF countnan = 1 /\ Missing(c) > 0 THEN 1 ELSE 0) > 1 THEN "keep" ELSE "drop"
KeepLow(c) == IF Distinct(c) # {} /\ Cardinality(Distinct(c)) + (IF Missing(c) > 0 THEN 1 ELSE 0) > 1 THEN "keep" ELSE "drop"

\* Pearson's correlation over the rows where both are present: "yes", "no" or "any" for |r| >= p/q
Correlated(a, b, th) ==
  LET rows == SelectSeq([r \in 1..Len(a.v) |-> r], LAMBDA r : ~IsNaN(a.v[r]) /\ ~IsNaN(b.v[r]))
      x == [i \in 1..Len(rows) |-> a.v[rows[i]]]
      y == [i \in 1..Len(rows) |-> b.v[rows[i]]]
      n == Len(rows)
      odd == \E i \in 1..n : ~IsNum(x[i]) \/ ~IsNum(y[i])
      P(u, w) == SumSeq([i \in 1..n |-> RMul(u[i], w[i])])
      Cov(u, w) == RSub(RMul(Num(n), P(u, w)), RMul(SumSeq(u), SumSeq(w)))
      xx == Cov(x, x)
      yy == Cov(y, y)
      xy == Cov(x, y)
      whole == \A i \in 1..n : x[i][3] = 1 /\ y[i][3] = 1
      c == Cmp(RMul(RMul(xy, xy), Rat(th[2] * th[2], 1)), RMul(RMul(xx, yy), Rat(th[1] * th[1], 1)))
  IN IF odd THEN "any"
     ELSE IF n < 2 THEN "no"
     ELSE IF IsUnk(xx) \/ IsUnk(yy) \/ IsUnk(xy) THEN "any"
     ELSE IF xx = Num(0) \/ yy = Num(0) THEN (IF whole THEN "no" ELSE "any")
     ELSE IF th[1] = 0 THEN "yes"
     ELSE CASE c = 1 -> "yes" [] c = -1 -> "no" [] OTHER -> "any"
\* a column goes if one further left (among those looked at) tells the same
KeepCorr(t, i, th, check, keep) ==
  LET cols == t.m.cols
      looked(j) == cols[j].k \in {"num", "bool"} /\ cols[j].n \in check
      with == IF looked(i) THEN {Correlated(cols[i], cols[j], th) : j \in {j \in 1..(i - 1) : looked(j)}} ELSE {}
  IN IF cols[i].n \in keep THEN "keep"
     ELSE IF "yes" \in with THEN "drop" ELSE IF "any" \in with THEN "any" ELSE "keep"
Criterion(t, op, a, i) ==
  CASE op = "Null" -> KeepNull(t.m.cols[i], a.th)
    [] op = "Single" -> KeepSingle(t.m.cols[i], a.countnan)
    [] op = "Low" -> KeepLow(t.m.cols[i])
    [] op = "Corr" -> KeepCorr(t, i, a.th, IF a.check = <<>> THEN Rng(Names(t.m.cols)) ELSE Rng(a.check), Rng(a.keep))
\* the definitions that remain when the columns named in ns do
RECURSIVE Remaining(_, _)
Remaining(f, ns) ==
  IF f = <<>> THEN <<>>
  ELSE LET h == Head(f)
           left == SelectSeq([i \in 1..Len(h.names) |-> i], LAMBDA i : h.names[i] \in ns)
       IN (IF Len(left) = Len(h.names) THEN <<h>>
           ELSE [i \in 1..Len(left) |-> [d |-> <<"slice", h.d[2], left[i]>>, names |-> <<h.names[left[i]]>>, disc |-> h.disc]])
          \o Remaining(Tail(f), ns)
\* got is a result of removing op's columns from t
SelectedOk(t, op, a, got, withf) ==
  LET crit == [i \in 1..Len(t.m.cols) |-> Criterion(t, op, a, i)]
      ns == Rng(Names(got.m.cols))
  IN IF got.m.idx # t.m.idx THEN <<"rows", got.m.idx>>
     ELSE IF \E i \in 1..Len(crit) : crit[i] = "keep" /\ t.m.cols[i].n \notin ns
          THEN <<"removed", (CHOOSE i \in 1..Len(crit) : crit[i] = "keep" /\ t.m.cols[i].n \notin ns), Names(t.m.cols)>>
     ELSE IF \E i \in 1..Len(crit) : crit[i] = "drop" /\ t.m.cols[i].n \in ns
          THEN <<"kept", (CHOOSE i \in 1..Len(crit) : crit[i] = "drop" /\ t.m.cols[i].n \in ns), Names(t.m.cols)>>
     ELSE IF got.m.cols # SelectSeq(t.m.cols, LAMBDA c : c.n \in ns) THEN <<"columns", Names(got.m.cols)>>
     ELSE IF withf = 1 /\ got.f # Remaining(t.f, ns) THEN <<"definitions", got.f, Remaining(t.f, ns)>>
     ELSE <<"ok">>

-----------------------------------------------------------------------------
(* Encoding                                                                *)
Encodes(a, f) == Len(f.names) = 1 /\ f.disc = 1 /\ (a.some = 0 \/ f.names[1] \in Rng(a.enc))
TopOf(a, n) == IF \E i \in 1..Len(a.tops) : a.tops[i][1] = n THEN (CHOOSE x \in Rng(a.tops) : x[1] = n)[2] ELSE a.top
Count(c, x) == Cardinality({r \in 1..Len(c.v) : c.v[r] = x})
Wanted(a, c) == LET k == Cardinality(Distinct(c))
                    n == TopOf(a, c.n)
                    m == IF n < k THEN n ELSE k
                IN IF a.dropfirst = 1 THEN (IF m - 1 > 1 THEN m - 1 ELSE IF k > 0 THEN 1 ELSE 0) ELSE m
\* labels is a choice of the most frequent values, most frequent first
LabelsOk(a, c, labels) ==
  /\ Len(labels) = Wanted(a, c)
  /\ Cardinality(Rng(labels)) = Len(labels)
  /\ Rng(labels) \subseteq Distinct(c)
  /\ \A i \in 1..Len(labels) : \A j \in 1..i : Count(c, labels[j]) >= Count(c, labels[i])
  /\ \A x \in Distinct(c) \ Rng(labels) : \A y \in Rng(labels) : Count(c, y) >= Count(c, x)
\* the definitions made from f, told from where they stand in the result (g, from position p)
RECURSIVE LabelsAt(_, _, _)
LabelsAt(g, p, d) == IF p > Len(g) THEN <<>>
                     ELSE IF g[p].d[1] = "eq" /\ g[p].d[2] = d THEN <<g[p].d[3]>> \o LabelsAt(g, p + 1, d) ELSE <<>>
\* columns a definition of the result must have in the matrix
Column(t, d, name) == IF d[1] = "eq" THEN LET c == ColOf(t, name) IN [r \in 1..Len(c.v) |-> BoolV(c.v[r] = d[3])]
                      ELSE LET c == ColOf(t, name) IN [r \in 1..Len(c.v) |-> BoolV(c.v[r] \notin Rng(d[3]))]
RECURSIVE EncodeFrom(_, _, _, _, _)
EncodeFrom(t, a, g, i, p) ==
  IF i > Len(t.f) THEN (IF p = Len(g) + 1 THEN <<"ok">> ELSE <<"too-many", p>>)
  ELSE LET f == t.f[i] IN
    IF p > Len(g) /\ ~(Encodes(a, f) /\ Wanted(a, ColOf(t, f.names[1])) = 0 /\ a.unknown = 0) THEN <<"too-few", i>>
    ELSE IF ~Encodes(a, f) THEN (IF g[p] = f THEN EncodeFrom(t, a, g, i + 1, p + 1) ELSE <<"not-kept", f.d, g[p].d>>)
    ELSE LET c == ColOf(t, f.names[1])
             labels == LabelsAt(g, p, f.d)
             q == p + Len(labels)
         IN IF ~LabelsOk(a, c, labels) THEN <<"labels", labels, c.v, Wanted(a, c)>>
            ELSE IF a.unknown = 0 THEN EncodeFrom(t, a, g, i + 1, q)
            ELSE IF q > Len(g) THEN <<"no-unknown", f.d>>
            ELSE IF g[q].d # <<"unk", f.d, labels>> THEN <<"unknown", g[q].d, labels>>
            ELSE EncodeFrom(t, a, g, i + 1, q + 1)
Base(t, d) == (CHOOSE f \in Rng(t.f) : f.d = d).names[1]
EncodedOk(t, a, got) ==
  LET w == EncodeFrom(t, a, got.f, 1, 1)
      pass == SelectSeq(t.m.cols, LAMBDA c : c.n \notin Rng(FeatureNames(t.f)))
      nf == Len(FeatureNames(got.f))
      owner(j) == CHOOSE x \in {<<i, k>> : i \in 1..Len(got.f), k \in 1..40} :
                    x[2] <= Len(got.f[x[1]].names) /\ Len(FeatureNames(SubSeq(got.f, 1, x[1] - 1))) + x[2] = j
      wrong == {j \in 1..nf : LET o == owner(j)
                                  g == got.f[o[1]]
                              IN IF g \in Rng(t.f) THEN got.m.cols[j] # ColOf(t, g.names[o[2]])
                                 ELSE got.m.cols[j].v # Column(t, g.d, Base(t, g.d[2]))}
  IN IF w # <<"ok">> THEN w
     ELSE IF got.m.idx # t.m.idx THEN <<"rows", got.m.idx>>
     ELSE IF Names(got.m.cols) # FeatureNames(got.f) \o Names(pass) THEN <<"columns", Names(got.m.cols), FeatureNames(got.f)>>
     ELSE IF SubSeq(got.m.cols, nf + 1, Len(got.m.cols)) # pass THEN <<"pass-through">>
     ELSE IF wrong # {} THEN LET j == CHOOSE j \in wrong : TRUE IN <<"indicator", got.m.cols[j]>>
     ELSE <<"ok">>
CanEncode(t) == Rng(FeatureNames(t.f)) \subseteq Rng(Names(t.m.cols))
=============================================================================
