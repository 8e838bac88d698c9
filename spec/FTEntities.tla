----------------------------- MODULE FTEntities -----------------------------
(***************************************************************************)
(* Entity sets as a state, and the public operations on them.              *)
(*                                                                         *)
(* An entity set is a record [ents, rels, tt]: a sequence of entities, a   *)
(* sequence of relationships [pe, pv, ce, cv] by name, and the kind of its *)
(* times ("", "num", "time").  An entity is a record                       *)
(*   id     its name                                                       *)
(*   cols   sequence of [n: name, t: variable type, k: kind of the data,   *)
(*          v: values in row order, iv: interesting values]                *)
(*   index  name of the index column      tix  name of the time index, ""  *)
(*   sec    sequence of [t: second time column, cs: set of columns]        *)
(*   lti    [has: 0 or 1, m: set of <<id, time>>], the last times          *)
(* Kinds: "int" "float" "bool" "time" "obj" "cat".                         *)
(*                                                                         *)
(* Every operation is a pair: Can<Op>, when it must be accepted, and       *)
(* Do<Op>, the set it then results in.  A rejected operation changes       *)
(* nothing.                                                                *)
(***************************************************************************)
EXTENDS FTValues, FiniteSets

Rng(s) == {s[i] : i \in 1..Len(s)}
Names(cols) == [i \in 1..Len(cols) |-> cols[i].n]
Distinct(s) == \A i, j \in 1..Len(s) : i < j => s[i] # s[j]
IndexIn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Concat2(s, t) == s \o t
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))

HasCol(e, n) == n \in Rng(Names(e.cols))
Col(e, n) == e.cols[IndexIn(Names(e.cols), n)]
NRows(e) == Len(e.cols[1].v)
Ids(e) == Col(e, e.index).v

EntNames(es) == [i \in 1..Len(es.ents) |-> es.ents[i].id]
HasEnt(es, id) == id \in Rng(EntNames(es))
EntIx(es, id) == IndexIn(EntNames(es), id)
Ent(es, id) == es.ents[EntIx(es, id)]
PutEnt(es, e) == [es EXCEPT !.ents[EntIx(es, e.id)] = e]

NoLti == [has |-> 0, m |-> {}]

(* ---- variable types ---- *)
TimeIndexTypes == {"datetime_time_index", "numeric_time_index"}
DiscreteTypes == {"discrete", "categorical", "id", "ordinal", "zip_code", "country_code", "sub_region_code"}
TimeKind(k) == IF k = "time" THEN "time" ELSE IF k \in {"int", "float"} THEN "num" ELSE ""
TixType(tk) == IF tk = "time" THEN "datetime_time_index" ELSE "numeric_time_index"
\* the type of a column whose type is not given
InferType(c) == CASE c.k = "bool" -> "boolean"
                  [] c.k = "time" -> "datetime"
                  [] c.k \in {"int", "float"} -> "numeric"
                  [] OTHER -> "categorical"
Retype(c, t) == IF c.t = t THEN [c EXCEPT !.iv = <<>>] ELSE [c EXCEPT !.t = t, !.iv = <<>>]

(* ---- rows ---- *)
\* order of values in a sorted column: missing values last
Before(x, y) == IF IsNaN(x) THEN FALSE ELSE IF IsNaN(y) THEN TRUE ELSE Less(x, y)
RowBefore(e, tix, a, b) ==
  LET i == Ids(e) IN
  IF tix = "" THEN Before(i[a], i[b])
  ELSE LET t == Col(e, tix).v IN
       \/ Before(t[a], t[b])
       \/ (~Before(t[b], t[a]) /\ Before(i[a], i[b]))
RECURSIVE InsRow(_, _, _, _)
InsRow(e, tix, s, r) ==
  IF s = <<>> THEN <<r>>
  ELSE IF RowBefore(e, tix, r, s[Len(s)]) THEN Append(InsRow(e, tix, SubSeq(s, 1, Len(s) - 1), r), s[Len(s)])
  ELSE Append(s, r)
RECURSIVE OrderFrom(_, _, _)
OrderFrom(e, tix, k) == IF k = 0 THEN <<>> ELSE InsRow(e, tix, OrderFrom(e, tix, k - 1), k)
Take(e, rows) == [e EXCEPT !.cols = [i \in 1..Len(e.cols) |-> [e.cols[i] EXCEPT !.v = [x \in 1..Len(rows) |-> e.cols[i].v[rows[x]]]]]]
SortedBy(e, tix) == Take(e, TLCEval(OrderFrom(e, tix, NRows(e))))

(* ---- relationships ---- *)
RelTo(r) == r.pe
Parents(es, id) == {es.rels[i].pe : i \in {j \in 1..Len(es.rels) : es.rels[j].ce = id}}
Children(es, id) == {es.rels[i].ce : i \in {j \in 1..Len(es.rels) : es.rels[j].pe = id}}
RECURSIVE UpFrom(_, _)
UpFrom(es, ids) == LET more == ids \cup UNION {Parents(es, x) : x \in ids} IN IF more = ids THEN ids ELSE UpFrom(es, more)
RECURSIVE DownFrom(_, _)
DownFrom(es, ids) == LET more == ids \cup UNION {Children(es, x) : x \in ids} IN IF more = ids THEN ids ELSE DownFrom(es, more)

(* ---- last times: the latest time of a row or of any of its descendants ---- *)
LaterOf(x, y) == IF IsNaN(x) THEN y ELSE IF IsNaN(y) THEN x ELSE IF Less(x, y) THEN y ELSE x
RECURSIVE Latest(_, _)
Latest(s, k) == IF k = 0 THEN NaN ELSE LaterOf(TLCEval(Latest(s, k - 1)), s[k])
\* the least solution: from the rows' own times, children raise their parents until nothing changes
OwnTimes(es) == [id \in Rng(EntNames(es)) |->
                   LET e == Ent(es, id) IN IF e.tix = "" THEN [r \in 1..NRows(e) |-> NaN] ELSE Col(e, e.tix).v]
Raise(es, last) ==
  [id \in Rng(EntNames(es)) |->
     LET ids == Ids(Ent(es, id))
         kids == TLCEval(Flatten([i \in 1..Len(es.rels) |->
                   IF es.rels[i].pe # id THEN <<>>
                   ELSE LET link == Col(Ent(es, es.rels[i].ce), es.rels[i].cv).v
                        IN [j \in 1..Len(link) |-> <<link[j], last[es.rels[i].ce][j]>>]]))
     IN TLCEval([r \in 1..Len(ids) |->
          LET hit == TLCEval(SelectSeq(kids, LAMBDA p : p[1] = ids[r]))
          IN LaterOf(last[id][r], Latest(TLCEval([x \in 1..Len(hit) |-> hit[x][2]]), Len(hit)))])]
RECURSIVE Settle(_, _)
Settle(es, last) == LET more == TLCEval(Raise(es, last)) IN IF more = last THEN last ELSE Settle(es, more)
LastTimes(es) == Settle(es, TLCEval(OwnTimes(es)))
WithLti(es, ids) ==
  LET last == LastTimes(es)
      lti(e) == [has |-> 1, m |-> {<<Ids(e)[r], last[e.id][r]>> : r \in 1..NRows(e)}]
  IN [es EXCEPT !.ents = [i \in 1..Len(es.ents) |->
        IF es.ents[i].id \in ids THEN [es.ents[i] EXCEPT !.lti = lti(es.ents[i])] ELSE es.ents[i]]]

CanLastTimes(es, ids) == ids \subseteq Rng(EntNames(es))
DoLastTimes(es, ids) == WithLti(es, IF ids = {} THEN Rng(EntNames(es)) ELSE DownFrom(es, UpFrom(es, ids)))

(* ---- adding an entity ----  a: [id, cols, index, make, tix, sec, sorted]  *)
\* an index that no column holds is made, asked for or not
Made(a) == IF a.index \in Rng(Names(a.cols)) \/ a.cols = <<>> THEN a.cols
           ELSE <<[n |-> a.index, t |-> "", k |-> "int", v |-> [r \in 1..Len(a.cols[1].v) |-> Num(r - 1)], iv |-> <<>>]>> \o a.cols
SecOk(es, cols, tt, sec) ==
  \A i \in 1..Len(sec) : /\ sec[i].t \in Rng(Names(cols))
                         /\ LET k == TimeKind(cols[IndexIn(Names(cols), sec[i].t)].k) IN k # "" /\ k = tt
NewTt(es, cols, tix) == IF tix = "" THEN es.tt
                        ELSE IF es.tt # "" THEN es.tt ELSE TimeKind(cols[IndexIn(Names(cols), tix)].k)
CanAdd(es, a) ==
  LET cols == Made(a)
      ns == Names(cols)
      tk == TimeKind(cols[IndexIn(ns, a.tix)].k)
  IN /\ ~(a.make = 1 /\ a.index \in Rng(Names(a.cols)))
     /\ Distinct(Names(a.cols))
     /\ a.index \in Rng(ns)
     /\ a.tix # a.index
     /\ a.tix = "" => \A i \in 1..Len(cols) : cols[i].t # "datetime_time_index"
     /\ Distinct(cols[IndexIn(ns, a.index)].v)
     /\ a.tix # "" => /\ a.tix \in Rng(ns)
                      /\ tk # ""
                      /\ es.tt \in {"", tk}
     /\ SecOk(es, cols, NewTt(es, cols, a.tix), a.sec)
\* the index first, then the columns without a given type, then those with one
FrameOrder(cols, index) ==
  LET ix == cols[IndexIn(Names(cols), index)]
      rest == SelectSeq(cols, LAMBDA c : c.n # index)
  IN <<ix>> \o SelectSeq(rest, LAMBDA c : c.t = "") \o SelectSeq(rest, LAMBDA c : c.t # "")
MadeEntity(es, a) ==
  LET cols == FrameOrder(Made(a), a.index)
      typed == [i \in 1..Len(cols) |->
                  LET c == [n |-> cols[i].n, k |-> cols[i].k, v |-> cols[i].v, iv |-> <<>>,
                            t |-> IF cols[i].t = "" THEN InferType(cols[i]) ELSE cols[i].t]
                  IN IF c.n = a.index THEN [c EXCEPT !.t = "index"]
                     ELSE IF c.n = a.tix THEN [c EXCEPT !.t = TixType(TimeKind(c.k))] ELSE c]
      e == [id |-> a.id, cols |-> typed, index |-> a.index, tix |-> a.tix,
            sec |-> [i \in 1..Len(a.sec) |-> [t |-> a.sec[i].t, cs |-> Rng(a.sec[i].cs) \cup {a.sec[i].t}]],
            lti |-> NoLti]
  IN IF a.tix # "" /\ a.sorted = 0 THEN SortedBy(e, a.tix) ELSE e
DoAdd(es, a) ==
  LET e == MadeEntity(es, a)
      tt == NewTt(es, Made(a), a.tix)
  IN IF HasEnt(es, a.id) THEN [PutEnt(es, e) EXCEPT !.tt = tt]
     ELSE [es EXCEPT !.ents = Append(@, e), !.tt = tt]

(* ---- adding a relationship ----  r: [pe, pv, ce, cv]  *)
KindAsLink(es, r) == LET c == Col(Ent(es, r.ce), r.cv)
                         p == Col(Ent(es, r.pe), r.pv)
                     IN IF c.v = <<>> /\ c.k = "obj" /\ p.k \in {"int", "float"} THEN "int" ELSE c.k
CanRelate(es, r) ==
  /\ HasEnt(es, r.pe) /\ HasEnt(es, r.ce)
  /\ HasCol(Ent(es, r.pe), r.pv) /\ HasCol(Ent(es, r.ce), r.cv)
  /\ Ent(es, r.pe).index = r.pv
  /\ \/ r \in Rng(es.rels)
     \/ /\ Ent(es, r.ce).index # r.cv
        /\ KindAsLink(es, r) = Col(Ent(es, r.pe), r.pv).k
RetypeIn(es, id, n, t, k) ==
  LET e == Ent(es, id)
      i == IndexIn(Names(e.cols), n)
  IN PutEnt(es, [e EXCEPT !.cols[i] = [(IF @.t = t THEN @ ELSE Retype(@, t)) EXCEPT !.k = k]])
DoRelate(es, r) ==
  IF r \in Rng(es.rels) THEN es
  ELSE [RetypeIn(es, r.ce, r.cv, "id", KindAsLink(es, r)) EXCEPT !.rels = Append(@, r)]

(* ---- normalising ----                                                    *)
(* a: [base, id, index, add, cop, mti: "" default, "no", "yes" or "col",     *)
(*     mcol, ntix: new name or "", sect: "" or the second time column,       *)
(*     secc: its columns, nsec: new name of the second time or ""]           *)
WantsTime(b, a) == a.mti \in {"yes", "col"} \/ (a.mti = "" /\ b.tix # "")
BaseTime(b, a) == IF a.mti = "col" THEN a.mcol ELSE b.tix
NewTime(b, a) == IF ~WantsTime(b, a) THEN ""
                 ELSE IF a.mti = "col" THEN a.mcol
                 ELSE IF a.ntix # "" THEN a.ntix ELSE "first_" \o b.id \o "_time"
Copied(b, a) == IF WantsTime(b, a) /\ a.mti # "col" THEN a.cop \o <<b.tix>> ELSE a.cop
FirstPart(b, a) ==      \* names in the new entity of the columns taken from first rows, in order
  LET s == <<a.index>> \o a.add \o Copied(b, a)
  IN [i \in 1..Len(s) |-> IF WantsTime(b, a) /\ s[i] = BaseTime(b, a) THEN NewTime(b, a) ELSE s[i]]
SecName(a) == IF a.nsec # "" THEN a.nsec ELSE a.sect
SecPart(a) == IF a.sect = "" THEN <<>> ELSE <<SecName(a)>> \o SelectSeq(a.secc, LAMBDA c : c # a.sect)
CanNormalize(es, a) ==
  /\ HasEnt(es, a.base) /\ a.id # a.base
  /\ LET b == Ent(es, a.base)
         mk == WantsTime(b, a)
         tk == TimeKind(Col(b, BaseTime(b, a)).k)
         tt == IF mk THEN (IF es.tt = "" THEN tk ELSE es.tt) ELSE es.tt
     IN /\ b.tix # "" => Col(b, b.tix).t \in TimeIndexTypes
        /\ \A n \in Rng(<<a.index>> \o a.add \o a.cop \o (IF a.sect = "" THEN <<>> ELSE <<a.sect>> \o a.secc)) : HasCol(b, n)
        /\ Distinct(a.add) /\ Distinct(a.cop)
        /\ a.index \notin Rng(a.add \o a.cop) /\ a.index # b.index
        /\ b.tix \notin Rng(a.add) /\ b.index \notin Rng(a.add)
        /\ \A i \in 1..Len(es.rels) : es.rels[i].ce = b.id => es.rels[i].cv \notin Rng(a.add)
        /\ a.mti = "col" => a.mcol \in Rng(a.add \o a.cop)
        /\ a.mti = "yes" => b.tix # ""
        /\ mk => NewTime(b, a) # a.index /\ tk # "" /\ tk = tt
        /\ Distinct(FirstPart(b, a) \o SecPart(a))
        /\ a.sect # "" => /\ {a.index, a.sect} \cap Rng(a.secc) = {} /\ a.sect # a.index
                          /\ Distinct(a.secc)
                          /\ TimeKind(Col(b, a.sect).k) # "" /\ TimeKind(Col(b, a.sect).k) = tt
\* the rows of the base in which a value occurs first (last): a missing value is a value too
FirstRows(v) == SelectSeq([r \in 1..Len(v) |-> r], LAMBDA r : \A q \in 1..(r - 1) : v[q] # v[r])
LastRow(v, x) == CHOOSE r \in 1..Len(v) : v[r] = x /\ \A q \in (r + 1)..Len(v) : v[q] # x
PlainType(t) == IF t = "datetime_time_index" THEN "datetime" ELSE IF t = "numeric_time_index" THEN "numeric" ELSE t
DoNormalize(es, a) ==
  LET b == Ent(es, a.base)
      key == Col(b, a.index).v
      rows == TLCEval(FirstRows(key))
      mk == WantsTime(b, a)
      fpn == FirstPart(b, a)
      fps == <<a.index>> \o a.add \o Copied(b, a)
      first == [i \in 1..Len(fps) |->
                  LET c == Col(b, fps[i]) IN
                  [n |-> fpn[i], t |-> IF i = 1 THEN "categorical" ELSE PlainType(c.t), k |-> c.k,
                   v |-> [x \in 1..Len(rows) |-> c.v[rows[x]]], iv |-> <<>>]]
      ss == IF a.sect = "" THEN <<>> ELSE <<a.sect>> \o SelectSeq(a.secc, LAMBDA c : c # a.sect)
      sp == SecPart(a)
      second == [i \in 1..Len(ss) |->
                  LET c == Col(b, ss[i]) IN
                  [n |-> sp[i], t |-> "", k |-> c.k, v |-> [x \in 1..Len(rows) |-> c.v[LastRow(key, key[rows[x]])]], iv |-> <<>>]]
      es1 == DoAdd(es, [id |-> a.id, cols |-> first \o second, index |-> a.index, make |-> 0, tix |-> NewTime(b, a),
                        sec |-> IF a.sect = "" THEN <<>> ELSE <<[t |-> SecName(a), cs |-> sp]>>,
                        sorted |-> IF mk /\ (a.mti # "col" \/ a.mcol = b.tix) THEN 1 ELSE 0])
      gone == Rng(a.add)
      keep == SelectSeq(b.sec, LAMBDA s : s.t \notin gone)
      b1 == [b EXCEPT !.cols = SelectSeq(@, LAMBDA c : c.n \notin gone),
                      !.sec = [i \in 1..Len(keep) |-> [t |-> keep[i].t, cs |-> keep[i].cs \ gone]]]
      b2 == [b1 EXCEPT !.cols[IndexIn(Names(b1.cols), a.index)] = Retype(@, "id")]
  IN DoRelate(PutEnt(es1, b2), [pe |-> a.id, pv |-> a.index, ce |-> b.id, cv |-> a.index])

(* ---- replacing data ----  a: [id, cols, sorted, recalc]  *)
CanUpdate(es, a) ==
  /\ HasEnt(es, a.id)
  /\ LET e == Ent(es, a.id)
         ns == Names(a.cols)
         kind(n) == TimeKind(a.cols[IndexIn(ns, n)].k) IN
     /\ Len(ns) = Len(e.cols) /\ Rng(Names(e.cols)) \subseteq Rng(ns)
     /\ Distinct(a.cols[IndexIn(ns, e.index)].v)
     /\ e.tix # "" => kind(e.tix) = es.tt /\ es.tt # ""
     /\ \A i \in 1..Len(e.sec) : kind(e.sec[i].t) = es.tt /\ es.tt # ""
NewData(e, cols, sorted) ==
  LET ns == Names(cols)
      new == [i \in 1..Len(e.cols) |->
                LET d == cols[IndexIn(ns, e.cols[i].n)] IN [e.cols[i] EXCEPT !.v = d.v, !.k = d.k]]
      e1 == [e EXCEPT !.cols = [i \in 1..Len(new) |->
               IF new[i].n = e.index THEN Retype(new[i], "index")
               ELSE IF new[i].n = e.tix THEN Retype(new[i], TixType(TimeKind(new[i].k))) ELSE new[i]]]
  IN IF e.tix # "" /\ sorted = 0 THEN SortedBy(e1, e.tix) ELSE e1
DoUpdate(es, a) ==
  LET e == Ent(es, a.id)
      es1 == PutEnt(es, NewData(e, a.cols, a.sorted))
  IN IF a.recalc = 1 /\ e.lti.has = 1 THEN DoLastTimes(es1, {a.id}) ELSE es1

(* ---- concatenating ----  the result, given that last times were absent or kept *)
SameSchema(x, y) ==
  /\ Rng(EntNames(x)) = Rng(EntNames(y))
  /\ x.rels = y.rels
  /\ \A id \in Rng(EntNames(x)) :
       LET e == Ent(x, id)
           f == Ent(y, id) IN
       /\ e.index = f.index /\ e.tix = f.tix
       /\ {<<s.t, s.cs>> : s \in Rng(e.sec)} = {<<s.t, s.cs>> : s \in Rng(f.sec)}
       /\ {<<c.n, c.t>> : c \in Rng(e.cols)} = {<<c.n, c.t>> : c \in Rng(f.cols)}
JoinKind(k1, k2) == IF k1 = k2 THEN k1 ELSE IF {k1, k2} \subseteq {"int", "float"} THEN "float" ELSE "obj"
ConcatEnt(e, f) ==
  LET extra == SelectSeq([r \in 1..NRows(f) |-> r], LAMBDA r : Ids(f)[r] \notin Rng(Ids(e)))
      cols == [i \in 1..Len(e.cols) |->
                 LET d == Col(f, e.cols[i].n) IN
                 [e.cols[i] EXCEPT !.v = @ \o [x \in 1..Len(extra) |-> d.v[extra[x]]], !.k = JoinKind(@, d.k)]]
      new == NewData(e, cols, 1)
  IN SortedBy(new, e.tix)
CanConcat(x, y) == SameSchema(x, y)
DoConcat(x, y) ==
  LET z == [x EXCEPT !.ents = [i \in 1..Len(x.ents) |-> ConcatEnt(x.ents[i], Ent(y, x.ents[i].id))]]
      has == {id \in Rng(EntNames(x)) : Ent(x, id).lti.has = 1 \/ Ent(y, id).lti.has = 1}
  IN DoLastTimes(z, has)
\* with last times on neither operand the result may have none
ConcatAllowed(x, y, z) ==
  \/ z = DoConcat(x, y)
  \/ /\ \A id \in Rng(EntNames(x)) : Ent(x, id).lti.has = 0 /\ Ent(y, id).lti.has = 0
     /\ z = [DoConcat(x, y) EXCEPT !.ents = [i \in 1..Len(@) |-> [@[i] EXCEPT !.lti = NoLti]]]

(* ---- a new time index ----  a: [id, col, sorted] *)
CanSetTime(es, a) == /\ HasEnt(es, a.id) /\ HasCol(Ent(es, a.id), a.col) /\ a.col # Ent(es, a.id).index
                     /\ LET k == TimeKind(Col(Ent(es, a.id), a.col).k) IN k # "" /\ es.tt \in {"", k}
DoSetTime(es, a) ==
  LET e == Ent(es, a.id)
      k == TimeKind(Col(e, a.col).k)
      e1 == IF a.sorted = 1 THEN e ELSE SortedBy(e, a.col)
      i == IndexIn(Names(e.cols), a.col)
  IN [PutEnt(es, [e1 EXCEPT !.tix = a.col, !.cols[i] = Retype(@, TixType(k))]) EXCEPT !.tt = IF @ = "" THEN k ELSE @]

(* ---- interesting values ----  which values a column may be given *)
Linked(es, id, n) == \E i \in 1..Len(es.rels) : \/ es.rels[i].pe = id /\ es.rels[i].pv = n
                                                \/ es.rels[i].ce = id /\ es.rels[i].cv = n
Occurs(c, x) == Cardinality({r \in 1..Len(c.v) : c.v[r] = x})
InterestingOk(c, max, iv) ==
  LET vals == {x \in Rng(c.v) : ~IsNaN(x)}
      total == Cardinality({r \in 1..Len(c.v) : ~IsNaN(c.v[r])})
      d == Cardinality(vals)
      \* with many values only those that are neither rare nor dominant count
      fair(x) == d < 25 \/ (20 * Occurs(c, x) > total /\ 20 * Occurs(c, x) < 19 * total)
      ranked == /\ Distinct(iv) /\ Rng(iv) \subseteq vals
                /\ \A i, j \in 1..Len(iv) : i < j => Occurs(c, iv[i]) >= Occurs(c, iv[j])
                /\ \A i \in 1..Len(iv) : \A x \in vals \ Rng(iv) : Occurs(c, iv[i]) >= Occurs(c, x)
      m == IF max < d THEN max ELSE d
  IN /\ ranked
     /\ \A i \in 1..Len(iv) : fair(iv[i])
     /\ Len(iv) <= m
     \* it stops early only at a value that is not fair and comes next
     /\ Len(iv) < m => \E x \in vals \ Rng(iv) : ~fair(x) /\ \A y \in vals \ Rng(iv) : Occurs(c, x) >= Occurs(c, y)
InterestingAllowed(es, max, z) ==
  /\ Len(z.ents) = Len(es.ents)
  /\ \A i \in 1..Len(es.ents) :
       /\ Len(z.ents[i].cols) = Len(es.ents[i].cols)
       /\ \A j \in 1..Len(es.ents[i].cols) :
            LET c == es.ents[i].cols[j]
                iv == z.ents[i].cols[j].iv IN
            IF c.t \notin DiscreteTypes THEN iv = c.iv
            ELSE IF Linked(es, es.ents[i].id, c.n) THEN iv = <<>>
            ELSE InterestingOk(c, max, iv)
NoIv(es) == [es EXCEPT !.ents = [i \in 1..Len(es.ents) |->
               [es.ents[i] EXCEPT !.cols = [j \in 1..Len(@) |-> [@[j] EXCEPT !.iv = <<>>]]]]]

(* ---- paths between entities ---- *)
\* every chain of relationships (by number) from child to parent that visits no entity twice
RECURSIVE Forward(_, _, _, _)
Forward(es, from, to, seen) ==
  (IF from = to THEN {<<>>} ELSE {}) \cup
  UNION {{<<i>> \o p : p \in Forward(es, es.rels[i].pe, to, seen \cup {es.rels[i].pe})} :
           i \in {j \in 1..Len(es.rels) : es.rels[j].ce = from /\ es.rels[j].pe \notin seen}}
ForwardPaths(es, from, to) == Forward(es, from, to, {from})
Reversed(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
BackwardPaths(es, from, to) == {Reversed(p) : p \in ForwardPaths(es, to, from)}

\* every chain of relationships upwards (downwards) from an entity, with its end
RECURSIVE Upwards(_, _)
Upwards(es, from) == UNION {{<<es.rels[i].pe, <<i>>>>} \cup {<<u[1], <<i>> \o u[2]>> : u \in Upwards(es, es.rels[i].pe)} :
                              i \in {j \in 1..Len(es.rels) : es.rels[j].ce = from}}
RECURSIVE Downwards(_, _)
Downwards(es, from) == UNION {{<<es.rels[i].ce, <<i>>>>} \cup {<<u[1], <<i>> \o u[2]>> : u \in Downwards(es, es.rels[i].ce)} :
                              i \in {j \in 1..Len(es.rels) : es.rels[j].pe = from}}
Once(s, S) == Distinct(s) /\ Rng(s) = S
\* a: [from, to, fwd, bwd: paths between the two; up, down, up1, down1: <<entity, path>> above
\*     and below `from', at any depth or one step; uniq: 1, 0, or 2 when it refused to say]
JudgePaths(es, a) ==
  LET f == ForwardPaths(es, a.from, a.to)
      one(S) == {u \in S : Len(u[2]) = 1} IN
  IF ~Once(a.fwd, f) THEN <<"forward", a.fwd, f>>
  ELSE IF ~Once(a.bwd, BackwardPaths(es, a.from, a.to)) THEN <<"backward", a.bwd, BackwardPaths(es, a.from, a.to)>>
  ELSE IF a.uniq # (IF f = {} THEN 2 ELSE IF Cardinality(f) = 1 THEN 1 ELSE 0) THEN <<"unique", a.uniq, f>>
  ELSE IF a.deep = 0 THEN <<"ok">>
  ELSE IF ~Once(a.up, Upwards(es, a.from)) THEN <<"ancestors", a.up, Upwards(es, a.from)>>
  ELSE IF ~Once(a.down, Downwards(es, a.from)) THEN <<"descendants", a.down, Downwards(es, a.from)>>
  ELSE IF ~Once(a.up1, one(Upwards(es, a.from))) THEN <<"parents", a.up1>>
  ELSE IF ~Once(a.down1, one(Downwards(es, a.from))) THEN <<"children", a.down1>>
  ELSE <<"ok">>

(* ---- written to disk and read back: entities in the order of their names, *)
(* last times brought up to date                                             *)
Saved(es, order) ==
  LET has == {id \in Rng(EntNames(es)) : Ent(es, id).lti.has = 1}
      z == [es EXCEPT !.ents = [i \in 1..Len(order) |-> [Ent(es, order[i]) EXCEPT !.lti = NoLti]]]
  IN IF has = {} THEN z ELSE DoLastTimes(z, has)

(* ---- what always holds ---- *)
WellFormed(es) ==
  /\ Distinct(EntNames(es))
  /\ \A i \in 1..Len(es.ents) :
       LET e == es.ents[i] IN
       /\ e.cols # <<>> /\ e.cols[1].n = e.index /\ Distinct(Names(e.cols))
       /\ e.cols[1].t = "index" /\ Distinct(Ids(e))
       /\ \A c \in Rng(e.cols) : Len(c.v) = NRows(e)
       /\ e.tix # "" => /\ HasCol(e, e.tix)
                        /\ \A a, b \in 1..NRows(e) : a < b => ~Before(Col(e, e.tix).v[b], Col(e, e.tix).v[a])
                        /\ TimeKind(Col(e, e.tix).k) = es.tt
       /\ \A s \in Rng(e.sec) : /\ \A c \in s.cs : HasCol(e, c)
                                /\ HasCol(e, s.t) /\ TimeKind(Col(e, s.t).k) = es.tt
  /\ Distinct(es.rels)
  /\ \A r \in Rng(es.rels) :
       /\ HasEnt(es, r.pe) /\ HasEnt(es, r.ce)
       /\ HasCol(Ent(es, r.pe), r.pv) /\ HasCol(Ent(es, r.ce), r.cv)
       /\ Ent(es, r.pe).index = r.pv
       /\ Col(Ent(es, r.ce), r.cv).t = "id" \/ r.cv = Ent(es, r.ce).tix
       /\ Col(Ent(es, r.ce), r.cv).k = Col(Ent(es, r.pe), r.pv).k
=============================================================================
