------------------------------ MODULE FTRequest ------------------------------
(***************************************************************************)
(* The ways of stating a request, and which of them are refused.           *)
(*                                                                         *)
(* A form f is what the caller wrote:                                      *)
(*   src    "set", "frames" (tables and relationships) or "nothing"        *)
(*   feats  "list", "empty" or "other" (something that is not a feature)   *)
(*   cut    "omitted", "single", "list" or "table"                         *)
(*   kind   the kind of the cutoff times: "time", "number" or "text"       *)
(*   own    the kind of the set's times ("any" when it has none)           *)
(*   t      the single cutoff                                              *)
(*   ix, tx names of the target's index and time index ("" when none)      *)
(*   names, data  the columns of the table                                 *)
(*   hasids, ids  instances named beside the cutoff                        *)
(*   chunk  <<kind, n>>: "none", "count" or "part" (n thousandths)         *)
(*   win    <<kind, n>>: "none", "span" (n seconds), "rows" or "bad"       *)
(* Request(S, tgt, f) is the sequence of [id, t] it asks for.              *)
(***************************************************************************)
EXTENDS FTEval

Named(f, n) == n # "" /\ \E j \in 1..Len(f.names) : f.names[j] = n
Pos(f, n) == CHOOSE j \in 1..Len(f.names) : f.names[j] = n
\* the generic name, or the one of the target's own column
IdName(f) == IF Named(f, "instance_id") THEN "instance_id" ELSE f.ix
TimeName(f) == IF Named(f, "time") THEN "time" ELSE f.tx
Both(f, generic, own) == own # generic /\ Named(f, generic) /\ Named(f, own)

\* later than all data
Now(f) == IF f.kind = "number" THEN Num(2000000000) ELSE Time(2000000000)
TableRows(f) ==
  LET i == Pos(f, IdName(f))
      t == Pos(f, TimeName(f))
  IN [r \in 1..Len(f.data[i]) |-> [id |-> f.data[i][r], t |-> f.data[t][r]]]
Repeated(reqs) == \E x, y \in 1..Len(reqs) : x # y /\ reqs[x] = reqs[y]

WellNamed(f) ==
  /\ Named(f, IdName(f)) /\ Named(f, TimeName(f))
  /\ ~Both(f, "instance_id", f.ix) /\ ~Both(f, "time", f.tx)

Request(S, tgt, f, ctx) ==
  IF f.cut = "table" THEN TableRows(f)
  ELSE LET t == IF f.cut = "omitted" THEN Now(f) ELSE f.t IN
       IF f.hasids = 1 THEN [x \in 1..Len(f.ids) |-> [id |-> f.ids[x], t |-> t]]
       ELSE LET rows == SelectSeq([r \in 1..S.ents[tgt].n |-> r], LAMBDA r : Visible(S, tgt, r, [ctx EXCEPT !.T = t]))
            IN [x \in 1..Len(rows) |-> [id |-> S.ents[tgt].cols[1][rows[x]], t |-> t]]

Refused(S, tgt, f) ==
  \/ f.src = "nothing"
  \/ f.feats # "list"
  \/ f.cut = "list"
  \/ f.cut = "table" /\ ~WellNamed(f)
  \/ f.cut \in {"single", "table"} /\ f.own # "any" /\ f.kind # f.own
  \/ f.cut = "table" /\ WellNamed(f) /\ Repeated(TableRows(f))
  \/ f.cut \in {"single", "omitted"} /\ f.hasids = 1 /\ (\E x, y \in 1..Len(f.ids) : x # y /\ f.ids[x] = f.ids[y])
  \/ f.chunk[1] # "none" /\ f.chunk[2] <= 0
  \/ f.win[1] \in {"rows", "bad"}

\* extra columns of the table, in its order, are handed through
Extra(f) ==
  IF f.cut # "table" THEN <<<<>>, <<>>>>
  ELSE LET js == SelectSeq([j \in 1..Len(f.names) |-> j], LAMBDA j : f.names[j] # IdName(f) /\ f.names[j] # TimeName(f))
       IN <<[k \in 1..Len(js) |-> f.names[js[k]]], [k \in 1..Len(js) |-> f.data[js[k]]]>>
=============================================================================
