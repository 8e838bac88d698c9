----------------------------- MODULE FTEntitiesMC -----------------------------
(***************************************************************************)
(* Exhaustive exploration of FTEntities on small sets.  The specification  *)
(* of the operations is constructive; here the properties C12 to C15 are   *)
(* stated independently of it and checked after every step.                *)
(***************************************************************************)
EXTENDS FTEntities
CONSTANTS ROWS, DEPTH,
          FULL   \* FALSE: a part of the arguments only
VARIABLES es,       \* the set
          was, op   \* the set before the last operation, and that operation
vars == <<es, was, op>>

Code(c) == <<2, c, 1>>
Cols(t, k, v) == <<[n |-> "id", t |-> "", k |-> "int", v |-> [r \in 1..ROWS |-> Num(ROWS - r)], iv |-> <<>>],
                   [n |-> "t", t |-> "", k |-> "time", v |-> t, iv |-> <<>>],
                   [n |-> "k", t |-> "categorical", k |-> "obj", v |-> k, iv |-> <<>>],
                   [n |-> "v", t |-> "", k |-> "int", v |-> v, iv |-> <<>>]>>
Keys == <<[n |-> "key", t |-> "", k |-> "obj", v |-> <<Code(1), Code(2)>>, iv |-> <<>>]>>
Empty == [ents |-> <<>>, rels |-> <<>>, tt |-> ""]
Start(t, k, v, tix, sec) ==
  DoAdd(DoAdd(Empty, [id |-> "a", cols |-> Cols(t, k, v), index |-> "id", make |-> 0, tix |-> tix, sec |-> sec, sorted |-> 0]),
        [id |-> "p", cols |-> Keys, index |-> "key", make |-> 0, tix |-> "", sec |-> <<>>, sorted |-> 0])

Init == /\ \E t \in [1..ROWS -> {NaN, Time(0)} \cup (IF FULL THEN {Time(1)} ELSE {})], k \in [1..ROWS -> {Code(1), Code(2)}], v \in [1..ROWS -> {Num(0), Num(1)}] :
             \/ es = Start(t, k, v, "t", <<>>)
             \/ es = Start(t, k, v, "", <<>>)
        /\ was = es /\ op = <<"start">>

Apply(o, can, result) == /\ op' = o /\ was' = es
                         /\ es' = IF can THEN result ELSE es
NormArgs == [base : {"a"}, id : {"n"}, index : IF FULL THEN {"k", "v"} ELSE {"k"},
             add : {<<>>, <<"v">>} \cup (IF FULL THEN {<<"k">>, <<"t">>} ELSE {}), cop : {<<>>, <<"t">>},
             mti : IF FULL THEN {"", "no", "yes", "col"} ELSE {"", "yes"}, mcol : {"t"}, ntix : {""} \cup (IF FULL THEN {"first"} ELSE {}),
             sect : IF FULL THEN {"", "t"} ELSE {""}, secc : IF FULL THEN {<<>>, <<"v">>} ELSE {<<>>}, nsec : {"ended"}]
Rels == {[pe |-> "p", pv |-> "key", ce |-> "a", cv |-> "k"], [pe |-> "p", pv |-> "key", ce |-> "a", cv |-> "v"],
         [pe |-> "a", pv |-> "v", ce |-> "p", cv |-> "key"], [pe |-> "p", pv |-> "key", ce |-> "n", cv |-> "k"]}
\* the rows of an entity in another order, some left out
NewFrames(e) == {[i \in 1..Len(e.cols) |-> [e.cols[i] EXCEPT !.v = [x \in 1..Len(rows) |-> e.cols[i].v[rows[x]]]]] :
                   rows \in {<<>>} \cup (IF NRows(e) = 0 THEN {} ELSE {<<NRows(e)>>, [x \in 1..NRows(e) |-> NRows(e) + 1 - x], <<1, 1>>})}
Acyclic(x) == \A id \in Rng(EntNames(x)) : id \notin UpFrom(x, Parents(x, id))
Step ==
  \/ \E a \in NormArgs : ~HasEnt(es, "n") /\ a.index \notin {} /\ Apply(<<"Normalize", a>>, CanNormalize(es, a), DoNormalize(es, a))
  \/ \E r \in Rels : /\ CanRelate(es, r) => Acyclic(DoRelate(es, r))
                     /\ Apply(<<"Relate", r>>, CanRelate(es, r), DoRelate(es, r))
  \/ \E id \in Rng(EntNames(es)), srt \in {0}, rc \in {0, 1} : \E cols \in NewFrames(Ent(es, id)) :
        LET a == [id |-> id, cols |-> cols, sorted |-> srt, recalc |-> rc] IN Apply(<<"Update", a>>, CanUpdate(es, a), DoUpdate(es, a))
  \/ \E id \in Rng(EntNames(es)), c \in {"t", "v"} :
        LET a == [id |-> id, col |-> c, sorted |-> 0] IN Apply(<<"SetTime", a>>, CanSetTime(es, a), DoSetTime(es, a))
  \/ \E ids \in {{}, {"a"}, {"p"}} : Apply(<<"LastTimes", ids>>, CanLastTimes(es, ids), DoLastTimes(es, ids))
  \/ Apply(<<"Concat">>, CanConcat(es, es), DoConcat(es, es))
Next == TLCGet("level") <= DEPTH /\ Step
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* C12
Formed == WellFormed(es)
\* a refused operation changes nothing (by construction of Apply; a sanity check of Can: Do of an accepted one changes something or is a repetition)

\* C13, told by looking things up rather than by constructing
Lossless ==
  (op[1] = "Normalize" /\ CanNormalize(was, op[2])) =>
    LET a == op[2]
        b0 == Ent(was, a.base)
        b1 == Ent(es, a.base)
        e == Ent(es, a.id)
        key == Col(b0, a.index).v
        rowOf(x) == CHOOSE q \in 1..NRows(e) : Ids(e)[q] = x
        earliest(x) == CHOOSE r \in 1..NRows(b0) : key[r] = x /\ \A q \in 1..NRows(b0) : key[q] = x => r <= q
    IN /\ Rng(Ids(e)) = Rng(key) /\ NRows(e) = Cardinality(Rng(key))            \* a row per value, each once
       /\ \A r \in 1..NRows(b0) : \A c \in Rng(a.add) :                          \* the moved columns are still there
            /\ ~HasCol(b1, c)
            /\ LET n == IF a.mti = "col" /\ c = a.mcol THEN c ELSE c IN
               HasCol(e, n) => Col(e, n).v[rowOf(key[r])] = Col(b0, c).v[earliest(key[r])]
       /\ \A c \in Rng(Names(b0.cols)) \ Rng(a.add) : Col(b1, c).v = Col(b0, c).v \* the rest is untouched
       /\ [pe |-> a.id, pv |-> a.index, ce |-> a.base, cv |-> a.index] \in Rng(es.rels)
       \* the derived time is the earliest of the value's times when the base is in the order of its time
       /\ (a.mti # "no" /\ e.tix # "" /\ b0.tix = "t" /\ a.mti # "col") =>
            \A x \in Rng(key) : \A r \in 1..NRows(b0) : key[r] = x => ~Before(Col(b0, "t").v[r], Col(e, e.tix).v[rowOf(x)])

\* C14: a fixed point, an upper bound that is attained, and computing it again changes nothing
LastOk ==
  op[1] = "LastTimes" =>
    \A id \in Rng(EntNames(es)) :
      LET e == Ent(es, id)
          last(f, i) == (CHOOSE p \in f.lti.m : p[1] = i)[2]
      IN e.lti.has = 1 =>
         \A r \in 1..NRows(e) :
           LET own == IF e.tix = "" THEN NaN ELSE Col(e, e.tix).v[r]
               below == UNION {{last(Ent(es, q.ce), Ids(Ent(es, q.ce))[j]) :
                                  j \in {j \in 1..NRows(Ent(es, q.ce)) : Col(Ent(es, q.ce), q.cv).v[j] = Ids(e)[r]}} :
                                 q \in {q \in Rng(es.rels) : q.pe = id}}
               all == (below \cup {own}) \ {NaN}
               mine == last(e, Ids(e)[r])
           IN IF all = {} THEN mine = NaN ELSE mine \in all /\ \A x \in all : ~Less(mine, x)
Idempotent == LET d == DoLastTimes(es, {}) IN DoLastTimes(d, {}) = d /\ DoLastTimes(d, {"a"}) = d

\* C15: combining a set with itself adds nothing
SelfConcat == op[1] = "Concat" =>
  \A id \in Rng(EntNames(was)) : {Ids(Ent(es, id))[r] : r \in 1..NRows(Ent(es, id))} = Rng(Ids(Ent(was, id)))
                                 /\ NRows(Ent(es, id)) = NRows(Ent(was, id))
\* C16: reading back is the identity up to the order of entities, when last times are up to date
SaveIdentity == (\A id \in Rng(EntNames(es)) : Ent(es, id).lti.has = 0) =>
  LET o == IF HasEnt(es, "n") THEN <<"a", "n", "p">> ELSE <<"a", "p">> IN
  {Ent(Saved(es, o), id) : id \in Rng(o)} = {Ent(es, id) : id \in Rng(o)}
=============================================================================
