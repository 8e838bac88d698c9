------------------------------ MODULE FTSession ------------------------------
(***************************************************************************)
(* A user's session with one entity set: the set is loaded, feature        *)
(* matrices are calculated, and the stored data is looked at again.        *)
(*                                                                         *)
(* Next is the design: calculating changes nothing but the last result     *)
(* (ReadOnly), and the result is the denotation of FTEval.  TraceNext      *)
(* replays a recorded session of the real library, one line per public     *)
(* call, and judges every line: `verdicts' counts lines per clause.        *)
(***************************************************************************)
EXTENDS FTRequest, Json, IOUtils

VARIABLES l,        \* next line of the trace
          S,        \* the loaded scenario: entity set and feature definitions
          last,     \* last calculated matrix (recorded) with its request
          bad       \* number of lines whose verdict was negative

vars == <<l, S, last, bad>>

Trace == ndJsonDeserialize(IOEnv.FT_TRACE)

Verdict(i, clause, detail) ==
  PrintT("VERDICT " \o ToJson([line |-> i, sid |-> Trace[i].sid, clause |-> clause, detail |-> detail]))

\* first differing cell of two matrices of the same shape
DiffCells(exp, obs) ==
  {<<x, y>> \in (1..Len(exp)) \X (IF Len(exp) = 0 THEN {} ELSE 1..Len(exp[1])) : ~Matches(exp[x][y], obs[x][y])}
Skipped(exp) == Cardinality({<<x, y>> \in (1..Len(exp)) \X (IF Len(exp) = 0 THEN {} ELSE 1..Len(exp[1])) :
                                IsUnk(exp[x][y])})

\* the request a line stands for: when no instances were named, those of the
\* target that are visible at the one cutoff, in the order of the entity
\* On distributed frames (known finding C28-1) instances that are not visible have no row.
SeenAt(ev, q) ==
  \E r \in 1..S.ents[ev.tgt].n :
     S.ents[ev.tgt].cols[1][r] = q.id /\ Visible(S, ev.tgt, r, [T |-> q.t, incl |-> ev.incl, win |-> ev.win])
Reqs(ev) ==
  IF "dist" \in DOMAIN ev THEN SelectSeq(ev.reqs, LAMBDA q : SeenAt(ev, q))
  ELSE IF ev.all = 0 THEN ev.reqs
  ELSE LET t == ev.reqs[1].t
           ctx == [T |-> t, incl |-> ev.incl, win |-> ev.win]
           rows == SelectSeq([r \in 1..S.ents[ev.tgt].n |-> r], LAMBDA r : Visible(S, ev.tgt, r, ctx))
       IN [x \in 1..Len(rows) |-> [id |-> S.ents[ev.tgt].cols[1][rows[x]], t |-> t]]

Opts(ev) == [incl |-> ev.incl, win |-> ev.win, appr |-> ev.appr]
Expected(ev, reqs) ==
  IF ev.appr = 0 THEN Matrix(S, ev.tgt, ev.want, reqs, Opts(ev))
  ELSE ApproxMatrix(S, ev.tgt, ev.want, reqs, Opts(ev))
\* known finding C08-1: see FTEval!NoAggLeft
Deviation(ev, reqs) ==
  /\ ev.appr # 0
  /\ NoAggLeft(S, ev.want)
  /\ DiffCells(DeviantMatrix(S, ev.tgt, ev.want, reqs, Opts(ev)), ev.obs) = {}

\* Judge one calculation of the requests reqs with the extra columns pass.
\* The clauses are ordered; the first that fails names it.
JudgeAs(ev, reqs, pass) ==
  IF ev.err # "" THEN (IF reqs = <<>> THEN <<"ok", <<>>, 0>> ELSE <<"error", <<ev.err>>, 0>>)
  ELSE IF Len(ev.obs) # Len(reqs) THEN <<"rows", <<Len(ev.obs), Len(reqs)>>, 0>>
  ELSE IF ev.ids # [x \in 1..Len(reqs) |-> reqs[x].id] THEN <<"row-labels", <<ev.ids>>, 0>>
  ELSE IF ev.times # <<>> /\ ev.times # [x \in 1..Len(reqs) |-> reqs[x].t] THEN <<"row-times", <<ev.times>>, 0>>
  ELSE IF ev.cols # ev.names THEN <<"columns", <<ev.cols, ev.names>>, 0>>
  ELSE IF ev.passobs # pass THEN <<"pass-through", <<ev.passobs, pass>>, 0>>
  ELSE LET exp == TLCEval(Expected(ev, reqs))
           d == DiffCells(exp, ev.obs)
       IN IF d = {} \/ Deviation(ev, reqs) THEN <<"ok", <<>>, Skipped(exp)>>
          ELSE LET c == CHOOSE c \in d : \A z \in d : c[1] < z[1] \/ (c[1] = z[1] /\ c[2] <= z[2])
               IN <<"value", <<c[1], c[2], exp[c[1]][c[2]], ev.obs[c[1]][c[2]], Cardinality(d)>>, 0>>
Judge(i) == LET ev == Trace[i] IN JudgeAs(ev, TLCEval(Reqs(ev)), ev.pass)

\* Judge a request by what the caller wrote
JudgeAsk(ev) ==
  LET f == ev.form IN
  IF Refused(S, ev.tgt, f) THEN (IF ev.err # "" THEN <<"ok", <<>>, 0>> ELSE <<"accepted", <<f>>, 0>>)
  ELSE JudgeAs(ev, TLCEval(Request(S, ev.tgt, f, [T |-> Time(0), incl |-> ev.incl, win |-> ev.win])), Extra(f))

TLoad == /\ Trace[l].ev = "Load"
         /\ S' = Trace[l].S
         /\ last' = <<>>
         /\ bad' = bad

TCalc == /\ Trace[l].ev = "Calc"
         /\ LET j == TLCEval(Judge(l)) IN
              /\ bad' = bad + (IF j[1] = "ok" THEN 0 ELSE 1)
              /\ TLCSet(3, TLCGet(3) + j[3])
              /\ IF j[1] = "ok" THEN TRUE ELSE Verdict(l, j[1], j[2])
         /\ last' = Trace[l].obs
         /\ UNCHANGED S

TAsk == /\ Trace[l].ev = "Ask"
        /\ LET j == TLCEval(JudgeAsk(Trace[l])) IN
             /\ bad' = bad + (IF j[1] = "ok" THEN 0 ELSE 1)
             /\ TLCSet(3, TLCGet(3) + j[3])
             /\ IF j[1] = "ok" THEN TRUE ELSE Verdict(l, j[1], j[2])
        /\ last' = Trace[l].obs
        /\ UNCHANGED S

\* the stored entity set is recorded again: a calculation must not have changed it
TLook == /\ Trace[l].ev = "Look"
         /\ LET ok == Trace[l].ents = S.ents /\ Trace[l].same IN
              /\ bad' = bad + (IF ok THEN 0 ELSE 1)
              /\ IF ok THEN TRUE ELSE Verdict(l, "inputs-changed", <<Trace[l].what>>)
         /\ UNCHANGED <<S, last>>

\* a calculation that the library must refuse
TReject == /\ Trace[l].ev = "Reject"
           /\ LET ok == Trace[l].err # "" IN
              /\ bad' = bad + (IF ok THEN 0 ELSE 1)
              /\ IF ok THEN TRUE ELSE Verdict(l, "accepted", <<Trace[l].what>>)
           /\ UNCHANGED <<S, last>>

\* the same request made again in another way must reproduce the last matrix
TSame == /\ Trace[l].ev = "Same"
         /\ LET ok == Trace[l].err = "" /\ Trace[l].obs = last IN
              /\ bad' = bad + (IF ok THEN 0 ELSE 1)
              /\ IF ok THEN TRUE ELSE Verdict(l, "differs", <<Trace[l].what, Trace[l].err>>)
         /\ UNCHANGED <<S, last>>

\* a part of the last request, made alone and in another order
TSub == /\ Trace[l].ev = "Sub"
        /\ LET ev == Trace[l]
               exp == [x \in 1..Len(ev.rows) |-> [y \in 1..Len(ev.cols) |-> last[ev.rows[x]][ev.cols[y]]]]
               ok == ev.err = "" /\ ev.obs = exp IN
             /\ bad' = bad + (IF ok THEN 0 ELSE 1)
             /\ IF ok THEN TRUE ELSE Verdict(l, "depends-on-request", <<ev.err, ev.what>>)
        /\ UNCHANGED <<S, last>>

Init == l = 1 /\ S = [ents |-> <<>>] /\ last = <<>> /\ bad = 0 /\ TLCSet(3, 0)
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (TLoad \/ TCalc \/ TAsk \/ TLook \/ TReject \/ TSame \/ TSub)
TraceSpec == Init /\ [][TraceNext]_vars

\* every line was consumed (each is one state)
Consumed == /\ PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace))
                      \o " SKIPPEDCELLS " \o ToString(TLCGet(3)))
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
