---------------------------- MODULE FTTimesTrace ----------------------------
(***************************************************************************)
(* Recorded sessions with time spans and cutoff tables.  The state W is    *)
(* the sequence of spans the session has made so far.                      *)
(***************************************************************************)
EXTENDS FTTimes, Json, IOUtils

VARIABLES l, W, bad
vars == <<l, W, bad>>
Trace == ndJsonDeserialize(IOEnv.FT_TRACE)
Verdict(i, clause, detail) ==
  PrintT("VERDICT " \o ToJson([line |-> i, sid |-> Trace[i].sid, clause |-> clause, detail |-> detail]))
Ok == <<"ok", <<>>>>
SetOf(parts) == {<<parts[i].u, parts[i].v, parts[i].q>> : i \in 1..Len(parts)}

\* a span was made (or refused): what it must be, and its dictionary form
JudgeMake(ev) ==
  LET r == IF ev.how = "neg" THEN [ok |-> TRUE, span |-> Negative(W[ev.src])]
           ELSE IF ev.how = "serial" THEN [ok |-> TRUE, span |-> W[ev.src]]
           ELSE Read(ev.how, ev)
  IN IF ev.err # "" THEN (IF r.ok THEN <<"error", <<ev.err>>>> ELSE Ok)
     ELSE IF ~r.ok THEN <<"accepted", <<ev.how, ev.text, ev.parts>>>>
     ELSE IF SetOf(ev.got) # r.span \/ Len(ev.got) # Cardinality(r.span) THEN <<"another-span", <<ev.got, r.span>>>>
     ELSE IF ~Printed(r.span, ev.words) THEN <<"printed", <<ev.words, r.span>>>>
     ELSE Ok
JudgeMove(ev) ==
  LET s == W[ev.src] IN
  IF Observations(s) THEN (IF ev.err = "" THEN <<"accepted", <<s>>>> ELSE Ok)
  ELSE IF ev.err # "" THEN <<"error", <<ev.err>>>>
  ELSE IF ev.res # Move(ev.t, s, ev.sign) THEN <<"moved", <<s, ev.t, ev.res, Move(ev.t, s, ev.sign)>>>> ELSE Ok
JudgeEq(ev) == IF ev.same # (IF W[ev.a] = W[ev.b] THEN 1 ELSE 0) THEN <<"equality", <<W[ev.a], W[ev.b], ev.same>>>> ELSE Ok
JudgeTable(ev) ==
  IF ~TableAsked(ev) THEN (IF ev.err = "" THEN <<"accepted", <<ev.n, ev.size, ev.hasstart, Len(ev.ids), Len(ev.cut)>>>> ELSE Ok)
  ELSE IF ev.err # "" THEN <<"error", <<ev.err>>>>
  ELSE LET t == TLCEval(Table(ev.ids, ev.cut, ev.n, ev.size, ev.start, 1)) IN
       IF ev.rows # t THEN <<"rows", <<ev.rows, t>>>> ELSE Ok
Judge(ev) == CASE ev.ev = "Make" -> JudgeMake(ev)
               [] ev.ev = "Move" -> JudgeMove(ev)
               [] ev.ev = "Eq" -> JudgeEq(ev)
               [] ev.ev = "Table" -> JudgeTable(ev)
Step == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET ev == Trace[l]
               j == TLCEval(Judge(ev)) IN
             /\ bad' = bad + (IF j[1] = "ok" THEN 0 ELSE 1)
             /\ IF j[1] = "ok" THEN TRUE ELSE Verdict(l, j[1], j[2])
             /\ W' = IF ev.last = 1 THEN <<>>
                     ELSE IF ev.ev = "Make" /\ ev.err = "" THEN Append(W, SetOf(ev.got)) ELSE W
Init == l = 1 /\ W = <<>> /\ bad = 0
TraceSpec == Init /\ [][Step]_vars
Consumed == /\ PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
