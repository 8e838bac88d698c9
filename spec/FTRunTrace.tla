---------------------------- MODULE FTRunTrace -----------------------------
(***************************************************************************)
(* Recorded runs of the library as behaviours of FTRun, seen from outside: *)
(*   Start   the rows a plain calculation returns (as text); whether        *)
(*           progress is saved and reported                                *)
(*   Report  one call of the progress callback (millionths of a percent    *)
(*           are left out: numbers are percent times 10^6)                 *)
(*   End     the returned rows, or the error; the files in the folder      *)
(*   Failed  the same run again with a step that fails                     *)
(*   Crash   the same run again, ended by force at some point              *)
(* The state is FTRun's, with rows instead of steps: folder is what the    *)
(* complete run left, pct what was last reported, ended how it ended.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES l, W, bad
vars == <<l, W, bad>>
Trace == ndJsonDeserialize(IOEnv.FT_TRACE)
Verdict(i, clause, detail) ==
  PrintT("VERDICT " \o ToJson([line |-> i, sid |-> Trace[i].sid, clause |-> clause, detail |-> detail]))
Ok == <<"ok", <<>>>>
Rng(q) == {q[i] : i \in 1..Len(q)}
Full == 100000000
Near(a, b) == a - b <= 50 /\ b - a <= 50
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A x \in Rng(p) : Count(p, x) = Count(q, x)
\* every row exactly once; rows of different times cannot be told apart when
\* everything is approximated at once, so one file holds them once
Holds(w, files) ==
  IF w.timed = 1 THEN SameBag(Flat(files), w.rows)
  ELSE Rng(Flat(files)) = Rng(w.rows) /\ \A f \in Rng(files) : Cardinality(Rng(f)) = Len(f)
Stray(w, files) == {f \in Rng(files) : f \notin Rng(w.folder)}
Judge(ev, w) ==
  CASE ev.ev = "Start" -> Ok
    [] ev.ev = "Report" ->
         IF w.ended # "no" THEN <<"report-after-end", <<ev.pct>>>>
         ELSE IF ev.pct < w.pct - 50 THEN <<"progress-falls", <<w.pct, ev.pct>>>>
         ELSE IF ev.pct < 0 \/ ev.pct > Full + 50 THEN <<"progress-range", <<ev.pct>>>>
         ELSE IF ~Near(ev.upd, ev.pct - w.pct) THEN <<"increment", <<ev.upd, w.pct, ev.pct>>>>
         ELSE Ok
    [] ev.ev = "End" ->
         IF ev.err # "" THEN <<"error", <<ev.err>>>>
         ELSE IF ev.rows # w.rows THEN <<"matrix", <<ev.how>>>>
         ELSE IF w.callback = 1 /\ ~Near(w.pct, Full) THEN <<"not-complete", <<w.pct>>>>
         ELSE IF w.saving = 0 THEN IF ev.files = <<>> THEN Ok ELSE <<"files", <<>>>>
         ELSE IF ev.temp # 0 THEN <<"temporary-files", <<ev.temp>>>>
         ELSE IF ~Holds(w, ev.files) THEN <<"saved-rows", <<ev.how, Len(Flat(ev.files)), Len(w.rows)>>>>
         ELSE Ok
    [] ev.ev = "Failed" ->
         IF ev.err = "" THEN <<"failure-hidden", <<ev.how>>>>
         ELSE IF w.callback = 1 /\ w.pct >= Full - 50 THEN <<"complete-after-failure", <<w.pct>>>>
         ELSE IF Stray(w, ev.files) # {} THEN <<"failed-step-saved", <<CHOOSE f \in Stray(w, ev.files) : TRUE>>>>
         ELSE Ok
    [] OTHER ->
         IF Stray(w, ev.files) # {} THEN <<"partial-result", <<ev.how, CHOOSE f \in Stray(w, ev.files) : TRUE>>>>
         ELSE IF Cardinality(Rng(ev.files)) # Len(ev.files) /\ Cardinality(Rng(w.folder)) = Len(w.folder) THEN <<"saved-twice", <<ev.how>>>>
         ELSE Ok
Idle == [rows |-> <<>>, folder |-> <<>>, pct |-> 0, ended |-> "ok", saving |-> 0, callback |-> 0, timed |-> 1]
After(ev, w) ==
  CASE ev.ev = "Start" -> [rows |-> ev.rows, folder |-> IF ev.again = 1 THEN w.folder ELSE <<>>, pct |-> 0, ended |-> "no",
                           saving |-> ev.saving, callback |-> ev.callback, timed |-> ev.timed]
    [] ev.ev = "Report" -> [w EXCEPT !.pct = ev.pct]
    [] ev.ev = "End" -> [w EXCEPT !.folder = ev.files, !.ended = "ok"]
    [] ev.ev = "Failed" -> [w EXCEPT !.ended = "error"]
    [] OTHER -> [w EXCEPT !.ended = "dead"]
Step == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET ev == Trace[l]
               j == TLCEval(Judge(ev, W)) IN
             /\ bad' = bad + (IF j[1] = "ok" THEN 0 ELSE 1)
             /\ IF j[1] = "ok" THEN TRUE ELSE Verdict(l, j[1], j[2])
             /\ W' = After(ev, W)
Init == l = 1 /\ W = Idle /\ bad = 0
TraceSpec == Init /\ [][Step]_vars
Consumed == /\ PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
