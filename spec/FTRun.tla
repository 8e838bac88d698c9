------------------------------- MODULE FTRun -------------------------------
(***************************************************************************)
(* A run of a calculation: its steps (disjoint groups of rows) are taken   *)
(* by workers, each step's result is written to a temporary file, moved    *)
(* into the folder and handed to the coordinator, which reports progress   *)
(* and finally returns the matrix and removes the temporary files.  A step *)
(* can fail; the process can die at any point.                             *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS Steps,        \* the steps, as a set
          Rows,         \* how many rows each step has
          Workers,
          Saving,       \* is progress saved?
          CanFail       \* steps that fail when calculated

VARIABLES todo,         \* steps nobody has taken
          at,           \* worker -> <<>> or <<step, what it is doing>>
          temp,         \* step -> "none", "partial" or "whole": its temporary file
          folder,       \* step -> "none", "partial" or "whole": its result file
          got,          \* steps the coordinator has
          pct,          \* progress last reported, in rows (All: everything but the end)
          ended,        \* "no", "ok", "error", "dead"
          matrix        \* steps whose rows are in the returned matrix
vars == <<todo, at, temp, folder, got, pct, ended, matrix>>

RowsOf(S) == LET RECURSIVE Sum(_)
                 Sum(T) == IF T = {} THEN 0 ELSE LET s == CHOOSE s \in T : TRUE IN Rows[s] + Sum(T \ {s})
             IN Sum(S)
All == RowsOf(Steps)

Init ==
  /\ todo = Steps /\ at = [w \in Workers |-> <<>>]
  /\ temp = [s \in Steps |-> "none"] /\ folder = [s \in Steps |-> "none"]
  /\ got = {} /\ pct = 0 /\ ended = "no" /\ matrix = {}

Take(w, s) ==
  /\ ended = "no" /\ at[w] = <<>> /\ s \in todo
  /\ todo' = todo \ {s} /\ at' = [at EXCEPT ![w] = <<s, "calculate">>]
  /\ UNCHANGED <<temp, folder, got, pct, ended, matrix>>
Calculate(w) ==
  /\ ended = "no" /\ at[w] # <<>> /\ at[w][2] = "calculate" /\ at[w][1] \notin CanFail
  /\ at' = [at EXCEPT ![w][2] = IF Saving THEN "write" ELSE "hand"]
  /\ UNCHANGED <<todo, temp, folder, got, pct, ended, matrix>>
Fail(w) ==
  /\ ended = "no" /\ at[w] # <<>> /\ at[w][2] = "calculate" /\ at[w][1] \in CanFail
  /\ ended' = "error" /\ UNCHANGED <<todo, at, temp, folder, got, pct, matrix>>
WriteSome(w) ==
  /\ ended = "no" /\ at[w] # <<>> /\ at[w][2] = "write" /\ temp[at[w][1]] = "none"
  /\ temp' = [temp EXCEPT ![at[w][1]] = "partial"]
  /\ UNCHANGED <<todo, at, folder, got, pct, ended, matrix>>
WriteRest(w) ==
  /\ ended = "no" /\ at[w] # <<>> /\ at[w][2] = "write" /\ temp[at[w][1]] = "partial"
  /\ temp' = [temp EXCEPT ![at[w][1]] = "whole"] /\ at' = [at EXCEPT ![w][2] = "move"]
  /\ UNCHANGED <<todo, folder, got, pct, ended, matrix>>
Move(w) ==
  /\ ended = "no" /\ at[w] # <<>> /\ at[w][2] = "move"
  /\ folder' = [folder EXCEPT ![at[w][1]] = temp[at[w][1]]]
  /\ temp' = [temp EXCEPT ![at[w][1]] = "none"]
  /\ at' = [at EXCEPT ![w][2] = "hand"]
  /\ UNCHANGED <<todo, got, pct, ended, matrix>>
Report ==                          \* any number of times, never backwards
  /\ ended = "no" /\ pct < RowsOf(Steps \ todo)
  /\ pct' \in (pct + 1)..RowsOf(Steps \ todo)
  /\ UNCHANGED <<todo, at, temp, folder, got, ended, matrix>>
Hand(w) ==
  /\ ended = "no" /\ at[w] # <<>> /\ at[w][2] = "hand"
  /\ got' = got \cup {at[w][1]} /\ at' = [at EXCEPT ![w] = <<>>]
  /\ UNCHANGED <<todo, temp, folder, pct, ended, matrix>>
Finish ==
  /\ ended = "no" /\ got = Steps
  /\ matrix' = got /\ temp' = [s \in Steps |-> "none"] /\ pct' = All + 1 /\ ended' = "ok"
  /\ UNCHANGED <<todo, at, folder, got>>
Die == ended = "no" /\ ended' = "dead" /\ UNCHANGED <<todo, at, temp, folder, got, pct, matrix>>
Over == ended # "no" /\ UNCHANGED vars
Next == \/ \E w \in Workers : (\E s \in Steps : Take(w, s)) \/ Calculate(w) \/ Fail(w) \/ WriteSome(w) \/ WriteRest(w) \/ Move(w) \/ Hand(w)
        \/ Report \/ Finish \/ Die \/ Over
Spec == Init /\ [][Next]_vars /\ WF_vars(\E w \in Workers : (\E s \in Steps : Take(w, s)) \/ Calculate(w) \/ Fail(w) \/ WriteSome(w) \/ WriteRest(w) \/ Move(w) \/ Hand(w))
             /\ WF_vars(Finish)

(* what must hold *)
WholeFiles == \A s \in Steps : folder[s] \in {"none", "whole"}
FinishedSteps == \A s \in Steps : folder[s] = "whole" => \E w \in Workers : (at[w] # <<>> /\ at[w][1] = s /\ at[w][2] = "hand") \/ s \in got
ErrorIsError == CanFail # {} => matrix = {}
Complete == ended = "ok" => matrix = Steps /\ (Saving => \A s \in Steps : folder[s] = "whole" /\ temp[s] = "none")
NoneLost == ended = "no" => todo \cup got \cup {at[w][1] : w \in {v \in Workers : at[v] # <<>>}} = Steps
InRange == 0 <= pct /\ pct <= All + 1 /\ (pct = All + 1 <=> ended = "ok")
NeverBack == [][pct <= pct']_vars
EndStays == [][ended # "no" => ended' = ended]_vars
Ends == <>(ended # "no")
=============================================================================
