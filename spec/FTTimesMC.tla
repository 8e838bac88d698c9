----------------------------- MODULE FTTimesMC -----------------------------
(***************************************************************************)
(* The calendar of FTTimes against the calendar as people keep it: one day *)
(* after the other, months of their lengths, years after years.            *)
(***************************************************************************)
EXTENDS FTTimes
CONSTANTS LAST, REACH
VARIABLES y, m, d, n
vars == <<y, m, d, n>>
Init == y = 1896 /\ m = 1 /\ d = 1 /\ n = -27028
Next == /\ y <= LAST
        /\ n' = n + 1
        /\ IF d < MonthDays(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
           ELSE IF m < 12 THEN d' = 1 /\ m' = m + 1 /\ UNCHANGED y
           ELSE d' = 1 /\ m' = 1 /\ y' = y + 1
Spec == Init /\ [][Next]_vars
Counted == DayNum(y, m, d) = n
Named == Civil(n) = <<y, m, d>>
\* month arithmetic: where the day exists it is kept and the way back leads home
Kept == \A k \in {j * 5 : j \in -REACH..REACH} \cup -13..13 :
          LET t == AddMonths(n, k)
              c == Civil(t)
          IN /\ c[1] * 12 + c[2] = y * 12 + m + k
             /\ c[3] = (IF d <= MonthDays(c[1], c[2]) THEN d ELSE MonthDays(c[1], c[2]))
             /\ d <= 28 => AddMonths(t, -k) = n
Later == \A k \in 1..13 : AddMonths(n, k) > n /\ AddMonths(n + 1, k) >= AddMonths(n, k)
Moved == \A s \in {-1, 1}, h \in {0, 1, 25, 10000} :
           LET t == <<n, 3600, 5>>
               x == {<<"h", h, 125>>, <<"ms", 999, 1>>, <<"w", h % 7, 999>>}
           IN /\ Move(Move(t, x, s), x, -s) = t
              /\ Move(t, x, s) = Move(t, Negative(x), -s)
              /\ Negative(Negative(x)) = x
=============================================================================
