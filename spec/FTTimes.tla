------------------------------ MODULE FTTimes ------------------------------
(***************************************************************************)
(* Calendar, time spans and generated cutoff tables.                       *)
(*                                                                         *)
(* An instant is <<day, second, microsecond>>: days since 1970-01-01, then *)
(* the second of the day and the microsecond of the second.                *)
(* A span is a set of <<unit, v, q>>, v + q/1000 of a unit (0 <= q < 1000), *)
(* with at most one of them per unit.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31

\* day number of a date, and back (proleptic Gregorian, computed in years that begin in March)
DayNum(y0, m, d) ==
  LET y == IF m <= 2 THEN y0 - 1 ELSE y0
      era == y \div 400
      yoe == y - era * 400
      mp == (m + 9) % 12
      doy == (153 * mp + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 719468
Civil(n) ==
  LET z == n + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN <<yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m, doy - (153 * mp + 2) \div 5 + 1>>

MinI(a, b) == IF a < b THEN a ELSE b
\* the same day of the month k months later, or the month's last day
AddMonths(n, k) ==
  LET c == Civil(n)
      q == c[1] * 12 + (c[2] - 1) + k
      y == q \div 12
      m == (q % 12) + 1
  IN DayNum(y, m, MinI(c[3], MonthDays(y, m)))

\* <<d, s, u>> with s and u brought into range
Instant(d, s, u) ==
  LET s1 == s + u \div 1000000
  IN <<d + s1 \div 86400, s1 % 86400, u % 1000000>>

Part(span, unit) == IF \E p \in span : p[1] = unit THEN CHOOSE p \in span : p[1] = unit ELSE <<unit, 0, 0>>
Of(span, unit) == Part(span, unit)[2]
Observations(span) == \E p \in span : p[1] = "o"
\* sign * span after instant t: years and months first, then what has a fixed length
Fixed == {"w", "d", "h", "m", "s"}
Secs == [w |-> 604800, d |-> 86400, h |-> 3600, m |-> 60, s |-> 1]
\* the fractional part of a unit of k seconds, in whole milliseconds
Milli(span, sign) == LET F(u) == Part(span, u)[3] * Secs[u] IN sign * (F("w") + F("d") + F("h") + F("m") + F("s"))
Move(t, span, sign) ==
  LET d == AddMonths(t[1], sign * (12 * Of(span, "Y") + Of(span, "mo")))
      ms == Milli(span, sign)
  IN Instant(d + sign * (7 * Of(span, "w") + Of(span, "d")),
             t[2] + ms \div 1000 + sign * (3600 * Of(span, "h") + 60 * Of(span, "m") + Of(span, "s")),
             t[3] + 1000 * (ms % 1000) + sign * (1000 * Of(span, "ms") + Part(span, "ms")[3]))
Negative(span) == {IF p[3] = 0 THEN <<p[1], -p[2], 0>> ELSE <<p[1], -p[2] - 1, 1000 - p[3]>> : p \in span}
\* no years or months other than whole ones
Whole(span) == \A p \in span : p[1] \in {"Y", "mo"} => p[3] = 0

-----------------------------------------------------------------------------
(* Reading spans.  Text comes as a sequence of characters.                 *)
Long == [ms |-> "milliseconds", s |-> "seconds", h |-> "hours", m |-> "minutes", d |-> "days",
         o |-> "observations", w |-> "weeks", Y |-> "years", mo |-> "months"]
Units == DOMAIN Long
Uppers == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lowers == "abcdefghijklmnopqrstuvwxyz"
Letters == {SubSeq(Lowers, i, i) : i \in 1..26} \cup {SubSeq(Uppers, i, i) : i \in 1..26}
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == \E i \in 1..10 : Digits[i] = c
DigitOf(c) == (CHOOSE i \in 1..10 : Digits[i] = c) - 1
Lower(c) == IF \E i \in 1..26 : SubSeq(Uppers, i, i) = c
            THEN LET i == CHOOSE i \in 1..26 : SubSeq(Uppers, i, i) = c IN SubSeq(Lowers, i, i) ELSE c
RECURSIVE Join(_)
Join(cs) == IF cs = <<>> THEN "" ELSE Head(cs) \o Join(Tail(cs))
LowerAll(cs) == Join([i \in 1..Len(cs) |-> Lower(cs[i])])
\* the unit meant by a spelling: the short form, or the long form in any case, singular or plural; "" if none
UnitOf(cs) ==
  LET w == Join(cs)
      lw == LowerAll(cs)
  IN IF w \in Units THEN w
     ELSE IF Len(cs) > 1 /\ lw \in Units THEN lw
     ELSE IF \E u \in Units : lw \in {Long[u], SubSeq(Long[u], 1, Len(Long[u]) - 1)} /\ Len(cs) > 2
          THEN CHOOSE u \in Units : lw \in {Long[u], SubSeq(Long[u], 1, Len(Long[u]) - 1)}
     ELSE ""
RECURSIVE Value(_, _)
Value(cs, acc) == IF cs = <<>> THEN acc ELSE Value(Tail(cs), acc * 10 + DigitOf(Head(cs)))

Bad == [ok |-> FALSE, span |-> {}]
One(unit, value) == IF unit = "" THEN Bad ELSE [ok |-> TRUE, span |-> {<<unit, value, 0>>}]
\* digits, spaces, letters, and nothing else
ReadText(cs) ==
  LET n == Len(cs)
      a == IF \E i \in 1..n : ~IsDigit(cs[i]) THEN CHOOSE i \in 1..n : ~IsDigit(cs[i]) /\ \A j \in 1..(i - 1) : IsDigit(cs[j]) ELSE n + 1
      b == IF \E i \in a..n : cs[i] # " " THEN CHOOSE i \in a..n : cs[i] # " " /\ \A j \in a..(i - 1) : cs[j] = " " ELSE n + 1
      unit == SubSeq(cs, b, n)
  IN IF a = 1 \/ unit = <<>> \/ \E i \in 1..Len(unit) : unit[i] \notin Letters THEN Bad
     ELSE One(UnitOf(unit), Value(SubSeq(cs, 1, a - 1), 0))
\* a sequence of [u |-> spelling, v |-> whole, q |-> thousandths]
ReadUnits(parts) ==
  LET us == [i \in 1..Len(parts) |-> UnitOf(parts[i].u)]
  IN IF parts = <<>> \/ \E i \in 1..Len(parts) : us[i] = "" THEN Bad
     ELSE LET s == {<<us[i], parts[i].v, parts[i].q>> : i \in 1..Len(parts)} IN
          IF Whole(s) THEN [ok |-> TRUE, span |-> s] ELSE Bad
Read(how, a) ==
  CASE how = "text" -> ReadText(a.text)
    [] how \in {"units", "serial", "seconds"} -> ReadUnits(a.parts)

\* printed: every unit once with its value and its long name (singular allowed for one)
Title(u) == CASE u = "ms" -> "Milliseconds" [] u = "s" -> "Seconds" [] u = "h" -> "Hours" [] u = "m" -> "Minutes" [] u = "d" -> "Days"
              [] u = "o" -> "Observations" [] u = "w" -> "Weeks" [] u = "Y" -> "Years" [] u = "mo" -> "Months"
Thousandths(q) ==
  LET x == Digits[q \div 100 + 1]
      y == Digits[((q \div 10) % 10) + 1]
      z == Digits[(q % 10) + 1]
  IN IF q % 100 = 0 THEN x ELSE IF q % 10 = 0 THEN x \o y ELSE x \o y \o z
Written(v, q) == IF q = 0 THEN ToString(v)
                 ELSE IF v >= 0 THEN ToString(v) \o "." \o Thousandths(q)
                 ELSE "-" \o ToString(-v - 1) \o "." \o Thousandths(1000 - q)
Printed(span, words) ==
  /\ Len(words) = 2 * Cardinality(span)
  /\ \A p \in span : \E i \in 1..Cardinality(span) :
        /\ words[2 * i - 1] = Written(p[2], p[3])
        /\ \/ words[2 * i] = Title(p[1])
           \/ p[2] = 1 /\ p[3] = 0 /\ words[2 * i] = SubSeq(Title(p[1]), 1, Len(Title(p[1])) - 1)

-----------------------------------------------------------------------------
(* Generated cutoff tables.  Instants are seconds here.  n, size or start  *)
(* may be absent (-1; start: an empty sequence).                           *)
Before(a, b) == a < b
Rows(cut, n, size, start, i) ==
  IF n >= 0 /\ size >= 0 THEN [k \in 1..n |-> cut[i] - (n - k) * size]
  ELSE IF size >= 0 THEN (IF start[i] > cut[i] THEN <<>>
                          ELSE [k \in 1..((cut[i] - start[i]) \div size + 1) |-> start[i] + (k - 1) * size])
  ELSE [k \in 1..n |-> start[i] + (k - 1) * ((cut[i] - start[i]) \div (n - 1))]
RECURSIVE Table(_, _, _, _, _, _)
Table(ids, cut, n, size, start, i) ==
  IF i > Len(ids) THEN <<>>
  ELSE LET r == Rows(cut, n, size, start, i) IN
       [k \in 1..Len(r) |-> <<ids[i], r[k]>>] \o Table(ids, cut, n, size, start, i + 1)
\* exactly two of the three are given, one cutoff (and start) per instance
TableAsked(a) ==
  /\ (IF a.n >= 0 THEN 1 ELSE 0) + (IF a.size >= 0 THEN 1 ELSE 0) + (IF a.hasstart = 1 THEN 1 ELSE 0) = 2
  /\ Len(a.cut) = Len(a.ids)
  /\ a.hasstart = 1 => Len(a.start) = Len(a.ids)
  /\ a.hasstart = 1 /\ a.n >= 0 => a.n > 1
  /\ a.size # 0
=============================================================================
