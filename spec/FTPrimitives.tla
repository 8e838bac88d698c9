---------------------------- MODULE FTPrimitives ----------------------------
(***************************************************************************)
(* The documented meaning of the built-in primitives, over exact values.   *)
(*                                                                         *)
(*   AggFn(p, q, cols, T)   aggregation p with parameters q of the columns *)
(*                          cols (equally long, at least one row) at       *)
(*                          cutoff T: the sequence of its outputs          *)
(*   RowFn(p, q, args, T)   row-wise transform of one row's arguments      *)
(*   ColFn(p, q, cols, T)   transform defined over a whole column          *)
(*   DefaultOf(p)           value where the primitive is undefined         *)
(***************************************************************************)
EXTENDS FTValues, FiniteSets

DefaultOf(p) == IF p \in {"COUNT", "SUM", "NUM_TRUE", "PERCENT_TRUE"} THEN Num(0) ELSE NaN

UnitSecs(u) == CASE u = "seconds" -> 1
                 [] u = "minutes" -> 60
                 [] u = "hours" -> 3600
                 [] u = "days" -> 86400
                 [] u = "months" -> 2628000
                 [] u = "years" -> 31540000
                 [] OTHER -> 1

\* elapsed time between instants, as a rational number of units
Elapsed(a, b, u) ==
  IF IsNaN(a) \/ IsNaN(b) THEN NaN
  ELSE IF ~IsTime(a) \/ ~IsTime(b) THEN Unk
  ELSE IF u = "nanoseconds" \/ ~(AddOk(a[2], b[2]) \/ (a[2] < 0 <=> b[2] < 0)) THEN Unk
  ELSE IF u = "milliseconds" THEN RMul(Num(b[2] - a[2]), Num(1000))
  ELSE Rat(b[2] - a[2], UnitSecs(u))

-----------------------------------------------------------------------------
(* Calendar.  Instants are seconds after 2020-01-01T00:00, day 18262.      *)
EPOCHDAY == 18262
DayNo(v) == EPOCHDAY + (v[2] \div 86400)
SecOfDay(v) == v[2] % 86400
\* proleptic Gregorian calendar (Hinnant's days-to-civil)
Civil(z0) ==
  LET z == z0 + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
      y == yoe + era * 400
      doy == doe - (365 * yoe + (yoe \div 4) - (yoe \div 100))
      mp == (5 * doy + 2) \div 153
      d == doy - ((153 * mp + 2) \div 5) + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN <<IF m <= 2 THEN y + 1 ELSE y, m, d>>
\* day number of a date (inverse of Civil)
DaysFromCivil(y0, m, d) ==
  LET y == IF m <= 2 THEN y0 - 1 ELSE y0
      era == y \div 400
      yoe == y - era * 400
      mm == IF m > 2 THEN m - 3 ELSE m + 9
      doy == ((153 * mm + 2) \div 5) + d - 1
      doe == yoe * 365 + (yoe \div 4) - (yoe \div 100) + doy
  IN era * 146097 + doe - 719468
WeekdayOf(dn) == (dn + 3) % 7                    \* Monday is 0; day 0 was a Thursday
\* ISO week: the week of the Thursday of the same week
IsoWeek(dn) ==
  LET thu == dn - WeekdayOf(dn) + 3
      y == Civil(thu)[1]
  IN ((thu - DaysFromCivil(y, 1, 1)) \div 7) + 1

TimePart(p, v) ==
  IF IsNaN(v) THEN NaN
  ELSE IF ~IsTime(v) THEN Unk
  ELSE CASE p = "YEAR" -> Num(Civil(DayNo(v))[1])
         [] p = "MONTH" -> Num(Civil(DayNo(v))[2])
         [] p = "DAY" -> Num(Civil(DayNo(v))[3])
         [] p = "HOUR" -> Num(SecOfDay(v) \div 3600)
         [] p = "MINUTE" -> Num((SecOfDay(v) % 3600) \div 60)
         [] p = "SECOND" -> Num(SecOfDay(v) % 60)
         [] p = "WEEKDAY" -> Num(WeekdayOf(DayNo(v)))
         [] p = "WEEK" -> Num(IsoWeek(DayNo(v)))

-----------------------------------------------------------------------------
(* Aggregations                                                            *)
MeanOf(s) == RDivInt(SumSeq(s), Len(s))
MostFrequent(s) ==
  LET top == {v \in Range(s) : \A w \in Range(s) : CountOf(s, v) >= CountOf(s, w)}
  IN CHOOSE v \in top : \A w \in top : Leq(v, w)
MedianOf(s) ==
  LET t == SortV(s)
      n == Len(s)
  IN IF n % 2 = 1 THEN t[(n + 1) \div 2]
     ELSE RDivInt(RAdd(t[n \div 2], t[n \div 2 + 1]), 2)
\* squared sample standard deviation (recorded standard deviations are squared)
RECURSIVE SqDev(_, _, _, _)
SqDev(s, m, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE SqDev(s, m, i + 1, RAdd(acc, RMul(RSub(s[i], m), RSub(s[i], m))))
VarOf(s) == IF Len(s) < 2 THEN NaN
            ELSE LET m == MeanOf(s) IN IF ~IsNum(m) THEN Unk ELSE RDivInt(SqDev(s, m, 1, Num(0)), Len(s) - 1)

RECURSIVE DotFrom(_, _, _, _)
DotFrom(x, y, i, acc) == IF i > Len(x) THEN acc ELSE DotFrom(x, y, i + 1, RAdd(acc, RMul(x[i], y[i])))
\* slope of the least-squares line of y over time, in the unit of time the
\* implementation's heuristic chooses for the first instant
TrendUnit(v) == IF v[2] % 86400 = 0 THEN 86400
                ELSE IF v[2] % 3600 = 0 THEN 3600
                ELSE IF v[2] % 60 = 0 THEN 60 ELSE 1
TrendOf(ys, ts) ==
  LET ok == SelectSeq([i \in 1..Len(ys) |-> i], LAMBDA i : ~IsNaN(ys[i]) /\ ~IsNaN(ts[i]))
      n == Len(ok)
  IN IF n <= 2 THEN NaN
     ELSE LET u == TrendUnit(ts[ok[1]])
              t0 == ts[ok[1]][2]
              x == [i \in 1..n |-> Rat(ts[ok[i]][2] - t0, u)]
              y == [i \in 1..n |-> ys[ok[i]]]
              mx == MeanOf(x)
              my == MeanOf(y)
              dx == [i \in 1..n |-> RSub(x[i], mx)]
              dy == [i \in 1..n |-> RSub(y[i], my)]
          IN IF \A i \in 1..n : x[i] = x[1] THEN Num(0)
             ELSE RDiv(DotFrom(dx, dy, 1, Num(0)), DotFrom(dx, dx, 1, Num(0)))

\* the k most common values, most frequent first.  Ties are ordered by the
\* recorder's evidence only, so this is a relation, not a function.
NMostCommonOk(s, n, out) ==
  LET t == NotNull(s)
      k == Cardinality(Range(t))
      m == IF k < n THEN k ELSE n
  IN /\ Len(out) = n
     /\ \A i \in 1..n : (i > m) <=> IsNaN(out[i])
     /\ \A i \in 1..m : out[i] \in Range(t)
     /\ \A i, j \in 1..m : i < j => out[i] # out[j] /\ CountOf(t, out[i]) >= CountOf(t, out[j])
     /\ \A v \in Range(t) : (\A i \in 1..m : out[i] # v) => (m > 0 /\ CountOf(t, v) <= CountOf(t, out[m]))

Agg1(p, q, s, T) ==
  LET t == NotNull(s)
      e == t = <<>>
  IN
  CASE p = "COUNT" -> Num(Len(t))
    [] p = "SUM" -> SumSeq(t)
    [] p = "MEAN" -> IF e THEN NaN ELSE MeanOf(t)
    [] p = "MEAN_NA" -> IF Len(t) < Len(s) \/ e THEN NaN ELSE MeanOf(t)
    [] p = "MIN" -> IF e THEN NaN ELSE MinOf(t)
    [] p = "MAX" -> IF e THEN NaN ELSE MaxOf(t)
    [] p = "MODE" -> IF e THEN NaN ELSE MostFrequent(t)
    [] p = "NUM_UNIQUE" -> Num(Cardinality(Range(t)))
    [] p = "NUM_TRUE" -> SumSeq(t)
    [] p = "PERCENT_TRUE" -> Rat(CountOf(s, TrueV), Len(s))
    [] p = "MEDIAN" -> IF e THEN NaN ELSE MedianOf(t)
    [] p = "STD" -> VarOf(t)
    [] p = "FIRST" -> s[1]
    [] p = "LAST" -> s[Len(s)]
    [] p = "ANY" -> BoolV(\E i \in 1..Len(t) : IsTrue(t[i]))
    [] p = "ALL" -> BoolV(\A i \in 1..Len(t) : IsTrue(t[i]))
    [] p = "TIME_SINCE_LAST" -> Elapsed(s[Len(s)], T, q)
    [] p = "TIME_SINCE_FIRST" -> Elapsed(s[1], T, q)
    [] p = "AVG_TIME_BETWEEN" ->
         IF Len(t) < 2 THEN NaN
         ELSE RDivInt(Elapsed(MinOf(t), MaxOf(t), q), Len(t) - 1)
    [] p = "XSUM2" -> SumSeq(t)

\* q: parameter record [u |-> unit string, n |-> integer, v |-> value]
AggFn(p, q, cols, T) ==
  IF \E i \in 1..Len(cols) : HasUnk(cols[i]) THEN <<Unk>>
  ELSE IF p = "TREND" THEN <<TrendOf(cols[1], cols[2])>>
  ELSE <<Agg1(p, q.u, cols[1], T)>>

-----------------------------------------------------------------------------
(* Row-wise transforms                                                     *)
RowFn(p, q, a, T) ==
  LET x == a[1]
      y == a[2]
      k == q.v
  IN
  IF \E i \in 1..Len(a) : IsUnk(a[i]) THEN Unk
  \* nothing is documented about missing booleans
  ELSE IF p \in {"NOT", "AND", "OR", "MULTIPLY_BOOLEAN"} /\ (\E i \in 1..Len(a) : IsNaN(a[i])) THEN Unk
  ELSE
  CASE p = "IS_NULL" -> BoolV(IsNaN(x))
    [] p = "ABSOLUTE" -> IF IsNum(x) THEN <<1, Abs(x[2]), x[3]>> ELSE IF IsInf(x) THEN PosInf ELSE x
    [] p = "NEGATE" -> RNeg(x)
    [] p = "NOT" -> BoolV(~IsTrue(x))
    [] p = "AND" -> BoolV(IsTrue(x) /\ IsTrue(y))
    [] p = "OR" -> BoolV(IsTrue(x) \/ IsTrue(y))
    [] p = "MULTIPLY_BOOLEAN" -> BoolV(IsTrue(x) /\ IsTrue(y))
    [] p = "ADD_NUMERIC" -> RAdd(x, y)
    [] p = "SUBTRACT_NUMERIC" -> RSub(x, y)
    [] p = "MULTIPLY_NUMERIC" -> RMul(x, y)
    [] p = "DIVIDE_NUMERIC" -> RDiv(x, y)
    [] p = "MODULO_NUMERIC" -> IF IsNum(y) /\ y[2] = 0 THEN Unk ELSE RMod(x, y)
    [] p = "ADD_NUMERIC_SCALAR" -> RAdd(x, k)
    [] p = "SUBTRACT_NUMERIC_SCALAR" -> RSub(x, k)
    [] p = "SCALAR_SUBTRACT_NUMERIC_FEATURE" -> RSub(k, x)
    [] p = "MULTIPLY_NUMERIC_SCALAR" -> RMul(x, k)
    [] p = "DIVIDE_NUMERIC_SCALAR" -> RDiv(x, k)
    [] p = "DIVIDE_BY_FEATURE" -> RDiv(k, x)
    [] p = "MODULO_NUMERIC_SCALAR" -> RMod(x, k)
    [] p = "MODULO_BY_FEATURE" -> IF IsNum(x) /\ x[2] = 0 THEN Unk ELSE RMod(k, x)
    [] p = "GREATER_THAN" -> CmpV(x, y, {1})
    [] p = "GREATER_THAN_EQUAL_TO" -> CmpV(x, y, {0, 1})
    [] p = "LESS_THAN" -> CmpV(x, y, {-1})
    [] p = "LESS_THAN_EQUAL_TO" -> CmpV(x, y, {-1, 0})
    [] p = "EQUAL" -> CmpV(x, y, {0})
    [] p = "NOT_EQUAL" -> NEV(x, y)
    [] p = "GREATER_THAN_SCALAR" -> CmpV(x, k, {1})
    [] p = "GREATER_THAN_EQUAL_TO_SCALAR" -> CmpV(x, k, {0, 1})
    [] p = "LESS_THAN_SCALAR" -> CmpV(x, k, {-1})
    [] p = "LESS_THAN_EQUAL_TO_SCALAR" -> CmpV(x, k, {-1, 0})
    [] p = "EQUAL_SCALAR" -> CmpV(x, k, {0})
    [] p = "NOT_EQUAL_SCALAR" -> NEV(x, k)
    [] p = "ISIN" -> BoolV(\E i \in 1..Len(q.l) : q.l[i] = x)
    [] p \in {"YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND", "WEEKDAY", "WEEK"} -> TimePart(p, x)
    [] p = "IS_WEEKEND" -> IF IsNaN(x) THEN FalseV ELSE BoolV(WeekdayOf(DayNo(x)) > 4)
    [] p = "TIME_SINCE" -> Elapsed(x, T, q.u)
    [] p = "AGE" -> IF IsNaN(x) THEN NaN ELSE Rat((T[2] - x[2]) \div 86400, 365)
    [] p = "NUM_CHARACTERS" -> IF IsNaN(x) THEN Num(0) ELSE Num(q.len[x[2] + 1][1])
    [] p = "NUM_WORDS" -> IF IsNaN(x) THEN Num(1) ELSE Num(q.len[x[2] + 1][2] + 1)

-----------------------------------------------------------------------------
(* Transforms over a whole column (or one group of it)                     *)
WholeColumn == {"CUM_SUM", "CUM_COUNT", "CUM_MEAN", "CUM_MIN", "CUM_MAX", "DIFF", "PERCENTILE",
                "TIME_SINCE_PREVIOUS"}

RECURSIVE CumFrom(_, _, _, _)
\* running fold that skips missing values but is missing where they are
CumFrom(p, s, i, acc) ==
  IF i > Len(s) THEN <<>>
  ELSE IF IsNaN(s[i]) THEN <<NaN>> \o CumFrom(p, s, i + 1, acc)
  ELSE LET a == IF IsNaN(acc) THEN s[i]
                ELSE CASE p = "CUM_SUM" -> RAdd(acc, s[i])
                       [] p = "CUM_MIN" -> MinOf(<<acc, s[i]>>)
                       [] p = "CUM_MAX" -> MaxOf(<<acc, s[i]>>)
       IN <<a>> \o CumFrom(p, s, i + 1, a)

PercentileOf(s) ==
  LET t == NotNull(s)
      n == Len(t)
  IN [i \in 1..Len(s) |->
        IF IsNaN(s[i]) THEN NaN
        ELSE LET lo == Len(SelectSeq(t, LAMBDA w : Less(w, s[i])))
                 eq == CountOf(t, s[i])
             IN Rat(2 * lo + eq + 1, 2 * n)]

ColFn(p, q, cols, T) ==
  LET s == cols[1]
      n == Len(s)
  IN
  IF \E i \in 1..Len(cols) : HasUnk(cols[i]) THEN [i \in 1..n |-> Unk] ELSE
  CASE p = "CUM_COUNT" -> [i \in 1..n |-> Num(i)]
    [] p \in {"CUM_SUM", "CUM_MIN", "CUM_MAX"} -> CumFrom(p, s, 1, NaN)
    [] p = "CUM_MEAN" -> LET c == CumFrom("CUM_SUM", s, 1, NaN)
                         IN [i \in 1..n |-> IF IsNaN(c[i]) THEN NaN ELSE RDivInt(c[i], i)]
    [] p = "DIFF" -> [i \in 1..n |-> IF i = 1 THEN NaN ELSE RSub(s[i], s[i - 1])]
    [] p = "TIME_SINCE_PREVIOUS" -> [i \in 1..n |-> IF i = 1 THEN NaN ELSE Elapsed(s[i - 1], s[i], q.u)]
    [] p = "PERCENTILE" -> PercentileOf(s)
=============================================================================
