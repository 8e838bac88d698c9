----------------------------- MODULE FTDescribe -----------------------------
(***************************************************************************)
(* What a feature's description says: an English phrase that follows from  *)
(* its definition, from the texts that the user gave for columns and       *)
(* features, and from the templates of primitives.                         *)
(*                                                                         *)
(* X has texts (<<unique name, text>>, the first one counts), temps        *)
(* (<<primitive name, unique name or "", templates>>, likewise) and cols   *)
(* (<<entity, column, text>>).                                             *)
(***************************************************************************)
EXTENDS FTFeatures

(* strings *)
Letters == [lo |-> "abcdefghijklmnopqrstuvwxyz", up |-> "ABCDEFGHIJKLMNOPQRSTUVWXYZ"]
At(s, i) == SubSeq(s, i, i)
Chars(a) == TLCEval({At(a, i) : i \in 1..Len(a)})
Place(a, c) == CHOOSE i \in 1..Len(a) : At(a, i) = c
LoChars == Chars(Letters.lo)
UpChars == Chars(Letters.up)
LowerC(c) == IF c \in UpChars THEN At(Letters.lo, Place(Letters.up, c)) ELSE c
UpperC(c) == IF c \in LoChars THEN At(Letters.up, Place(Letters.lo, c)) ELSE c
RECURSIVE Lower(_), Upper(_), Without(_, _)
Lower(s) == IF s = "" THEN "" ELSE LowerC(At(s, 1)) \o Lower(SubSeq(s, 2, Len(s)))
Upper(s) == IF s = "" THEN "" ELSE UpperC(At(s, 1)) \o Upper(SubSeq(s, 2, Len(s)))
Without(s, S) == IF s = "" THEN "" ELSE (IF At(s, 1) \in S THEN "" ELSE At(s, 1)) \o Without(SubSeq(s, 2, Len(s)), S)
Begins(s, t) == Len(s) >= Len(t) /\ SubSeq(s, 1, Len(t)) = t
After(s, t) == SubSeq(s, Len(t) + 1, Len(s))
Phrases(q) == Join(SelectSeq(q, LAMBDA x : x # ""), " ")
Quoted(s) == "\"" \o s \o "\""
Nth(i) == ToString(i) \o (IF (i % 100) \in {11, 12, 13} THEN "th"
                          ELSE CASE (i % 10) = 1 -> "st" [] (i % 10) = 2 -> "nd" [] (i % 10) = 3 -> "rd" [] OTHER -> "th")

\* a template with its places filled: {} takes the next text of q
RECURSIVE Fill(_, _, _)
Fill(t, q, nth) ==
  IF t = "" THEN ""
  ELSE IF Begins(t, "{}") THEN q[1] \o Fill(After(t, "{}"), Tail(q), nth)
  ELSE IF Begins(t, "{nth_slice}") THEN nth \o Fill(After(t, "{nth_slice}"), q, nth)
  ELSE At(t, 1) \o Fill(SubSeq(t, 2, Len(t)), q, nth)

(* the templates of the primitives; VALUE stands for a parameter *)
Told ==
     "all" :> "whether all of {} are true" @@ "any" :> "whether any of {} are true"
  @@ "avg_time_between" :> "the average time between each of {}" @@ "count" :> "the number"
  @@ "entropy" :> "the entropy of {}" @@ "first" :> "the first instance of {}" @@ "last" :> "the last instance of {}"
  @@ "max" :> "the maximum of {}" @@ "mean" :> "the average of {}" @@ "median" :> "the median of {}" @@ "min" :> "the minimum of {}"
  @@ "mode" :> "the most frequently occurring value of {}" @@ "num_true" :> "the number of times {} is true"
  @@ "num_unique" :> "the number of unique elements in {}" @@ "percent_true" :> "the percentage of true values in {}"
  @@ "skew" :> "the skewness of {}" @@ "std" :> "the standard deviation of {}" @@ "sum" :> "the sum of {}"
  @@ "time_since_first" :> "the time since the first {}" @@ "time_since_last" :> "the time since the last {}"
  @@ "trend" :> "the linear trend of {} over time" @@ "absolute" :> "the absolute value of {}"
  @@ "add_numeric" :> "the sum of {} and {}" @@ "age" :> "the age from {}" @@ "and" :> "whether {} and {} are true"
  @@ "cum_count" :> "the cumulative count of {}" @@ "cum_max" :> "the cumulative maximum of {}" @@ "cum_mean" :> "the cumulative mean of {}"
  @@ "cum_min" :> "the cumulative minimum of {}" @@ "cum_sum" :> "the cumulative sum of {}" @@ "day" :> "the day of the month of {}"
  @@ "diff" :> "the difference from the previous value of {}" @@ "divide_numeric" :> "the result of {} divided by {}"
  @@ "equal" :> "whether {} equals {}" @@ "greater_than" :> "whether {} is greater than {}"
  @@ "greater_than_equal_to" :> "whether {} is greater than or equal to {}" @@ "hour" :> "the hour value of {}"
  @@ "is_null" :> "whether {} is null" @@ "is_weekend" :> "whether {} occurred on a weekend" @@ "latitude" :> "the latitude of {}"
  @@ "less_than" :> "whether {} is less than {}" @@ "less_than_equal_to" :> "whether {} is less than or equal to {}"
  @@ "longitude" :> "the longitude of {}" @@ "minute" :> "the minutes value of {}" @@ "modulo_numeric" :> "the remainder after dividing {} by {}"
  @@ "month" :> "the month of {}" @@ "multiply_boolean" :> "the product of {} and {}" @@ "multiply_numeric" :> "the product of {} and {}"
  @@ "negate" :> "the negation of {}" @@ "not" :> "the negation of {}" @@ "not_equal" :> "whether {} does not equal {}"
  @@ "num_characters" :> "the number of characters in {}" @@ "num_words" :> "the number of words in {}"
  @@ "or" :> "whether {} is true or {} is true" @@ "percentile" :> "the percentile rank of {}" @@ "second" :> "the seconds value of {}"
  @@ "subtract_numeric" :> "the result of {} minus {}" @@ "time_since" :> "the time from {} to the cutoff time"
  @@ "time_since_previous" :> "the time since the previous instance of {}" @@ "week" :> "the week of the year of {}"
  @@ "weekday" :> "the day of the week of {}" @@ "year" :> "the year of {}"
\* <<before the column, after it>>; the parameter goes at the end, or first
ToldWith ==
     "add_numeric_scalar" :> <<"the sum of {} and ", "">> @@ "divide_by_feature" :> <<"the result of ", " divided by {}">>
  @@ "divide_numeric_scalar" :> <<"the result of {} divided by ", "">> @@ "equal_scalar" :> <<"whether {} equals ", "">>
  @@ "greater_than_equal_to_scalar" :> <<"whether {} is greater than or equal to ", "">> @@ "greater_than_scalar" :> <<"whether {} is greater than ", "">>
  @@ "less_than_equal_to_scalar" :> <<"whether {} is less than or equal to ", "">> @@ "less_than_scalar" :> <<"whether {} is less than ", "">>
  @@ "modulo_by_feature" :> <<"the remainder after dividing ", " by {}">> @@ "modulo_numeric_scalar" :> <<"the remainder after dividing {} by ", "">>
  @@ "multiply_numeric_scalar" :> <<"the product of {} and ", "">> @@ "not_equal_scalar" :> <<"whether {} does not equal ", "">>
  @@ "scalar_subtract_numeric_feature" :> <<"the result ", " minus {}">> @@ "subtract_numeric_scalar" :> <<"the result of {} minus ", "">>
ListText(t) == IF t \in {"None", "[]"} THEN "[]" ELSE Without(t, {"[", "]", "'"})
\* the templates of a primitive: of the whole and, if any, of single outputs
Templates(p) ==
  CASE p.n \in DOMAIN Told -> <<Told[p.n]>>
    [] p.n \in DOMAIN ToldWith -> <<ToldWith[p.n][1] \o ParText(p, "value") \o ToldWith[p.n][2]>>
    [] p.n = "isin" -> <<"whether {} is in " \o ListText(ParText(p, "list_of_outputs"))>>
    [] p.n = "haversine" -> <<"the haversine distance in " \o ParText(p, "unit") \o " between {} and {}">>
    [] p.n = "n_most_common" -> <<"the " \o ParText(p, "n") \o " most common values of {}", "the most common value of {}",
                                  "the {nth_slice} most common value of {}">>
    [] OTHER -> <<>>
\* one output (o > 0) or the whole (o = 0) of primitive p over texts q
Named0(p) == Upper(p.n)
Doing(p, given, q, o) ==
  LET t == IF given # <<>> THEN given ELSE Templates(p) IN
  IF t = <<>> THEN
    IF o = 0 THEN "the result of applying " \o Named0(p) \o " to " \o Join(q, ", ")
    ELSE "the " \o Nth(o) \o " output from applying " \o Named0(p) \o " to " \o Join(q, ", ")
  ELSE IF o = 0 \/ Len(t) = 1 THEN Fill(t[1], q, "")
  ELSE IF p.n = "n_most_common" /\ given = <<>> THEN Fill(t[IF o = 1 THEN 2 ELSE 3], q, Nth(o))
  ELSE Fill(t[IF o + 1 <= Len(t) THEN o + 1 ELSE 2], q, Nth(o))

Unique(f) == f.e \o ": " \o f.nm
First(S, default) == IF S = <<>> THEN default ELSE S[1]
Given(X, u) == SelectSeq(X.texts, LAMBDA x : x[1] = u)
HasText(X, u) == Given(X, u) # <<>>
Text(X, u) == Given(X, u)[1][2]
GivenTemplate(X, f) ==
  LET q == SelectSeq(X.temps, LAMBDA x : x[1] = f.p.n /\ x[2] \in {"", Unique(f)}) IN IF q = <<>> THEN <<>> ELSE q[1][3]
ColText(X, f) ==
  LET q == SelectSeq(X.cols, LAMBDA x : x[1] = f.e /\ x[2] = f.v) IN IF q = <<>> THEN "the " \o Quoted(f.v) ELSE q[1][3]

\* the relationships of a chain of parents, nearest first, and what is at its end
RECURSIVE Chain(_), ChainEnd(_)
Chain(f) == IF f.k = "dir" THEN <<f.path[1]>> \o Chain(f.b[1]) ELSE <<>>
ChainEnd(f) == IF f.k = "dir" THEN ChainEnd(f.b[1]) ELSE f
RECURSIVE Parents(_)
Parents(q) == IF Len(q) = 1 THEN " the instance of " \o Quoted(q[1].pe) \o " associated with this instance of " \o Quoted(q[1].ce)
              ELSE " the instance of " \o Quoted(q[Len(q)].pe) \o " associated with" \o Parents(SubSeq(q, 1, Len(q) - 1))
Each(g) == "for each " \o (IF Begins(g, "the ") THEN After(g, "the ") ELSE g)

RECURSIVE Say(_, _, _), Whose(_, _, _, _), Where(_, _, _)
\* rows for which a condition holds
Where(C, X, w) ==
  IF w.k \in {"tra", "grp"} /\ w.p.n = "equal_scalar" THEN "where " \o Say(C, X, w.b[1]) \o " is " \o ParText(w.p, "value")
  ELSE LET s == Say(C, X, w) IN IF Begins(s, "whether ") THEN "where " \o After(s, "whether ") ELSE "where " \o s \o " is true"
\* f's output o (0: f as a whole)
Whose(C, X, f, o) ==
  IF f.k = "dir" THEN
    LET x == ChainEnd(f) IN (IF o = 0 THEN Say(C, X, x) ELSE Say(C, X, Slice(C, x, o))) \o " for" \o Parents(Chain(f))
  ELSE LET does == Doing(f.p, GivenTemplate(X, f), [i \in 1..Len(f.b) |-> Say(C, X, f.b[i])], o)
           index == [Blank EXCEPT !.e = f.e, !.nm = Ent(C.es, f.e).index]
       IN CASE f.k = "agg" ->
                 Phrases(<<does,
                           (IF f.pv = "" THEN "of all instances of " ELSE "of the previous " \o Lower(f.pv) \o " of ") \o Quoted(f.path[Len(f.path)].ce),
                           IF f.w = <<>> THEN "" ELSE Where(C, X, f.w[1]),
                           Each(IF HasText(X, Unique(index)) THEN Text(X, Unique(index)) ELSE Quoted(index.nm) \o " in " \o Quoted(f.e))>>)
            [] f.k = "grp" -> Phrases(<<does, Each(Say(C, X, f.g[1]))>>)
            [] OTHER -> does
Say(C, X, f) ==
  IF HasText(X, Unique(f)) THEN Text(X, Unique(f))
  ELSE IF f.k = "id" THEN ColText(X, f)
  ELSE IF f.k = "sl" THEN Whose(C, X, f.b[1], f.o)
  ELSE Whose(C, X, f, 0)
Describe(C, X, f) == LET s == Say(C, X, f) IN UpperC(At(s, 1)) \o SubSeq(s, 2, Len(s)) \o "."
=============================================================================
