----------------------------- MODULE FTCatalog -----------------------------
(***************************************************************************)
(* What is documented about every variable type and every primitive: the   *)
(* kinds of which a type is a special case; the types a primitive takes    *)
(* (one list per alternative) and returns ("" the type of its input), how  *)
(* its features are named, its parameters with their defaults, whether the *)
(* order of its inputs matters, and on what it may be stacked.             *)
(* The primitives whose names end in _x are the harness's own (dfs.py).    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Kinds == [
  Boolean |-> {"Boolean", "Variable"},
  Categorical |-> {"Categorical", "Discrete", "Variable"},
  CountryCode |-> {"CountryCode", "Categorical", "Discrete", "Variable"},
  DateOfBirth |-> {"DateOfBirth", "Datetime", "Variable"},
  Datetime |-> {"Datetime", "Variable"},
  DatetimeTimeIndex |-> {"DatetimeTimeIndex", "TimeIndex", "Datetime", "Variable"},
  Discrete |-> {"Discrete", "Variable"},
  EmailAddress |-> {"EmailAddress", "Variable"},
  FilePath |-> {"FilePath", "Variable"},
  FullName |-> {"FullName", "Variable"},
  IPAddress |-> {"IPAddress", "Variable"},
  Id |-> {"Id", "Categorical", "Discrete", "Variable"},
  Index |-> {"Index", "Variable"},
  LatLong |-> {"LatLong", "Variable"},
  NaturalLanguage |-> {"NaturalLanguage", "Variable"},
  Numeric |-> {"Numeric", "Variable"},
  NumericTimeIndex |-> {"NumericTimeIndex", "TimeIndex", "Numeric", "Variable"},
  Ordinal |-> {"Ordinal", "Discrete", "Variable"},
  PhoneNumber |-> {"PhoneNumber", "Variable"},
  SubRegionCode |-> {"SubRegionCode", "Categorical", "Discrete", "Variable"},
  Text |-> {"Text", "NaturalLanguage", "Variable"},
  TimeIndex |-> {"TimeIndex", "Variable"},
  Timedelta |-> {"Timedelta", "Variable"},
  URL |-> {"URL", "Variable"},
  Unknown |-> {"Unknown", "Variable"},
  Variable |-> {"Variable"},
  ZIPCode |-> {"ZIPCode", "Categorical", "Discrete", "Variable"}]
IsA(t, u) == u \in Kinds[t]

Free == <<>>                       \* no list of permitted primitives
Only(s) == <<s>>
Agg(ins, ret, fmt, pars, on, notOn, self) ==
  [agg |-> TRUE, ins |-> ins, ret |-> ret, fmt |-> fmt, pars |-> pars, comm |-> "no",
   on |-> on, notOn |-> notOn, self |-> self, of |-> Free, notOf |-> {}]
Trans(ins, ret, fmt, pars, comm) ==
  [agg |-> FALSE, ins |-> ins, ret |-> ret, fmt |-> fmt, pars |-> pars, comm |-> comm,
   on |-> Free, notOn |-> {}, self |-> TRUE, of |-> Free, notOf |-> {}]

Own ==
     "only_sums_x" :> Agg(<<<<"Numeric">>>>, "Numeric", <<"call", "ONLY_SUMS_X">>, <<>>, Only({"sum"}), {}, TRUE)
  @@ "not_means_x" :> Agg(<<<<"Numeric">>>>, "Numeric", <<"call", "NOT_MEANS_X">>, <<>>, Free, {"mean", "max"}, TRUE)
  @@ "base_of_sum_x" :> [Agg(<<<<"Numeric">>>>, "Numeric", <<"call", "BASE_OF_SUM_X">>, <<>>, Free, {}, TRUE) EXCEPT !.of = Only({"sum"})]
  @@ "not_base_of_x" :> [Agg(<<<<"Numeric">>>>, "Numeric", <<"call", "NOT_BASE_OF_X">>, <<>>, Free, {}, TRUE) EXCEPT !.notOf = {"sum", "only_sums_x", "spread_x"}]
  @@ "spread_x" :> [Agg(<<<<"Numeric", "Numeric">>>>, "Numeric", <<"call", "SPREAD_X">>, <<>>, Free, {}, TRUE) EXCEPT !.comm = "yes"]
  @@ "weigh_x" :> Agg(<<<<"Numeric", "Numeric">>>>, "Numeric", <<"call", "WEIGH_X">>, <<>>, Only({"sum", "count"}), {}, TRUE)
  @@ "by_kind_x" :> Agg(<<<<"Numeric", "Discrete">>>>, "Numeric", <<"call", "BY_KIND_X">>, <<>>, Free, {"mean", "mode"}, TRUE)
  @@ "ends_x" :> Agg(<<<<"Numeric">>>>, "Numeric", <<"call", "ENDS_X">>, <<>>, Free, {}, TRUE)
  @@ "parts_x" :> Trans(<<<<"Datetime">>>>, "Numeric", <<"call", "PARTS_X">>, <<>>, "no")
Primitives ==
     "all" :> Agg(<<<<"Boolean">>>>, "Boolean", <<"call", "ALL">>, <<>>, Free, {}, FALSE)
  @@ "any" :> Agg(<<<<"Boolean">>>>, "Boolean", <<"call", "ANY">>, <<>>, Free, {}, FALSE)
  @@ "avg_time_between" :> Agg(<<<<"DatetimeTimeIndex">>>>, "Numeric", <<"call", "AVG_TIME_BETWEEN">>, <<<<"unit", "seconds">>>>, Free, {}, TRUE)
  @@ "count" :> Agg(<<<<"Index">>>>, "Numeric", <<"count", "COUNT">>, <<>>, Free, {}, FALSE)
  @@ "entropy" :> Agg(<<<<"Categorical">>>>, "Numeric", <<"call", "ENTROPY">>, <<<<"dropna", "False">>, <<"base", "None">>>>, Free, {}, FALSE)
  @@ "first" :> Agg(<<<<"Variable">>>>, "", <<"call", "FIRST">>, <<>>, Free, {}, FALSE)
  @@ "last" :> Agg(<<<<"Variable">>>>, "", <<"call", "LAST">>, <<>>, Free, {}, FALSE)
  @@ "max" :> Agg(<<<<"Numeric">>>>, "Numeric", <<"call", "MAX">>, <<>>, Free, {}, FALSE)
  @@ "mean" :> Agg(<<<<"Numeric">>>>, "Numeric", <<"call", "MEAN">>, <<<<"skipna", "True">>>>, Free, {}, TRUE)
  @@ "median" :> Agg(<<<<"Numeric">>>>, "Numeric", <<"call", "MEDIAN">>, <<>>, Free, {}, TRUE)
  @@ "min" :> Agg(<<<<"Numeric">>>>, "Numeric", <<"call", "MIN">>, <<>>, Free, {}, FALSE)
  @@ "mode" :> Agg(<<<<"Discrete">>>>, "", <<"call", "MODE">>, <<>>, Free, {}, TRUE)
  @@ "n_most_common" :> Agg(<<<<"Discrete">>>>, "Discrete", <<"call", "N_MOST_COMMON">>, <<<<"n", "3">>>>, Free, {}, TRUE)
  @@ "num_true" :> Agg(<<<<"Boolean">>>>, "Numeric", <<"call", "NUM_TRUE">>, <<>>, Only({}), {}, TRUE)
  @@ "num_unique" :> Agg(<<<<"Discrete">>>>, "Numeric", <<"call", "NUM_UNIQUE">>, <<>>, Free, {}, FALSE)
  @@ "percent_true" :> Agg(<<<<"Boolean">>>>, "Numeric", <<"call", "PERCENT_TRUE">>, <<>>, Only({}), {}, TRUE)
  @@ "skew" :> Agg(<<<<"Numeric">>>>, "Numeric", <<"call", "SKEW">>, <<>>, Only({}), {}, FALSE)
  @@ "std" :> Agg(<<<<"Numeric">>>>, "Numeric", <<"call", "STD">>, <<>>, Free, {}, FALSE)
  @@ "sum" :> Agg(<<<<"Numeric">>>>, "Numeric", <<"call", "SUM">>, <<>>, Free, {"count"}, FALSE)
  @@ "time_since_first" :> Agg(<<<<"DatetimeTimeIndex">>>>, "Numeric", <<"call", "TIME_SINCE_FIRST">>, <<<<"unit", "seconds">>>>, Free, {}, TRUE)
  @@ "time_since_last" :> Agg(<<<<"DatetimeTimeIndex">>>>, "Numeric", <<"call", "TIME_SINCE_LAST">>, <<<<"unit", "seconds">>>>, Free, {}, TRUE)
  @@ "trend" :> Agg(<<<<"Numeric", "DatetimeTimeIndex">>>>, "Numeric", <<"call", "TREND">>, <<>>, Free, {}, TRUE)
  @@ "absolute" :> Trans(<<<<"Numeric">>>>, "Numeric", <<"call", "ABSOLUTE">>, <<>>, "no")
  @@ "add_numeric" :> Trans(<<<<"Numeric", "Numeric">>>>, "Numeric", <<"infix", "+">>, <<>>, "yes")
  @@ "add_numeric_scalar" :> Trans(<<<<"Numeric">>>>, "Numeric", <<"scalar", "+">>, <<<<"value", "0">>>>, "no")
  @@ "age" :> Trans(<<<<"DateOfBirth">>>>, "Numeric", <<"call", "AGE">>, <<>>, "no")
  @@ "and" :> Trans(<<<<"Boolean", "Boolean">>>>, "Boolean", <<"pair", "AND">>, <<>>, "yes")
  @@ "cum_count" :> Trans(<<<<"Id">>, <<"Discrete">>>>, "Numeric", <<"call", "CUM_COUNT">>, <<>>, "no")
  @@ "cum_max" :> Trans(<<<<"Numeric">>>>, "Numeric", <<"call", "CUM_MAX">>, <<>>, "no")
  @@ "cum_mean" :> Trans(<<<<"Numeric">>>>, "Numeric", <<"call", "CUM_MEAN">>, <<>>, "no")
  @@ "cum_min" :> Trans(<<<<"Numeric">>>>, "Numeric", <<"call", "CUM_MIN">>, <<>>, "no")
  @@ "cum_sum" :> Trans(<<<<"Numeric">>>>, "Numeric", <<"call", "CUM_SUM">>, <<>>, "no")
  @@ "day" :> Trans(<<<<"Datetime">>>>, "Ordinal", <<"call", "DAY">>, <<>>, "no")
  @@ "diff" :> Trans(<<<<"Numeric">>>>, "Numeric", <<"call", "DIFF">>, <<>>, "no")
  @@ "divide_by_feature" :> Trans(<<<<"Numeric">>>>, "Numeric", <<"reversed", "/">>, <<<<"value", "1">>>>, "no")
  @@ "divide_numeric" :> Trans(<<<<"Numeric", "Numeric">>>>, "Numeric", <<"infix", "/">>, <<<<"commutative", "False">>>>, "param")
  @@ "divide_numeric_scalar" :> Trans(<<<<"Numeric">>>>, "Numeric", <<"scalar", "/">>, <<<<"value", "1">>>>, "no")
  @@ "equal" :> Trans(<<<<"Variable", "Variable">>>>, "Boolean", <<"infix", "=">>, <<>>, "yes")
  @@ "equal_scalar" :> Trans(<<<<"Variable">>>>, "Boolean", <<"scalar", "=">>, <<<<"value", "None">>>>, "no")
  @@ "greater_than" :> Trans(<<<<"Numeric", "Numeric">>, <<"Datetime", "Datetime">>, <<"Ordinal", "Ordinal">>>>, "Boolean", <<"infix", ">">>, <<>>, "no")
  @@ "greater_than_equal_to" :> Trans(<<<<"Numeric", "Numeric">>, <<"Datetime", "Datetime">>, <<"Ordinal", "Ordinal">>>>, "Boolean", <<"infix", ">=">>, <<>>, "no")
  @@ "greater_than_equal_to_scalar" :> Trans(<<<<"Numeric">>, <<"Datetime">>, <<"Ordinal">>>>, "Boolean", <<"scalar", ">=">>, <<<<"value", "0">>>>, "no")
  @@ "greater_than_scalar" :> Trans(<<<<"Numeric">>, <<"Datetime">>, <<"Ordinal">>>>, "Boolean", <<"scalar", ">">>, <<<<"value", "0">>>>, "no")
  @@ "haversine" :> Trans(<<<<"LatLong", "LatLong">>>>, "Numeric", <<"call", "HAVERSINE">>, <<<<"unit", "miles">>>>, "yes")
  @@ "hour" :> Trans(<<<<"Datetime">>>>, "Ordinal", <<"call", "HOUR">>, <<>>, "no")
  @@ "is_null" :> Trans(<<<<"Variable">>>>, "Boolean", <<"call", "IS_NULL">>, <<>>, "no")
  @@ "is_weekend" :> Trans(<<<<"Datetime">>>>, "Boolean", <<"call", "IS_WEEKEND">>, <<>>, "no")
  @@ "isin" :> Trans(<<<<"Variable">>>>, "Boolean", <<"isin", "">>, <<<<"list_of_outputs", "None">>>>, "no")
  @@ "latitude" :> Trans(<<<<"LatLong">>>>, "Numeric", <<"call", "LATITUDE">>, <<>>, "no")
  @@ "less_than" :> Trans(<<<<"Numeric", "Numeric">>, <<"Datetime", "Datetime">>, <<"Ordinal", "Ordinal">>>>, "Boolean", <<"infix", "<">>, <<>>, "no")
  @@ "less_than_equal_to" :> Trans(<<<<"Numeric", "Numeric">>, <<"Datetime", "Datetime">>, <<"Ordinal", "Ordinal">>>>, "Boolean", <<"infix", "<=">>, <<>>, "no")
  @@ "less_than_equal_to_scalar" :> Trans(<<<<"Numeric">>, <<"Datetime">>, <<"Ordinal">>>>, "Boolean", <<"scalar", "<=">>, <<<<"value", "0">>>>, "no")
  @@ "less_than_scalar" :> Trans(<<<<"Numeric">>, <<"Datetime">>, <<"Ordinal">>>>, "Boolean", <<"scalar", "<">>, <<<<"value", "0">>>>, "no")
  @@ "longitude" :> Trans(<<<<"LatLong">>>>, "Numeric", <<"call", "LONGITUDE">>, <<>>, "no")
  @@ "minute" :> Trans(<<<<"Datetime">>>>, "Numeric", <<"call", "MINUTE">>, <<>>, "no")
  @@ "modulo_by_feature" :> Trans(<<<<"Numeric">>>>, "Numeric", <<"reversed", "%">>, <<<<"value", "1">>>>, "no")
  @@ "modulo_numeric" :> Trans(<<<<"Numeric", "Numeric">>>>, "Numeric", <<"infix", "%">>, <<>>, "no")
  @@ "modulo_numeric_scalar" :> Trans(<<<<"Numeric">>>>, "Numeric", <<"scalar", "%">>, <<<<"value", "1">>>>, "no")
  @@ "month" :> Trans(<<<<"Datetime">>>>, "Ordinal", <<"call", "MONTH">>, <<>>, "no")
  @@ "multiply_boolean" :> Trans(<<<<"Boolean", "Boolean">>>>, "Boolean", <<"infix", "*">>, <<>>, "yes")
  @@ "multiply_numeric" :> Trans(<<<<"Numeric", "Numeric">>, <<"Numeric", "Boolean">>, <<"Boolean", "Numeric">>>>, "Numeric", <<"infix", "*">>, <<>>, "yes")
  @@ "multiply_numeric_scalar" :> Trans(<<<<"Numeric">>>>, "Numeric", <<"scalar", "*">>, <<<<"value", "1">>>>, "no")
  @@ "negate" :> Trans(<<<<"Numeric">>>>, "Numeric", <<"negate", "">>, <<>>, "no")
  @@ "not" :> Trans(<<<<"Boolean">>>>, "Boolean", <<"one", "NOT">>, <<>>, "no")
  @@ "not_equal" :> Trans(<<<<"Variable", "Variable">>>>, "Boolean", <<"infix", "!=">>, <<>>, "yes")
  @@ "not_equal_scalar" :> Trans(<<<<"Variable">>>>, "Boolean", <<"scalar", "!=">>, <<<<"value", "None">>>>, "no")
  @@ "num_characters" :> Trans(<<<<"NaturalLanguage">>>>, "Numeric", <<"call", "NUM_CHARACTERS">>, <<>>, "no")
  @@ "num_words" :> Trans(<<<<"NaturalLanguage">>>>, "Numeric", <<"call", "NUM_WORDS">>, <<>>, "no")
  @@ "or" :> Trans(<<<<"Boolean", "Boolean">>>>, "Boolean", <<"pair", "OR">>, <<>>, "yes")
  @@ "percentile" :> Trans(<<<<"Numeric">>>>, "Numeric", <<"call", "PERCENTILE">>, <<>>, "no")
  @@ "scalar_subtract_numeric_feature" :> Trans(<<<<"Numeric">>>>, "Numeric", <<"reversed", "-">>, <<<<"value", "0">>>>, "no")
  @@ "second" :> Trans(<<<<"Datetime">>>>, "Numeric", <<"call", "SECOND">>, <<>>, "no")
  @@ "subtract_numeric" :> Trans(<<<<"Numeric", "Numeric">>>>, "Numeric", <<"infix", "-">>, <<<<"commutative", "True">>>>, "param")
  @@ "subtract_numeric_scalar" :> Trans(<<<<"Numeric">>>>, "Numeric", <<"scalar", "-">>, <<<<"value", "0">>>>, "no")
  @@ "time_since" :> Trans(<<<<"Datetime">>>>, "Numeric", <<"call", "TIME_SINCE">>, <<<<"unit", "seconds">>>>, "no")
  @@ "time_since_previous" :> Trans(<<<<"DatetimeTimeIndex">>>>, "Numeric", <<"call", "TIME_SINCE_PREVIOUS">>, <<<<"unit", "seconds">>>>, "no")
  @@ "week" :> Trans(<<<<"Datetime">>>>, "Ordinal", <<"call", "WEEK">>, <<>>, "no")
  @@ "weekday" :> Trans(<<<<"Datetime">>>>, "Ordinal", <<"call", "WEEKDAY">>, <<>>, "no")
  @@ "year" :> Trans(<<<<"Datetime">>>>, "Ordinal", <<"call", "YEAR">>, <<>>, "no")
  @@ Own
\* primitives that need neither an order of the rows, nor a whole column, nor several columns of a group
Distributed ==
  {"absolute", "add_numeric", "add_numeric_scalar", "age", "all", "and", "any", "count", "day",
   "divide_by_feature", "divide_numeric", "divide_numeric_scalar", "equal", "equal_scalar", "greater_than",
   "greater_than_equal_to", "greater_than_equal_to_scalar", "greater_than_scalar", "hour", "is_null",
   "is_weekend", "isin", "less_than", "less_than_equal_to", "less_than_equal_to_scalar", "less_than_scalar",
   "max", "mean", "min", "minute", "modulo_by_feature", "modulo_numeric", "modulo_numeric_scalar", "month",
   "multiply_boolean", "multiply_numeric", "multiply_numeric_scalar", "negate", "not", "not_equal",
   "not_equal_scalar", "num_characters", "num_true", "num_unique", "num_words", "or", "percent_true",
   "scalar_subtract_numeric_feature", "second", "std", "subtract_numeric", "subtract_numeric_scalar", "sum",
   "time_since", "week", "weekday", "year"}
\* what is used when no primitives are named (age is not documented as a default but is one)
DefaultAggs == <<"sum", "std", "max", "skew", "min", "mean", "count", "percent_true", "num_unique", "mode">>
DefaultTrans == <<"age", "day", "year", "month", "weekday", "haversine", "num_words", "num_characters">>
NumOutputs(p) == IF p.n = "n_most_common" THEN p.outs ELSE IF p.n = "ends_x" THEN 2 ELSE IF p.n = "parts_x" THEN 2 ELSE 1
=============================================================================
