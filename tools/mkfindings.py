"""Writes known-findings.json (edit here)."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
F = [
 dict(id="C08-1", property="C08", probe="approx_now",
      what="when every aggregation of a request is approximated, the other features (and the visibility of the instances) are "
           "evaluated as of now, without a training window, instead of at the row's cutoff time (calculate_chunk: "
           "no_unapproximated_aggs; the repository's test test_approx_dfeat_of_agg... relies on it)",
      allows="spec/FTEval.tla DeviantMatrix, only under NoAggLeft"),
 dict(id="C19-1", property="C19", probe="deep_direct",
      what="a direct feature of a parent entity that synthesis also reaches along a shorter path can be one deeper than max_depth "
           "(_build_forward_features admits base features of depth max_depth; five of the repository's tests, "
           "test_makes_direct_features_along_multiple_paths among them, count on it)",
      allows="spec/FTSynthesisTrace.tla DeviantDirect: one level, for direct features of the target only"),
 dict(id="C17-1", property="C17", probe="same_names",
      what="two different features of one entity with the same name (custom names, or ambiguous ones as in C18-1) become one when saved and loaded, "
           "because definitions are saved under their names", allows="not generated: harness/defs.py clash"),
 dict(id="C17-2", property="C17", probe="time_parameter",
      what="features whose primitive has a point in time as a parameter (t > Timestamp) cannot be saved: TypeError, nothing is written",
      allows="not generated: parameters are numbers, strings, booleans, None and lists"),
 dict(id="C18-1", property="C18", probe="bare_operators",
      what="names write arithmetic, comparisons and group-bys without parentheses and strings without quotes, so that some different features share a "
           "name: (a - b) - a and a - (b - a); x = 1 and x = '1'; the difference of two direct features and the direct feature of a difference",
      allows="spec/FTDefs.tla SameName: only pairs whose delimited names (Clear) differ"),
 dict(id="C30-1", property="C30", probe="std_sample",
      what="STD in a feature matrix is the sample standard deviation, while its documented example, and calling it, give the population's "
           "(pandas turns np.std into its own std when it aggregates groups)",
      allows="spec/FTPrimitives.tla Agg1 STD in matrices, spec/FTPrimitivesTrace.tla PopVar in calls"),
 dict(id="C16-1", property="C16", probe="csv_categories",
      what="an entity set whose keys are categorical is written to csv but cannot be read back (the columns get different categories: "
           "'Unable to add relationship because id in e0 is Pandas dtype category ...'); pickle and parquet keep them",
      allows="not generated: harness/esops.py session_read_calc makes such keys text before writing csv"),
 dict(id="C28-1", property="C28", probe="dask_rows",
      what="on distributed frames instances that do not exist or are not visible at their cutoff have no row (with extra columns: missing values) "
           "instead of a row of default values",
      allows="spec/FTSession.tla SeenAt: rows of such instances only"),
]
X = [
 "fixed: property=C21 50f0907 encoding gave indicators to categories that no row of the matrix has",
 "fixed: property=C28 165af3c on distributed frames ALL of a categorical key without rows was true instead of missing",
 "fixed: property=C16 9f79fe5 parquet turned missing strings into 'None' or 'nan' and booleans with missing values into strings",
 "fixed: property=C04 31065b9 KeyError for an aggregation along a path of several relationships when two entities share several relationships",
 "fixed: property=C05 480ce2e KeyError when the look-back of an aggregation leaves no rows at all",
 "fixed: property=C06 f49f035 TIME_SINCE_PREVIOUS depended on which instances were requested",
 "fixed: property=C11 9d17d5d calculating with a second time column wrote missing values into the stored data",
 "fixed: property=C24 638db1f progress files of morning and afternoon cutoffs overwrote each other",
 "fixed: property=C08 4a7da99 numeric cutoff times were not binned",
 "fixed: property=C06 e51f9f6 KeyError for a transform of one output of an aggregation with several",
 "fixed: property=C05 cb46bed aggregations with different look-backs of several units shared one value",
 "fixed: property=C06 98ec781 an aggregation without child data lost its datetime type and transforms of it failed",
 "fixed: property=C04 62ba282 KeyError when no child row is linked to any requested instance",
 "fixed: property=C06 8e8d36a a numeric aggregation of all-missing datetimes was a datetime and features stacked on it failed",
 "fixed: property=C09 3ba6d4e a reused cluster calculated on the data of an earlier entity set of the same structure",
 "fixed: property=C11 8999037 options were removed from the caller's dask_kwargs",
 "fixed: property=C08 eab7c18 approximating failed for features of several outputs, instances repeated within a window, windows of several units",
 "fixed: property=C08 7500c64 a whole-entity feature of an approximated aggregation depended on which instances were requested",
 "fixed: property=C24 21b1d3e chunks of one cutoff time overwrote each other's progress file; numeric times and fully approximated requests failed",
 "fixed: property=C24 b62972a save_progress was ignored by calculations at a single cutoff time",
 "fixed: property=C23 2de83ba a numpy datetime as the single cutoff failed together with a training window or a look-back",
 "fixed: property=C30 55816f0 N_MOST_COMMON of a categorical column returned categories without any row",
 "fixed: property=C30 31a982c N_MOST_COMMON of one value could not be calculated",
 "fixed: property=C28 f95e5cc PERCENT_TRUE of booleans with missing values failed on distributed frames",
 "fixed: property=C12 3f3b2f8 a rejected relationship had already changed the type of its columns",
 "fixed: property=C12 987eee7 a rejected replacement of an entity's data left the new data in place",
 "fixed: property=C12 2036b74 a rejected entity had already decided the time type of the set",
 "fixed: property=C12 d4609fc normalizing an entity into its own id destroyed it",
 "fixed: property=C12 5e17a96 secondary time indexes kept naming columns that had been moved or renamed (also b6bfb1b)",
 "fixed: property=C12 c5a7a38 normalizing could move the index or the link of an entity away",
 "fixed: property=C12 ae7ffea the kind of a time column was judged by a missing first value",
 "fixed: property=C12 7c0f1f1 the index of an entity could become its time index, losing the index",
 "fixed: property=C13 9dc9978 normalize_entity changed the caller's list of variables",
 "fixed: property=C14 5cae96e last times followed only one of several relationships between two entities",
 "fixed: property=C14 6b4c070 last times of sets with numeric times failed",
 "fixed: property=C14 eb1fed6 last times failed for entities whose index is categorical",
 "fixed: property=C14 9e2a7a2 a child without last times hid those of the other children",
 "fixed: property=C31 4ee7c25 categories without any row became interesting values",
 "fixed: property=C16 a3d7591 csv was read with another separator than it was written with",
 "fixed: property=C16 0b62e77 the order of rows changed when an entity set was written and read",
 "fixed: property=C16 67a5cb1 strings that look like numbers or missing values changed type through csv",
 "fixed: property=C16 abc8fc6 interesting strings that look like numbers or dates changed type",
 "fixed: property=C16 ad2e915 rows whose values are all missing were dropped by csv",
 "fixed: property=C29 6e397d7 temporal cutoffs from num_windows alone, or for fewer cutoffs than instances, were made up or dropped silently",
 "fixed: property=C25 c5f70ca plural time units in capitals were not understood",
 "fixed: property=C25 939712c spans of several units that include milliseconds failed",
 "fixed: property=C21 3909b34 drop_first with a number of top values per feature failed",
 "fixed: property=C10 356cc57 single columns of multi output features (such as selection returns) could not be calculated",
 "fixed: property=C33 2b51b06 describing features failed when two features with several outputs have one name and one of them has a text",
 "fixed: property=C33 7c4115d aggregations under conditions other than equality were described as equality, or describing them failed",
 "fixed: property=C33 e689ace single outputs of direct features could not be described, those of group-by features were described without the group",
 "fixed: property=C22 f49caa1 the order of features_to_check decided which of two correlated features was removed",
 "fixed: property=C22 2f57cbd None and NaN counted as two values in single value and null removal",
 "fixed: property=C22 c13526d multi output features were dropped from the definitions although their columns stayed",
 "fixed: property=C20 ad84bbc the order of conditional features differed from process to process (hash seed)",
 "fixed: property=C20 2476a8c commutative inputs whose names differ in case only were ordered by the hash seed",
 "fixed: property=C19 1f37ecd base_of_exclude of a primitive was never respected",
 "fixed: property=C20 afcf0af a synthesis in which a direct feature is the group of a group-by feature failed",
 "fixed: property=C17 3d83270 a group-by feature grouped by one of its inputs lost that input when saved; the caller's list of inputs was changed",
 "fixed: property=C17 dbf9311 features whose primitives have numpy scalars as parameters could not be saved",
 "fixed: property=C17 2cf5f35 schema versions were compared as text (10 before 6)",
]
json.dump(dict(findings=F, fixed=X), open("known-findings.json", "w"), indent=1)
