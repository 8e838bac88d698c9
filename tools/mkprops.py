"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
CFM = "featuretools/computational_backends/calculate_feature_matrix.py"
FSC = "featuretools/computational_backends/feature_set_calculator.py"
FS = "featuretools/computational_backends/feature_set.py"
CU = "featuretools/computational_backends/utils.py"
ES = "featuretools/entityset/entityset.py"
EN = "featuretools/entityset/entity.py"
RE = "featuretools/entityset/relationship.py"
TD = "featuretools/entityset/timedelta.py"
SER = "featuretools/entityset/serialize.py"
DES = "featuretools/entityset/deserialize.py"
FB = "featuretools/feature_base/feature_base.py"
FSER = "featuretools/feature_base/features_serializer.py"
FDES = "featuretools/feature_base/features_deserializer.py"
DFS = "featuretools/synthesis/deep_feature_synthesis.py"
DFSM = "featuretools/synthesis/dfs.py"
ENC = "featuretools/synthesis/encode_features.py"
SEL = "featuretools/selection/selection.py"
OPT = "featuretools/primitives/options_utils.py"
PU = "featuretools/primitives/utils.py"
AGG = "featuretools/primitives/standard/aggregation_primitives.py"
TRA = "featuretools/primitives/standard/transform_primitive.py"
BIN = "featuretools/primitives/standard/binary_transform.py"
CUM = "featuretools/primitives/standard/cum_transform_feature.py"
WR = "featuretools/utils/wrangle.py"
EU = "featuretools/utils/entity_utils.py"
TU = "featuretools/utils/time_utils.py"
TRI = "featuretools/utils/trie.py"

def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=None)))

p("C01", "Features never use data from after the cutoff time",
  "When a feature matrix is calculated exactly (no approximation), the value of every feature in a row depends only on data rows whose own time is at or before that row's cutoff time (strictly before it when the caller asks to exclude the cutoff time), at every entity the feature reads, however many relationships away. Adding, removing or altering rows that lie after the cutoff never changes the result, and every row at or before the cutoff is used.",
  ["inputs", "configurations"],
  "all entity sets (any relationship shape, several rows with equal times, missing times, entities without a time index, numeric or datetime times), all feature stacks, all cutoff times per instance, both settings of including the cutoff time",
  "The tests compare a few fixed cutoffs on one e-commerce fixture; leakage appears only for particular coincidences of time ties, missing times, relationship depth and cutoff, which cannot be sampled one by one.",
  [EN, ES, FSC, CFM],
  [("time filter applied whenever an entity is queried", EN + " Entity.query_by_values / Entity._handle_time"),
   ("recursive calculation passes the same cutoff to every entity", FSC + " _calculate_features_for_entity"),
   ("grouping of rows by cutoff time", CFM + " calculate_chunk")],
  ["returned feature matrix of ft.calculate_feature_matrix"],
  [("cutoff time", "latest time a row's data may carry", CFM + " cutoff_time"),
   ("time index", "per-entity time at which a row becomes known", EN)])

p("C02", "A training window admits exactly the rows inside the window",
  "With a training window, a feature value is computed from exactly those data rows whose time lies within the window that ends at the cutoff time (open at the older end when the cutoff time is included, closed at the older end and open at the cutoff when it is excluded), plus rows with last-time information whose last known activity lies within the window. Rows of entities without times are never dropped by the window.",
  ["inputs", "configurations"],
  "all entity sets with datetime times, with or without computed last times, all windows and cutoffs including exact boundary hits, both settings of including the cutoff time",
  "Tests use one window on one dataset; the boundary cases (row exactly one window before the cutoff, last time inside while own time outside) form a product space no test list covers.",
  [EN, ES, FSC, CFM],
  [("window mask", EN + " Entity._handle_time"), ("last time index", ES + " EntitySet.add_last_time_indexes"),
   ("window passed to each query", FSC)],
  ["returned feature matrix of ft.calculate_feature_matrix"])

p("C03", "Columns with a later availability time stay hidden until it has passed",
  "If columns of an entity are declared to become known at a second time column, then in any feature calculation at a cutoff not later than... strictly after that second time their values (and the second time itself) are used, and at any cutoff at or before it they are treated as missing. Other columns of the same row are unaffected, and rows with a missing second time are not hidden.",
  ["inputs", "configurations"],
  "all entities with one or more second time columns, all cutoffs (also equal to the second time), all features reading the columns directly or through aggregation and transformation, any number of previous calculations on the same entity set",
  "Tests check a single flight example; whether masking is exact per column, per row and per cutoff, and does not disturb stored data, depends on all combinations.",
  [EN, ES, FSC],
  [("masking", EN + " Entity._handle_time"), ("declaration", EN + " Entity.set_secondary_time_index")],
  ["returned feature matrix of ft.calculate_feature_matrix"])

p("C04", "An aggregation uses exactly the related rows of its instance",
  "An aggregation feature of an instance is the primitive applied to the values of exactly those visible child rows linked to the instance along the feature's own relationship path, each once, in the child entity's row order, never rows of another instance or of another relationship between the same entities. An instance without related rows, or whose aggregate is undefined, gets the primitive's default value.",
  ["inputs", "programs"],
  "all relationship graphs (multi-step paths, several relationships between the same two entities, diamonds), all stackings of aggregations on aggregations, direct and transform features, all data including orphan-free missing keys, repeated instance requests and instances without children",
  "Fixture tests fix one relationship graph; mis-joins show only when identifiers collide across levels or instances have no children, combinations the tests do not enumerate.",
  [FSC, FS, FB, ES],
  [("group-by aggregation and merge", FSC + " _calculate_agg_features"),
   ("path of link columns", FSC + " _add_ancestor_relationship_variables"),
   ("default filling", FSC + " update_feature_columns / fillna")],
  ["returned feature matrix of ft.calculate_feature_matrix"])

p("C05", "Condition and look-back restrict an aggregation exactly",
  "An aggregation with a condition uses exactly the related visible rows where the condition feature is true (missing counts as false); one with a time look-back uses exactly those whose time is at or after the cutoff minus the look-back, and one with a row-count look-back exactly the last that many rows per instance. When both are given the condition is applied first.",
  ["inputs", "programs"],
  "all conditions (any boolean feature of the child, also stacked), all look-backs by time or number of rows, all cutoffs, data with ties and missing values",
  "Tests assert a few conditions and look-backs in isolation; interaction with cutoffs, ties and other aggregations in the same group is unbounded.",
  [FSC, FB, EN],
  [("where mask and use_previous grouping", FSC + " _calculate_agg_features"),
   ("boundary arithmetic", "featuretools/entityset/timedelta.py Timedelta.__rsub__")],
  ["returned feature matrix of ft.calculate_feature_matrix"])

p("C06", "Direct, transform and group-by features are evaluated row by row",
  "A direct feature equals the value of its base feature on the related parent row (the default if that row is not visible), a transform equals its primitive applied to the row's own base values, a transform defined over the whole entity sees every visible row of the entity in row order irrespective of which instances were requested, and a group-by transform sees exactly the visible rows sharing the row's group value and is missing when the group value is missing.",
  ["inputs", "programs"],
  "all feature stacks of direct, transform, cumulative, percentile, difference and group-by features over every relationship graph and data, any requested subset of instances",
  "Tests evaluate each kind on one fixture with all instances requested; the dependence on the requested subset, on missing group values and on stacking is a combinatorial space.",
  [FSC, FS, FB],
  [("direct merge", FSC + " _calculate_direct_features"), ("transform", FSC + " _calculate_transform_features"),
   ("group-by transform", FSC + " _calculate_groupby_features"),
   ("whole-entity detection", FS + " FeatureSet.uses_full_entity")],
  ["returned feature matrix of ft.calculate_feature_matrix"])

p("C07", "The feature matrix has one row per request, in order, correctly aligned",
  "The result has exactly one row per requested instance and cutoff pair in the order of the request, exactly the columns of the requested features in order (one per output of multi-output features), followed by the request's extra columns with each row's own value. The values in a row are those of that row's own instance and cutoff, and instances that do not exist or are not yet visible get default values.",
  ["inputs", "configurations"],
  "all request tables (unsorted, interleaved instances and times, repeated instances at different times, repeated times, extra columns, unknown instances, any index), with the cutoff in the index or not",
  "Alignment errors appear only for particular permutations of instance ids and times; tests use mostly sorted requests.",
  [CFM, CU, FSC],
  [("reindexing to request order", CFM + " calculate_feature_matrix"), ("pass-through columns", CFM + " calculate_chunk"),
   ("default row", FSC + " generate_default_df / run")],
  ["returned feature matrix: index, columns, values"])

p("C08", "Approximation changes only when approximable features are evaluated",
  "With an approximation window, features that bring an aggregation of a parent entity down to the target are evaluated at the row's cutoff time rounded down to a multiple of the window, with the same inclusion and training-window rules, and rows whose parent has no such value get the default. Every other feature of the same request has exactly its unapproximated value, and the rows, their order and their labels are those of the exact calculation.",
  ["inputs", "configurations"],
  "all feature sets mixing approximable and other features, all windows and cutoffs, including several cutoffs of one instance in one bin, numeric and datetime times",
  "Tests check a handful of windows on one fixture; binning errors and contamination of exact features depend on how cutoffs fall into bins.",
  [CFM, CU, FS, FSC],
  [("binning", CU + " bin_cutoff_times"), ("precomputation", CFM + " approximate_features"),
   ("choice of approximable features", CU + " gather_approximate_features")],
  ["returned feature matrix with approximate=..."])

p("C09", "How the work is split never changes the feature matrix",
  "For fixed inputs the feature matrix is the same for every chunk size, number of jobs, cluster (new or supplied and reused for any sequence of calculations on different data), completion order of the chunks, and with or without progress saving or callbacks. A failure inside a parallel calculation surfaces as an error and never as a matrix with missing or foreign rows.",
  ["schedules", "configurations", "histories"],
  "all partitions of the request into chunks, all completion orders of the chunks on any number of workers, all sequences of calculations sharing a cluster",
  "Tests run one schedule of one fixture on a fresh cluster; reordering, reuse of a cluster and stale scattered data are never explored.",
  [CFM, CU, ES],
  [("chunking", CFM + " _chunk_dataframe_groups / _handle_chunk_size"), ("scatter and gather", CFM + " parallel_calculate_chunks"),
   ("entity set token", ES + " EntitySet.__dask_tokenize__")],
  ["returned feature matrix for n_jobs, dask_kwargs, chunk_size"])

p("C10", "A value does not depend on what else is requested",
  "The value of a feature for an instance at a cutoff is the same whether it is requested alone or together with any other instances, cutoffs or features, in any order.",
  ["inputs", "programs"],
  "all subsets and permutations of requested features, instances and cutoffs",
  "Features share intermediate tables and are grouped by primitive; interference shows only for particular combinations, of which the tests request a few.",
  [FSC, FS, CFM],
  [("grouping of features sharing a primitive", FS + " FeatureSet.group_features"), ("trie of needed features", FS + " _build_feature_trie")],
  ["pairs of feature matrices"])

p("C11", "Calculating features leaves all inputs untouched",
  "Calculating a feature matrix (also when it fails) leaves the entity set's data, row order, types, relationships and times, the feature definitions and the caller's cutoff table, instance list and option objects exactly as they were, so repeating any calculation in any later position of a session gives the same result.",
  ["histories", "inputs"],
  "all sequences of calculations (exact, approximate, windowed, chunked, failing) interleaved on one entity set",
  "Tests calculate once per fixture; a write-through of a masked or sorted frame damages only later calculations.",
  [FSC, CFM, EN, CU],
  [("copies before masking", EN + " Entity._handle_time"), ("copy of cutoff table", CU + " _validate_cutoff_time")],
  ["entity set frames before/after, caller's objects before/after"])

p("C12", "An entity set stays well formed under any sequence of operations",
  "After any sequence of adding entities, relationships, normalising, updating, concatenating and re-indexing, every entity has a unique index column first in its frame order, rows sorted by time then index when it has a time index, a variable for exactly each data column, link columns typed as identifiers, and relationships only between existing columns of the same type. A rejected operation (duplicate index, missing column, mismatched time types or link types) raises an error and leaves the set as it was.",
  ["histories"],
  "all finite sequences of public entity set operations with any data, including rejected ones",
  "Tests apply single operations to fixed fixtures; broken invariants come from sequences.",
  [ES, EN, RE],
  [("entity construction", EN + " Entity.__init__ / update_data / set_time_index / set_index"),
   ("relationship checks", ES + " EntitySet.add_relationship"),
   ("uniqueness check", EN + " Entity._check...")],
  ["EntitySet.entities, .df, .variables, .relationships, .time_type"])

p("C13", "Normalising splits a table without losing or inventing information",
  "Normalising an entity creates one row per distinct value of the chosen column, carrying the chosen additional and copied columns of that value's first row in the base order, links the base to it, removes exactly the additional columns from the base, and leaves all other base data unchanged. The derived time of a new row is the earliest base time of its value when requested, and the second time is taken from its latest row.",
  ["inputs", "histories"],
  "all base tables, column choices, time choices and subsequent normalisations",
  "Tests check column lists and a few values; per-value selection under ties, missing times and repeated normalisation is not enumerated.",
  [ES, EN],
  [("normalisation", ES + " EntitySet.normalize_entity")],
  ["entity frames before and after normalize_entity"])

p("C14", "Last times are the latest activity of an instance or its descendants",
  "After computing last times, the last time of every instance of every entity is the maximum of its own time and the last times of all its related child rows at any depth and along every relationship, missing only if there is none. Computing them twice changes nothing.",
  ["inputs"],
  "all relationship graphs and data, entities with and without times, any subset of entities requested",
  "Tests check a few hand-built shapes; the recursion over arbitrary graphs and missing times is not covered.",
  [ES],
  [("propagation", ES + " EntitySet.add_last_time_indexes")],
  ["Entity.last_time_index of every entity"])

p("C15", "Combining and updating data keeps exactly the right rows",
  "Concatenating two compatible entity sets yields, per entity, each distinct instance of either once, correctly ordered and with last times recomputed when present, without altering either operand unless in-place was requested. Replacing an entity's data re-establishes order, last times and types, and a replacement with missing or extra columns is rejected without effect.",
  ["inputs", "histories"],
  "all pairs of overlapping, disjoint and empty entity sets and all replacement frames, followed by any calculation",
  "Tests concatenate halves of one fixture; overlaps, ordering and subsequent calculations are not enumerated.",
  [ES, EN],
  [("concat", ES + " EntitySet.concat"), ("update", EN + " Entity.update_data")],
  ["frames of result and operands; matrices computed from the result"])

p("C16", "An entity set survives being written and read back",
  "Writing an entity set to disk in any supported format (plain or compressed, directory or archive) and reading it back yields an entity set with the same entities, data, row order, variable types, indexes, second times, last times, relationships and properties, producing identical feature matrices. The original is unchanged.",
  ["inputs", "configurations"],
  "all entity sets over the supported column types including missing values, custom variable types, empty entities, made-up indexes, awkward strings and column names, all formats and options",
  "Tests round-trip the fixture once per format; fidelity per column type and structure combination is not enumerated.",
  [SER, DES, ES],
  [("serialisation", SER), ("deserialisation", DES)],
  ["read_entityset(to_csv/to_parquet/to_pickle(es))"])

p("C17", "Feature definitions survive being saved and loaded",
  "Saving any list of feature definitions to text, file or stream and loading it gives equal features in the same order with the same names, types, parameters, conditions, look-backs, custom names and shared sub-features, and calculating them on any compatible entity set gives the same matrix. Loading definitions of another schema version says so: a newer version warns, an older major version is logged.",
  ["programs", "inputs"],
  "all feature stacks over all primitives with any parameter values, conditions, look-backs, group-bys, renamed and multi-output features",
  "Tests round-trip selected features; loss of one field for a nested combination shows up only when it is calculated.",
  [FSER, FDES, FB, PU],
  [("serialise", FSER), ("deserialise", FDES), ("per-kind arguments", FB + " get_arguments / from_dictionary"),
   ("primitive parameters", PU + " serialize_primitive / PrimitivesDeserializer")],
  ["ft.load_features(ft.save_features(..)) and matrices"])

p("C18", "Distinct features have distinct names and names follow the definition",
  "A feature's generated name spells out its definition (primitive with parameters, bases, path where ambiguous, condition, look-back, group), so two features of one entity that differ in definition have different names and equal definitions have equal names. Renaming or copying a feature changes only that feature's name, and features report the depth, output count and dependencies their definition implies.",
  ["programs"],
  "all pairs of feature definitions over any entity set, with renaming and copying in between",
  "Name collisions silently overwrite columns of the matrix; tests assert names of single features.",
  [FB],
  [("name generation", FB + " generate_name / get_name"), ("identity", FB + " __hash__/__eq__/unique_name"), ("rename/copy", FB + " rename / copy"),
   ("dependencies", FB + " get_dependencies / get_depth")],
  ["FeatureBase.get_name, get_feature_names, ==, get_depth, get_dependencies"])

p("C19", "Feature synthesis only returns features its options permit",
  "Every feature synthesis returns is defined on the target entity, is well typed for its primitive, has no deeper stack than the maximum depth, reads nothing from ignored entities or variables or outside allowed paths, respects per-primitive include/exclude options and stacking limits, uses only the requested primitives, and is neither an identifier nor excluded by the drop lists or return types. The list contains no duplicates and honours the maximum number of features.",
  ["inputs", "configurations"],
  "all entity sets, primitive sets and option combinations",
  "Tests vary one option at a time on one fixture; options interact through recursion.",
  [DFS, DFSM, OPT],
  [("generation", DFS + " DeepFeatureSynthesis._run_dfs"), ("stacking and options", DFS + " check_stacking / match / " + OPT)],
  ["list returned by ft.dfs(features_only=True)"])

p("C20", "Feature synthesis is complete and deterministic",
  "Synthesis returns every feature buildable from the requested primitives within the documented rules (depth, stacking, options): each aggregation of each permitted child feature, direct copies of parent features, transforms and group-bys of all matching input combinations, up to commutativity. The result, including its order, is the same on every run, in every process and for every order in which equal requests list primitives by name or class.",
  ["inputs", "configurations"],
  "all entity sets, primitive sets, depths and options, all process hash seeds",
  "Tests check the presence of selected features; a missing class of features goes unnoticed, and hash order differs between processes.",
  [DFS, DFSM, PU],
  [("generation", DFS + " _run_dfs / _build_*_features"), ("input matching", DFS + " match"), ("ordering", DFS + " build_features")],
  ["list returned by ft.dfs(features_only=True) across processes"])

p("C21", "Encoding replaces a categorical column by exact indicators",
  "Encoding a feature matrix turns each discrete non-numeric feature into indicators for its most frequent values (at most the requested number, most frequent first) plus an indicator for all remaining values when requested, where in each row exactly the right indicator is set. Other columns, row order, labels and pass-through columns are preserved, and calculating the returned encoded features on the same data gives the same encoded matrix.",
  ["inputs", "configurations"],
  "all feature matrices (ties, missing values, multi-output features, extra columns), all limits, inclusion and exclusion lists, in-place or not",
  "Tests encode a few columns; ties, missing values and options multiply.",
  [ENC, FB],
  [("encoding", ENC + " encode_features")],
  ["ft.encode_features result; ft.calculate_feature_matrix of encoded features"])

p("C22", "Feature selection removes exactly the features it promises to remove",
  "Removing highly missing, single-valued, low-information or highly correlated features drops exactly the columns meeting the stated criterion, keeps all others with data and order unchanged, and returns the matching feature definitions (dropping a definition only when its outputs are dropped). Applying a removal twice changes nothing more.",
  ["inputs", "configurations"],
  "all feature matrices, thresholds (also hit exactly), feature lists including multi-output features",
  "Tests check a few matrices; threshold boundaries and pair orderings are combinatorial.",
  [SEL],
  [("criteria", SEL)],
  ["results of featuretools.selection functions"])

p("C23", "Equivalent requests agree and malformed requests are rejected",
  "All documented ways of stating the same request (one cutoff for a list of instances or a table repeating it, column names generic or taken from the entity, extra table index, omitted instances meaning all visible ones, omitted cutoff meaning now, tables and relationships instead of an entity set, calculating inside or after synthesis) give the same matrix. Malformed requests (missing or ambiguous columns, duplicate pairs, wrong time type, empty or non-feature lists, invalid chunk sizes or windows) raise an error instead of returning a matrix.",
  ["inputs", "configurations"],
  "all request forms over all entity sets and features",
  "Tests try each form once; agreement over all inputs is a relation between runs.",
  [CFM, CU, DFSM, WR],
  [("validation", CU + " _validate_cutoff_time / _check_cutoff_time_type"), ("defaults", CFM + " calculate_feature_matrix"), ("wrapper", DFSM + " dfs")],
  ["feature matrices or raised errors"])

p("C24", "Saved progress holds exactly the finished results, even after a crash",
  "With progress saving, once a calculation ends the folder holds every computed row exactly once with the values of the returned matrix, and no temporary files. If the calculation dies at any point, the folder's result files hold exactly complete results of finished steps, never partial or wrong rows.",
  ["crash_points", "configurations"],
  "all requests (any number of cutoffs, any times of day, any chunking) and all points at which the calculation can die",
  "The one test saves 17 distinct morning times without a crash.",
  [CU, CFM],
  [("temp file and rename", CU + " save_csv_decorator"), ("cleanup", CFM + " calculate_feature_matrix")],
  ["files in the progress folder during, after and after killing a calculation"])

p("C25", "Time spans are parsed, compared, printed and applied consistently",
  "A time span given as text, as value and unit, or as a dictionary of units denotes the same span, survives conversion to its dictionary form and back, compares equal exactly when its parts are equal, and negation and adding to or subtracting from a time apply each unit by calendar rules (months and years keep the day of month where it exists). Malformed spans are rejected.",
  ["inputs"],
  "all unit names and abbreviations, values, combinations and reference times",
  "Tests list some units and dates; month ends, mixed units and signs form an infinite space.",
  [TD, WR],
  [("spans", TD), ("parsing", WR + " _check_timedelta")],
  ["ft.Timedelta public methods, addition and subtraction with timestamps"])

p("C26", "Relationship path search finds exactly the existing paths",
  "Enumerating forward or backward paths between entities yields every simple chain of relationships between them exactly once and nothing else, the forward and backward entities of an entity are exactly those reachable, deep or not, and the reported uniqueness of a path is true exactly when no other path connects the two.",
  ["inputs"],
  "all relationship graphs including several relationships between the same entities and diamonds",
  "Tests query two fixtures; path enumeration is a graph property.",
  [ES, RE],
  [("path search", ES + " find_forward_paths / find_backward_paths / get_forward_entities / has_unique_forward_path"), ("path object", RE + " RelationshipPath")],
  ["EntitySet path methods"])

p("C27", "Progress reports rise monotonically to completion",
  "During any calculation with a progress callback the reported percentage never decreases, stays within 0 and 100, the reported increments add up to the percentage, and the last report after success is 100. The callback has no influence on the result.",
  ["configurations", "schedules"],
  "all requests, chunk sizes and numbers of jobs",
  "The tests check the callback for a couple of requests.",
  [CFM, FSC],
  [("reporting", CFM + " update_progress_callback_parameters"), ("per-feature accounting", FSC + " run")],
  ["sequence of callback calls"])

p("C28", "Distributed frames give the same feature matrix as in-memory frames",
  "For entity sets and primitives supported on distributed frames, calculating on distributed frames (any partitioning) yields, after collecting, the same rows and values as calculating on the same data in memory, and features synthesised are those the backend supports.",
  ["inputs", "configurations"],
  "all supported entity sets, feature stacks, partitionings and cutoffs",
  "Tests compare one fixture with two partitions.",
  [FSC, CFM, EN, ES],
  [("dask branches", FSC), ("dask branches", EN + " Entity._handle_time / query_by_values")],
  ["collected feature matrices"])

p("C29", "Generated cutoff tables contain exactly the requested times",
  "Generating cutoff tables lists, for every instance with its own final time, exactly the requested number of windows ending at that time (or all steps from its start), spaced by exactly the window size, in increasing order, one row per instance and time. Contradictory or incomplete requests are rejected.",
  ["inputs"],
  "all instance lists, cutoffs, window sizes, window counts and start times, scalar or per instance",
  "Tests check a few tables.",
  [TU],
  [("generation", TU + " make_temporal_cutoffs")],
  ["ft.make_temporal_cutoffs result"])

p("C30", "Built-in primitives compute their documented function",
  "Every built-in numeric, boolean, comparison, counting, ordering, calendar and elapsed-time primitive with rational results returns for every input column, including missing values, ties, empty and single-row inputs, the value its documentation defines, and its declared default where undefined.",
  ["inputs"],
  "all input columns over the primitive's input types and all parameter values",
  "Tests give each primitive one or two example series.",
  [AGG, TRA, BIN, CUM],
  [("primitive functions", AGG + " / " + TRA + " / " + BIN + " / " + CUM)],
  ["feature matrices of single-primitive features"])

p("C31", "Interesting values drive conditional aggregations exactly",
  "Adding interesting values records for each eligible discrete column at most the requested number of its most frequent values, most frequent first, and nothing for identifier or unsuitable columns. Synthesis builds conditional aggregations exactly for the recorded values of columns of the aggregated entity and the requested conditional primitives, and their values count exactly the rows with that value.",
  ["inputs", "histories"],
  "all columns, limits and subsequent synthesis",
  "Tests check one fixture's counts.",
  [ES, EN, DFS],
  [("collection", EN + " Entity.add_interesting_values"), ("where clauses", DFS + " _build_where_clauses / _build_agg_features")],
  ["Variable.interesting_values, ft.dfs, feature matrices"])

p("C32", "Feature expressions, the Feature alias and made primitives mean what they say",
  "A feature written as a Python expression over features and constants (arithmetic, comparison, boolean and reflected operators, abs, negation, inversion, isin, is_null, AND/OR/NOT), or through the Feature alias (which infers the kind of the feature and, when there is only one, the relationships; with features or plain variables as inputs, look-backs as spans or text, conditions and groups), or with a primitive made from a plain function (make_agg_primitive, make_trans_primitive; with default values given or inferred, cutoff time, several outputs, whole-entity attribute) has at every cutoff exactly the values that the operator, the parameters or the function define.",
  ["inputs", "programs"],
  "all expressions over all features and constants, all data and cutoffs",
  "Tests check the type or the name of a few operator results and one or two made primitives on one fixture.",
  [FB, "featuretools/primitives/base/aggregation_primitive_base.py", "featuretools/primitives/base/transform_primitive_base.py"],
  [("operators", FB + " FeatureBase.__add__ and the other operator methods"), ("alias", FB + " Feature.__new__"),
   ("made primitives", "featuretools/primitives/base/*_primitive_base.py make_agg_primitive / make_trans_primitive")],
  ["returned feature matrix of ft.calculate_feature_matrix"])

p("C33", "A feature's description says what the feature is",
  "ft.describe_feature returns, for every feature, the sentence that follows from its definition: the primitive's template (its generic form if it has none) over the descriptions of its inputs, the aggregated entity or the look-back, the condition, the group (for aggregations the index of the entity), the chain of parents of direct features (whose intermediate links are shortened), and which output is meant for a single output of a feature with several. Texts given for features (by feature, then by name, then in a metadata file), columns and primitives replace the generated ones wherever these features, columns and primitives occur.",
  ["inputs", "programs"],
  "all feature stacks over all schemas, all sets of custom texts and templates in every form",
  "Tests compare about twenty sentences of one fixture.",
  ["featuretools/feature_base/feature_descriptions.py", "featuretools/primitives/base/primitive_base.py", "featuretools/utils/description_utils.py"],
  [("phrases", "featuretools/feature_base/feature_descriptions.py generate_description"), ("templates", "featuretools/primitives/base/primitive_base.py PrimitiveBase.get_description")],
  ["returned text of ft.describe_feature"])

P[2]["statement"] = ("If columns of an entity are declared to become known at a second time column, then a feature calculation at a cutoff at or before that second time "
  "treats their values (and the second time itself) as missing, and one at a cutoff after it uses them. Other columns of the same row are unaffected, and rows with a missing second time are not hidden.")
def st(i, text):
    next(x for x in P if x["id"] == i)["statement"] = text


st("C12", "After any sequence of adding entities under new names, relationships, normalising, updating, concatenating and re-indexing, every entity has a unique index column first in its frame order, rows "
   "sorted by time then index wherever the set (not the caller) puts them in order, a variable for exactly each data column, link columns typed as identifiers, and relationships only between existing columns of the same type. "
   "A rejected operation (duplicate index, missing column, mismatched time types or link types) raises an error and leaves the set as it was.")
st("C13", "Normalising an entity creates one row per distinct value of the chosen column (a missing value counts as one), carrying the chosen additional and copied columns of that value's first row in the base order, links the base to it, "
   "removes exactly the additional columns from the base, and leaves all other base data unchanged (a second time whose column moves goes with it). The derived time of a new row is the earliest base time of its value when requested, "
   "and the second time is taken from its latest row.")
st("C16", "Writing an entity set to disk in any supported format (plain or compressed, directory or archive) and reading it back yields an entity set with the same entities, data, row order, variable types, indexes, second times, "
   "relationships and properties, its last times up to date, producing identical feature matrices. The original is unchanged. Csv text cannot tell an empty string from a missing value.")
st("C26", "Enumerating forward or backward paths between entities yields every simple chain of relationships between them exactly once and nothing else, and the forward and backward entities of an entity are exactly those reachable, "
   "deep (in graphs without cycles) or not. The reported uniqueness of a path is true exactly when no other path connects the two.")
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    print(len(P))
