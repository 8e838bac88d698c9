From 31065b97ed38f5d67455302eb5c33429afac633a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:01 +0000
Subject: [PATCH 01/62] fix: name ancestor link columns consistently when two
 entities share several relationships

An aggregation along a path that climbs one of several relationships between
the same two entities raised KeyError, because the link column is added under
relationship.parent_name but was looked up under the parent entity id.
---
 featuretools/utils/gen_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/utils/gen_utils.py b/featuretools/utils/gen_utils.py
index 9f35e1b..7ed11bb 100644
--- a/featuretools/utils/gen_utils.py
+++ b/featuretools/utils/gen_utils.py
@@ -26,7 +26,7 @@ def get_relationship_variable_id(path):
     child_link_name = r.child_variable.id
     for _, r in path[1:]:
         parent_link_name = child_link_name
-        child_link_name = '%s.%s' % (r.parent_entity.id,
+        child_link_name = '%s.%s' % (r.parent_name,
                                      parent_link_name)
     return child_link_name
 
-- 
2.43.0


From 480ce2e29bb01e094fca3437761de38b76c2e249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:33 +0000
Subject: [PATCH 02/62] fix: handle an aggregation whose look-back leaves no
 rows

A look-back in time that excludes every child row made primitives that are
applied (those using the calculation time, several inputs or several outputs)
fail with KeyError instead of giving their default value.
---
 .../computational_backends/feature_set_calculator.py         | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index 88cd33e..8884756 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -688,6 +688,11 @@ class FeatureSetCalculator(object):
                 to_merge = base_frame.groupby(base_frame[groupby_var],
                                               observed=True,
                                               sort=False).apply(wrap)
+                # if use_previous left no rows then nothing was applied, and
+                # the feature columns are missing
+                if isinstance(base_frame, pd.DataFrame) and base_frame.empty:
+                    to_merge = to_merge.reindex(columns=[name for f in to_apply
+                                                         for name in f.get_feature_names()])
                 frame = pd.merge(left=frame, right=to_merge,
                                  left_index=True,
                                  right_index=True, how='left')
-- 
2.43.0


From f49f0354ffdcbf1882a8d0f9bcb7a26f8ed351f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:01 +0000
Subject: [PATCH 03/62] fix: TimeSincePrevious uses the full entity

The previous item was looked for among the requested instances only, so that
the value of an instance depended on which others were requested with it.
---
 featuretools/primitives/standard/transform_primitive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featuretools/primitives/standard/transform_primitive.py b/featuretools/primitives/standard/transform_primitive.py
index 5db373e..aca2db1 100644
--- a/featuretools/primitives/standard/transform_primitive.py
+++ b/featuretools/primitives/standard/transform_primitive.py
@@ -86,6 +86,7 @@ class TimeSincePrevious(TransformPrimitive):
     name = "time_since_previous"
     input_types = [DatetimeTimeIndex]
     return_type = Numeric
+    uses_full_entity = True
     description_template = "the time since the previous instance of {}"
 
     def __init__(self, unit="seconds"):
-- 
2.43.0


From 9d17d5d6f5ec3b64550fc504efae550ad149e6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:01 +0000
Subject: [PATCH 04/62] fix: hiding secondary time columns must not change the
 stored data

For an entity with a secondary time index but no time index, calculating a
feature matrix without instance ids replaced stored values by NaN.
---
 featuretools/entityset/entityset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 18ad9a4..4bac610 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -1019,6 +1019,8 @@ class EntitySet(object):
                 elif is_instance(df, ks, 'DataFrame'):
                     df.loc[mask, columns] = None
                 else:
+                    # df may be the stored dataframe of the entity
+                    df = df.copy()
                     df.loc[mask, columns] = np.nan
 
         return df
-- 
2.43.0


From 638db1f454f8a4d3aeb8776d384ccc1f506dd1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:01 +0000
Subject: [PATCH 05/62] fix: name saved progress files by 24-hour time

Cutoff times twelve hours apart were saved to the same file, so that the second
replaced the first.
---
 featuretools/computational_backends/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index 0fc4d59..211e6e2 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -38,7 +38,7 @@ def save_csv_decorator(save_progress=None):
                 r = method(*args, **kwargs)
             else:
                 time = args[0].to_pydatetime()
-                file_name = 'ft_' + time.strftime("%Y_%m_%d_%I-%M-%S-%f") + '.csv'
+                file_name = 'ft_' + time.strftime("%Y_%m_%d_%H-%M-%S-%f") + '.csv'
                 file_path = os.path.join(save_progress, file_name)
                 temp_dir = os.path.join(save_progress, 'temp')
                 if not os.path.exists(temp_dir):
-- 
2.43.0


From 4a7da99d3cb4472b5bca093df240cc7bf06e443b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:01 +0000
Subject: [PATCH 06/62] fix: bin numeric cutoff times

True division left numeric cutoff times unbinned when approximating.
---
 featuretools/computational_backends/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index 211e6e2..9a31a25 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -23,7 +23,7 @@ logger = logging.getLogger('featuretools.computational_backend')
 def bin_cutoff_times(cutoff_time, bin_size):
     binned_cutoff_time = cutoff_time.copy()
     if type(bin_size) == int:
-        binned_cutoff_time['time'] = binned_cutoff_time['time'].apply(lambda x: x / bin_size * bin_size)
+        binned_cutoff_time['time'] = binned_cutoff_time['time'].apply(lambda x: x // bin_size * bin_size)
     else:
         bin_size = _check_timedelta(bin_size)
         binned_cutoff_time['time'] = datetime_round(binned_cutoff_time['time'], bin_size)
-- 
2.43.0


From e51f9f6ffb3431f5df7457c65393f0045e4c07c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:55 +0000
Subject: [PATCH 07/62] fix: calculate a multi output aggregation before the
 features stacked on its outputs

A transform of one output of an aggregation on the same entity was ordered
before the aggregation and raised KeyError.
---
 featuretools/computational_backends/feature_set.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/featuretools/computational_backends/feature_set.py b/featuretools/computational_backends/feature_set.py
index 776c5d6..e95db1b 100644
--- a/featuretools/computational_backends/feature_set.py
+++ b/featuretools/computational_backends/feature_set.py
@@ -183,6 +183,9 @@ class FeatureSet(object):
             if not f.relationship_path:
                 dependencies = f.get_dependencies()
                 for dep in dependencies:
+                    # it is the multi output feature that is calculated
+                    if isinstance(dep, FeatureOutputSlice):
+                        dep = dep.base_feature
                     order[dep.unique_name()] = \
                         min(order[f.unique_name()] - 1, order[dep.unique_name()])
                     queue.append(dep)
-- 
2.43.0


From cb46bedea472fd1bc558d9506200bc2a4cdacbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:55 +0000
Subject: [PATCH 08/62] fix: do not group aggregations with different
 look-backs of several units

A look-back such as 1 day and 2 hours was grouped with aggregations that have
no look-back, or another one of several units, and one of them was applied to
the whole group.
---
 featuretools/computational_backends/feature_set.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/featuretools/computational_backends/feature_set.py b/featuretools/computational_backends/feature_set.py
index e95db1b..4cb53f1 100644
--- a/featuretools/computational_backends/feature_set.py
+++ b/featuretools/computational_backends/feature_set.py
@@ -206,10 +206,11 @@ class FeatureSet(object):
 # These functions are used for sorting and grouping features
 
 
-def _get_use_previous(f):  # TODO Sort and group features for DateOffset with two different temporal values
+def _get_use_previous(f):
     if isinstance(f, AggregationFeature) and f.use_previous is not None:
         if len(f.use_previous.times.keys()) > 1:
-            return ("", -1)
+            units = sorted(f.use_previous.times.keys())
+            return (",".join(units), tuple(f.use_previous.times[u] for u in units))
         else:
             unit = list(f.use_previous.times.keys())[0]
             value = f.use_previous.times[unit]
-- 
2.43.0


From 98ec7810c4eb9bd413c0b5fe1e4b2a5eab1cbb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:29 +0000
Subject: [PATCH 09/62] fix: keep the datetime type of an aggregation without
 child data

A transform stacked on a datetime valued aggregation raised AttributeError when
no requested instance had any child row.
---
 .../computational_backends/feature_set_calculator.py       | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index 8884756..19accd0 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -747,6 +747,13 @@ class FeatureSetCalculator(object):
                     f.variable_type == variable_types.Numeric and
                     frame[f.get_name()].dtype.name in ['object', 'bool']):
                 frame[f.get_name()] = frame[f.get_name()].astype(float)
+            # without any child data there are only float NaNs, which features
+            # stacked on a datetime cannot use
+            elif (isinstance(frame, pd.DataFrame) and
+                    f.number_output_features == 1 and
+                    issubclass(f.variable_type, variable_types.Datetime) and
+                    frame[f.get_name()].isnull().all()):
+                frame[f.get_name()] = pd.to_datetime(frame[f.get_name()])
 
         return frame
 
-- 
2.43.0


From 62ba282a09a445a141088dadd2b5040d6c737143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:44 +0000
Subject: [PATCH 10/62] fix: handle an aggregation of rows none of which is
 linked to an instance

When all rows of the child entity are needed but no instance is visible, applied
primitives found no group and the frame lost its columns.
---
 .../computational_backends/feature_set_calculator.py       | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index 19accd0..d85d75f 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -688,9 +688,10 @@ class FeatureSetCalculator(object):
                 to_merge = base_frame.groupby(base_frame[groupby_var],
                                               observed=True,
                                               sort=False).apply(wrap)
-                # if use_previous left no rows then nothing was applied, and
-                # the feature columns are missing
-                if isinstance(base_frame, pd.DataFrame) and base_frame.empty:
+                # if use_previous left no rows, or no row is linked to an
+                # instance, then nothing was applied, and the feature columns
+                # are missing
+                if isinstance(base_frame, pd.DataFrame) and base_frame[groupby_var].isnull().all():
                     to_merge = to_merge.reindex(columns=[name for f in to_apply
                                                          for name in f.get_feature_names()])
                 frame = pd.merge(left=frame, right=to_merge,
-- 
2.43.0


From 8e8d36a6c76946348c6e9a5b7628ff23c485b557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:52 +0000
Subject: [PATCH 11/62] fix: numeric aggregations of datetimes stay numeric
 when all are missing

pandas turns an all-NaN aggregation of a datetime column into NaT, on which
numeric transforms raise TypeError.
---
 .../computational_backends/feature_set_calculator.py       | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index d85d75f..58044a7 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -748,6 +748,13 @@ class FeatureSetCalculator(object):
                     f.variable_type == variable_types.Numeric and
                     frame[f.get_name()].dtype.name in ['object', 'bool']):
                 frame[f.get_name()] = frame[f.get_name()].astype(float)
+            # pandas makes NaNs aggregated from datetimes NaT if there is no
+            # other value
+            elif (isinstance(frame, pd.DataFrame) and
+                    f.number_output_features == 1 and
+                    f.variable_type == variable_types.Numeric and
+                    pdtypes.is_datetime64_any_dtype(frame[f.get_name()])):
+                frame[f.get_name()] = np.nan
             # without any child data there are only float NaNs, which features
             # stacked on a datetime cannot use
             elif (isinstance(frame, pd.DataFrame) and
-- 
2.43.0


From 3ba6d4eba141e5b4450e60c77a6d795ff04b5512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:23 +0000
Subject: [PATCH 12/62] fix: do not reuse a cluster's published entityset for
 different data

---
 .../computational_backends/calculate_feature_matrix.py   | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/featuretools/computational_backends/calculate_feature_matrix.py b/featuretools/computational_backends/calculate_feature_matrix.py
index d690bb2..8291488 100644
--- a/featuretools/computational_backends/calculate_feature_matrix.py
+++ b/featuretools/computational_backends/calculate_feature_matrix.py
@@ -600,14 +600,17 @@ def parallel_calculate_chunks(cutoff_time, chunk_size, feature_set, approximate,
         # scatter the entityset
         # denote future with leading underscore
         start = time.time()
-        es_token = "EntitySet-{}".format(tokenize(entityset))
+        # the data is part of the token, so that an entityset with the same
+        # structure published earlier is not mistaken for this one
+        es_token = "EntitySet-{}".format(tokenize(entityset,
+                                                  [(e.id, e.df, e.last_time_index) for e in entityset.entities]))
         if es_token in client.list_datasets():
             msg = "Using EntitySet persisted on the cluster as dataset {}"
             progress_bar.write(msg.format(es_token))
             _es = client.get_dataset(es_token)
         else:
-            _es = client.scatter([entityset])[0]
-            client.publish_dataset(**{_es.key: _es})
+            _es = client.scatter({es_token: entityset})[es_token]
+            client.publish_dataset(**{es_token: _es})
 
         # save features to a tempfile and scatter it
         pickled_feats = cloudpickle.dumps(feature_set)
-- 
2.43.0


From 899903781b573818547aeb8459703b7a4af5b7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:23 +0000
Subject: [PATCH 13/62] fix: leave the caller's dask options unchanged

---
 featuretools/computational_backends/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index 9a31a25..5ec940f 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -139,6 +139,9 @@ def create_client_and_cluster(n_jobs, dask_kwargs, entityset_size):
     if 'cluster' in dask_kwargs:
         cluster = dask_kwargs['cluster']
     else:
+        # do not change the caller's options
+        dask_kwargs = dict(dask_kwargs)
+
         # diagnostics_port sets the default port to launch bokeh web interface
         # if it is set to None web interface will not be launched
         diagnostics_port = None
-- 
2.43.0


From eab7c18310e1382edf1638e8a77817713332d120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:57 +0000
Subject: [PATCH 14/62] fix: approximate multi output features, repeated
 instances and windows of several units

---
 .../computational_backends/calculate_feature_matrix.py      | 5 +++--
 featuretools/computational_backends/utils.py                | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/featuretools/computational_backends/calculate_feature_matrix.py b/featuretools/computational_backends/calculate_feature_matrix.py
index 8291488..efa48a0 100644
--- a/featuretools/computational_backends/calculate_feature_matrix.py
+++ b/featuretools/computational_backends/calculate_feature_matrix.py
@@ -418,8 +418,9 @@ def calculate_chunk(cutoff_time, chunk_size, feature_set, entityset, approximate
                 inner_grouped = _chunk_dataframe_groups(inner_grouped, chunk_size)
 
             for time_last, group in inner_grouped:
-                # sort group by instance id
-                ids = group['instance_id'].sort_values().values
+                # sort group by instance id (an instance can occur more than once
+                # when all aggregations are approximated)
+                ids = group['instance_id'].drop_duplicates().sort_values().values
                 if no_unapproximated_aggs and approximate is not None:
                     window = None
                 else:
diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index 5ec940f..80160e6 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -59,7 +59,6 @@ def datetime_round(dt, freq):
     if not freq.is_absolute():
         raise ValueError("Unit is relative")
 
-    # TODO: multitemporal units
     all_units = list(freq.times.keys())
     if len(all_units) == 1:
         unit = all_units[0]
@@ -73,7 +72,8 @@ def datetime_round(dt, freq):
         freq = str(value) + unit
         return dt.dt.floor(freq)
     else:
-        assert "Frequency cannot have multiple temporal parameters"
+        freq = sum((pd.Timedelta(value, unit) for unit, value in freq.times.items()), pd.Timedelta(0))
+        return dt.dt.floor(freq)
 
 
 def gather_approximate_features(feature_set):
@@ -110,7 +110,7 @@ def gather_approximate_features(feature_set):
 
 
 def gen_empty_approx_features_df(approx_features):
-    df = pd.DataFrame(columns=[f.get_name() for f in approx_features])
+    df = pd.DataFrame(columns=[name for f in approx_features for name in f.get_feature_names()])
     df.index.name = approx_features[0].entity.index
     return df
 
-- 
2.43.0


From 7500c641e88afaf9c02180b50e4cc1ada228e124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:13 +0000
Subject: [PATCH 15/62] fix: do not approximate an aggregation that a
 whole-entity feature of the parent reads

---
 featuretools/computational_backends/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index 80160e6..03db6a9 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -102,7 +102,9 @@ def gather_approximate_features(feature_set):
                 path = path + base_feature.relationship_path
                 base_feature = base_feature.base_features[0]
 
-            if isinstance(base_feature, AggregationFeature):
+            # the approximated values are only known for the related instances
+            if isinstance(base_feature, AggregationFeature) and \
+                    not feature_set.uses_full_entity(base_feature, check_dependents=True):
                 node_feature_set = approximate_feature_trie.get_node(path).value
                 node_feature_set.add(base_feature.unique_name())
 
-- 
2.43.0


From 21b1d3edcc53189cd569fb7fba3b13fbdfb1e7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:20 +0000
Subject: [PATCH 16/62] fix: save the progress of every chunk, whatever its
 time

---
 .../calculate_feature_matrix.py                     |  4 ++--
 featuretools/computational_backends/utils.py        | 13 ++++++++-----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/featuretools/computational_backends/calculate_feature_matrix.py b/featuretools/computational_backends/calculate_feature_matrix.py
index efa48a0..642ca33 100644
--- a/featuretools/computational_backends/calculate_feature_matrix.py
+++ b/featuretools/computational_backends/calculate_feature_matrix.py
@@ -368,7 +368,7 @@ def calculate_chunk(cutoff_time, chunk_size, feature_set, entityset, approximate
         feature_matrix.append(_feature_matrix)
 
     else:
-        for _, group in cutoff_time.groupby(cutoff_df_time_var):
+        for group_key, group in cutoff_time.groupby(cutoff_df_time_var):
             # if approximating, calculate the approximate features
             if approximate is not None:
                 precalculated_features_trie = approximate_features(
@@ -382,7 +382,7 @@ def calculate_chunk(cutoff_time, chunk_size, feature_set, entityset, approximate
             else:
                 precalculated_features_trie = None
 
-            @save_csv_decorator(save_progress)
+            @save_csv_decorator(save_progress, group_key)
             def calc_results(time_last, ids, precalculated_features=None, training_window=None, include_cutoff_time=True):
                 update_progress_callback = None
 
diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index 03db6a9..494bbfb 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -6,6 +6,7 @@ from functools import wraps
 import dask.dataframe as dd
 import pandas as pd
 import psutil
+from dask.base import tokenize
 
 from featuretools.entityset.relationship import RelationshipPath
 from featuretools.feature_base import AggregationFeature, DirectFeature
@@ -30,19 +31,21 @@ def bin_cutoff_times(cutoff_time, bin_size):
     return binned_cutoff_time
 
 
-def save_csv_decorator(save_progress=None):
+def save_csv_decorator(save_progress=None, group_key=None):
     def inner_decorator(method):
         @wraps(method)
         def wrapped(*args, **kwargs):
             if save_progress is None:
                 r = method(*args, **kwargs)
             else:
-                time = args[0].to_pydatetime()
-                file_name = 'ft_' + time.strftime("%Y_%m_%d_%H-%M-%S-%f") + '.csv'
+                time, instance_ids = args[:2]
+                if hasattr(time, 'strftime'):
+                    time = time.strftime("%Y_%m_%d_%H-%M-%S-%f")
+                # several chunks can have the same time
+                file_name = 'ft_{}_{}.csv'.format(time, tokenize(group_key, instance_ids))
                 file_path = os.path.join(save_progress, file_name)
                 temp_dir = os.path.join(save_progress, 'temp')
-                if not os.path.exists(temp_dir):
-                    os.makedirs(temp_dir)
+                os.makedirs(temp_dir, exist_ok=True)
                 temp_file_path = os.path.join(temp_dir, file_name)
                 r = method(*args, **kwargs)
                 r.to_csv(temp_file_path)
-- 
2.43.0


From 3f3b2f8609afaaa49ffb6e5520cbd469de72500b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:13 +0000
Subject: [PATCH 17/62] fix: do not retype the columns of a relationship that
 is rejected

---
 featuretools/entityset/entityset.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 4bac610..f6d47c1 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -261,15 +261,6 @@ class EntitySet(object):
             raise ValueError(msg.format(child_v, child_e.id))
         parent_e = relationship.parent_entity
         parent_v = relationship.parent_variable.id
-        if not isinstance(child_e[child_v], vtypes.Id):
-            child_e.convert_variable_type(variable_id=child_v,
-                                          new_type=vtypes.Id,
-                                          convert_data=False)
-
-        if not isinstance(parent_e[parent_v], vtypes.Index):
-            parent_e.convert_variable_type(variable_id=parent_v,
-                                           new_type=vtypes.Index,
-                                           convert_data=False)
         # Empty dataframes (as a result of accessing Entity.metadata)
         # default to object dtypes for discrete variables, but
         # indexes/ids default to ints. In this case, we convert
@@ -287,6 +278,15 @@ class EntitySet(object):
             raise ValueError(msg.format(parent_v, parent_e.id, parent_dtype,
                                         child_v, child_e.id, child_dtype))
 
+        if not isinstance(child_e[child_v], vtypes.Id):
+            child_e.convert_variable_type(variable_id=child_v,
+                                          new_type=vtypes.Id,
+                                          convert_data=False)
+
+        if not isinstance(parent_e[parent_v], vtypes.Index):
+            parent_e.convert_variable_type(variable_id=parent_v,
+                                           new_type=vtypes.Index,
+                                           convert_data=False)
         self.relationships.append(relationship)
         self.reset_data_description()
         return self
-- 
2.43.0


From 987eee78b1a6b76eee023fa60753cdde932445ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:13 +0000
Subject: [PATCH 18/62] fix: keep the data of an entity when its replacement is
 rejected

---
 featuretools/entityset/entity.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index 1683379..6750ea8 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -278,13 +278,19 @@ class Entity(object):
             if v.id not in df.columns:
                 raise ValueError("Updated dataframe is missing new {} column".format(v.id))
 
-        # Make sure column ordering matches variable ordering
-        self.df = df[[v.id for v in self.variables]]
-        self.set_index(self.index)
-        if self.time_index is not None:
-            self.set_time_index(self.time_index, already_sorted=already_sorted)
-
-        self.set_secondary_time_index(self.secondary_time_index)
+        previous_df = self.df
+        try:
+            # Make sure column ordering matches variable ordering
+            self.df = df[[v.id for v in self.variables]]
+            self.set_index(self.index)
+            if self.time_index is not None:
+                self.set_time_index(self.time_index, already_sorted=already_sorted)
+
+            self.set_secondary_time_index(self.secondary_time_index)
+        except Exception:
+            # leave the entity as it was
+            self.df = previous_df
+            raise
         if recalculate_last_time_indexes and self.last_time_index is not None:
             self.entityset.add_last_time_indexes(updated_entities=[self.id])
         self.entityset.reset_data_description()
-- 
2.43.0


From 2036b74a62be99c16528159eb77c4cd66f01f3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:13 +0000
Subject: [PATCH 19/62] fix: do not take the time type of an entity that is
 rejected

---
 featuretools/entityset/entityset.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index f6d47c1..3463943 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -511,16 +511,22 @@ class EntitySet(object):
                                  "Cannot add entity of type {} to an entityset with existing entities "
                                  "of type {}".format(type(dataframe), type(self.entities[0].df)))
 
-        entity = Entity(
-            entity_id,
-            dataframe,
-            self,
-            variable_types=variable_types,
-            index=index,
-            time_index=time_index,
-            secondary_time_index=secondary_time_index,
-            already_sorted=already_sorted,
-            make_index=make_index)
+        time_type = self.time_type
+        try:
+            entity = Entity(
+                entity_id,
+                dataframe,
+                self,
+                variable_types=variable_types,
+                index=index,
+                time_index=time_index,
+                secondary_time_index=secondary_time_index,
+                already_sorted=already_sorted,
+                make_index=make_index)
+        except Exception:
+            # the time type may have been taken from the rejected entity
+            self.time_type = time_type
+            raise
         self.entity_dict[entity.id] = entity
         self.reset_data_description()
         return self
-- 
2.43.0


From 9dc99783f608971017cc3b1bc85dbd0bef176f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:13 +0000
Subject: [PATCH 20/62] fix: normalize_entity does not change the caller's list
 of variables

---
 featuretools/entityset/entityset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 3463943..13724fe 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -596,6 +596,9 @@ class EntitySet(object):
         if len(copy_variables) != len(set(copy_variables)):
             raise ValueError("'copy_variables' contains duplicate variables. All variables must be unique.")
 
+        # the time index is added below: do not change the list of the caller
+        copy_variables = copy_variables[:]
+
         for v in additional_variables + copy_variables:
             if v == index:
                 raise ValueError("Not copying {} as both index and variable".format(v))
-- 
2.43.0


From d4609fc3c9fbe21f4657c2552a014af2bae47942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:13 +0000
Subject: [PATCH 21/62] fix: reject normalizing an entity into itself

---
 featuretools/entityset/entityset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 13724fe..75bd6b0 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -571,6 +571,9 @@ class EntitySet(object):
             new_entity_secondary_time_index (str, optional): Rename new entity secondary time index.
 
         """
+        if new_entity_id == base_entity_id:
+            raise ValueError("'new_entity_id' must be different from the id of the base entity")
+
         base_entity = self.entity_dict[base_entity_id]
         additional_variables = additional_variables or []
         copy_variables = copy_variables or []
-- 
2.43.0


From 5e17a96be3e2bc8457e9eba1b4af58ab911e2915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:39 +0000
Subject: [PATCH 22/62] fix: keep the secondary time index of an entity in step
 with its variables

---
 featuretools/entityset/entity.py    | 8 ++++++++
 featuretools/entityset/entityset.py | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index 6750ea8..6f29dd5 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -375,6 +375,14 @@ class Entity(object):
             v = self._get_variable(v_id)
             self.variables.remove(v)
 
+        # a deleted variable does not depend on a secondary time anymore
+        secondary_time_index = {}
+        for time_index, columns in self.secondary_time_index.items():
+            columns = [c for c in columns if c not in variable_ids]
+            if len(columns) > 0:
+                secondary_time_index[time_index] = columns
+        self.secondary_time_index = secondary_time_index
+
     def set_time_index(self, variable_id, already_sorted=False):
         # check time type
         if not isinstance(self.df, pd.DataFrame) or self.df.empty:
diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 75bd6b0..fc73d0f 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -609,6 +609,9 @@ class EntitySet(object):
         for v in additional_variables:
             if v == base_entity.time_index:
                 raise ValueError("Not moving {} as it is the base time index variable. Perhaps, move the variable to the copy_variables.".format(v))
+            for column in base_entity.secondary_time_index.get(v, []):
+                if column not in additional_variables:
+                    raise ValueError("Not moving {} as {} depends on it as a secondary time index.".format(v, column))
 
         if isinstance(make_time_index, str):
             if make_time_index not in base_entity.df.columns:
-- 
2.43.0


From 5cae96e114fea5d16ac641bd0a600e2954f60a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:50 +0000
Subject: [PATCH 23/62] fix: last times follow every relationship between two
 entities

---
 featuretools/entityset/entityset.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index fc73d0f..3fbd5de 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -786,10 +786,10 @@ class EntitySet(object):
         """
         # Generate graph of entities to find leaf entities
         children = defaultdict(list)  # parent --> child mapping
-        child_vars = defaultdict(dict)
+        child_vars = defaultdict(list)  # in the same order, as a child can have several relationships
         for r in self.relationships:
             children[r.parent_entity.id].append(r.child_entity)
-            child_vars[r.parent_entity.id][r.child_entity.id] = r.child_variable
+            child_vars[r.parent_entity.id].append(r.child_variable)
 
         updated_entities = updated_entities or []
         if updated_entities:
@@ -858,11 +858,11 @@ class EntitySet(object):
                     continue
 
                 # updated last time from all children
-                for child_e in child_entities:
+                for child_e, child_var in zip(child_entities, child_vars[entity.id]):
                     # TODO: Figure out if Dask code related to indexes is important for Koalas
                     if child_e.last_time_index is None:
                         continue
-                    link_var = child_vars[entity.id][child_e.id].id
+                    link_var = child_var.id
 
                     lti_is_dask = isinstance(child_e.last_time_index, dd.Series)
                     lti_is_koalas = is_instance(child_e.last_time_index, ks, 'Series')
-- 
2.43.0


From 6b4c07023cb11c766d2da8ed1815c418a6f46175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:51 +0000
Subject: [PATCH 24/62] fix: last times of entity sets with numeric times are
 numeric

---
 featuretools/entityset/entityset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 3fbd5de..478e328 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -907,6 +907,8 @@ class EntitySet(object):
                             lti_df['last_time_old'] = ks.to_datetime(lti_df['last_time_old'])
                             # TODO: Figure out a workaround for fillna and replace
                             lti_df = lti_df.max(axis=1)
+                        elif self.time_type == vtypes.NumericTimeIndex:
+                            lti_df = lti_df[['last_time', 'last_time_old']].astype('float64').max(axis=1)
                         else:
                             lti_df['last_time'] = lti_df['last_time'].astype('datetime64[ns]')
                             lti_df['last_time_old'] = lti_df['last_time_old'].astype('datetime64[ns]')
-- 
2.43.0


From b6bfb1b4bb0fecea3a9d5cab75db0fef04f17d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:17 +0000
Subject: [PATCH 25/62] fix: drop a secondary time index whose time variable is
 moved to another entity

---
 featuretools/entityset/entity.py    | 12 +++++-------
 featuretools/entityset/entityset.py |  3 ---
 2 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index 6f29dd5..393d12a 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -375,13 +375,11 @@ class Entity(object):
             v = self._get_variable(v_id)
             self.variables.remove(v)
 
-        # a deleted variable does not depend on a secondary time anymore
-        secondary_time_index = {}
-        for time_index, columns in self.secondary_time_index.items():
-            columns = [c for c in columns if c not in variable_ids]
-            if len(columns) > 0:
-                secondary_time_index[time_index] = columns
-        self.secondary_time_index = secondary_time_index
+        # a deleted variable neither is nor depends on a secondary time anymore
+        self.secondary_time_index = {
+            time_index: [c for c in columns if c not in variable_ids]
+            for time_index, columns in self.secondary_time_index.items()
+            if time_index not in variable_ids}
 
     def set_time_index(self, variable_id, already_sorted=False):
         # check time type
diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 478e328..69ef56a 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -609,9 +609,6 @@ class EntitySet(object):
         for v in additional_variables:
             if v == base_entity.time_index:
                 raise ValueError("Not moving {} as it is the base time index variable. Perhaps, move the variable to the copy_variables.".format(v))
-            for column in base_entity.secondary_time_index.get(v, []):
-                if column not in additional_variables:
-                    raise ValueError("Not moving {} as {} depends on it as a secondary time index.".format(v, column))
 
         if isinstance(make_time_index, str):
             if make_time_index not in base_entity.df.columns:
-- 
2.43.0


From c5a7a3818c285eabc1ef6b61d0f7297aad01db0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:17 +0000
Subject: [PATCH 26/62] fix: do not move the index or a link of an entity when
 normalizing it

---
 featuretools/entityset/entityset.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 69ef56a..d3a8d61 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -609,6 +609,11 @@ class EntitySet(object):
         for v in additional_variables:
             if v == base_entity.time_index:
                 raise ValueError("Not moving {} as it is the base time index variable. Perhaps, move the variable to the copy_variables.".format(v))
+            if v == base_entity.index:
+                raise ValueError("Not moving {} as it is the base index variable. Perhaps, move the variable to the copy_variables.".format(v))
+            for r in self.relationships:
+                if r.child_entity.id == base_entity_id and r.child_variable.id == v:
+                    raise ValueError("Not moving {} as it links {} to {}. Perhaps, move the variable to the copy_variables.".format(v, base_entity_id, r.parent_entity.id))
 
         if isinstance(make_time_index, str):
             if make_time_index not in base_entity.df.columns:
-- 
2.43.0


From eb1fed6eaafa15afc23a09006ee5df3a100f0280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:17 +0000
Subject: [PATCH 27/62] fix: last times of entities whose index is categorical

---
 featuretools/entityset/entityset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index d3a8d61..5663063 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -840,6 +840,7 @@ class EntitySet(object):
                     elif is_instance(entity.df, ks, 'DataFrame'):
                         lti = ks.Series(pd.Series(index=lti.to_list(), name=lti.name))
                     else:
+                        lti = lti.astype('object')
                         lti[:] = None
                 entity.last_time_index = lti
 
-- 
2.43.0


From 9e2a7a280f3a95656c1000c93640132606f254b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:17 +0000
Subject: [PATCH 28/62] fix: a child without a last time does not hide the last
 times of the others

---
 featuretools/entityset/entityset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 5663063..187acb5 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -892,7 +892,7 @@ class EntitySet(object):
 
                         # sort by time and keep only the most recent
                         lti_df.sort_values(['last_time', entity.index],
-                                           kind="mergesort", inplace=True)
+                                           kind="mergesort", na_position="first", inplace=True)
 
                         lti_df.drop_duplicates(entity.index,
                                                keep='last',
-- 
2.43.0


From 4ee7c259ed55466cc456133a63a747ed24ffcb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:11 +0000
Subject: [PATCH 29/62] fix: categories without any row are not interesting
 values

---
 featuretools/entityset/entity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index 393d12a..5b9c186 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -323,6 +323,8 @@ class Entity(object):
                     continue
 
                 counts = self.df[variable.id].value_counts()
+                # categories that no row has are not values of the variable
+                counts = counts[counts > 0]
 
                 # find how many of each unique value there are; sort by count,
                 # and add interesting values to each variable
-- 
2.43.0


From ae7ffeab152bb6655107eae87f9f74a62425c300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:09 +0000
Subject: [PATCH 30/62] fix: judge the kind of a time column by a value that is
 not missing

---
 featuretools/entityset/entity.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index 5b9c186..76da66a 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -388,7 +388,7 @@ class Entity(object):
         if not isinstance(self.df, pd.DataFrame) or self.df.empty:
             time_to_check = vtypes.DEFAULT_DTYPE_VALUES[self[variable_id]._default_pandas_dtype]
         else:
-            time_to_check = self.df[variable_id].iloc[0]
+            time_to_check = _first_value(self.df[variable_id])
         time_type = _check_time_type(time_to_check)
 
         if time_type is None:
@@ -440,7 +440,7 @@ class Entity(object):
             if is_instance(self.df, (dd, ks), 'DataFrame') or self.df.empty:
                 time_to_check = vtypes.DEFAULT_DTYPE_VALUES[self[time_index]._default_pandas_dtype]
             else:
-                time_to_check = self.df[time_index].head(1).iloc[0]
+                time_to_check = _first_value(self.df[time_index])
             time_type = _check_time_type(time_to_check)
             if time_type is None:
                 raise TypeError("%s time index not recognized as numeric or"
@@ -455,6 +455,12 @@ class Entity(object):
         self.secondary_time_index = secondary_time_index
 
 
+def _first_value(column):
+    '''The first value of a column that is not missing, if there is any'''
+    present = column.first_valid_index()
+    return column.iloc[0] if present is None else column[present]
+
+
 def _create_index(index, make_index, df):
     '''Handles index creation logic base on user input'''
     created_index = None
-- 
2.43.0


From a3d7591298ffce35e0228f5502f3d2f37944b8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:42 +0000
Subject: [PATCH 31/62] fix: read an entity set with the separator it was
 written with

---
 featuretools/entityset/deserialize.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index 901c739..1ae2cb3 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -151,6 +151,7 @@ def read_entity_data(description, path):
     if load_format == 'csv':
         dataframe = lib.read_csv(
             file,
+            sep=kwargs.get('sep', ','),
             engine=kwargs['engine'],
             compression=kwargs['compression'],
             encoding=kwargs['encoding'],
-- 
2.43.0


From 0b62e7719e3b97f9ae4d99fa6f3dc55733d70ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:42 +0000
Subject: [PATCH 32/62] fix: keep the order of the rows of an entity set that
 is written and read

---
 featuretools/entityset/deserialize.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index 1ae2cb3..3874e01 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -61,6 +61,7 @@ def description_to_entity(description, entityset, path=None):
         index=description.get('index'),
         time_index=description.get('time_index'),
         secondary_time_index=description['properties'].get('secondary_time_index'),
+        already_sorted=bool(path),
         variable_types={variable: variable_types[variable][0] for variable in variable_types})
     for variable in es[description['id']].variables:
         interesting_values = variable_types[variable.id][1]['properties']['interesting_values']
-- 
2.43.0


From 67a5cb11abc6a4697fe613e2fb4551ae985bc781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:07 +0000
Subject: [PATCH 33/62] fix: keep strings that look like numbers or missing
 values when reading an entity set from csv

---
 featuretools/entityset/deserialize.py | 14 ++++++++++++++
 featuretools/entityset/serialize.py   |  7 ++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index 3874e01..f610b1c 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -158,6 +158,20 @@ def read_entity_data(description, path):
             encoding=kwargs['encoding'],
             **read_kwargs
         )
+        # strings stay strings, also those that look like a number or a missing value
+        strings = description['loading_info'].get('strings')
+        if strings and entity_type == 'pandas':
+            dataframe[strings] = pd.read_csv(
+                file,
+                sep=kwargs.get('sep', ','),
+                engine=kwargs['engine'],
+                compression=kwargs['compression'],
+                encoding=kwargs['encoding'],
+                usecols=strings,
+                dtype=str,
+                keep_default_na=False,
+                na_values=['']
+            )[strings]
     elif load_format == 'parquet':
         dataframe = lib.read_parquet(file, engine=kwargs['engine'])
     elif load_format == 'pickle':
diff --git a/featuretools/entityset/serialize.py b/featuretools/entityset/serialize.py
index dc85e78..7d8b724 100644
--- a/featuretools/entityset/serialize.py
+++ b/featuretools/entityset/serialize.py
@@ -5,6 +5,7 @@ import tarfile
 import tempfile
 
 import dask.dataframe as dd
+import pandas as pd
 
 from featuretools.utils.gen_utils import import_or_none, is_instance
 from featuretools.utils.s3_utils import get_transport_params, use_smartopen_es
@@ -127,7 +128,11 @@ def write_entity_data(entity, path, format='csv', **kwargs):
     else:
         error = 'must be one of the following formats: {}'
         raise ValueError(error.format(', '.join(FORMATS)))
-    return {'location': location, 'type': format, 'params': kwargs}
+    loading_info = {'location': location, 'type': format, 'params': kwargs}
+    if format == 'csv' and isinstance(df, pd.DataFrame):
+        loading_info['strings'] = [column for column in df.select_dtypes(['object', 'category']).columns
+                                   if pd.api.types.infer_dtype(df[column].astype('object'), skipna=True) == 'string']
+    return loading_info
 
 
 def write_data_description(entityset, path, profile_name=None, **kwargs):
-- 
2.43.0


From abc8fc6a34c77ffeedb9e68db784f5ddbfa26e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:45 +0000
Subject: [PATCH 34/62] fix: keep interesting strings that look like numbers or
 dates when reading an entity set

---
 featuretools/entityset/deserialize.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index f610b1c..4108779 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -15,6 +15,14 @@ from featuretools.utils.wrangle import _is_local_tar, _is_s3, _is_url
 from featuretools.variable_types import LatLong, find_variable_types
 
 
+def _read_interesting_values(description):
+    # strings stay strings, also those that look like a number or a date
+    values = pd.read_json(description, typ='series', dtype=False, convert_dates=False)
+    if any(isinstance(value, str) for value in values):
+        return values
+    return pd.read_json(description, typ='series')
+
+
 def description_to_variable(description, entity=None):
     '''Deserialize variable from variable description.
 
@@ -32,7 +40,7 @@ def description_to_variable(description, entity=None):
         variable_class = variable_types.get(variable, variable_types.get('unknown'))
         kwargs = {} if is_type_string else description['type']
         variable = variable_class(description['id'], entity, **kwargs)
-        interesting_values = pd.read_json(description['properties']['interesting_values'], typ='series')
+        interesting_values = _read_interesting_values(description['properties']['interesting_values'])
         variable.interesting_values = interesting_values
         variable_description = description['properties'].get('description')
         if variable_description is not None and variable_description != 'the "{}"'.format(variable.name):
@@ -65,7 +73,7 @@ def description_to_entity(description, entityset, path=None):
         variable_types={variable: variable_types[variable][0] for variable in variable_types})
     for variable in es[description['id']].variables:
         interesting_values = variable_types[variable.id][1]['properties']['interesting_values']
-        interesting_values = pd.read_json(interesting_values, typ="series")
+        interesting_values = _read_interesting_values(interesting_values)
         variable.interesting_values = interesting_values
         variable_description = variable_types[variable.id][1]['properties'].get('description')
         if variable_description is not None and variable_description != 'the "{}"'.format(variable.name):
-- 
2.43.0


From ad2e915e2ab0c3f8adca63a23973d1e39c4f2516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:50 +0000
Subject: [PATCH 35/62] fix: keep rows that are blank when reading an entity
 set from csv

---
 featuretools/entityset/deserialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index 4108779..cbe9b2a 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -164,6 +164,7 @@ def read_entity_data(description, path):
             engine=kwargs['engine'],
             compression=kwargs['compression'],
             encoding=kwargs['encoding'],
+            skip_blank_lines=False,
             **read_kwargs
         )
         # strings stay strings, also those that look like a number or a missing value
@@ -175,6 +176,7 @@ def read_entity_data(description, path):
                 engine=kwargs['engine'],
                 compression=kwargs['compression'],
                 encoding=kwargs['encoding'],
+                skip_blank_lines=False,
                 usecols=strings,
                 dtype=str,
                 keep_default_na=False,
-- 
2.43.0


From 7c0f1f10ed0789241e0333126b7c8ba5d71a7247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:48 +0000
Subject: [PATCH 36/62] fix: the index of an entity cannot become its time
 index

---
 featuretools/entityset/entity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index 76da66a..5557eba 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -384,6 +384,9 @@ class Entity(object):
             if time_index not in variable_ids}
 
     def set_time_index(self, variable_id, already_sorted=False):
+        if variable_id == self.index:
+            raise ValueError("time_index and index cannot be the same value, %s" % (variable_id))
+
         # check time type
         if not isinstance(self.df, pd.DataFrame) or self.df.empty:
             time_to_check = vtypes.DEFAULT_DTYPE_VALUES[self[variable_id]._default_pandas_dtype]
-- 
2.43.0


From 6e397d706c5ed9e30ae8a05117ad93d1fbf9612a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:18 +0000
Subject: [PATCH 37/62] fix: reject incomplete requests for temporal cutoffs

---
 featuretools/utils/time_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/featuretools/utils/time_utils.py b/featuretools/utils/time_utils.py
index 6b1d412..ec96a42 100644
--- a/featuretools/utils/time_utils.py
+++ b/featuretools/utils/time_utils.py
@@ -30,6 +30,10 @@ def make_temporal_cutoffs(instance_ids,
             num_windows is not None and
             start is not None):
         raise ValueError("Only supply 2 of the 3 optional args, window_size, num_windows and start")
+    if sum(arg is None for arg in (window_size, num_windows, start)) > 1:
+        raise ValueError("Supply 2 of the 3 optional args, window_size, num_windows and start")
+    if len(instance_ids) != len(cutoffs) or (start is not None and len(start) != len(cutoffs)):
+        raise ValueError("Supply a cutoff (and a start, if any) for every instance id")
     out = []
     for i, id_time in enumerate(zip(instance_ids, cutoffs)):
         _id, time = id_time
-- 
2.43.0


From c5f70ca0f87b318ace0be508101ddaead3bd70d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:18 +0000
Subject: [PATCH 38/62] fix: accept plural time units in capitals

---
 featuretools/entityset/timedelta.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/featuretools/entityset/timedelta.py b/featuretools/entityset/timedelta.py
index 5b6f4da..de6e1bd 100644
--- a/featuretools/entityset/timedelta.py
+++ b/featuretools/entityset/timedelta.py
@@ -83,10 +83,10 @@ class Timedelta(object):
 
     @classmethod
     def _check_unit_plural(cls, s):
+        if len(s) > 1:
+            s = s.lower()
         if len(s) > 2 and not s.endswith('s'):
-            return (s + 's').lower()
-        elif len(s) > 1:
-            return s.lower()
+            s = s + 's'
         return s
 
     def get_value(self, unit=None):
-- 
2.43.0


From 939712cdb64459c17ba970e245c3ddc16a8d3061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:19 +0000
Subject: [PATCH 39/62] fix: spans of several units may include milliseconds

---
 featuretools/entityset/timedelta.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/featuretools/entityset/timedelta.py b/featuretools/entityset/timedelta.py
index de6e1bd..e5d9736 100644
--- a/featuretools/entityset/timedelta.py
+++ b/featuretools/entityset/timedelta.py
@@ -108,6 +108,9 @@ class Timedelta(object):
             return pd.Timedelta(self.times[all_units[0]], all_units[0])
         else:
             readable_times = self.lower_readable_times()
+            if 'milliseconds' in readable_times:
+                # relativedelta has no milliseconds
+                readable_times['microseconds'] = readable_times.pop('milliseconds') * 1000
             return relativedelta(**readable_times)
 
     def check_value(self, value, unit):
@@ -142,9 +145,10 @@ class Timedelta(object):
             return "{} {}".format(self.times[all_units[0]], self._readable_units[all_units[0]])
         final_str = ""
         for unit, value in self.times.items():
+            readable_unit = self._readable_units[unit]
             if value == 1:
-                unit = self.make_singular(unit)
-            final_str += "{} {} ".format(value, self._readable_units[unit])
+                readable_unit = self.make_singular(readable_unit)
+            final_str += "{} {} ".format(value, readable_unit)
         return final_str[:-1]
 
     def get_arguments(self):
-- 
2.43.0


From 3909b34a745da8573842a69f42797cdc500d6e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:47 +0000
Subject: [PATCH 40/62] fix: drop_first with a number of top values per feature

---
 featuretools/synthesis/encode_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/synthesis/encode_features.py b/featuretools/synthesis/encode_features.py
index 1732978..b4aee78 100644
--- a/featuretools/synthesis/encode_features.py
+++ b/featuretools/synthesis/encode_features.py
@@ -136,7 +136,7 @@ def encode_features(feature_matrix, features, top_n=DEFAULT_TOP_N, include_unkno
         if isinstance(top_n, dict):
             select_n = top_n.get(f.get_name(), DEFAULT_TOP_N)
         if drop_first:
-            select_n = min(len(val_counts), top_n)
+            select_n = min(len(val_counts), select_n)
             select_n = max(select_n - 1, 1)
         unique = val_counts.head(select_n).index.tolist()
         for label in unique:
-- 
2.43.0


From f49caa14c57c99d909a0971f3bd92a55ceca20b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:47 +0000
Subject: [PATCH 41/62] fix: the order of features_to_check does not matter

---
 featuretools/selection/selection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/featuretools/selection/selection.py b/featuretools/selection/selection.py
index 0f287e7..59f0ddd 100644
--- a/featuretools/selection/selection.py
+++ b/featuretools/selection/selection.py
@@ -117,6 +117,8 @@ def remove_highly_correlated_features(feature_matrix, features=None, pct_corr_th
     else:
         for f_name in features_to_check:
             assert f_name in feature_matrix.columns, "feature named {} is not in feature matrix".format(f_name)
+        # the order of the feature matrix tells which features are more complex
+        features_to_check = [c for c in feature_matrix.columns if c in features_to_check]
 
     if features_to_keep is None:
         features_to_keep = []
-- 
2.43.0


From c13526dd8baa42134f8d564757601f0f8efcdf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:47 +0000
Subject: [PATCH 42/62] fix: keep multi output features when removing low
 information features

---
 featuretools/selection/selection.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/featuretools/selection/selection.py b/featuretools/selection/selection.py
index 59f0ddd..8f49571 100644
--- a/featuretools/selection/selection.py
+++ b/featuretools/selection/selection.py
@@ -15,12 +15,7 @@ def remove_low_information_features(feature_matrix, features=None):
     keep = [c for c in feature_matrix
             if (feature_matrix[c].nunique(dropna=False) > 1 and
                 feature_matrix[c].dropna().shape[0] > 0)]
-    feature_matrix = feature_matrix[keep]
-    if features is not None:
-        features = [f for f in features
-                    if f.get_name() in feature_matrix.columns]
-        return feature_matrix, features
-    return feature_matrix
+    return _apply_feature_selection(keep, feature_matrix, features)
 
 
 def remove_highly_null_features(feature_matrix, features=None, pct_null_threshold=0.95):
-- 
2.43.0


From 2f57cbd039dbc04668045637253faddf3a733b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:03 +0000
Subject: [PATCH 43/62] fix: None and NaN are one missing value when counting
 the values of a feature

---
 featuretools/selection/selection.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/featuretools/selection/selection.py b/featuretools/selection/selection.py
index 8f49571..e0e59b5 100644
--- a/featuretools/selection/selection.py
+++ b/featuretools/selection/selection.py
@@ -13,7 +13,7 @@ def remove_low_information_features(feature_matrix, features=None):
 
     """
     keep = [c for c in feature_matrix
-            if (feature_matrix[c].nunique(dropna=False) > 1 and
+            if (feature_matrix[c].nunique() + feature_matrix[c].isnull().any() > 1 and
                 feature_matrix[c].dropna().shape[0] > 0)]
     return _apply_feature_selection(keep, feature_matrix, features)
 
@@ -65,7 +65,11 @@ def remove_single_value_features(feature_matrix, features=None, count_nan_as_val
                 Matches dfs output.
                 If no feature list is provided as input, the feature list will not be returned.
     """
-    unique_counts_by_col = feature_matrix.nunique(dropna=not count_nan_as_value).to_dict()
+    unique_counts = feature_matrix.nunique()
+    if count_nan_as_value:
+        # None and NaN are the same missing value
+        unique_counts = unique_counts + feature_matrix.isnull().any()
+    unique_counts_by_col = unique_counts.to_dict()
 
     keep = [f_name for f_name, unique_count
             in unique_counts_by_col.items() if unique_count > 1]
-- 
2.43.0


From ad84bbc7277814d9bb8f402f179c4b637d3a8c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 44/62] fix: the order of conditional features does not depend
 on the hash seed

---
 featuretools/synthesis/deep_feature_synthesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/synthesis/deep_feature_synthesis.py b/featuretools/synthesis/deep_feature_synthesis.py
index ccf8451..b167b3c 100644
--- a/featuretools/synthesis/deep_feature_synthesis.py
+++ b/featuretools/synthesis/deep_feature_synthesis.py
@@ -706,7 +706,7 @@ class DeepFeatureSynthesis(object):
                                                         feature_filter=feature_filter)
             matching_inputs = filter_matches_by_options(matching_inputs,
                                                         current_options)
-            wheres = list(self.where_clauses[child_entity.id])
+            wheres = sorted(self.where_clauses[child_entity.id], key=lambda where: where.unique_name())
 
             for matching_input in matching_inputs:
                 if not check_stacking(agg_prim, matching_input):
-- 
2.43.0


From 2476a8c98100fc045b314d8cb03a67a04e88398c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 45/62] fix: the order of commutative inputs whose names differ
 in case only

---
 featuretools/synthesis/deep_feature_synthesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/synthesis/deep_feature_synthesis.py b/featuretools/synthesis/deep_feature_synthesis.py
index b167b3c..e224a0a 100644
--- a/featuretools/synthesis/deep_feature_synthesis.py
+++ b/featuretools/synthesis/deep_feature_synthesis.py
@@ -915,7 +915,7 @@ def match(input_types, features, replace=False, commutative=False, require_direc
             matching_inputs.add(new_match)
 
     if commutative:
-        matching_inputs = {tuple(sorted(s, key=lambda x: x.get_name().lower())) for s in matching_inputs}
+        matching_inputs = {tuple(sorted(s, key=lambda x: (x.get_name().lower(), x.get_name()))) for s in matching_inputs}
 
     return matching_inputs
 
-- 
2.43.0


From 1f37ecd97216dd9e34233e11e5682874aaa7f6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 46/62] fix: respect the primitives a primitive must not be a
 base of

---
 featuretools/synthesis/deep_feature_synthesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/synthesis/deep_feature_synthesis.py b/featuretools/synthesis/deep_feature_synthesis.py
index e224a0a..484f7e2 100644
--- a/featuretools/synthesis/deep_feature_synthesis.py
+++ b/featuretools/synthesis/deep_feature_synthesis.py
@@ -852,7 +852,7 @@ def check_stacking(primitive, inputs):
 
     for f in inputs:
         if f.primitive.base_of_exclude is not None:
-            if primitive in f.base_of_exclude:
+            if primitive.__class__ in f.primitive.base_of_exclude:
                 return False
 
     for f in inputs:
-- 
2.43.0


From afcf0af2a242d9239bf5a3787f547d3a2b343adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 47/62] fix: a direct feature may be the group of a group by
 feature

---
 featuretools/synthesis/deep_feature_synthesis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/featuretools/synthesis/deep_feature_synthesis.py b/featuretools/synthesis/deep_feature_synthesis.py
index 484f7e2..d3faf2f 100644
--- a/featuretools/synthesis/deep_feature_synthesis.py
+++ b/featuretools/synthesis/deep_feature_synthesis.py
@@ -635,9 +635,9 @@ class DeepFeatureSynthesis(object):
                         check_transform_stacking(matching_input)):
                     for groupby in groupby_matches:
                         if require_direct_input and (
-                            _all_direct_and_same_path(matching_input + (groupby,)) or
+                            _all_direct_and_same_path(matching_input + groupby) or
                             not any([isinstance(feature, DirectFeature) for
-                                     feature in (matching_input + (groupby, ))])
+                                     feature in (matching_input + groupby)])
                         ):
                             continue
                         new_f = GroupByTransformFeature(list(matching_input),
-- 
2.43.0


From 3d83270a0a169a8e3de02b50769ebb3178296449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:45 +0000
Subject: [PATCH 48/62] fix: keep the inputs of a group by feature that is
 grouped by one of them when saving, and the caller's list of inputs

---
 featuretools/feature_base/feature_base.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/featuretools/feature_base/feature_base.py b/featuretools/feature_base/feature_base.py
index 4899143..21ca307 100644
--- a/featuretools/feature_base/feature_base.py
+++ b/featuretools/feature_base/feature_base.py
@@ -689,7 +689,7 @@ class GroupByTransformFeature(TransformFeature):
         self.groupby = groupby
 
         if hasattr(base_features, '__iter__'):
-            base_features.append(groupby)
+            base_features = list(base_features) + [groupby]
         else:
             base_features = [base_features, groupby]
 
@@ -726,8 +726,7 @@ class GroupByTransformFeature(TransformFeature):
 
     def get_arguments(self):
         # Do not include groupby in base_features.
-        feature_names = [feat.unique_name() for feat in self.base_features
-                         if feat.unique_name() != self.groupby.unique_name()]
+        feature_names = [feat.unique_name() for feat in self.base_features[:-1]]
         return {
             'name': self._name,
             'base_features': feature_names,
-- 
2.43.0


From dbf931187145c75bcd12f2d05f4193225538e7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:45 +0000
Subject: [PATCH 49/62] fix: save features whose primitives have numpy scalars
 as parameters

---
 featuretools/feature_base/features_serializer.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/featuretools/feature_base/features_serializer.py b/featuretools/feature_base/features_serializer.py
index aeef09b..884dd0e 100644
--- a/featuretools/feature_base/features_serializer.py
+++ b/featuretools/feature_base/features_serializer.py
@@ -1,5 +1,7 @@
 import json
 
+import numpy as np
+
 from featuretools.utils.s3_utils import (
     get_transport_params,
     use_smartopen_features
@@ -81,7 +83,7 @@ class FeaturesSerializer(object):
     def save(self, location, profile_name):
         features_dict = self.to_dict()
         if location is None:
-            return json.dumps(features_dict)
+            return json.dumps(features_dict, default=_to_builtin)
         if isinstance(location, str):
             if _is_url(location):
                 raise ValueError("Writing to URLs is not supported")
@@ -90,9 +92,9 @@ class FeaturesSerializer(object):
                 use_smartopen_features(location, features_dict, transport_params, read=False)
             else:
                 with open(location, "w") as f:
-                    json.dump(features_dict, f)
+                    json.dump(features_dict, f, default=_to_builtin)
         else:
-            json.dump(features_dict, location)
+            json.dump(features_dict, location, default=_to_builtin)
 
     def _feature_definitions(self):
         if not self._features_dict:
@@ -113,3 +115,10 @@ class FeaturesSerializer(object):
                 name = dependency.unique_name()
                 if name not in self._features_dict:
                     self._features_dict[name] = dependency.to_dictionary()
+
+
+def _to_builtin(value):
+    # parameters of primitives are often numpy scalars
+    if isinstance(value, np.generic) and not isinstance(value, (np.datetime64, np.timedelta64)):
+        return value.item()
+    raise TypeError('Object of type %s is not JSON serializable' % type(value).__name__)
-- 
2.43.0


From 2cf5f350fa4df7603fdbfe6265848f0e15e64432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:45 +0000
Subject: [PATCH 50/62] fix: compare schema versions as numbers

---
 featuretools/utils/gen_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/featuretools/utils/gen_utils.py b/featuretools/utils/gen_utils.py
index 7ed11bb..0e5246d 100644
--- a/featuretools/utils/gen_utils.py
+++ b/featuretools/utils/gen_utils.py
@@ -56,8 +56,8 @@ def check_schema_version(cls, cls_type):
             )
             version_string = cls.features_dict['schema_version']
 
-        current = SCHEMA_VERSION.split('.')
-        saved = version_string.split('.')
+        current = [int(num) for num in SCHEMA_VERSION.split('.')]
+        saved = [int(num) for num in version_string.split('.')]
 
         warning_text_upgrade = ('The schema version of the saved %s'
                                 '(%s) is greater than the latest supported (%s). '
-- 
2.43.0


From b62972ab40b749406c73a35abdba36f0bf192e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:49 +0000
Subject: [PATCH 51/62] fix: save progress of calculations at a single cutoff
 time

---
 .../calculate_feature_matrix.py               | 19 ++++++++++++-------
 featuretools/computational_backends/utils.py  |  2 +-
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/featuretools/computational_backends/calculate_feature_matrix.py b/featuretools/computational_backends/calculate_feature_matrix.py
index 642ca33..4a9fa3e 100644
--- a/featuretools/computational_backends/calculate_feature_matrix.py
+++ b/featuretools/computational_backends/calculate_feature_matrix.py
@@ -355,13 +355,18 @@ def calculate_chunk(cutoff_time, chunk_size, feature_set, entityset, approximate
 
         time_last = cutoff_time[0]
         ids = cutoff_time[1]
-        calculator = FeatureSetCalculator(entityset,
-                                          feature_set,
-                                          time_last,
-                                          training_window=training_window)
-        _feature_matrix = calculator.run(ids,
-                                         progress_callback=update_progress_callback,
-                                         include_cutoff_time=include_cutoff_time)
+
+        @save_csv_decorator(save_progress, time_last)
+        def calc_ids(time_last, ids):
+            calculator = FeatureSetCalculator(entityset,
+                                              feature_set,
+                                              time_last,
+                                              training_window=training_window)
+            return calculator.run(ids,
+                                  progress_callback=update_progress_callback,
+                                  include_cutoff_time=include_cutoff_time)
+
+        _feature_matrix = calc_ids(time_last, ids)
         if isinstance(_feature_matrix, pd.DataFrame):
             time_index = pd.Index([time_last] * len(ids), name='time')
             _feature_matrix = _feature_matrix.set_index(time_index, append=True)
diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index 494bbfb..fad7e4f 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -39,7 +39,7 @@ def save_csv_decorator(save_progress=None, group_key=None):
                 r = method(*args, **kwargs)
             else:
                 time, instance_ids = args[:2]
-                if hasattr(time, 'strftime'):
+                if hasattr(time, 'strftime') and not pd.isnull(time):
                     time = time.strftime("%Y_%m_%d_%H-%M-%S-%f")
                 # several chunks can have the same time
                 file_name = 'ft_{}_{}.csv'.format(time, tokenize(group_key, instance_ids))
-- 
2.43.0


From 2de83bac73b9bce218d9566f61f5b46a86da04d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:27 +0000
Subject: [PATCH 52/62] fix: accept a numpy datetime as the single cutoff time
 with time spans

---
 .../computational_backends/calculate_feature_matrix.py         | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/featuretools/computational_backends/calculate_feature_matrix.py b/featuretools/computational_backends/calculate_feature_matrix.py
index 4a9fa3e..6f96181 100644
--- a/featuretools/computational_backends/calculate_feature_matrix.py
+++ b/featuretools/computational_backends/calculate_feature_matrix.py
@@ -176,6 +176,9 @@ def calculate_feature_matrix(features, entityset=None, cutoff_time=None, instanc
                 cutoff_time = np.inf
             else:
                 cutoff_time = datetime.now()
+        elif isinstance(cutoff_time, np.datetime64):
+            # time spans cannot be subtracted from numpy's datetimes
+            cutoff_time = pd.Timestamp(cutoff_time)
 
         if instance_ids is None:
             index_var = target_entity.index
-- 
2.43.0


From 55816f0126a58ef17cceb9242cb4d8d78f542b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:27 +0000
Subject: [PATCH 53/62] fix: N_MOST_COMMON returned categories without any row

---
 featuretools/primitives/standard/aggregation_primitives.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/featuretools/primitives/standard/aggregation_primitives.py b/featuretools/primitives/standard/aggregation_primitives.py
index 3a64d26..c046423 100644
--- a/featuretools/primitives/standard/aggregation_primitives.py
+++ b/featuretools/primitives/standard/aggregation_primitives.py
@@ -350,7 +350,9 @@ class NMostCommon(AggregationPrimitive):
 
     def get_function(self, agg_type=Library.PANDAS):
         def n_most_common(x):
-            array = np.array(x.value_counts().index[:self.n])
+            counts = x.value_counts()
+            # categories without any row are counted too
+            array = np.array(counts[counts > 0].index[:self.n])
             if len(array) < self.n:
                 filler = np.full(self.n - len(array), np.nan)
                 array = np.append(array, filler)
-- 
2.43.0


From 31a982cdddcf51cfd155c43e423de9f537391244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:27 +0000
Subject: [PATCH 54/62] fix: N_MOST_COMMON of one value could not be calculated

---
 featuretools/primitives/standard/aggregation_primitives.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featuretools/primitives/standard/aggregation_primitives.py b/featuretools/primitives/standard/aggregation_primitives.py
index c046423..ff1bc4a 100644
--- a/featuretools/primitives/standard/aggregation_primitives.py
+++ b/featuretools/primitives/standard/aggregation_primitives.py
@@ -356,7 +356,8 @@ class NMostCommon(AggregationPrimitive):
             if len(array) < self.n:
                 filler = np.full(self.n - len(array), np.nan)
                 array = np.append(array, filler)
-            return array
+            # a feature with one output has a plain value in each cell
+            return array if self.n > 1 else array[0]
 
         return n_most_common
 
-- 
2.43.0


From f95e5ccee4530c6d12b0a06aa3f176020987f4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:48 +0000
Subject: [PATCH 55/62] fix: PERCENT_TRUE of booleans with missing values
 failed on Dask frames

---
 featuretools/primitives/standard/aggregation_primitives.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featuretools/primitives/standard/aggregation_primitives.py b/featuretools/primitives/standard/aggregation_primitives.py
index ff1bc4a..02ce045 100644
--- a/featuretools/primitives/standard/aggregation_primitives.py
+++ b/featuretools/primitives/standard/aggregation_primitives.py
@@ -292,7 +292,8 @@ class PercentTrue(AggregationPrimitive):
         if agg_type == Library.DASK:
             def chunk(s):
                 def format_chunk(x):
-                    return x[:].fillna(0)
+                    # with missing values the column does not hold booleans
+                    return x[:].fillna(0).astype(bool)
 
                 chunk_sum = s.agg(lambda x: format_chunk(x).sum())
                 chunk_len = s.agg(lambda x: len(format_chunk(x)))
-- 
2.43.0


From 9f79fe5f2f383f846dd1803a064b0de6af14d42e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:50:03 +0000
Subject: [PATCH 56/62] fix: keep missing strings and booleans when writing an
 entity set to parquet

---
 featuretools/entityset/deserialize.py | 3 +++
 featuretools/entityset/serialize.py   | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index cbe9b2a..9e31fe5 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -184,6 +184,9 @@ def read_entity_data(description, path):
             )[strings]
     elif load_format == 'parquet':
         dataframe = lib.read_parquet(file, engine=kwargs['engine'])
+        if entity_type == 'pandas':
+            for column in dataframe.select_dtypes('boolean').columns:
+                dataframe[column] = dataframe[column].astype('object').where(dataframe[column].notnull(), np.nan)
     elif load_format == 'pickle':
         dataframe = pd.read_pickle(file, **kwargs)
     else:
diff --git a/featuretools/entityset/serialize.py b/featuretools/entityset/serialize.py
index 7d8b724..1d0258c 100644
--- a/featuretools/entityset/serialize.py
+++ b/featuretools/entityset/serialize.py
@@ -116,6 +116,12 @@ def write_entity_data(entity, path, format='csv', **kwargs):
         # Issue is resolved by casting columns of dtype object to string.
         df = df.copy()
         columns = list(df.select_dtypes('object').columns)
+        if isinstance(df, pd.DataFrame):
+            # strings and booleans stay what they are, so that missing values stay missing
+            kinds = {column: pd.api.types.infer_dtype(df[column], skipna=True) for column in columns}
+            for column in [column for column in columns if kinds[column] == 'boolean']:
+                df[column] = df[column].astype('boolean')
+            columns = [column for column in columns if kinds[column] not in ('string', 'boolean', 'empty')]
         df[columns] = df[columns].astype(str)
         df.to_parquet(file, **kwargs)
     elif format == 'pickle':
-- 
2.43.0


From 165af3c909f338d4c5cdf2419b53641304a58f8c Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 23:19:13 +0000
Subject: [PATCH 57/62] fix: categorical keys without rows got aggregated
 values on Dask frames

---
 featuretools/computational_backends/feature_set_calculator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index 58044a7..a8f2ca5 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -707,7 +707,9 @@ class FeatureSetCalculator(object):
                 # to silence pandas warning about ambiguity we explicitly pass
                 # the column (in actuality grouping by both index and group would
                 # work)
-                if is_instance(base_frame, (dd, ks), 'DataFrame'):
+                if is_instance(base_frame, dd, 'DataFrame'):
+                    to_merge = base_frame.groupby(groupby_var, observed=True).agg(to_agg)
+                elif is_instance(base_frame, ks, 'DataFrame'):
                     to_merge = base_frame.groupby(groupby_var).agg(to_agg)
 
                 else:
-- 
2.43.0


From 50f090772d681abcd7caa5b0699365a75b380cf6 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 23:22:00 +0000
Subject: [PATCH 58/62] fix: encoding counted categories that no row has

---
 featuretools/synthesis/encode_features.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/featuretools/synthesis/encode_features.py b/featuretools/synthesis/encode_features.py
index b4aee78..458fe48 100644
--- a/featuretools/synthesis/encode_features.py
+++ b/featuretools/synthesis/encode_features.py
@@ -121,7 +121,9 @@ def encode_features(feature_matrix, features, top_n=DEFAULT_TOP_N, include_unkno
             new_columns.extend(f.get_feature_names())
             continue
 
-        val_counts = X[f.get_name()].value_counts().to_frame()
+        # categories without any row are not counted
+        val_counts = X[f.get_name()].value_counts()
+        val_counts = val_counts[val_counts > 0].to_frame()
         index_name = val_counts.index.name
         if index_name is None:
             if 'index' in val_counts.columns:
-- 
2.43.0


From 356cc5700dbeff479c6c6ffbfb734fe773667a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:36 +0000
Subject: [PATCH 59/62] fix: calculate single columns of multi-output features

Feature selection returns FeatureOutputSlice features, but requesting one
failed with UnknownFeature or KeyError.
---
 featuretools/computational_backends/feature_set.py |  3 +++
 featuretools/computational_backends/utils.py       | 10 +++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/featuretools/computational_backends/feature_set.py b/featuretools/computational_backends/feature_set.py
index 4cb53f1..df1142a 100644
--- a/featuretools/computational_backends/feature_set.py
+++ b/featuretools/computational_backends/feature_set.py
@@ -90,6 +90,9 @@ class FeatureSet(object):
                             path_constructor=RelationshipPath)
 
         for f in self.target_features:
+            # it is the multi output feature that is calculated
+            if isinstance(f, FeatureOutputSlice):
+                f = f.base_feature
             self._add_feature_to_trie(feature_trie,
                                       f,
                                       self.approximate_feature_trie)
diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index fad7e4f..344e0cf 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -9,7 +9,11 @@ import psutil
 from dask.base import tokenize
 
 from featuretools.entityset.relationship import RelationshipPath
-from featuretools.feature_base import AggregationFeature, DirectFeature
+from featuretools.feature_base import (
+    AggregationFeature,
+    DirectFeature,
+    FeatureOutputSlice
+)
 from featuretools.utils import Trie
 from featuretools.utils.wrangle import _check_time_type, _check_timedelta
 from featuretools.variable_types import (
@@ -97,6 +101,10 @@ def gather_approximate_features(feature_set):
         if feature_set.uses_full_entity(feature, check_dependents=True):
             continue
 
+        # it is the multi output feature that is calculated
+        if isinstance(feature, FeatureOutputSlice):
+            feature = feature.base_feature
+
         if isinstance(feature, DirectFeature):
             path = feature.relationship_path
             base_feature = feature.base_features[0]
-- 
2.43.0


From 2b51b062bb8cd1dfc4c8307bdc9cc9375db619cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:32 +0000
Subject: [PATCH 60/62] fix: describing features failed when two with several
 outputs have one name

---
 .../feature_base/feature_descriptions.py      | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/featuretools/feature_base/feature_descriptions.py b/featuretools/feature_base/feature_descriptions.py
index e2dbe46..c70e297 100644
--- a/featuretools/feature_base/feature_descriptions.py
+++ b/featuretools/feature_base/feature_descriptions.py
@@ -26,16 +26,22 @@ def describe_feature(feature, feature_descriptions=None, primitive_templates=Non
         feature_descriptions = {**file_feature_descriptions, **feature_descriptions}
         primitive_templates = {**file_primitive_templates, **primitive_templates}
 
+    # comparing features builds a feature, so they are looked up by name
+    by_feature = {key.unique_name(): description
+                  for key, description in feature_descriptions.items()
+                  if isinstance(key, ft.feature_base.FeatureBase)}
+    by_name = {key: description for key, description in feature_descriptions.items()
+               if not isinstance(key, ft.feature_base.FeatureBase)}
+    feature_descriptions = {**by_name, **by_feature}
+
     description = generate_description(feature, feature_descriptions, primitive_templates)
     return description[:1].upper() + description[1:] + '.'
 
 
 def generate_description(feature, feature_descriptions, primitive_templates):
     # Check if feature has custom description
-    if feature in feature_descriptions or feature.unique_name() in feature_descriptions:
-        description = (feature_descriptions.get(feature) or
-                       feature_descriptions.get(feature.unique_name()))
-        return description
+    if feature.unique_name() in feature_descriptions:
+        return feature_descriptions[feature.unique_name()]
 
     # Check if identity feature:
     if isinstance(feature, ft.IdentityFeature):
@@ -134,9 +140,8 @@ def get_aggregation_groupby(feature, feature_descriptions=None):
         feature_descriptions = {}
     groupby_name = feature.entity.index
     groupby = ft.IdentityFeature(feature.entity[groupby_name])
-    if groupby in feature_descriptions or groupby.unique_name() in feature_descriptions:
-        return (feature_descriptions.get(groupby) or
-                feature_descriptions.get(groupby.unique_name()))
+    if groupby.unique_name() in feature_descriptions:
+        return feature_descriptions[groupby.unique_name()]
     else:
         return '"{}" in "{}"'.format(groupby_name, feature.entity.id)
 
-- 
2.43.0


From 7c4115d5417190e86a43d0f9104c98686e01f2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:32 +0000
Subject: [PATCH 61/62] fix: describe aggregations under any condition

---
 .../feature_base/feature_descriptions.py      | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/featuretools/feature_base/feature_descriptions.py b/featuretools/feature_base/feature_descriptions.py
index c70e297..f4993e4 100644
--- a/featuretools/feature_base/feature_descriptions.py
+++ b/featuretools/feature_base/feature_descriptions.py
@@ -106,10 +106,7 @@ def generate_description(feature, feature_descriptions, primitive_templates):
     # Generate where phrase
     where = ''
     if hasattr(feature, 'where') and feature.where:
-        where_col = generate_description(feature.where.base_features[0],
-                                         feature_descriptions,
-                                         primitive_templates)
-        where = 'where {} is {}'.format(where_col, feature.where.primitive.value)
+        where = get_where_description(feature.where, feature_descriptions, primitive_templates)
 
     # Join all parts of template
     description_template = [primitive_description, entity_description, where, groupby]
@@ -135,6 +132,20 @@ def get_direct_description(feature):
     return base_features[0], direct_description
 
 
+def get_where_description(where, feature_descriptions, primitive_templates):
+    if isinstance(where.primitive, ft.primitives.EqualScalar):
+        where_col = generate_description(where.base_features[0],
+                                         feature_descriptions,
+                                         primitive_templates)
+        return 'where {} is {}'.format(where_col, where.primitive.value)
+
+    # other conditions are described in full
+    condition = generate_description(where, feature_descriptions, primitive_templates)
+    if condition.startswith('whether '):
+        return 'where {}'.format(condition[len('whether '):])
+    return 'where {} is true'.format(condition)
+
+
 def get_aggregation_groupby(feature, feature_descriptions=None):
     if feature_descriptions is None:
         feature_descriptions = {}
-- 
2.43.0


From e689aced94442c46621c74ba3454e4cbd712b57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:32 +0000
Subject: [PATCH 62/62] fix: describe single outputs of direct and group-by
 features

---
 .../feature_base/feature_descriptions.py      | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/featuretools/feature_base/feature_descriptions.py b/featuretools/feature_base/feature_descriptions.py
index f4993e4..ab6dbad 100644
--- a/featuretools/feature_base/feature_descriptions.py
+++ b/featuretools/feature_base/feature_descriptions.py
@@ -47,9 +47,18 @@ def generate_description(feature, feature_descriptions, primitive_templates):
     if isinstance(feature, ft.IdentityFeature):
         return feature.variable.description
 
+    # a single output is described like the feature it belongs to
+    slice_num = None
+    whole_feature = feature
+    if isinstance(feature, ft.feature_base.FeatureOutputSlice):
+        slice_num = feature.n
+        whole_feature = feature.base_feature
+
     # Handle direct features
-    if isinstance(feature, ft.DirectFeature):
-        base_feature, direct_description = get_direct_description(feature)
+    if isinstance(whole_feature, ft.DirectFeature):
+        base_feature, direct_description = get_direct_description(whole_feature)
+        if slice_num is not None:
+            base_feature = base_feature[slice_num]
         direct_base = generate_description(base_feature,
                                            feature_descriptions,
                                            primitive_templates)
@@ -57,11 +66,8 @@ def generate_description(feature, feature_descriptions, primitive_templates):
 
     # Get input descriptions
     input_descriptions = []
-    input_columns = feature.base_features
-    if isinstance(feature, ft.feature_base.FeatureOutputSlice):
-        input_columns = feature.base_feature.base_features
-
-    for input_col in input_columns:
+    feature = whole_feature
+    for input_col in feature.base_features:
         col_description = generate_description(input_col,
                                                feature_descriptions,
                                                primitive_templates)
@@ -77,12 +83,9 @@ def generate_description(feature, feature_descriptions, primitive_templates):
     if feature.primitive in primitive_templates or feature.primitive.name in primitive_templates:
         template_override = (primitive_templates.get(feature.primitive) or
                              primitive_templates.get(feature.primitive.name))
-    slice_num = feature.n if hasattr(feature, 'n') else None
     primitive_description = feature.primitive.get_description(input_descriptions,
                                                               slice_num=slice_num,
                                                               template_override=template_override)
-    if isinstance(feature, ft.feature_base.FeatureOutputSlice):
-        feature = feature.base_feature
 
     # Generate groupby phrase if applicable
     groupby = ''
-- 
2.43.0

