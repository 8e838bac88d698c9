"""Does a known finding still occur?  Each probe returns True if it does."""
import pandas as pd
import featuretools as ft


def approx_now():
    es = ft.EntitySet("p")
    es.entity_from_dataframe("a", pd.DataFrame({"id": [0], "v": [1]}), index="id")
    es.entity_from_dataframe("b", pd.DataFrame({"id": [0, 1], "a": [0, 0], "t": pd.to_datetime(["2020-01-01", "2020-01-05"]), "v": [1, 2]}),
                             index="id", time_index="t")
    es.add_relationship(ft.Relationship(es["a"]["id"], es["b"]["a"]))
    s = ft.Feature(es["b"]["v"], parent_entity=es["a"], primitive=ft.primitives.Sum)
    d = ft.Feature(s, es["b"])
    v = ft.Feature(es["b"]["v"])
    ct = pd.DataFrame({"instance_id": [1], "time": pd.to_datetime(["2020-01-03"])})
    fm = ft.calculate_feature_matrix([d, v], es, cutoff_time=ct, approximate="1 day")
    return bool(fm[v.get_name()].iloc[0] == 2)


def deep_direct():
    es = ft.EntitySet("p")
    es.entity_from_dataframe("s", pd.DataFrame({"id": [0], "v": [1]}), index="id")
    es.entity_from_dataframe("c", pd.DataFrame({"id": [0], "s": [0]}), index="id")
    es.entity_from_dataframe("t", pd.DataFrame({"id": [0], "s": [0], "c": [0]}), index="id")
    for a, b, v in (("s", "t", "s"), ("c", "t", "c"), ("s", "c", "s")):
        es.add_relationship(ft.Relationship(es[a]["id"], es[b][v]))
    fs = ft.dfs(entityset=es, target_entity="t", agg_primitives=[], trans_primitives=[], max_depth=1, features_only=True)
    return max(f.get_depth() for f in fs) == 2


def _tables():
    es = ft.EntitySet("p")
    es.entity_from_dataframe("a", pd.DataFrame({"id": [0], "v": [1], "w": [2]}), index="id")
    es.entity_from_dataframe("b", pd.DataFrame({"id": [0], "a": [0], "t": pd.to_datetime(["2020-01-01"]), "w": [3]}), index="id", time_index="t")
    es.add_relationship(ft.Relationship(es["a"]["id"], es["b"]["a"]))
    return es


def same_names():
    es = _tables()
    v, w = ft.Feature(es["a"]["v"]).rename("x"), ft.Feature(es["a"]["w"]).rename("x")
    return [f.variable.id for f in ft.load_features(ft.save_features([v, w]))] != ["v", "w"]


def time_parameter():
    es = _tables()
    try:
        ft.save_features([ft.Feature(es["b"]["t"]) > pd.Timestamp("2020-01-02")])
    except TypeError:
        return True
    return False


def bare_operators():
    es = _tables()
    a, b = ft.Feature(es["a"]["v"]), ft.Feature(es["a"]["w"])
    return (a - (b - a)).get_name() == ((a - b) - a).get_name()


def std_sample():
    es = ft.EntitySet("s")
    es.entity_from_dataframe("a", pd.DataFrame({"id": [0]}), index="id")
    es.entity_from_dataframe("b", pd.DataFrame({"id": range(5), "a": [0] * 5, "v": [1., 2, 3, 4, 5]}), index="id")
    es.add_relationship(ft.Relationship(es["a"]["id"], es["b"]["a"]))
    f = ft.Feature(es["b"]["v"], parent_entity=es["a"], primitive=ft.primitives.Std)
    return abs(ft.calculate_feature_matrix([f], es).iloc[0, 0] ** 2 - 2.5) < 1e-9 and abs(ft.primitives.Std()([1, 2, 3, 4, 5]) ** 2 - 2) < 1e-9


def dask_rows():
    """an instance without visible data has no row on distributed frames"""
    import dask.dataframe as dd
    es = ft.EntitySet("e")
    es.entity_from_dataframe("p", dd.from_pandas(pd.DataFrame({"id": [1, 2]}), npartitions=1), index="id", variable_types={"id": ft.variable_types.Index})
    es.entity_from_dataframe("c", dd.from_pandas(pd.DataFrame({"id": [1], "p": [1]}), npartitions=1), index="id",
                             variable_types={"id": ft.variable_types.Index, "p": ft.variable_types.Id})
    es.add_relationship(ft.Relationship(es["p"]["id"], es["c"]["p"]))
    f = ft.Feature(es["c"]["id"], parent_entity=es["p"], primitive=ft.primitives.Count)
    fm = ft.calculate_feature_matrix([f], es, instance_ids=[1, 7])
    return len(fm.compute()) == 1


def csv_categories():
    import tempfile
    es = ft.EntitySet("x")
    t = pd.CategoricalDtype(["a", "b", "c"])
    es.entity_from_dataframe("p", pd.DataFrame(dict(id=pd.Series(["a", "b", "c"], dtype=t), v=[1, 2, 3])), index="id")
    es.entity_from_dataframe("c", pd.DataFrame(dict(id=[1, 2], f=pd.Series(["a", "c"], dtype=t))), index="id", variable_types={"f": ft.variable_types.Id})
    es.add_relationship(ft.Relationship(es["p"]["id"], es["c"]["f"]))
    with tempfile.TemporaryDirectory() as d:
        es.to_csv(d)
        try:
            ft.read_entityset(d)
        except ValueError as err:
            return "Unable to add relationship" in str(err)
    return False
