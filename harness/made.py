"""Primitives made from plain functions (make_agg_primitive, make_trans_primitive) that mean the same as standard ones."""
import numpy as np
import pandas as pd
from featuretools import primitives as prim

CACHE = {}
SECONDS = dict(seconds=1, minutes=60, hours=3600, days=86400)


def _total(x):
    return pd.Series(x, dtype="float64").sum()


def _since_last(unit):
    def own_since_last(values, time):
        return (time - values.iloc[-1]).total_seconds() / SECONDS[unit]
    return own_since_last


def _commonest(n):
    def own_commonest(x):
        c = x.value_counts()
        top = list(c[c > 0].index[:n])
        return np.array(top + [np.nan] * (n - len(top)), dtype=object)
    return own_commonest


def _since(unit):
    def own_since(array, time):
        return (time - array).dt.total_seconds() / SECONDS[unit]
    return own_since


AGG = {"SUM": lambda q: _total, "COUNT": lambda q: lambda x: len(x), "MEAN": lambda q: lambda x: x.mean(), "MAX": lambda q: lambda x: x.max(),
       "MIN": lambda q: lambda x: x.min(), "NUM_UNIQUE": lambda q: lambda x: x.nunique(), "LAST": lambda q: lambda x: x.iloc[-1],
       "TIME_SINCE_LAST": lambda q: _since_last(q["unit"]), "N_MOST_COMMON": lambda q: _commonest(q["n"])}
TRA = {"ADD_NUMERIC": lambda q: lambda a, b: a + b, "SUBTRACT_NUMERIC": lambda q: lambda a, b: a - b, "AND": lambda q: lambda a, b: a & b,
       "IS_NULL": lambda q: lambda a: a.isnull(), "ABSOLUTE": lambda q: lambda a: a.abs(), "CUM_SUM": lambda q: lambda a: a.cumsum(),
       "TIME_SINCE": lambda q: _since(q["unit"]), "GREATER_THAN_SCALAR": lambda q: lambda a, v=None: a > q["value"],
       "SCALAR_SUBTRACT_NUMERIC_FEATURE": lambda q: lambda a: q["value"] - a, "CUM_COUNT": lambda q: lambda a: pd.Series(np.arange(1, len(a) + 1), index=a.index)}


def made(p, q, rng):
    """an instance of a primitive made for p with arguments q, or None"""
    if p not in AGG and p not in TRA:
        return None
    key = (p, tuple(sorted(q.items())))
    if key not in CACHE:
        std = getattr(prim, "".join(w.capitalize() for w in p.split("_")), None) or {"IS_NULL": prim.IsNull}[p]
        name = "own_" + p.lower() + "".join("_%s" % v for _, v in sorted(q.items())).replace("-", "neg")
        if p in AGG:
            kw = {}
            if p == "N_MOST_COMMON":
                kw["number_output_features"] = q["n"]
            if p == "SUM" and rng.random() < 0.5:
                kw["default_value"] = 0
            CACHE[key] = prim.make_agg_primitive(AGG[p](q), std.input_types, std.return_type, name=name,
                                                 uses_calc_time=p == "TIME_SINCE_LAST", **kw)
        else:
            CACHE[key] = prim.make_trans_primitive(TRA[p](q), std.input_types, std.return_type, name=name, uses_calc_time=p == "TIME_SINCE",
                                                   cls_attributes=dict(uses_full_entity=True) if p in ("CUM_SUM", "CUM_COUNT") else None)
    return CACHE[key]()
