"""Abstract scenarios: entity sets and feature definitions, generated from a
seed, rendered both for the specification (JSON) and for the library."""
import operator
import random
import warnings
import numpy as np
import pandas as pd
import featuretools as ft
from featuretools import primitives as prim
from featuretools import variable_types as vt
from featuretools.entityset.relationship import RelationshipPath
from .made import made
from .values import ts, enc, CODE, WORDS

warnings.filterwarnings("ignore")
DAY = 86400
STEP = DAY // 2

PRIMS = {
    "COUNT": prim.Count, "SUM": prim.Sum, "MEAN": prim.Mean, "MIN": prim.Min, "MAX": prim.Max, "MODE": prim.Mode,
    "NUM_UNIQUE": prim.NumUnique, "NUM_TRUE": prim.NumTrue, "PERCENT_TRUE": prim.PercentTrue, "MEDIAN": prim.Median,
    "STD": prim.Std, "FIRST": prim.First, "LAST": prim.Last, "ANY": prim.Any, "ALL": prim.All, "TREND": prim.Trend,
    "TIME_SINCE_LAST": prim.TimeSinceLast, "TIME_SINCE_FIRST": prim.TimeSinceFirst,
    "AVG_TIME_BETWEEN": prim.AvgTimeBetween, "N_MOST_COMMON": prim.NMostCommon,
    "IS_NULL": prim.IsNull, "ABSOLUTE": prim.Absolute, "NEGATE": prim.Negate, "NOT": prim.Not, "AND": prim.And,
    "OR": prim.Or, "MULTIPLY_BOOLEAN": prim.MultiplyBoolean, "ADD_NUMERIC": prim.AddNumeric,
    "SUBTRACT_NUMERIC": prim.SubtractNumeric, "MULTIPLY_NUMERIC": prim.MultiplyNumeric,
    "DIVIDE_NUMERIC": prim.DivideNumeric, "MODULO_NUMERIC": prim.ModuloNumeric,
    "ADD_NUMERIC_SCALAR": prim.AddNumericScalar, "SUBTRACT_NUMERIC_SCALAR": prim.SubtractNumericScalar,
    "SCALAR_SUBTRACT_NUMERIC_FEATURE": prim.ScalarSubtractNumericFeature,
    "MULTIPLY_NUMERIC_SCALAR": prim.MultiplyNumericScalar, "DIVIDE_NUMERIC_SCALAR": prim.DivideNumericScalar,
    "DIVIDE_BY_FEATURE": prim.DivideByFeature, "MODULO_NUMERIC_SCALAR": prim.ModuloNumericScalar,
    "MODULO_BY_FEATURE": prim.ModuloByFeature, "GREATER_THAN": prim.GreaterThan,
    "GREATER_THAN_EQUAL_TO": prim.GreaterThanEqualTo, "LESS_THAN": prim.LessThan,
    "LESS_THAN_EQUAL_TO": prim.LessThanEqualTo, "EQUAL": prim.Equal, "NOT_EQUAL": prim.NotEqual,
    "GREATER_THAN_SCALAR": prim.GreaterThanScalar, "GREATER_THAN_EQUAL_TO_SCALAR": prim.GreaterThanEqualToScalar,
    "LESS_THAN_SCALAR": prim.LessThanScalar, "LESS_THAN_EQUAL_TO_SCALAR": prim.LessThanEqualToScalar,
    "EQUAL_SCALAR": prim.EqualScalar, "NOT_EQUAL_SCALAR": prim.NotEqualScalar, "ISIN": prim.IsIn,
    "YEAR": prim.Year, "MONTH": prim.Month, "DAY": prim.Day, "HOUR": prim.Hour, "MINUTE": prim.Minute,
    "SECOND": prim.Second, "WEEKDAY": prim.Weekday, "WEEK": prim.Week, "IS_WEEKEND": prim.IsWeekend,
    "TIME_SINCE": prim.TimeSince, "AGE": prim.Age, "NUM_CHARACTERS": prim.NumCharacters, "NUM_WORDS": prim.NumWords,
    "CUM_SUM": prim.CumSum, "CUM_COUNT": prim.CumCount, "CUM_MEAN": prim.CumMean, "CUM_MIN": prim.CumMin,
    "CUM_MAX": prim.CumMax, "DIFF": prim.Diff, "PERCENTILE": prim.Percentile,
    "TIME_SINCE_PREVIOUS": prim.TimeSincePrevious,
}
WHOLE = {"CUM_SUM", "CUM_COUNT", "CUM_MEAN", "CUM_MIN", "CUM_MAX", "DIFF", "PERCENTILE", "TIME_SINCE_PREVIOUS"}
UNITS = ["seconds", "minutes", "hours", "days"]

# (primitive, argument types, result type).  Types: num, cat (strings), bool
# (never missing), boolN (may be missing), time, tix (the entity's time index),
# id, text, sq (observed squared, cannot be stacked on)
AGGS = [
    ("COUNT", ["id"], "num"), ("SUM", ["numc"], "num"), ("MEAN", ["numc"], "num"), ("MEAN_NA", ["numc"], "num"),
    ("MIN", ["numc"], "num"), ("MAX", ["numc"], "num"), ("MODE", ["cat"], "cat"), ("NUM_UNIQUE", ["cat"], "num"),
    ("NUM_TRUE", ["bool"], "num"), ("PERCENT_TRUE", ["boolN"], "num"), ("MEDIAN", ["numc"], "num"),
    ("STD", ["numc"], "sq"), ("FIRST", ["numc"], "num"), ("LAST", ["numc"], "num"), ("FIRST", ["cat"], "cat"),
    ("LAST", ["cat"], "cat"), ("LAST", ["time"], "time"), ("ANY", ["bool"], "boolN"), ("ALL", ["bool"], "boolN"),
    ("TREND", ["numc", "tix"], "num"), ("TIME_SINCE_LAST", ["tix"], "num"), ("TIME_SINCE_FIRST", ["tix"], "num"),
    ("AVG_TIME_BETWEEN", ["tix"], "num"), ("N_MOST_COMMON", ["cat"], "cat"),
]
TRANS = [
    ("IS_NULL", ["any"], "bool"), ("ABSOLUTE", ["numc"], "num"), ("NEGATE", ["numc"], "num"), ("NOT", ["bool"], "bool"),
    ("AND", ["bool", "bool"], "bool"), ("OR", ["bool", "bool"], "bool"), ("ADD_NUMERIC", ["numc", "numc"], "num"),
    ("MULTIPLY_BOOLEAN", ["bool", "bool"], "bool"),
    ("SUBTRACT_NUMERIC", ["numc", "numc"], "num"), ("MULTIPLY_NUMERIC", ["numc", "numc"], "num"),
    ("DIVIDE_NUMERIC", ["numc", "num"], "num"), ("MODULO_NUMERIC", ["num", "num"], "num"),
    ("ADD_NUMERIC_SCALAR", ["numc"], "num"), ("SUBTRACT_NUMERIC_SCALAR", ["numc"], "num"),
    ("SCALAR_SUBTRACT_NUMERIC_FEATURE", ["numc"], "num"), ("MULTIPLY_NUMERIC_SCALAR", ["numc"], "num"),
    ("DIVIDE_NUMERIC_SCALAR", ["numc"], "num"), ("DIVIDE_BY_FEATURE", ["num"], "num"),
    ("MODULO_NUMERIC_SCALAR", ["num"], "num"), ("MODULO_BY_FEATURE", ["num"], "num"),
    ("GREATER_THAN", ["num", "num"], "bool"), ("GREATER_THAN_EQUAL_TO", ["num", "num"], "bool"),
    ("LESS_THAN", ["num", "num"], "bool"), ("LESS_THAN_EQUAL_TO", ["num", "num"], "bool"),
    ("EQUAL", ["num", "num"], "bool"), ("NOT_EQUAL", ["num", "num"], "bool"),
    ("GREATER_THAN_SCALAR", ["num"], "bool"), ("GREATER_THAN_EQUAL_TO_SCALAR", ["num"], "bool"),
    ("LESS_THAN_SCALAR", ["num"], "bool"), ("LESS_THAN_EQUAL_TO_SCALAR", ["num"], "bool"),
    ("EQUAL_SCALAR", ["num"], "bool"), ("NOT_EQUAL_SCALAR", ["num"], "bool"), ("EQUAL_SCALAR", ["cat"], "bool"),
    ("NOT_EQUAL_SCALAR", ["cat"], "bool"), ("ISIN", ["cat"], "bool"), ("ISIN", ["num"], "bool"),
    ("YEAR", ["time"], "ord"), ("MONTH", ["time"], "ord"), ("DAY", ["time"], "ord"), ("HOUR", ["time"], "ord"),
    ("MINUTE", ["time"], "num"), ("SECOND", ["time"], "num"), ("WEEKDAY", ["time"], "ord"), ("WEEK", ["time"], "ord"),
    ("IS_WEEKEND", ["time"], "bool"), ("TIME_SINCE", ["time"], "num"), ("AGE", ["dob"], "num"),
    ("NUM_CHARACTERS", ["text"], "num"), ("NUM_WORDS", ["text"], "num"),
    ("CUM_SUM", ["numc"], "num"), ("CUM_COUNT", ["disc"], "num"), ("CUM_MEAN", ["numc"], "num"),
    ("CUM_MIN", ["numc"], "num"), ("CUM_MAX", ["numc"], "num"), ("DIFF", ["numc"], "num"),
    ("PERCENTILE", ["num"], "num"), ("TIME_SINCE_PREVIOUS", ["tix"], "num"),
]
# results that floating point may round; only continuous primitives take them
FRAC = {"MEAN", "MEAN_NA", "PERCENT_TRUE", "TREND", "TIME_SINCE_LAST", "TIME_SINCE_FIRST", "AVG_TIME_BETWEEN", "MEDIAN",
        "DIVIDE_NUMERIC", "DIVIDE_NUMERIC_SCALAR", "DIVIDE_BY_FEATURE", "TIME_SINCE", "AGE", "CUM_MEAN", "PERCENTILE",
        "TIME_SINCE_PREVIOUS"}
ACCEPT = {"num": {"num"}, "numc": {"num", "frac"}, "cat": {"cat"}, "bool": {"bool"}, "boolN": {"bool", "boolN"}, "time": {"time", "tix"},
          "tix": {"tix"}, "id": {"id"}, "disc": {"fk", "cat", "ord"}, "text": {"text"}, "dob": {"dob"}, "any": {"num", "frac", "cat", "ord", "bool", "boolN", "time", "tix", "text", "dob"}}
SCALARP = {p for p, _, _ in TRANS if p.endswith("_SCALAR") or p in
           ("SCALAR_SUBTRACT_NUMERIC_FEATURE", "DIVIDE_BY_FEATURE", "MODULO_BY_FEATURE")}

BASE = dict(n_ents=(2, 4), rows=(1, 7), p_time=0.85, p_nat=0.12, p_sec=0.2, p_lti=0.0, numeric=0.15, p_extra_rel=0.35,
            p_null_fk=0.15, p_null=0.15, p_str_id=0.4, n_nodes=(6, 16), n_want=(2, 6), depth=4,
            w=dict(dir=2, agg=4, tra=3, grp=0.6), p_where=0.25, p_prev=0.2, aggs=None, trans=None, reqs=(3, 7),
            p_unknown=0.15, target=None, win=0.0, incl=0.6, single=0.15, steps=9, p_vary=0.2, p_long=0.35, p_whole=0.12,
            p_shuffled_lti=0.3, p_over=0.12, p_twin=0.5, p_id_kind=0.15, p_tricky=0.25)


# words that programs are tempted to read as something else
TRICKY = ["", " lead", "None", "nan", "NA", "null", "True", "7", "1.0", "02134", "é", "a,b", "two words", "-"]


class Scenario:
    pass


def gen_entities(rng, pf):
    """Random relationship graph, columns and rows."""
    numeric_time = rng.random() < pf["numeric"]
    off = rng.choice([0, 0, -4]) if numeric_time else 0      # numbers may be negative
    n_ents = rng.randint(*pf["n_ents"])
    ents, rels = [], []
    words = ["red", "blue", "green"]
    if rng.random() < pf["p_tricky"]:
        words = ["red"] + rng.sample(TRICKY, 2) if rng.random() < 0.3 else ["red", "blue", rng.choice(TRICKY)]
    for e in range(n_ents):
        n = rng.randint(*pf["rows"]) if e else rng.randint(1, max(2, pf["rows"][1] - 2))
        name = "e%d" % e
        sid = rng.random() < pf["p_str_id"]
        pool = list(range(14))
        rng.shuffle(pool)
        ids = pool[:n]
        if sid:
            ids = ["%s%d" % ("abcdefgh"[e], i) for i in ids]
        # the type of the identifiers: text, integers, categories or (whole) floats
        kind = ""
        if rng.random() < pf["p_id_kind"]:
            kind = sorted(["%s%d" % ("abcdefgh"[e], i) for i in range(14)]) + ["h13"] if sid else "float"
        cols = [dict(name="id", type="id", vals=ids, str=sid, kind=kind)]
        if rng.random() < pf["p_time"]:
            tv = [off + rng.randint(0, pf["steps"]) * (1 if numeric_time else STEP) for _ in range(n)]
            if not numeric_time:
                tv = [None if rng.random() < pf["p_nat"] else t for t in tv]
            cols.append(dict(name="t", type="tix", vals=tv))
        ents.append(dict(name=name, n=n, cols=cols, sec=[], numeric=numeric_time, off=off, words=words))
        parents = []
        if e:
            parents = [rng.randrange(e)]
            while rng.random() < pf["p_extra_rel"] and len(parents) < 3:
                parents.append(rng.randrange(e))
        for j, p in enumerate(parents):
            pe = ents[p]
            pid = pe["cols"][0]
            vals = [rng.choice(pid["vals"]) for _ in range(n)]
            if pid["str"] or pid["kind"] == "float":
                vals = [None if rng.random() < pf["p_null_fk"] else v for v in vals]
            cols.append(dict(name="f%d" % j, type="fk", vals=vals, str=pid["str"], kind=pid["kind"]))
            rels.append(dict(p=p, c=e, col="f%d" % j))
        for j in range(rng.randint(1, 2)):
            if rng.random() < 0.5:
                vals = [None if rng.random() < pf["p_null"] else rng.choice([rng.randint(-3, 9), rng.randint(0, 3)]) for _ in range(n)]
                cols.append(dict(name="v%d" % j, type="num", vals=vals, float=True))
            else:
                cols.append(dict(name="v%d" % j, type="num", vals=[rng.randint(0, 9) for _ in range(n)], float=False))
        if rng.random() < 0.7:
            cols.append(dict(name="k", type="cat",
                             vals=[None if rng.random() < pf["p_null"] else rng.choice(words) for _ in range(n)]))
        if rng.random() < 0.5:
            cols.append(dict(name="b", type="bool", vals=[rng.random() < 0.5 for _ in range(n)]))
        if rng.random() < 0.2:
            cols.append(dict(name="x", type="text",
                             vals=[rng.choice(["two words", "zz", "a,b", " lead", "Nope", ""]) for _ in range(n)]))
        if rng.random() < 0.4 and not numeric_time:
            cols.append(dict(name="d", type=rng.choice(["time", "time", "time", "dob"]),
                             vals=[None if rng.random() < pf["p_null"] else rng.randint(-400, 800) * 7200 + rng.randint(0, 1) * 61
                                   for _ in range(n)]))
        timed = any(c["type"] == "tix" for c in cols)
        if (timed or any(c["type"] == "tix" for x in ents for c in x["cols"]) and rng.random() < .5) and rng.random() < pf["p_sec"]:
            nsec = 2 if rng.random() < 0.2 else 1
            pool = [c["name"] for c in cols if c["type"] in ("num", "cat", "bool", "time", "dob")]
            rng.shuffle(pool)
            for j in range(nsec):
                k = rng.randint(1, 2)
                take, pool = pool[:k], pool[k:]
                if not take:
                    break
                sv = [None if (not numeric_time and rng.random() < pf["p_nat"]) else
                      off + rng.randint(0, pf["steps"]) * (1 if numeric_time else STEP) for _ in range(n)]
                cols.append(dict(name="s%d" % j, type="sectime", vals=sv))
                ents[e]["sec"].append(dict(t="s%d" % j, cs=take))
                for c in cols:
                    if c["name"] in take:
                        c["masked"] = True
    return ents, rels, numeric_time


def col_series(c, numeric_time):
    """pandas column of a generated column."""
    v = c["vals"]
    t = c["type"]
    if t in ("tix", "sectime"):
        if numeric_time:
            return pd.Series(v, dtype="int64")
        return pd.Series([pd.NaT if x is None else ts(x) for x in v], dtype="datetime64[ns]")
    if t in ("time", "dob"):
        return pd.Series([pd.NaT if x is None else ts(x) for x in v], dtype="datetime64[ns]")
    if t in ("id", "fk"):
        return pd.Series(v, dtype=pd.CategoricalDtype(c["kind"]) if c["str"] and c["kind"] else object if c["str"] else c["kind"] or "int64")
    if t == "num":
        return pd.Series([np.nan if x is None else x for x in v], dtype="float64" if c["float"] else "int64")
    if t in ("cat", "text"):
        return pd.Series([np.nan if x is None else x for x in v], dtype=object)
    if t == "bool":
        return pd.Series(v, dtype=bool)
    raise ValueError(t)


VT = {"num": vt.Numeric, "cat": vt.Categorical, "bool": vt.Boolean, "time": vt.Datetime, "dob": vt.DateOfBirth, "text": vt.NaturalLanguage}


def frame_of(e):
    return pd.DataFrame({c["name"]: col_series(c, e["numeric"]) for c in e["cols"]}, columns=[c["name"] for c in e["cols"]])


def types_of(e):
    out = {}
    for c in e["cols"]:
        if c["type"] in VT:
            out[c["name"]] = VT[c["type"]]
        elif c["type"] == "fk":
            out[c["name"]] = vt.Id
    return out


def build_es(ents, rels, name="es"):
    es = ft.EntitySet(name)
    for e in ents:
        tix = [c["name"] for c in e["cols"] if c["type"] == "tix"]
        es.entity_from_dataframe(e["name"], frame_of(e), index=e["cols"][0]["name"], time_index=tix[0] if tix else None,
                                 secondary_time_index={s["t"]: list(s["cs"]) for s in e["sec"]} or None,
                                 variable_types=types_of(e))
    for r in rels:
        es.add_relationship(ft.Relationship(es[ents[r["p"]]["name"]][ents[r["p"]]["cols"][0]["name"]], es[ents[r["c"]]["name"]][r["col"]]))
    return es


def shuffle_last_times(rng, pf, es):
    """last times are kept by instance, whatever order they are stored in"""
    for ent in es.entities:
        if ent.last_time_index is not None and rng.random() < pf["p_shuffled_lti"]:
            order = list(range(len(ent.last_time_index)))
            rng.shuffle(order)
            ent.last_time_index = ent.last_time_index.iloc[order]


def project_entity(es, e):
    """Read an entity back through the public API in the specification's format."""
    ent = es[e["name"]]
    df = ent.df
    cols = [c["name"] for c in e["cols"]]
    lti = ent.last_time_index
    sec = []
    for t, cs in ent.secondary_time_index.items():
        sec.append(dict(t=cols.index(t) + 1, cs=sorted(cols.index(c) + 1 for c in cs)))
    return dict(n=len(df), cols=[[enc(v) for v in df[c].tolist()] for c in cols],
                tix=cols.index(ent.time_index) + 1 if ent.time_index else 0, sec=sec,
                lti=[enc(v) for v in lti.reindex(df[ent.index]).tolist()] if lti is not None else [])


def order_rows(e):
    """Row order an entity must have: by time then index when it has times."""
    tix = [c for c in e["cols"] if c["type"] == "tix"]
    n = e["n"]
    idx = list(range(n))
    if tix:
        tv, ids = tix[0]["vals"], e["cols"][0]["vals"]
        idx.sort(key=lambda i: (tv[i] is None, tv[i] if tv[i] is not None else 0, ids[i]))
    return idx


def abstract_entity(e, lti=None):
    """The specification's view of a generated entity (rows in entity order)."""
    idx = order_rows(e)
    names = [c["name"] for c in e["cols"]]

    def ev(c, i):
        v = c["vals"][i]
        if v is None:
            return [0, 0, 1]
        if c["type"] in ("tix", "sectime") and not e["numeric"] or c["type"] in ("time", "dob"):
            return [4, v, 1]
        return enc(v)
    tix = [j for j, c in enumerate(e["cols"]) if c["type"] == "tix"]
    return dict(n=e["n"], cols=[[ev(c, i) for i in idx] for c in e["cols"]], tix=tix[0] + 1 if tix else 0,
                sec=[dict(t=names.index(s["t"]) + 1, cs=sorted([names.index(x) + 1 for x in s["cs"]] + [names.index(s["t"]) + 1]))
                     for s in e["sec"]],
                lti=lti or [])


def q_of(u="", n=0, v=None, l=None, ln=None):
    return dict(u=u, n=n, v=v if v is not None else [0, 0, 1], l=l or [], len=ln or [])


class Gen:
    """Random feature definitions over a generated entity set."""

    def __init__(self, rng, pf, ents, rels, numeric):
        self.rng, self.pf, self.ents, self.rels, self.numeric = rng, pf, ents, rels, numeric
        self.words = ents[0]["words"]
        self.nodes, self.types, self.depth, self.pyq = [], [], [], []
        self.keys, self.twins = set(), {}
        self.aggs = [a for a in AGGS if pf["aggs"] is None or a[0] in pf["aggs"]]
        self.trans = [t for t in TRANS if pf["trans"] is None or t[0] in pf["trans"]]
        for e, ent in enumerate(ents):
            for c, col in enumerate(ent["cols"]):
                t = col["type"]
                if t == "fk":
                    t = "fk"
                elif t == "tix":
                    t = "num" if numeric else "tix"
                elif t == "sectime":
                    t = "num" if numeric else "time"
                elif t == "bool" and col.get("masked"):
                    t = "boolN"
                self.add(dict(k="id", e=e + 1, p="", q=q_of(), b=[], path=[], w=[], u=dict(t="none", n=0), g=[], c=c + 1, o=1), t, 0, {})
        self.n_id = len(self.nodes)

    def add(self, node, typ, depth, pyq):
        if typ == "num" and (node["p"] in FRAC or any(self.types[x[0] - 1] == "frac" for x in node["b"])):
            typ = "frac"
        key = repr((node["k"], node["e"], node["p"], node["q"], node["b"], node["path"], node["w"], node["u"], node["g"], node["c"]))
        if key in self.keys:
            return None
        self.keys.add(key)
        self.nodes.append(node)
        self.types.append(typ)
        self.depth.append(depth)
        self.pyq.append(pyq)
        return len(self.nodes)

    def previous(self, ce):
        """a random look-back for an aggregation of entity ce, with the way to say it"""
        rng = self.rng
        if self.pf.get("no_prev") or self.numeric or not any(c["type"] == "tix" for c in self.ents[ce - 1]["cols"]):
            return dict(t="none", n=0), None
        if rng.random() < 0.55:
            parts = dict(d=rng.randint(0, 2), h=rng.choice([0, 1, 2, 12]))
            if rng.random() < 0.3:
                parts["m"] = rng.choice([1, 2, 60])
            parts = {k: v for k, v in parts.items() if v}
            if not parts:
                parts = dict(h=12)
            n = parts.get("d", 0) * DAY + parts.get("h", 0) * 3600 + parts.get("m", 0) * 60
            return dict(t="time", n=n), (dict(s=n) if rng.random() < 0.3 else parts)
        return dict(t="rows", n=rng.randint(1, 3)), None

    def vary(self):
        """a second feature that differs from an existing one in a single part of its definition"""
        rng = self.rng
        c = [i for i in range(self.n_id, len(self.nodes)) if self.nodes[i]["k"] in ("agg", "grp")]
        if not c:
            return
        i = rng.choice(c)
        nd, q = dict(self.nodes[i]), dict(self.pyq[i])
        ce = self.nodes[nd["b"][0][0] - 1]["e"]
        d = self.depth[i]
        if nd["k"] == "grp":
            gk = [j for j, x in enumerate(self.nodes) if x["e"] == ce and self.types[j] in ("cat", "fk") and x["o"] == 1
                  and self.depth[j] < self.pf["depth"] and [j + 1, 1] not in nd["b"]]
            if not gk:
                return
            j = rng.choice(gk)
            nd["g"] = [j + 1, 1]
            d = max(d, self.depth[j] + 1)
        else:
            r = rng.random()
            if r < 0.25 and nd["u"]["t"] == "time" and len(q.get("_prev") or {}) > 1:
                # the same units with their amounts exchanged
                p = q["_prev"]
                ks = list(p)
                p = dict(zip(ks, [p[k] for k in ks[1:] + ks[:1]]))
                nd["u"] = dict(t="time", n=p.get("d", 0) * DAY + p.get("h", 0) * 3600 + p.get("m", 0) * 60)
                q["_prev"] = p
            elif r < 0.5:
                nd["u"], q["_prev"] = self.previous(ce)
            elif r < 0.65 and nd["w"]:
                w = self.other_condition(nd["w"])
                if not w:
                    return
                nd["w"] = w
            elif r < 0.75:
                w = self.pick(ce, "bool", self.pf["depth"] - 1)
                if not w or w in nd["b"]:
                    return
                nd["w"] = [] if nd["w"] and rng.random() < 0.3 else w
                d = max(d, self.depth[w[0] - 1] + 1)
            else:
                ps = [p for p in self.paths_down(nd["e"]) if self.rels[p[-1] - 1]["c"] + 1 == ce]
                nd["path"] = rng.choice(ps)
        j = self.add(nd, self.types[i], d, q)
        if j:
            self.twins.setdefault(i, []).append(j - 1)
            self.twins.setdefault(j - 1, []).append(i)

    def other_condition(self, w):
        """a condition that differs from a given one only in the value it compares with"""
        x, rng = self.nodes[w[0] - 1], self.rng
        if x["p"] not in ("EQUAL_SCALAR", "NOT_EQUAL_SCALAR", "GREATER_THAN_SCALAR", "LESS_THAN_SCALAR"):
            return None
        v = rng.choice(self.words) if self.types[x["b"][0][0] - 1] == "cat" else rng.randint(-2, 5)
        j = self.add(dict(x, q=q_of(v=enc(v))), "bool", self.depth[w[0] - 1], dict(value=v))
        return [j, 1] if j else None

    def pick(self, e, want, maxd):
        """a random <<node, output>> on entity e (1-based) of an acceptable type"""
        c = [i for i, nd in enumerate(self.nodes) if nd["e"] == e and self.types[i] in ACCEPT[want] and self.depth[i] <= maxd]
        if not c:
            return None
        # prefer stacked inputs half of the time
        deep = [i for i in c if self.depth[i] > 0]
        i = self.rng.choice(deep if deep and self.rng.random() < 0.55 else c)
        return [i + 1, self.rng.randint(1, self.nodes[i]["o"])]

    def paths_down(self, e):
        """backward relationship paths from entity e (1-based), as relationship numbers"""
        out = []
        def go(x, acc):
            for k, r in enumerate(self.rels):
                if r["p"] + 1 == x and len(acc) < 3:
                    out.append(acc + [k + 1])
                    go(r["c"] + 1, acc + [k + 1])
        go(e, [])
        return out

    def step(self):
        rng, pf = self.rng, self.pf
        if rng.random() < pf["p_vary"]:
            self.vary()
        kind = rng.choices(list(pf["w"]), list(pf["w"].values()))[0]
        if kind == "dir":
            if not self.rels:
                return
            k = rng.randrange(len(self.rels))
            r = self.rels[k]
            b = self.pick(r["p"] + 1, rng.choice(["any", "numc", "any"]), pf["depth"] - 1)
            if b is None and rng.random() < 0.5:
                return
            if rng.random() < 0.1:
                sq = [i for i, nd in enumerate(self.nodes) if nd["e"] == r["p"] + 1 and self.types[i] == "sq"]
                if sq:
                    b = [rng.choice(sq) + 1, 1]
            if b is None:
                return
            base = self.nodes[b[0] - 1]
            o = base["o"]
            if o > 1 and rng.random() < 0.5:
                bb, no = [b[0], 0], o
            elif o > 1:
                bb, no = b, 1
            else:
                bb, no = [b[0], 1], 1
            t = self.types[b[0] - 1]
            t = {"bool": "boolN", "tix": "time", "dob": "time"}.get(t, t)
            self.add(dict(k="dir", e=r["c"] + 1, p="", q=q_of(), b=[bb], path=[k + 1], w=[], u=dict(t="none", n=0), g=[], c=0, o=no),
                     t, self.depth[b[0] - 1] + 1, {})
        elif kind == "agg":
            e = rng.randint(1, len(self.ents))
            paths = self.paths_down(e)
            if not paths:
                return
            path = rng.choice([p for p in paths if len(p) > 1] or paths) if rng.random() < pf["p_long"] else rng.choice(paths)
            ce = self.rels[path[-1] - 1]["c"] + 1
            name, args, rt = rng.choice(self.aggs)
            b = [self.pick(ce, a, pf["depth"] - 1) for a in args]
            if any(x is None for x in b):
                return
            if len(b) == 2 and b[0] == b[1]:
                return
            if args[0] == "numc" and rng.random() < pf["p_whole"]:
                # an aggregation of a feature of the whole child entity
                x = self.pick(ce, "num", pf["depth"] - 2)
                wn = [t for t in self.trans if t[0] in ("PERCENTILE", "CUM_SUM", "CUM_MAX", "DIFF", "CUM_MEAN") and len(t[1]) == 1]
                if x and wn:
                    wname = rng.choice(wn)[0]
                    j = self.add(dict(k="tra", e=ce, p=wname, q=q_of(), b=[x], path=[], w=[], u=dict(t="none", n=0), g=[], c=0, o=1),
                                 "num", self.depth[x[0] - 1] + 1, {})
                    if j:
                        b[0] = [j, 1]
            w, u, prev = [], dict(t="none", n=0), None
            if rng.random() < pf["p_where"]:
                w = self.pick(ce, "bool", pf["depth"] - 1) or []
                if w and w in b:
                    w = []
            if rng.random() < pf["p_prev"]:
                u, prev = self.previous(ce)
            q, pyq, o = q_of(), {}, 1
            if name in ("TIME_SINCE_LAST", "TIME_SINCE_FIRST", "AVG_TIME_BETWEEN"):
                unit = rng.choice(UNITS)
                q, pyq = q_of(u=unit), dict(unit=unit)
            if name == "N_MOST_COMMON":
                n = rng.randint(2, 3)
                q, pyq, o = q_of(n=n), dict(n=n), n
            if name in ("TREND", "TIME_SINCE_LAST", "TIME_SINCE_FIRST", "AVG_TIME_BETWEEN") and self.numeric:
                return
            d = max([self.depth[x[0] - 1] for x in b] + ([self.depth[w[0] - 1]] if w else [])) + 1
            if prev:
                pyq = dict(pyq, _prev=prev)
            self.add(dict(k="agg", e=e, p=name, q=q, b=b, path=path, w=w, u=u, g=[], c=0, o=o), rt, d, pyq)
        else:
            e = rng.randint(1, len(self.ents))
            name, args, rt = rng.choice(self.trans)
            over = None
            if rng.random() < pf["p_over"]:
                # a feature of the whole entity over an aggregation through several relationships
                c = [i for i in range(self.n_id, len(self.nodes)) if len(self.nodes[i]["path"]) > 1 and self.nodes[i]["k"] == "agg"
                     and self.types[i] in ("num", "frac") and self.depth[i] < pf["depth"]]
                wn = [t for t in self.trans if t[0] in ("CUM_SUM", "CUM_MAX", "DIFF", "CUM_MEAN", "CUM_MIN", "PERCENTILE")]
                if c and wn:
                    i = rng.choice(c)
                    e, over = self.nodes[i]["e"], [i + 1, 1]
                    name, args, rt = rng.choice([t for t in wn if self.types[i] in ACCEPT[t[1][0]]] or wn)
                    if self.types[i] not in ACCEPT[args[0]]:
                        return
            if kind == "grp" and name not in WHOLE and rng.random() < 0.7:
                name, args, rt = rng.choice([t for t in self.trans if t[0] in WHOLE] or self.trans)
            b = [over] if over else [self.pick(e, a, pf["depth"] - 1) for a in args]
            if any(x is None for x in b):
                return
            if len(b) == 2 and b[0] == b[1]:
                return
            q, pyq = q_of(), {}
            t0 = self.types[b[0][0] - 1]
            if name in SCALARP:
                if t0 == "cat":
                    v = rng.choice(self.words[:2] if rng.random() < 0.5 else self.words)
                else:
                    v = rng.randint(1, 4) if "MODULO" in name or "DIVIDE" in name else rng.randint(-2, 5)
                q, pyq = q_of(v=enc(v)), dict(value=v)
            elif name == "ISIN":
                l = [rng.choice(self.words)] if t0 == "cat" else sorted(set(rng.randint(0, 6) for _ in range(3)))
                q, pyq = q_of(l=[enc(x) for x in l]), dict(list_of_outputs=l)
            elif name in ("TIME_SINCE", "TIME_SINCE_PREVIOUS"):
                unit = rng.choice(UNITS)
                q, pyq = q_of(u=unit), dict(unit=unit)
            elif name in ("NUM_CHARACTERS", "NUM_WORDS"):
                q = q_of(ln=[0])
            if name in ("YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND", "WEEKDAY", "WEEK", "TIME_SINCE", "AGE",
                        "TIME_SINCE_PREVIOUS") and self.numeric:
                return
            g = []
            d = max(self.depth[x[0] - 1] for x in b) + 1
            if kind == "grp":
                gk = [i for i, nd in enumerate(self.nodes) if nd["e"] == e and self.types[i] in ("cat", "fk") and nd["o"] == 1
                      and self.depth[i] < pf["depth"]]
                if not gk:
                    return
                gi = rng.choice(gk)
                g = [gi + 1, 1]
                if g in b:
                    return
                d = max(d, self.depth[gi] + 1)
                if rt == "bool":
                    rt = "boolN"
            self.add(dict(k="grp" if kind == "grp" else "tra", e=e, p=name, q=q, b=b, path=[], w=[], u=dict(t="none", n=0), g=g, c=0, o=1),
                     rt, d, pyq)

    def finish(self, target, want_n, prefer=None):
        """choose requested nodes on the target entity and keep what they need"""
        rng = self.rng
        cand = [i for i, nd in enumerate(self.nodes) if nd["e"] == target and self.types[i] not in ("id",)]
        if not cand:
            return None
        rich = [i for i in cand if self.depth[i] > 0]
        rng.shuffle(rich)
        if prefer:
            rich.sort(key=lambda i: 0 if prefer(self.nodes[i]) else 1)
        plain = [i for i in cand if self.depth[i] == 0]
        rng.shuffle(plain)
        chosen = rich[:want_n]
        for i in list(chosen):
            t = [j for j in self.twins.get(i, []) if j not in chosen]
            if t and rng.random() < self.pf["p_twin"]:
                chosen.append(rng.choice(t))
        if len(chosen) < want_n or rng.random() < 0.3:
            chosen += plain[:max(1, want_n - len(chosen))]
        rng.shuffle(chosen)
        need = set()

        def go(i):
            if i in need:
                return
            need.add(i)
            nd = self.nodes[i]
            for x in nd["b"]:
                go(x[0] - 1)
            if nd["w"]:
                go(nd["w"][0] - 1)
            if nd["g"]:
                go(nd["g"][0] - 1)
        for i in chosen:
            go(i)
        order = sorted(need)
        new = {old: k + 1 for k, old in enumerate(order)}
        nodes = []
        for old in order:
            nd = dict(self.nodes[old])
            nd["b"] = [[new[x[0] - 1], x[1]] for x in nd["b"]]
            nd["w"] = [new[nd["w"][0] - 1], nd["w"][1]] if nd["w"] else []
            nd["g"] = [new[nd["g"][0] - 1], nd["g"][1]] if nd["g"] else []
            nodes.append(nd)
        return nodes, [self.types[o] for o in order], [self.pyq[o] for o in order], [new[i] for i in chosen]


CHARTABLE = [[len(w), w.count(" ")] for w in WORDS]


BINARY = {"ADD_NUMERIC": "+", "SUBTRACT_NUMERIC": "-", "MULTIPLY_NUMERIC": "*", "MULTIPLY_BOOLEAN": "*", "DIVIDE_NUMERIC": "/",
          "MODULO_NUMERIC": "%", "GREATER_THAN": ">", "GREATER_THAN_EQUAL_TO": ">=", "LESS_THAN": "<",
          "LESS_THAN_EQUAL_TO": "<=", "EQUAL": "==", "NOT_EQUAL": "!=", "AND": "&", "OR": "|"}
SWAPPED = {"+": "+", "*": "*", ">": "<", ">=": "<=", "<": ">", "<=": ">=", "==": "==", "!=": "!="}
REFLECTED = {"SCALAR_SUBTRACT_NUMERIC_FEATURE": "-", "DIVIDE_BY_FEATURE": "/", "MODULO_BY_FEATURE": "%"}
CALC = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "%": operator.mod, ">": operator.gt,
        ">=": operator.ge, "<": operator.lt, "<=": operator.le, "==": operator.eq, "!=": operator.ne, "&": operator.and_, "|": operator.or_}


def spelled(rng, nd, pyq, b):
    """the transform feature of a node written as an expression over its bases, or None if there is no such way"""
    p = nd["p"]
    if p in BINARY:
        if p in ("AND", "OR") and rng.random() < 0.3:
            return getattr(b[0], p)(b[1])
        return CALC[BINARY[p]](b[0], b[1])
    if p in REFLECTED:
        return CALC[REFLECTED[p]](pyq["value"], b[0])
    if p.endswith("_SCALAR") and p[:-7] in BINARY:
        op, v = BINARY[p[:-7]], pyq["value"]
        if op in SWAPPED and rng.random() < 0.5:
            return CALC[SWAPPED[op]](v, b[0])
        return CALC[op](b[0], v)
    if p == "NOT":
        return ~b[0] if rng.random() < 0.5 else b[0].NOT()
    if p == "ABSOLUTE":
        return abs(b[0])
    if p == "NEGATE":
        return -b[0]
    if p == "IS_NULL":
        return b[0].is_null()
    if p == "ISIN":
        return b[0].isin(pyq["list_of_outputs"])
    return None


def aliased(rng, sc, nd, ent, b, P, up, where, groupby, ways):
    """the same feature through the alias `Feature`, or None if it cannot say which relationships are meant"""
    one = b[0] if len(b) == 1 and rng.random() < 0.5 else b
    if nd["k"] == "agg":
        if ways != 1:
            return None
        if up is not None and nd["u"]["t"] == "time" and len(up.times) == 1 and rng.random() < 0.5:
            (u, n), = up.times.items()
            up = "%d %s" % (n, dict(d="days", h="hours", m="minutes", s="seconds")[u])
        return ft.Feature(one, parent_entity=ent, primitive=P, use_previous=up, where=where)
    return ft.Feature(one, primitive=P, groupby=groupby)


def build_features(es, sc):
    """The library's feature objects for sc.nodes."""
    feats = []
    rng = random.Random("%s spelling" % sc.seed)

    def ways(a, c, seen=()):
        """backward relationship paths between two entities"""
        return sum((r["c"] == c) + (ways(r["c"], c, seen + (a,)) if r["c"] != c else 0)
                   for r in sc.rels if r["p"] == a and r["c"] not in seen + (a,))

    def base(x):
        f = ref(x)
        return f.variable if isinstance(f, ft.IdentityFeature) and rng.random() < 0.2 else f

    def ref(x):
        f = feats[x[0] - 1]
        if x[1] != 0 and sc.nodes[x[0] - 1]["o"] > 1:
            return f[x[1] - 1]
        return f
    rels = es.relationships
    for nd, pyq in zip(sc.nodes, sc.pyq):
        ent = es[sc.ents[nd["e"] - 1]["name"]]
        if nd["k"] == "id":
            v = ent[sc.ents[nd["e"] - 1]["cols"][nd["c"] - 1]["name"]]
            f = ft.Feature(v) if rng.random() < 0.2 else ft.IdentityFeature(v)
        elif nd["k"] == "dir":
            r = sc.rels[nd["path"][0] - 1]
            if rng.random() < 0.3 and sum(x["p"] == r["p"] and x["c"] == r["c"] for x in sc.rels) == 1:
                f = ft.Feature(base(nd["b"][0]), entity=ent)
            else:
                f = ft.DirectFeature(ref(nd["b"][0]), ent, relationship=find_rel(es, sc, nd["path"][0]))
        else:
            pyq = dict(pyq)
            prev = pyq.pop("_prev", None)
            P = prim.Mean(skipna=False) if nd["p"] == "MEAN_NA" else PRIMS[nd["p"]](**pyq)
            own = made(nd["p"], pyq, rng) if rng.random() < getattr(sc, "pf", {}).get("p_made", 0) else None
            P = own or P
            if nd["k"] == "agg":
                up = None
                if nd["u"]["t"] == "time":
                    up = ft.Timedelta(prev or {"s": nd["u"]["n"]})
                elif nd["u"]["t"] == "rows":
                    up = ft.Timedelta(nd["u"]["n"], "observations")
            else:
                up = None
            where = ref(nd["w"]) if nd["w"] else None
            groupby = base(nd["g"]) if nd["g"] else None
            f = None
            if nd["k"] == "tra" and own is None and rng.random() < getattr(sc, "pf", {}).get("p_spell", 0.3):
                f = spelled(rng, nd, pyq, [ref(x) for x in nd["b"]])
            if f is None and rng.random() < getattr(sc, "pf", {}).get("p_alias", 0.3):
                f = aliased(rng, sc, nd, ent, [base(x) for x in nd["b"]], type(P) if not pyq and nd["p"] != "MEAN_NA" else P, up, where, groupby,
                            ways(nd["e"] - 1, sc.rels[nd["path"][-1] - 1]["c"]) if nd["k"] == "agg" else 0)
            if f is not None:
                feats.append(f)
                continue
            if nd["k"] == "agg":
                f = ft.AggregationFeature([ref(x) for x in nd["b"]], ent, P,
                                          relationship_path=RelationshipPath([(False, find_rel(es, sc, k)) for k in nd["path"]]),
                                          where=where, use_previous=up)
            elif nd["k"] == "tra":
                f = ft.TransformFeature([ref(x) for x in nd["b"]], P)
            else:
                f = ft.GroupByTransformFeature([ref(x) for x in nd["b"]], P, groupby)
        feats.append(f)
    return feats


PRIM_NAME = {c: n for n, c in PRIMS.items()}


def nodes_of(feats, sc):
    """the definitions of the library's own features: (nodes, types, [node, output] of each column)"""
    nodes, types, seen = [], [], {}
    enames = [e["name"] for e in sc.ents]
    relno = {(sc.ents[r["c"]]["name"], r["col"]): k + 1 for k, r in enumerate(sc.rels)}

    def ref(f):
        if isinstance(f, ft.feature_base.FeatureOutputSlice):
            return [go(f.base_feature), f.n + 1]
        return [go(f), 0 if f.number_output_features > 1 else 1]

    def relk(r):
        return relno[(r.child_entity.id, r.child_variable.id)]

    def go(f):
        key = (f.entity.id, f.unique_name())
        if key in seen:
            return seen[key]
        e = enames.index(f.entity.id) + 1
        nd = dict(k="", e=e, p="", q=q_of(), b=[], path=[], w=[], u=dict(t="none", n=0), g=[], c=0, o=f.number_output_features)
        if isinstance(f, ft.IdentityFeature):
            nd.update(k="id", c=[c["name"] for c in sc.ents[e - 1]["cols"]].index(f.variable.id) + 1)
        elif isinstance(f, ft.DirectFeature):
            nd.update(k="dir", b=[ref(f.base_features[0])], path=[relk(f.relationship_path[0][1])])
        else:
            P = f.primitive
            name = PRIM_NAME[type(P)]
            if name == "MEAN" and not P.skipna:
                name = "MEAN_NA"
            q = {}
            if hasattr(P, "unit"):
                q["u"] = P.unit
            if name == "N_MOST_COMMON":
                q["n"] = P.n
            if hasattr(P, "value"):
                q["v"] = enc(P.value)
            if name == "ISIN":
                q["l"] = [enc(v) for v in P.list_of_outputs or []]
            if name in ("NUM_CHARACTERS", "NUM_WORDS"):
                q["ln"] = CHARTABLE
            bases = list(f.base_features)
            if isinstance(f, ft.GroupByTransformFeature):
                nd.update(k="grp", g=ref(f.groupby))
                bases = bases[:-1]
            elif isinstance(f, ft.AggregationFeature):
                nd.update(k="agg", path=[relk(r) for _, r in f.relationship_path], w=ref(f.where) if f.where is not None else [])
                if f.use_previous is not None:
                    nd["u"] = dict(t="rows", n=f.use_previous.get_value("o")) if not f.use_previous.has_no_observations() else \
                        dict(t="time", n=int(f.use_previous.get_value_in_seconds()))
            else:
                nd.update(k="tra")
            nd.update(p=name, q=q_of(**q), b=[ref(b) for b in bases])
        nodes.append(nd)
        types.append("sq" if nd["p"] == "STD" else "")
        seen[key] = len(nodes)
        return len(nodes)
    want = []
    for f in feats:
        if isinstance(f, ft.feature_base.FeatureOutputSlice):
            want.append([go(f.base_feature), f.n + 1])
        else:
            i = go(f)
            want += [[i, k + 1] for k in range(f.number_output_features)]
    return nodes, types, want


def find_rel(es, sc, k):
    r = sc.rels[k - 1]
    for x in es.relationships:
        if x.child_entity.id == sc.ents[r["c"]]["name"] and x.child_variable.id == r["col"]:
            return x
    raise KeyError(k)


def gen_scenario(seed, pf0):
    rng = random.Random(seed)
    pf = dict(BASE)
    pf.update(pf0)
    while True:
        sc = Scenario()
        sc.seed, sc.rng, sc.pf = seed, rng, pf
        sc.ents, sc.rels, sc.numeric = gen_entities(rng, pf)
        g = Gen(rng, pf, sc.ents, sc.rels, sc.numeric)
        want = rng.randint(*pf["n_nodes"])
        for _ in range(want * 6):
            if len(g.nodes) - g.n_id >= want:
                break
            g.step()
        order = list(range(1, len(sc.ents) + 1))
        rng.shuffle(order)
        best = None
        for t in order:
            rich = sum(1 for i, nd in enumerate(g.nodes) if nd["e"] == t and g.depth[i] > 0 and
                       (pf.get("prefer") is None or pf["prefer"](nd)))
            if best is None or rich > best[0]:
                best = (rich, t)
        if best[0] == 0 and rng.random() < 0.95:
            continue
        sc.target = best[1]
        got = g.finish(sc.target, rng.randint(*pf["n_want"]), pf.get("prefer"))
        if not got:
            continue
        sc.nodes, sc.types, sc.pyq, sc.want = got
        for nd in sc.nodes:
            if nd["p"] in ("NUM_CHARACTERS", "NUM_WORDS"):
                nd["q"] = dict(nd["q"], len=CHARTABLE)
        return sc


def spec_scenario(sc, ents=None, lti=None):
    a = ents or [abstract_entity(e, (lti or {}).get(i)) for i, e in enumerate(sc.ents)]
    rels = []
    for r in sc.rels:
        names = [c["name"] for c in sc.ents[r["c"]]["cols"]]
        rels.append(dict(p=r["p"] + 1, pc=1, c=r["c"] + 1, cc=names.index(r["col"]) + 1))
    return dict(ents=a, rels=rels, nodes=sc.nodes)
