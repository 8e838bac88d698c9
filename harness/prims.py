"""Recorded values of single primitives (spec/FTPrimitivesTrace.tla)."""
import itertools
import random
import numpy as np
import pandas as pd
import featuretools as ft
from featuretools import primitives as prim
from featuretools import variable_types as vt
from .core import shield
from .values import enc, ts, EPOCH
from . import scen as SC
from .scen import q_of

NUM = [-2, 0, 1, 3, 0.5, None]
CAT = ["x", "y", "blue", None]
DAY = 86400
UNITS = ["seconds", "minutes", "hours", "days", "months", "years", "milliseconds"]


def numbers(rng):
    """a domain of numbers: whole, with fractions, with missing values, or far apart"""
    r = rng.random()
    if r < .25:
        return [-2, 0, 1, 3]
    if r < .55:
        return NUM
    if r < .7:
        return [-7, 0, 2.25, 4, 11, 0.1, None]
    if r < .85:
        return [rng.randint(-9999, 9999) for _ in range(4)] + [None]
    return [rng.randint(-99, 99) / rng.choice([1, 2, 4, 10]) for _ in range(5)] + [None, None]


def instants(rng, lo=-16000, hi=22000):
    """interesting instants, as seconds after 2020-01-01"""
    edge = ["2020-02-28", "2020-02-29", "2020-03-01", "2019-12-31", "2021-01-01", "2016-12-31", "2010-01-03", "2004-02-29", "1999-12-31", "1970-01-01",
            "1969-12-31", "2000-02-29", "2000-01-01", "2024-12-30", "2026-12-31", "2027-01-03"]
    out = [None]
    for _ in range(6):
        if rng.random() < .5:
            t = pd.Timestamp(rng.choice(edge))
        else:
            t = EPOCH + pd.Timedelta(days=rng.randint(lo, hi))
        s = int((t - EPOCH).total_seconds()) + rng.choice([0, 0, 86399, rng.randint(0, 86399)])
        out.append(s)
    return out


def close_instants(rng):
    base = rng.choice([0, 3600, 3660, 7])
    return [base + rng.choice([0, 1, 60, 3600, DAY, 5 * DAY, rng.randint(0, 9 * DAY)]) for _ in range(5)]


def column(vals, typ, rng=None):
    """a column of one type, in one of the types pandas could hold it"""
    if typ == "num":
        if any(v is None for v in vals) or any(v != int(v) for v in vals):
            return pd.Series([np.nan if v is None else v for v in vals], dtype=float)
        return pd.Series(vals, dtype=rng.choice(["int64", "float64"]) if rng else "int64")
    if typ == "bool":
        return pd.Series(vals, dtype=bool if all(v is not None for v in vals) else object)
    if typ in ("time", "tix", "dob"):
        return pd.Series([pd.NaT if v is None else ts(v) for v in vals], dtype="datetime64[ns]")
    if typ in ("cat", "text"):
        s = pd.Series([np.nan if v is None else v for v in vals], dtype=object)
        return s
    return pd.Series(vals)


VT = dict(num=vt.Numeric, bool=vt.Boolean, time=vt.Datetime, dob=vt.DateOfBirth, cat=vt.Categorical, text=vt.NaturalLanguage, disc=vt.Categorical,
          tix=vt.DatetimeTimeIndex, ord=vt.Ordinal)


def domain(rng, typ, missing=True):
    if typ == "num":
        return numbers(rng)
    if typ in ("disc", "ord"):
        return [1, 2, 5, 7]
    if typ == "bool":
        return [True, False]
    if typ == "cat":
        return CAT if rng.random() < .8 else [c for c in CAT if c]
    if typ == "text":
        return ["two words", "", " lead", "a,b", "zz", None, "line\nbreak", "tab\there"]
    return instants(rng)


def encv(v, typ):
    if v is None:
        return [0, 0, 1]
    return [4, v, 1] if typ in ("time", "tix", "dob") else enc(v)


# ------------------------------------------------------------- aggregations
AGG = [
    ("COUNT", ["id"]), ("SUM", ["num"]), ("MEAN", ["num"]), ("MEAN_NA", ["num"]), ("MIN", ["num"]), ("MAX", ["num"]), ("MODE", ["cat"]), ("MODE", ["disc"]),
    ("NUM_UNIQUE", ["cat"]), ("NUM_UNIQUE", ["disc"]), ("NUM_TRUE", ["bool"]), ("PERCENT_TRUE", ["bool"]), ("MEDIAN", ["num"]), ("STD", ["num"]),
    ("FIRST", ["num"]), ("LAST", ["num"]), ("FIRST", ["cat"]), ("LAST", ["cat"]), ("FIRST", ["time"]), ("LAST", ["time"]), ("ANY", ["bool"]), ("ALL", ["bool"]),
    ("TREND", ["num", "tix"]), ("TIME_SINCE_LAST", ["tix"]), ("TIME_SINCE_FIRST", ["tix"]), ("AVG_TIME_BETWEEN", ["tix"]), ("N_MOST_COMMON", ["cat"]),
    ("N_MOST_COMMON", ["disc"]), ("FIRST", ["bool"]), ("LAST", ["bool"])]
ROW = [
    ("IS_NULL", ["num"]), ("IS_NULL", ["cat"]), ("IS_NULL", ["time"]), ("ABSOLUTE", ["num"]), ("NEGATE", ["num"]), ("NOT", ["bool"]), ("AND", ["bool", "bool"]),
    ("OR", ["bool", "bool"]), ("MULTIPLY_BOOLEAN", ["bool", "bool"]), ("ADD_NUMERIC", ["num", "num"]), ("SUBTRACT_NUMERIC", ["num", "num"]),
    ("MULTIPLY_NUMERIC", ["num", "num"]), ("MULTIPLY_NUMERIC", ["num", "bool"]), ("MULTIPLY_NUMERIC", ["bool", "num"]), ("DIVIDE_NUMERIC", ["num", "num"]),
    ("MODULO_NUMERIC", ["num", "num"]), ("ADD_NUMERIC_SCALAR", ["num"]), ("SUBTRACT_NUMERIC_SCALAR", ["num"]), ("SCALAR_SUBTRACT_NUMERIC_FEATURE", ["num"]),
    ("MULTIPLY_NUMERIC_SCALAR", ["num"]), ("DIVIDE_NUMERIC_SCALAR", ["num"]), ("DIVIDE_BY_FEATURE", ["num"]), ("MODULO_NUMERIC_SCALAR", ["num"]),
    ("MODULO_BY_FEATURE", ["num"]), ("ISIN", ["cat"]), ("ISIN", ["num"]), ("YEAR", ["time"]), ("MONTH", ["time"]), ("DAY", ["time"]), ("HOUR", ["time"]),
    ("MINUTE", ["time"]), ("SECOND", ["time"]), ("WEEKDAY", ["time"]), ("WEEK", ["time"]), ("IS_WEEKEND", ["time"]), ("TIME_SINCE", ["time"]), ("AGE", ["dob"]),
    ("NUM_CHARACTERS", ["text"]), ("NUM_WORDS", ["text"])]
for c in ("GREATER_THAN", "GREATER_THAN_EQUAL_TO", "LESS_THAN", "LESS_THAN_EQUAL_TO", "EQUAL", "NOT_EQUAL"):
    ROW += [(c, ["num", "num"]), (c, ["time", "time"]), (c + "_SCALAR", ["num"])]
ROW += [("EQUAL", ["cat", "cat"]), ("NOT_EQUAL", ["cat", "cat"]), ("EQUAL_SCALAR", ["cat"]), ("NOT_EQUAL_SCALAR", ["cat"]), ("EQUAL", ["bool", "bool"])]
COL = [("CUM_SUM", ["num"]), ("CUM_COUNT", ["cat"]), ("CUM_MEAN", ["num"]), ("CUM_MIN", ["num"]), ("CUM_MAX", ["num"]), ("DIFF", ["num"]),
       ("PERCENTILE", ["num"]), ("TIME_SINCE_PREVIOUS", ["tix"])]
CASES = [("Agg", p, a) for p, a in AGG] + [("Row", p, a) for p, a in ROW] + [("Col", p, a) for p, a in COL] * 3
UNITP = {"TIME_SINCE_LAST", "TIME_SINCE_FIRST", "AVG_TIME_BETWEEN", "TIME_SINCE", "TIME_SINCE_PREVIOUS"}


def instance(rng, p, types, doms):
    """(the primitive, the parameters of the specification)"""
    if p == "MEAN_NA":
        return prim.Mean(skipna=False), q_of()
    C = SC.PRIMS[p]
    if p in UNITP:
        u = rng.choice(UNITS)
        return C(unit=u), q_of(u=u)
    if p == "N_MOST_COMMON":
        n = rng.choice([1, 2, 3, 3, 4])
        return C(n=n), q_of(n=n)
    if p == "ISIN":
        vals = [v for v in doms[0] if v is not None]
        if types[0] == "num":
            vals += [99]
        vals = rng.sample(vals, rng.randint(0, min(3, len(vals))))
        return C(list_of_outputs=vals), q_of(l=[enc(v) for v in vals])
    if p in SC.SCALARP:
        v = rng.choice([x for x in doms[0] if x is not None] + ([rng.randint(-5, 9), 1, 2] if types[0] == "num" else []))
        if p in ("MODULO_NUMERIC_SCALAR",) and v == 0:
            v = 2
        return C(value=v), q_of(v=enc(v))
    if p in ("NUM_CHARACTERS", "NUM_WORDS"):
        return C(), dict(q_of(), len=SC.CHARTABLE)
    return C(), q_of()


def line(ev, p, q, T, cols, obs, err, via):
    return dict(ev=ev, p=p, q=q, T=T, cols=cols, obs=obs, err=err, via=via)


def session_prims(seed, part):
    rng = random.Random(seed)
    kind, p, types = CASES[seed % len(CASES)]
    out = dict(Agg=agg, Row=row, Col=col)[kind](rng, p, types)
    for e in out:
        e["sid"] = seed
    return out


def groups_of(rng, types, doms):
    """inputs of many groups: all short columns over the domain, or random longer ones"""
    n = 1 if types[0] == "id" else len(doms[0])
    if rng.random() < .6:
        combos = list(itertools.product(*doms)) if types[0] != "id" else [(None,)]
        L = 0
        while len(combos) ** (L + 1) <= 700 and L < 4:
            L += 1
        gs = []
        for k in range(L + 1):
            gs += [list(c) for c in itertools.product(combos, repeat=k)]
        if len(gs) > 260:
            gs = gs[:20] + rng.sample(gs[20:], 240)
    else:
        gs = []
        for _ in range(rng.choice([1, 2, 40, 40])):
            k = rng.choice([0, 1, 2, 3, 5, 8, 12, 20])
            gs.append([tuple(rng.choice(d) for d in doms) if types[0] != "id" else (None,) for _ in range(k)])
    if not any(gs):
        gs.append([tuple(d[0] for d in doms) if types[0] != "id" else (None,)])
    return gs


def agg(rng, p, types):
    doms = [domain(rng, t) for t in types]
    for i, t in enumerate(types):
        if t == "tix":
            doms[i] = close_instants(rng) if rng.random() < .7 else [x for x in instants(rng, -9000, 9000) if x is not None]
            doms[i] = sorted(set(doms[i]))[:4] if len(types) > 1 else sorted(set(doms[i]))
    if len(types) > 1:
        doms[0] = [0, 1, 3, None] if rng.random() < .5 else doms[0]
    if p in ("ANY", "ALL", "NUM_TRUE", "PERCENT_TRUE", "FIRST", "LAST") and types[0] == "bool" and rng.random() < .4:
        doms[0] = [True, False, None]
    gs = groups_of(rng, types, doms)
    rng.shuffle(gs)
    ids = list(range(len(gs)))
    fk = [g for g in ids for _ in gs[g]]
    rows = [r for g in gs for r in g]
    order = list(range(len(rows)))
    rng.shuffle(order) if rng.random() < .5 else None
    data = {"cid": list(range(len(rows))), "fk": [fk[i] for i in order]}
    vts = {"fk": vt.Id}
    tix = None
    for j, t in enumerate(types):
        if t == "id":
            continue
        data["a%d" % j] = column([rows[i][j] for i in order], t, rng)
        if t == "tix":
            tix = "a%d" % j
        else:
            vts["a%d" % j] = VT[t]
    cdf = pd.DataFrame(data)
    if types[0] in ("cat", "disc") and rng.random() < .2:
        cdf["a0"] = cdf["a0"].astype("category")
    names = ["cid" if t == "id" else "a%d" % j for j, t in enumerate(types)]
    P, q = instance(rng, p, types, doms)
    last = max([v for r in rows for v, t in zip(r, types) if t == "tix"] + [0])
    T = last + rng.choice([0, 1, 3600, rng.randint(0, 99999)])
    sq = p == "STD"

    def calc():
        es = ft.EntitySet("es")
        es.entity_from_dataframe("p", pd.DataFrame({"id": ids}), index="id")
        es.entity_from_dataframe("c", cdf.copy(), index="cid", time_index=tix, variable_types=vts)
        es.add_relationship(ft.Relationship(es["p"]["id"], es["c"]["fk"]))
        f = ft.Feature([es["c"][n] for n in names], parent_entity=es["p"], primitive=P)
        fm = ft.calculate_feature_matrix([f], es, cutoff_time=ts(T), instance_ids=ids)
        return es["c"].df, fm
    err, r = shield(calc)
    if err:
        return [line("Agg", p, q, [4, T, 1], [], [], err, "matrix")]
    stored, fm = r
    stored = stored.sort_values(tix, kind="mergesort") if tix else stored
    by = {g: [] for g in ids}
    for fkv, c in zip(stored["fk"].tolist(), stored["cid"].tolist()):
        by[fkv].append(rows[order[c]])
    # ties of the time index stand in the stored order
    cols = [[[([2, c, 1] if t == "id" else encv(r[j], t)) for c, r in enumerate(by[g])] for j, t in enumerate(types)] for g in ids]
    obs = [[enc(v, sq) for v in row] for row in fm.loc[ids].values.tolist()] if len(fm.columns) > 1 or fm.dtypes.iloc[0] == object else \
        [[enc(v, sq)] for v in fm.iloc[:, 0].loc[ids].tolist()]
    for c in cols:
        c[:] = c[:len(types)]
    q = dict(q, n=q["n"] if p == "N_MOST_COMMON" else 1)
    out = [line("Agg", p, q, [4, T, 1], cols, obs, "", "matrix")]
    # calling the primitive itself
    pick = [g for g in ids if by[g]]
    rng.shuffle(pick)
    ccols, cobs, cerr = [], [], ""
    for g in pick[:6]:
        args = [column([r[j] for r in by[g]], t) if t != "id" else pd.Series(range(len(by[g]))) for j, t in enumerate(types)]
        if p in ("TIME_SINCE_LAST", "TIME_SINCE_FIRST"):
            err, v = shield(lambda: P(*args, time=ts(T)))
        else:
            err, v = shield(lambda: P(*args))
        if err:
            cerr = err
            break
        ccols.append(cols[g])
        cobs.append([enc(x, sq) for x in v] if p == "N_MOST_COMMON" and q["n"] > 1 else [enc(v, sq)])
    out.append(line("Agg", p, q, [4, T, 1], ccols, cobs, cerr, "call"))
    return out


def flat(fm, n):
    return [enc(v) for v in fm.iloc[:, 0].loc[list(range(n))].tolist()]


def entity(data, vts, tix=None):
    es = ft.EntitySet("es")
    es.entity_from_dataframe("e", pd.DataFrame(data), index="id", time_index=tix, variable_types=vts)
    return es


def row(rng, p, types):
    doms = [domain(rng, t) for t in types]
    if p in ("MODULO_NUMERIC", "MODULO_BY_FEATURE", "MODULO_NUMERIC_SCALAR"):
        doms = [[v for v in d if v is None or v == int(v)] or [1, 2] for d in doms]
    if types == ["time", "time"]:
        doms[1] = rng.sample(doms[0], 3) + doms[1][:3]
    if p in ("TIME_SINCE", "AGE"):
        doms[0] = instants(rng, -9000, 9000)
    rows = list(itertools.product(*doms))
    if rng.random() < .3:
        rows = [rng.choice(rows)] if rng.random() < .5 else [rng.choice(rows) for _ in range(12)]
    rng.shuffle(rows)
    n = len(rows)
    P, q = instance(rng, p, types, doms)
    T = rng.choice([0, DAY * 60 + 3600, rng.randint(-9000 * DAY, 9000 * DAY)])
    data = {"id": list(range(n))}
    vts = {}
    for j, t in enumerate(types):
        data["a%d" % j] = column([r[j] for r in rows], t, rng)
        vts["a%d" % j] = VT[t]
    df = pd.DataFrame(data)
    names = ["a%d" % j for j in range(len(types))]

    def calc():
        es = entity(df.copy(), vts)
        f = ft.Feature([es["e"][x] for x in names], primitive=P)
        return ft.calculate_feature_matrix([f], es, cutoff_time=ts(T), instance_ids=list(range(n)))
    err, fm = shield(calc)
    cols = [[encv(r[j], t) for j, t in enumerate(types)] for r in rows]
    cols = [c if len(c) > 1 else c + c for c in cols]
    out = [line("Row", p, q, [4, T, 1], cols, [] if err else flat(fm, n), err, "matrix")]
    args = [df[x] for x in names]
    err, v = shield(lambda: P(*args, time=ts(T)) if p in ("TIME_SINCE", "AGE") else P(*args))
    out.append(line("Row", p, q, [4, T, 1], cols, [] if err else [enc(x) for x in list(v)], err, "call"))
    return out


def col(rng, p, types):
    t = types[0]
    dom = domain(rng, t)
    if t == "tix":
        dom = [x for x in (close_instants(rng) if rng.random() < .6 else instants(rng, -9000, 9000)) if x is not None]
    out = []
    P, q = instance(rng, p, types, [dom])
    for _ in range(rng.choice([1, 4])):
        n = rng.choice([1, 1, 2, 3, 4, 6, 9, 15, 25])
        vals = [rng.choice(dom) for _ in range(n)]
        df = pd.DataFrame({"id": list(range(n)), "a0": column(vals, t, rng)})
        err, r = shield(lambda: (lambda es: (es["e"].df["id"].tolist(), ft.calculate_feature_matrix(
            [ft.Feature([es["e"]["a0"]], primitive=P)], es, cutoff_time=ts(max(vals) + 5) if t == "tix" else ts(0), instance_ids=list(range(n)))))(
                entity(df.copy(), {} if t == "tix" else {"a0": VT[t]}, "a0" if t == "tix" else None)))
        if err:
            out.append(line("Col", p, q, [4, 0, 1], [[encv(v, t) for v in vals]], [], err, "matrix"))
            continue
        order, fm = r
        obs = [enc(v) for v in fm.iloc[:, 0].loc[order].tolist()]
        out.append(line("Col", p, q, [4, 0, 1], [[encv(vals[i], t) for i in order]], obs, "", "matrix"))
        s = column([vals[i] for i in order], t)
        err, v = shield(lambda: P(s))
        out.append(line("Col", p, q, [4, 0, 1], [[encv(vals[i], t) for i in order]], [] if err else [enc(x) for x in list(v)], err, "call"))
    return out
