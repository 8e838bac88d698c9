"""Sessions that encode and select from feature matrices (spec/FTTablesTrace.tla)."""
import random
import numpy as np
import pandas as pd
import featuretools as ft
from featuretools import selection, variable_types as vt
from .core import shield
from .values import enc
from . import scen as SC
from . import sessions as SS
from . import calcs as CA

LIMITS = [(0, 1), (1, 4), (1, 3), (1, 2), (2, 3), (3, 4), (9, 10), (19, 20), (1, 1), (1, 5), (2, 5)]


def kind(dt):
    return "num" if dt.kind == "f" or dt in (np.dtype("int16"), np.dtype("int32"), np.dtype("int64")) else "bool" if dt.kind == "b" else "other"


def view(fm):
    idx = [[enc(x) for x in (t if isinstance(t, tuple) else (t,))] for t in fm.index]
    return dict(idx=idx, cols=[dict(n=str(c), k=kind(fm.dtypes.iloc[j]), v=[enc(x) for x in fm.iloc[:, j].tolist()]) for j, c in enumerate(fm.columns)])


class Book:
    """what each definition is, in the specification's terms"""

    def __init__(self, feats):
        self.known = [(f, ["old", k + 1]) for k, f in enumerate(feats)]

    def find(self, f):
        for g, d in self.known:
            if g is f:
                return d
        return None

    def of(self, f):
        d = self.find(f)
        if d:
            return d
        if type(f).__name__ == "FeatureOutputSlice":
            b = self.find(f.base_feature)
            d = ["slice", b[1], f.n + 1] if b else ["what", f.get_name()]
        else:
            P = type(f.primitive).__name__
            d = ["what", f.get_name()]
            if P == "EqualScalar":
                b = self.find(f.base_features[0])
                if b:
                    d = ["eq", b, enc(f.primitive.value)]
            elif P == "Not" and type(f.base_features[0].primitive).__name__ == "IsIn":
                g = f.base_features[0]
                b = self.find(g.base_features[0])
                if b:
                    d = ["unk", b, [enc(x) for x in g.primitive.list_of_outputs]]
        self.known.append((f, d))
        return d

    def list(self, feats):
        return [dict(d=self.of(f), names=[str(n) for n in f.get_feature_names()], disc=int(issubclass(f.variable_type, vt.Discrete))) for f in feats]


NOTHING = dict(m=dict(idx=[], cols=[]), f=[])


def op_select(rng, fm, feats, book, p_feats=0.7):
    op = rng.choice(["Null", "Single", "Low", "Corr", "Corr"])
    withf = int(feats is not None and rng.random() < p_feats)
    th = rng.choice(LIMITS)
    bad = 0
    a = dict(th=list(th), countnan=0, check=[], keep=[])
    args, kw = [fm], {}
    if withf:
        kw["features"] = list(feats)
    names = [str(c) for c in fm.columns]
    if op == "Null":
        fn = selection.remove_highly_null_features
        kw["pct_null_threshold"] = th[0] / th[1]
        if th == (19, 20) and rng.random() < 0.5:
            del kw["pct_null_threshold"]
    elif op == "Single":
        fn = selection.remove_single_value_features
        a["countnan"] = rng.randint(0, 1)
        if a["countnan"] or rng.random() < 0.5:
            kw["count_nan_as_value"] = bool(a["countnan"])
    elif op == "Low":
        fn = selection.remove_low_information_features
    else:
        fn = selection.remove_highly_correlated_features
        kw["pct_corr_threshold"] = th[0] / th[1]
        if th == (19, 20) and rng.random() < 0.5:
            del kw["pct_corr_threshold"]
        if rng.random() < 0.4 and names:
            a["check"] = kw["features_to_check"] = rng.sample(names, rng.randint(1, len(names)))
        if rng.random() < 0.3 and names:
            a["keep"] = kw["features_to_keep"] = rng.sample(names, rng.randint(1, max(1, len(names) // 3)))
    if op in ("Null", "Corr") and rng.random() < 0.05:
        kw["pct_null_threshold" if op == "Null" else "pct_corr_threshold"] = rng.choice([-0.1, 1.5, 100])
        bad = 1
    elif op == "Corr" and rng.random() < 0.04:
        kw["features_to_check"] = names[:1] + ["no such column"]
        bad = 1
    a["bad"] = bad

    def call(m, f):
        k = dict(kw)
        if withf:
            k["features"] = list(f)
        if "features_to_check" in k and not bad:
            k["features_to_check"] = [c for c in k["features_to_check"] if c in m.columns]
        r = fn(m, **k)
        return r if withf else (r, None)
    err, res = shield(call, fm, feats)
    ev = dict(ev="Op", op=op, args=a, err=err, withf=withf, got=NOTHING, again=NOTHING["m"], after=view(fm), go=0)
    nxt = (fm, feats)
    if err == "":
        m, f = res
        ev["got"] = dict(m=view(m), f=book.list(f) if withf else [])
        e2, r2 = shield(call, m, f)
        ev["again"] = view(r2[0]) if e2 == "" else NOTHING["m"]
        if withf or feats is None:
            ev["go"] = int(rng.random() < 0.6 and not bad)
            if ev["go"]:
                nxt = (m, f)
    return ev, nxt


def op_encode(rng, fm, feats, book):
    single = [f for f in feats if f.number_output_features == 1]
    top = rng.choice([1, 2, 2, 3, 10, 10, 50])
    a = dict(top=top, tops=[], unknown=1, some=0, enc=[], dropfirst=0, inplace=0, bad=0)
    kw = {}
    if top != 10:
        kw["top_n"] = top
    if rng.random() < 0.3:
        pick = [f.get_name() for f in single if rng.random() < 0.5]
        d = {n: rng.choice([1, 2, 3, 5]) for n in pick}
        kw["top_n"] = d
        a["top"], a["tops"] = 10, [[n, k] for n, k in d.items()]
    if rng.random() < 0.4:
        a["unknown"] = rng.randint(0, 1)
        kw["include_unknown"] = bool(a["unknown"])
    if rng.random() < 0.3:
        a["some"], a["enc"] = 1, [f.get_name() for f in single if rng.random() < 0.6]
        kw["to_encode"] = list(a["enc"])
    if rng.random() < 0.25:
        a["dropfirst"] = 1
        kw["drop_first"] = True
    use = fm
    if rng.random() < 0.3:
        a["inplace"] = 1
        kw["inplace"] = True
        use = fm.copy()
    err, res = shield(ft.encode_features, use, list(feats), **kw)
    ev = dict(ev="Op", op="Encode", args=a, err=err, withf=1, got=NOTHING, again=NOTHING["m"], after=view(fm), go=0)
    nxt = (fm, feats)
    if err == "":
        m, f = res
        ev["got"] = dict(m=view(m), f=book.list(f))
        ev["go"] = int(rng.random() < 0.8)
        if ev["go"]:
            nxt = (m, f)
    return ev, nxt


def session_tables(seed, part):
    got = CA.prepare(seed, part)
    if got is None:
        return None
    sc, es, feats, ents = got
    rng = sc.rng
    objs, want, names, sq = SS.expand_want(sc, feats, rng)
    # the target's own discrete columns are good to have
    have = {id(o) for o in objs}
    for i, nd in enumerate(sc.nodes):
        if nd["e"] == sc.target and id(feats[i]) not in have and sc.types[i] in ("cat", "ord", "fk", "bool", "boolN", "id") and rng.random() < 0.7:
            objs.append(feats[i])
    rng.shuffle(objs)
    # an indicator that is itself requested would meet the one made by encoding
    objs = [o for o in objs if type(getattr(o, "primitive", None)).__name__ != "EqualScalar"]
    if not objs:
        return None
    flat = [n for o in objs for n in o.get_feature_names()]
    if len(set(flat)) != len(flat):
        return None
    reqs = SS.make_reqs(rng, sc)
    if not reqs:
        return None
    extra = None
    if rng.random() < 0.5:
        extra = {"p%d" % j: [rng.choice([0, 1, rng.randint(0, 9)]) for _ in reqs] for j in range(rng.randint(1, 2))}
        if rng.random() < 0.5:
            extra["q"] = [rng.choice(["x", "y", None]) for _ in reqs]
    df, _, _ = SS.cutoff_frame(rng, sc, reqs, extra)
    kw = dict(cutoff_time=df, cutoff_time_in_index=rng.random() < 0.5)
    err, fm = shield(ft.calculate_feature_matrix, objs, es, **kw)
    if err:
        return None
    # rows of instances that exist at their cutoff (others get default values)
    e = sc.ents[sc.target - 1]
    tix = [c["vals"] for c in e["cols"] if c["type"] == "tix"]
    born = dict(zip(e["cols"][0]["vals"], tix[0] if tix else [0] * e["n"]))
    seen = [k + 1 for k, (i, t) in enumerate(reqs) if born.get(i) is not None and born[i] <= t]
    book = Book(objs)
    lines = [dict(ev="Table", got=dict(m=view(fm), f=book.list(objs)), go=1)]
    cur = (fm, objs)
    encoded = 0
    for _ in range(part.get("steps", 5)):
        fm, f = cur
        if f and not encoded and rng.random() < part.get("p_enc", 0.5):
            ev, cur = op_encode(rng, fm, f, book)
            lines.append(ev)
            if ev["go"]:
                encoded = 1
                if cur[1]:
                    err, m2 = shield(ft.calculate_feature_matrix, cur[1], es, **kw)
                    n = sum(x.number_output_features for x in cur[1])
                    lines.append(dict(ev="Recalc", err=err, cols=view(m2)["cols"][:n] if err == "" else [], go=0, rows=seen))
        else:
            ev, cur = op_select(rng, fm, f, book)
            lines.append(ev)
            if ev["go"] and ev["withf"] and cur[1] and rng.random() < part.get("p_recalc", 0.4):
                err, m2 = shield(ft.calculate_feature_matrix, cur[1], es, **kw)
                n = sum(x.number_output_features for x in cur[1])
                lines.append(dict(ev="Recalc", err=err, cols=view(m2)["cols"][:n] if err == "" else [], go=0, rows=seen))
    for k, x in enumerate(lines):
        x["last"] = int(k == len(lines) - 1)
    return lines


def session_columns(seed, part):
    """selection on columns of any content, without definitions"""
    rng = random.Random(seed)
    n = rng.choice([0, 1, 2, 3, 4, 4, 5, 5, 8, 10, 20])
    cols = {}
    for j in range(rng.randint(1, 7)):
        r = rng.random()
        nums = [k for k, v in cols.items() if v.dtype.kind in "if"]
        if r < 0.3 and nums:
            c = cols[rng.choice(nums)]
            v = c * rng.choice([1, -1, 2]) + rng.choice([0, 1, 3])
            if rng.random() < 0.6 and n:
                v = v.copy()
                v.iloc[rng.randrange(n)] = rng.randint(-3, 5)
            if rng.random() < 0.4:
                v = v.astype(float).where([rng.random() < 0.7 for _ in range(n)])
        elif r < 0.5:
            v = pd.Series([rng.randint(-2, 4) for _ in range(n)], dtype=rng.choice(["int64", "float64", "int32"]))
        elif r < 0.65:
            v = pd.Series([np.nan if rng.random() < 0.5 else rng.randint(0, 3) for _ in range(n)], dtype="float64")
        elif r < 0.8:
            v = pd.Series([rng.random() < 0.5 for _ in range(n)], dtype=bool)
        elif r < 0.9:
            v = pd.Series([rng.choice(["x", "y", np.nan]) for _ in range(n)], dtype=object)
        else:
            v = pd.Series([rng.choice([np.nan, 5.0]) for _ in range(n)], dtype="float64") if rng.random() < 0.5 else pd.Series([7] * n, dtype="int64")
        cols["c%d" % j] = v.reset_index(drop=True)
    names = list(cols)
    rng.shuffle(names)
    fm = pd.DataFrame({k: cols[k] for k in names}, columns=names)
    fm.index = rng.sample(range(100), n)
    lines = [dict(ev="Table", got=dict(m=view(fm), f=[]), go=1)]
    cur = (fm, None)
    for _ in range(part.get("steps", 5)):
        ev, cur = op_select(rng, cur[0], None, None)
        lines.append(ev)
    for k, x in enumerate(lines):
        x["last"] = int(k == len(lines) - 1)
    return lines
