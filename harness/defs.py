"""Recorded feature definitions: built, renamed, copied, saved and loaded (spec/FTDefsTrace.tla)."""
import io
import json
import os
import random
import tempfile
import warnings
import numpy as np
import pandas as pd
import featuretools as ft
from featuretools import variable_types as vt
from featuretools import primitives as P
from featuretools.entityset.relationship import RelationshipPath
from featuretools.feature_base import (AggregationFeature, DirectFeature, GroupByTransformFeature, IdentityFeature, TransformFeature)
from .core import shield
from . import dfs as D

AGGS = [D.BYNAME[n] for n in D.AGGS] + D.OWN[:6]
TRS = [c for n, c in sorted(D.BYNAME.items()) if n in P.get_transform_primitives()] + [D.PartsX]
GRPS = [D.BYNAME[n] for n in D.GROUPS]


def params(rng, c, f=None):
    n = c.name
    if n in ("equal_scalar", "not_equal_scalar"):
        return c(value=rng.choice([1, 2.5, "x", "1", None, True, np.int64(2), np.float64(1.5), np.bool_(True)]))
    if n.endswith("_scalar"):
        return c(value=rng.choice([1, 2, 2.5, -1, np.int64(3)]))
    if n in ("scalar_subtract_numeric_feature", "divide_by_feature", "modulo_by_feature"):
        return c(value=rng.choice([1, 2, -3, 0.5]))
    if n == "isin":
        return c(list_of_outputs=rng.choice([["x"], ["x", "y"], [1, 2], [], [1.5, "a"], [np.int64(1), np.float64(2.5)]]))
    if n == "mean":
        return c(skipna=rng.random() < .5)
    if n == "entropy":
        return c(dropna=rng.random() < .5, base=rng.choice([None, 2]))
    if n == "n_most_common":
        return c(n=rng.choice([2, 3, 4]))
    if n in ("subtract_numeric", "divide_numeric"):
        return c(commutative=rng.random() < .5)
    if n in ("time_since", "avg_time_between", "time_since_last", "time_since_first", "time_since_previous"):
        return c(unit=rng.choice(["seconds", "hours", "minutes", "days"]))
    if n == "haversine":
        return c(unit=rng.choice(["miles", "kilometers"]))
    return c()


SPANS = [lambda: ft.Timedelta("3 days"), lambda: ft.Timedelta(2, "h"), lambda: ft.Timedelta({"h": 1, "m": 30}), lambda: ft.Timedelta(4, "observations"),
         lambda: "2 weeks", lambda: ft.Timedelta({"months": 1, "d": 3}), lambda: ft.Timedelta(1, "year"), lambda: ft.Timedelta(2.5, "days")]


class Builder:
    def __init__(self, rng, es, pf):
        self.rng, self.es, self.pf = rng, es, pf
        self.pool = [IdentityFeature(v) for e in es.entities for v in e.variables]
        self.touched = 0
        self.names = 0

    def pick(self, types, e):
        q = [f for f in self.pool if f.entity_id == e and f.number_output_features == 1 and issubclass(f.variable_type, types)]
        q = q + [f for f in q if not isinstance(f, IdentityFeature)] * 2
        return self.rng.choice(q) if q else None

    def inputs(self, p, e):
        alts = p.input_types if isinstance(p.input_types[0], list) else [p.input_types]
        alt = self.rng.choice(alts)
        q = [self.pick(t, e) for t in alt]
        return None if any(x is None for x in q) else q

    def path(self):
        rng, es = self.rng, self.es
        rels = list(es.relationships)
        if not rels:
            return None
        q = [rng.choice(rels)]
        while rng.random() < .4:
            nx = [r for r in rels if r.parent_entity.id == q[-1].child_entity.id]
            if not nx:
                break
            q.append(rng.choice(nx))
        return q

    def step(self):
        rng, es = self.rng, self.es
        k = rng.choices(["dir", "agg", "tra", "grp", "sl", "rename"], [2.5, 4, 3.5, 1.5, 1, self.pf.get("renames", .6)])[0]
        if k == "dir":
            if not es.relationships:
                return None
            r = rng.choice(es.relationships)
            q = [f for f in self.pool if f.entity_id == r.parent_entity.id]
            q += [f for f in q if not isinstance(f, IdentityFeature)] * 2
            return DirectFeature(rng.choice(q), es[r.child_entity.id], relationship=r)
        if k == "agg":
            path = self.path()
            if path is None:
                return None
            c = path[-1].child_entity.id
            p = params(rng, rng.choice(AGGS))
            b = self.inputs(p, c)
            if b is None:
                return None
            kw = {}
            if rng.random() < .4:
                w = self.pick(vt.Boolean, c)
                if w is not None:
                    kw["where"] = w
            if es[c].time_index and rng.random() < .4:
                kw["use_previous"] = rng.choice(SPANS)()
            mine = list(b)
            f = AggregationFeature(mine, es[path[0].parent_entity.id], p, relationship_path=RelationshipPath([(False, r) for r in path]), **kw)
            self.touched += mine != b if len(mine) != len(b) else 0
            return f
        e = rng.choice(es.entities).id
        if k == "tra":
            p = params(rng, rng.choice(TRS))
            b = self.inputs(p, e)
            if b is None:
                return None
            mine = list(b)
            f = TransformFeature(mine, p)
            self.touched += len(mine) != len(b)
            return f
        if k == "grp":
            p = params(rng, rng.choice(GRPS))
            b = self.inputs(p, e)
            g = self.pick(vt.Discrete, e)
            if b is None or g is None:
                return None
            if rng.random() < .25 and any(issubclass(x.variable_type, vt.Discrete) for x in b):
                g = next(x for x in b if issubclass(x.variable_type, vt.Discrete))
            mine = list(b)
            f = GroupByTransformFeature(mine, p, g)
            self.touched += len(mine) != len(b)
            return f
        if k == "sl":
            q = [f for f in self.pool if f.number_output_features > 1]
            if not q:
                return None
            f = rng.choice(q)
            return f[rng.randrange(f.number_output_features)]
        self.names += 1
        return rng.choice(self.pool).rename("%s %d" % (rng.choice(["mine", "x, y", "SUM(b)", "v[0]", "é"]), self.names))


def build(rng, pf, first=None):
    es = D.entityset(rng, pf)
    if first:
        first(es)
    b = Builder(rng, es, pf)
    for _ in range(rng.randint(*pf.get("steps", (6, 16)))):
        f = b.step()
        if f is not None and depth(f) <= pf.get("deep", 5):
            b.pool.append(f)
    return es, b


def depth(f):
    return f.get_depth()


def reports(es, nd):
    """what the features say about themselves"""
    return [dict(nm=f.get_name(), names=list(f.get_feature_names()), t=f.variable_type.__name__, n=int(f.number_output_features), d=int(f.get_depth()),
                 deps=[[x.entity_id, x.get_name()] for x in f.get_dependencies()],
                 deep=[[x.entity_id, x.get_name()] for x in f.get_dependencies(deep=True)], e=f.entity.id, un=f.unique_name()) for f in nd.keep]


def clash(nd):
    """two features of one name that differ are not told apart when saved (known finding C17-1)"""
    seen = {}
    for f, d in zip(nd.keep, nd.out):
        k = json.dumps(d, sort_keys=True)
        if seen.setdefault(f.unique_name(), k) != k:
            # the same definition may be recorded twice with other numbers
            if expand(nd.out, d) != expand(nd.out, json.loads(seen[f.unique_name()])):
                return True
    return False


def expand(out, d):
    d = dict(d)
    for k in ("b", "w", "g"):
        d[k] = [expand(out, out[i - 1]) for i in d[k]]
    return d


def cells(es, fs):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fm = ft.calculate_feature_matrix(fs, es, cutoff_time=pd.Timestamp("2020-02-20"), verbose=False)
    return dict(err="", cols=[str(c) for c in fm.columns], idx=[repr(i) for i in fm.index],
                cells=[["nan" if x is None or x is pd.NaT or (isinstance(x, float) and x != x) else repr(x) for x in fm.iloc[:, j].tolist()] for j in range(fm.shape[1])])


def matrix(es, fs):
    err, m = shield(cells, es, fs)
    return m if err == "" else dict(err=err.split(":")[0], cols=[], idx=[], cells=[])


def save_load(rng, fs):
    how = rng.choice(["text", "text", "file", "stream", "open"])
    if how == "text":
        return how, ft.load_features(ft.save_features(fs))
    d = tempfile.mkdtemp(prefix="ftdefs")
    p = os.path.join(d, "f.json")
    try:
        if how == "file":
            ft.save_features(fs, p)
            return how, ft.load_features(p)
        if how == "open":
            with open(p, "w") as h:
                ft.save_features(fs, h)
            with open(p) as h:
                return how, ft.load_features(h)
        h = io.StringIO()
        ft.save_features(fs, h)
        return how, ft.load_features(io.StringIO(h.getvalue()))
    finally:
        if os.path.exists(p):
            os.remove(p)
        os.rmdir(d)


def listing(es, fs):
    nd = D.Nodes(es)
    return dict(at=[nd.add(f) for f in fs], nodes=nd.out, es=D.schema(es)), nd


def session_defs(seed, prm):
    """definitions and what follows from them"""
    pf = prm.get("pf", prm)
    rng = random.Random(seed)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        es, b = build(rng, pf)
        nd = D.Nodes(es)
        for f in b.pool:
            nd.add(f)
        lines = [dict(ev="Defs", es=D.schema(es), nodes=nd.out, says=reports(es, nd), touched=int(b.touched))]
        for _ in range(3):
            f = rng.choice(b.pool)
            nd = D.Nodes(es)
            i = nd.add(f)
            before = reports(es, nd)
            op = rng.choice(["rename", "rename", "copy"])
            nm = rng.choice(["fresh", "a", "x[1]", "SUM(q)"]) if op == "rename" else ""
            err, g = shield(f.rename, nm) if op == "rename" else shield(f.copy)
            x = dict(ev="Variant", es=D.schema(es), op=op, nm=nm, err=err, of=i, before=before)
            if err == "":
                x["is"] = nd.add(g)
            else:
                x["is"] = i
            nd2 = D.Nodes(es)
            nd2.add(f)
            x.update(nodes=nd.out, says=reports(es, nd), after=reports(es, nd2))
            lines.append(x)
    return lines


def session_saved(seed, prm):
    """definitions saved and loaded"""
    pf = prm.get("pf", prm)
    rng = random.Random(seed)
    lines = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if rng.random() < pf.get("p_dfs", .25):
            r = D.Request(seed, dict(pf, n_same=0))
            try:
                err, fs = shield(r.build)
            except D.TooMany:
                return None
            es = r.es
            if err or not fs:
                return None
            fs = rng.sample(fs, min(len(fs), 25))
        else:
            es, b = build(rng, pf)
            q = [f for f in b.pool if not isinstance(f, IdentityFeature)] or b.pool
            fs = [rng.choice(q if rng.random() < .85 else b.pool) for _ in range(rng.randint(1, 7))]
        before, nd = listing(es, fs)
        if clash(nd):
            return None
        err, got = shield(save_load, rng, fs)
        x = dict(ev="Saved", err=err, how="", before=before, after=before, again=before)
        if err == "":
            x["how"], back = got
            x["after"], _ = listing(back[0].entityset, back)
            x["again"], _ = listing(es, fs)
        lines.append(x)
        if err == "":
            seen, one, two = set(), [], []
            for f, g in zip(fs, back):
                if f.unique_name() not in seen and len({c for c in f.get_feature_names()} & {c for h in one for c in h.get_feature_names()}) == 0:
                    if f.entity_id == fs[0].entity_id:
                        one.append(f)
                        two.append(g)
                seen.add(f.unique_name())
            lines.append(dict(ev="Matrix", a=matrix(es, one), b=matrix(es, two)))
        if rng.random() < .3:
            lines.append(version(rng, es))
    return lines


def version(rng, es):
    d = json.loads(ft.save_features([IdentityFeature(v) for e in es.entities for v in e.variables][:1]))
    cur = d["schema_version"]
    v = [int(x) for x in cur.split(".")]
    v[rng.randrange(3)] += rng.choice([-6, -1, 0, 1, 4, 94])
    v = [max(0, x) for x in v]
    d["schema_version"] = ".".join(map(str, v))
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        import logging
        logger = logging.getLogger("featuretools.utils")
        got = []
        h = logging.Handler()
        h.emit = lambda r: got.append(r.getMessage())
        old, logger.handlers = logger.handlers, [h]
        try:
            err, _ = shield(ft.load_features, json.dumps(d))
        finally:
            logger.handlers = old
    return dict(ev="Version", current=[int(x) for x in cur.split(".")], saved=v, err=err,
                newer=int(any("greater than the latest supported" in str(x.message) for x in w)), older=int(any("no longer supported" in m for m in got)))


WORDING = ["the number of goods", "how much was paid", "whether it rained", "A long story", "the x", "goods, sold", "the 2nd of all"]
PATTERNS = ["something about {}", "the {} as such", "what became of {} and the rest", "plain words", "whether {} matters"]


def session_described(seed, prm):
    """descriptions of features, with texts of the user's own"""
    pf = prm.get("pf", prm)
    rng = random.Random(seed)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cols = []

        def tell(es):
            for e in es.entities:
                for v in e.variables:
                    if rng.random() < pf.get("p_col", .2):
                        v.description = rng.choice(WORDING)
                        cols.append([e.id, v.id, v.description])
        es, b = build(rng, pf, tell)
        nd = D.Nodes(es)
        for f in b.pool:
            nd.add(f)
        lines = []
        for _ in range(2):
            own, by_name, by_file = {}, {}, {}
            for f in b.pool + [IdentityFeature(e[e.index]) for e in es.entities]:
                if rng.random() < pf.get("p_text", .12):
                    own[f] = rng.choice(WORDING)
                if rng.random() < pf.get("p_text", .12):
                    by_name[f.unique_name()] = rng.choice(WORDING)
                if rng.random() < pf.get("p_text", .12):
                    by_file[f.unique_name()] = rng.choice(WORDING)
            if rng.random() < .3:
                own, by_name, by_file = {}, {}, {}
            t_own, t_name, t_file, temps = {}, {}, {}, []
            prims = [f for f in nd.keep if getattr(f.primitive, "input_types", None) is not None and not isinstance(f.primitive, type)]
            if rng.random() < .6:
                for f in rng.sample(prims, min(len(prims), 3)):
                    p = f.primitive
                    n = p.input_types if not isinstance(p.input_types[0], list) else p.input_types[0]
                    pat = rng.choice(PATTERNS if len(n) == 1 else ["{} beside {}", "first {}, then {}", "plain words"])
                    outs = p.number_output_features
                    if outs > 1 and rng.random() < .7:
                        pat = [pat] + (["the {nth_slice} part of {}"] if rng.random() < .5 else ["part %d of {}" % i for i in range(outs)])
                    used = [g for g in nd.keep if g.primitive is p]
                    whole = [g for g in used if not isinstance(g, ft.feature_base.FeatureOutputSlice)]
                    r = rng.random()
                    if r < .4 and len(whole) == 1 and sum(g.unique_name() == whole[0].unique_name() for g in nd.keep) == 1:
                        t_own[p] = pat
                        temps.insert(0, [p.name, whole[0].unique_name(), pat if isinstance(pat, list) else [pat]])
                    elif r < .7 and p.name not in t_name:
                        t_name[p.name] = pat
                    else:
                        t_file[p.name] = pat
            few = lambda x: x if isinstance(x, list) else [x]
            temps += [[k, "", few(v)] for k, v in t_name.items()] + [[k, "", few(v)] for k, v in t_file.items()]
            texts = [[f.unique_name(), t] for f, t in own.items()] + [[k, t] for k, t in by_name.items()] + [[k, t] for k, t in by_file.items()]
            kw = dict(feature_descriptions={**own, **by_name}, primitive_templates={**t_own, **t_name})
            if by_file or t_file:
                h, path = tempfile.mkstemp(prefix="ftdesc", suffix=".json")
                with os.fdopen(h, "w") as o:
                    json.dump(dict(feature_descriptions=by_file, primitive_templates=t_file), o)
                kw["metadata_file"] = path
            elif not kw["feature_descriptions"] and rng.random() < .5:
                kw.pop("feature_descriptions")
            of, said = [], []
            for f in rng.sample(b.pool, min(len(b.pool), 14)):
                err, d = shield(ft.describe_feature, f, **kw)
                of.append(nd.at[id(f)])
                said.append(d if err == "" else "!" + err)
            if "metadata_file" in kw:
                os.remove(kw["metadata_file"])
            lines.append(dict(ev="Described", es=D.schema(es), nodes=nd.out, x=dict(texts=texts, temps=temps, cols=cols), of=of, said=said))
    return lines
