"""Recorded feature syntheses (traces for spec/FTSynthesisTrace.tla)."""
import inspect
import json
import os
import random
import subprocess
import sys
import warnings
import numpy as np
import dask.dataframe as dd
import pandas as pd
import featuretools as ft
from featuretools import variable_types as vt
from featuretools import primitives as P
from featuretools.feature_base import (AggregationFeature, DirectFeature, FeatureOutputSlice,
                                       GroupByTransformFeature, IdentityFeature, TransformFeature)
from featuretools.primitives import AggregationPrimitive, TransformPrimitive
from featuretools.utils.gen_utils import Library
from .core import shield


# ------------------------------------------------ the harness's primitives
class OnlySumsX(AggregationPrimitive):
    name, input_types, return_type, stack_on = "only_sums_x", [vt.Numeric], vt.Numeric, [P.Sum]

    def get_function(self):
        return lambda v: v.sum()


class NotMeansX(AggregationPrimitive):
    name, input_types, return_type, stack_on_exclude = "not_means_x", [vt.Numeric], vt.Numeric, [P.Mean, P.Max]

    def get_function(self):
        return lambda v: v.sum()


class BaseOfSumX(AggregationPrimitive):
    name, input_types, return_type, base_of = "base_of_sum_x", [vt.Numeric], vt.Numeric, [P.Sum]

    def get_function(self):
        return lambda v: v.sum()


class NotBaseOfX(AggregationPrimitive):
    name, input_types, return_type, base_of_exclude = "not_base_of_x", [vt.Numeric], vt.Numeric, [P.Sum, OnlySumsX]      # and SpreadX

    def get_function(self):
        return lambda v: v.sum()


class SpreadX(AggregationPrimitive):
    name, input_types, return_type, commutative = "spread_x", [vt.Numeric, vt.Numeric], vt.Numeric, True

    def get_function(self):
        return lambda a, b: abs(a.max() - b.min())


class WeighX(AggregationPrimitive):
    name, input_types, return_type, stack_on = "weigh_x", [vt.Numeric, vt.Numeric], vt.Numeric, [P.Sum, P.Count]

    def get_function(self):
        return lambda a, b: (a * b).sum()


class ByKindX(AggregationPrimitive):
    name, input_types, return_type, stack_on_exclude = "by_kind_x", [vt.Numeric, vt.Discrete], vt.Numeric, [P.Mean, P.Mode]

    def get_function(self):
        return lambda a, b: a.sum()


class EndsX(AggregationPrimitive):
    name, input_types, return_type, number_output_features = "ends_x", [vt.Numeric], vt.Numeric, 2

    def get_function(self):
        return lambda v: [v.min(), v.max()]


class PartsX(TransformPrimitive):
    name, input_types, return_type, number_output_features = "parts_x", [vt.Datetime], vt.Numeric, 2

    def get_function(self):
        return lambda v: [v.dt.day, v.dt.hour]


NotBaseOfX.base_of_exclude.append(SpreadX)
OWN = [OnlySumsX, NotMeansX, BaseOfSumX, NotBaseOfX, SpreadX, EndsX, WeighX, ByKindX, PartsX]


def prim(p):
    if p is None or p.name is None:
        return dict(n="", a=[], outs=1)
    a = [[k, str(getattr(p, k))] for k, x in inspect.signature(type(p).__init__).parameters.items()
         if k != "self" and x.kind == x.POSITIONAL_OR_KEYWORD]
    return dict(n=p.name, a=a, outs=int(getattr(p, "n", 1)) if p.name == "n_most_common" else 1)


class Nodes:
    """the features reachable from a list, each after what it uses"""

    def __init__(self, es):
        self.rels = [(r.parent_entity.id, r.parent_variable.id, r.child_entity.id, r.child_variable.id) for r in es.relationships]
        self.out, self.at, self.keep = [], {}, []

    def rel(self, r):
        return self.rels.index((r.parent_entity.id, r.parent_variable.id, r.child_entity.id, r.child_variable.id)) + 1

    def add(self, f):
        if id(f) in self.at:
            return self.at[id(f)]
        d = dict(k="", e=f.entity_id, v="", p=prim(None), b=[], path=[], w=[], g=[], pv="", o=0, cn="")
        if isinstance(f, FeatureOutputSlice):
            d.update(k="sl", b=[self.add(f.base_feature)], o=f.n + 1)
        elif isinstance(f, IdentityFeature):
            d.update(k="id", v=f.variable.id)
        elif isinstance(f, DirectFeature):
            d.update(k="dir", b=[self.add(f.base_features[0])], path=[self.rel(r) for _, r in f.relationship_path])
        elif isinstance(f, AggregationFeature):
            d.update(k="agg", p=prim(f.primitive), b=[self.add(x) for x in f.base_features],
                     path=[self.rel(r) for _, r in f.relationship_path],
                     w=[] if f.where is None else [self.add(f.where)],
                     pv="" if f.use_previous is None else f.use_previous.get_name())
        elif isinstance(f, GroupByTransformFeature):
            d.update(k="grp", p=prim(f.primitive), b=[self.add(x) for x in f.base_features[:-1]], g=[self.add(f.groupby)])
        elif isinstance(f, TransformFeature):
            d.update(k="tra", p=prim(f.primitive), b=[self.add(x) for x in f.base_features])
        else:
            raise TypeError(type(f))
        f.get_name()
        d["cn"] = "" if f._name == f.generate_name() else f._name
        self.out.append(d)
        self.keep.append(f)
        self.at[id(f)] = len(self.out)
        return len(self.out)


def schema(es):
    return dict(
        ents=[dict(id=e.id, index=e.index, tix=e.time_index or "",
                   vars=[dict(n=v.id, t=type(v).__name__, iv=[str(x) for x in v.interesting_values]) for v in e.variables]) for e in es.entities],
        rels=[dict(pe=r.parent_entity.id, pv=r.parent_variable.id, ce=r.child_entity.id, cv=r.child_variable.id) for r in es.relationships])


# ------------------------------------------------------------- entity sets
KINDS = [("num", vt.Numeric, 5), ("cat", vt.Categorical, 2.5), ("bool", vt.Boolean, 1.5), ("time", vt.Datetime, 1.2), ("ord", vt.Ordinal, .8),
         ("text", vt.NaturalLanguage, .7), ("zip", vt.ZIPCode, .5), ("id", vt.Id, .7), ("ll", vt.LatLong, .5), ("dob", vt.DateOfBirth, .3), ("mail", vt.EmailAddress, .3)]
NAMES = {"num": ["a", "b", "A", "val"], "cat": ["c", "kind", "C"], "bool": ["ok", "f"], "time": ["when", "w"], "ord": ["o"], "text": ["txt"],
         "zip": ["z"], "id": ["ref"], "ll": ["home", "work"], "dob": ["born"], "mail": ["m"]}


def column(rng, k, n):
    if k == "num":
        return [float(rng.randint(0, 3)) for _ in range(n)]
    if k == "ord":
        return [rng.randint(1, 3) for _ in range(n)]
    if k in ("cat", "zip", "id", "text", "mail"):
        return [rng.choice(["x", "y", "z"]) for _ in range(n)]
    if k == "bool":
        return [rng.random() < .5 for _ in range(n)]
    if k == "ll":
        return [(float(rng.randint(0, 3)), 1.) for _ in range(n)]
    return [pd.Timestamp("2020-01-01") + pd.Timedelta(days=rng.randint(0, 40)) for _ in range(n)]


def entityset(rng, pf):
    shape = rng.choice(pf["shapes"]) if "shapes" in pf else None
    n = shape["n"] if shape else rng.choice(pf.get("n_ents", [1, 2, 2, 3, 3, 3, 4]))
    names = ["cust", "sess", "tran", "prod"][:n]
    rng.shuffle(names)
    es = ft.EntitySet("e")
    es.first_choice = [names[shape["target"]]] if shape else []
    links = []
    # parents come first in the order of names; every later entity gets one or two links
    for i in range(1, n):
        ps = [rng.randrange(i)]
        if rng.random() < .35:
            ps.append(rng.randrange(i))
        if shape:
            ps = shape["parents"][i]
        for j, p in enumerate(ps):
            links.append((p, i, "%s_id%s" % (names[p], "" if ps.count(p) == 1 or j == 0 else "2")))
    vs = {}
    for i, e in enumerate(names):
        rows = rng.randint(3, 5)
        df, types = {"id": list(range(rows))}, {}
        for p, c, col in links:
            if c == i:
                df[col] = [rng.randint(0, 2) for _ in range(rows)]
                types[col] = vt.Id
        for _ in range(rng.randint(*pf.get("n_vars", (1, 3)))):
            k, t, _w = rng.choices(KINDS, [x[2] for x in KINDS])[0]
            c = rng.choice(NAMES[k])
            if c in df:
                continue
            df[c] = column(rng, k, rows)
            types[c] = t
        tix = None
        if rng.random() < .5:
            tix = "t"
            df["t"] = column(rng, "time", rows)
        vs[i] = (pd.DataFrame(df), types, tix)
    order = list(range(n))
    rng.shuffle(order)
    for i in order:
        df, types, tix = vs[i]
        es.entity_from_dataframe(names[i], df, index="id", variable_types=types, time_index=tix)
    rng.shuffle(links)
    for p, c, col in links:
        es.add_relationship(ft.Relationship(es[names[p]]["id"], es[names[c]][col]))
    if rng.random() < pf.get("p_iv", .4):
        for e in es.entities:
            for v in e.variables:
                if isinstance(v, (vt.Discrete, vt.Boolean, vt.Numeric)) and not isinstance(v, (vt.Index, vt.NumericTimeIndex)) and rng.random() < pf.get("p_iv_var", .35):
                    vals = sorted(set(es[e.id].df[v.id].tolist()), key=str)
                    v.interesting_values = rng.sample(vals, rng.randint(0, min(2, len(vals))))
    return es


def distributed(rng, es):
    """the same entity set on distributed frames"""
    out = ft.EntitySet(es.id)
    for e in es.entities:
        out.entity_from_dataframe(e.id, dd.from_pandas(e.df.reset_index(drop=True), npartitions=rng.randint(1, 2)), index=e.index, time_index=e.time_index,
                                  variable_types={v.id: type(v) for v in e.variables})
        for v in e.variables:
            out[e.id][v.id].interesting_values = v.interesting_values
    for r in es.relationships:
        out.add_relationship(ft.Relationship(out[r.parent_entity.id][r.parent_variable.id], out[r.child_entity.id][r.child_variable.id]))
    return out


# ---------------------------------------------------------------- requests
AGGS = ["all", "any", "avg_time_between", "count", "entropy", "first", "last", "max", "mean", "median", "min", "mode", "n_most_common", "num_true",
        "num_unique", "percent_true", "skew", "std", "sum", "time_since_first", "time_since_last", "trend"]
GROUPS = ["cum_sum", "cum_count", "cum_max", "cum_mean", "cum_min", "diff", "absolute", "time_since_previous", "percentile", "negate"]


def pick_prims(rng, pf):
    T = sorted(P.get_transform_primitives())
    aggs = rng.sample(pf.get("agg_pool", AGGS), rng.choice(pf.get("n_aggs", [0, 1, 1, 2, 2, 3])))
    trs = rng.sample(pf.get("trans_pool", T), rng.choice(pf.get("n_trs", [0, 1, 1, 2, 3])))
    grps = rng.sample(GROUPS, rng.choice(pf.get("n_grps", [0, 0, 1, 1, 2])))
    if rng.random() < pf.get("p_own", .3):
        aggs += rng.sample([x.name for x in OWN[:8]], rng.choice([1, 2, 2, 4])) + rng.sample(["sum", "mean", "max", "mode", "not_base_of_x"], rng.choice([0, 1, 2]))
        if rng.random() < .3:
            trs.append("parts_x")
        aggs = list(dict.fromkeys(aggs))
    return aggs, trs, grps


BYNAME = dict(P.get_aggregation_primitives(), **P.get_transform_primitives())
for _c in OWN:
    BYNAME[_c.name] = _c


def instance(rng, name):
    c = BYNAME[name]
    if rng.random() < .25:
        if name == "n_most_common":
            return c(n=rng.choice([2, 3]))
        if name in ("subtract_numeric", "divide_numeric"):
            return c(commutative=rng.random() < .5)
        if name in ("time_since", "avg_time_between", "time_since_last", "time_since_first", "time_since_previous"):
            return c(unit=rng.choice(["hours", "seconds", "days"]))
        if name == "isin":
            return c(list_of_outputs=["x"])
        if name == "haversine":
            return c(unit="kilometers")
        if name.endswith("_scalar"):
            return c(value=rng.choice([1, 2]))
    return c()


# two parents of one entity, and a second child of one of them: P <- Q, P <- D, (P, Q) <- C
FORKED = [dict(n=4, parents=[[], [0], [0], [1, 0]], target=1), dict(n=4, parents=[[], [0], [0], [0, 1]], target=1)]
# grandchildren
CHAINS = [dict(n=3, parents=[[], [0], [1]], target=0), dict(n=3, parents=[[], [0], [1, 0]], target=0)]

OPT = [("ie", "include_entities"), ("xe", "ignore_entities"), ("iv", "include_variables"), ("xv", "ignore_variables"),
       ("gie", "include_groupby_entities"), ("gxe", "ignore_groupby_entities"), ("giv", "include_groupby_variables"), ("gxv", "ignore_groupby_variables")]


def option(rng, es, group):
    o = {}
    ents = [e.id for e in es.entities]
    keys = rng.sample(OPT if group else OPT[:4], rng.choice([1, 1, 2, 2, 3]))
    for k, name in keys:
        if k in ("ie", "xe", "gie", "gxe"):
            o[name] = rng.sample(ents, rng.randint(1, max(1, len(ents) - (1 if k in ("xe", "gxe") else 0))))
        else:
            m = {}
            for e in rng.sample(ents, rng.randint(1, len(ents))):
                vs = [v.id for v in es[e].variables]
                m[e] = rng.sample(vs, rng.randint(1, len(vs)))
            o[name] = m
    return o


def enc_option(o):
    d = {}
    for k, name in OPT:
        if k in ("ie", "xe", "gie", "gxe"):
            d[k] = dict(has=int(name in o), s=list(o.get(name, [])))
        else:
            d[k] = dict(has=int(name in o), m=[[e, list(v)] for e, v in o.get(name, {}).items()])
    return d


RT = {"Numeric": vt.Numeric, "Discrete": vt.Discrete, "Boolean": vt.Boolean, "Datetime": vt.Datetime, "Variable": vt.Variable, "Ordinal": vt.Ordinal, "Id": vt.Id}


class TooMany(BaseException):
    """not an Exception: this scenario is left out"""


class Counting(ft.synthesis.deep_feature_synthesis.DeepFeatureSynthesis):
    """stops a synthesis that builds very many features"""
    left = 220

    def _handle_new_feature(self, *a, **k):
        self.left -= 1
        if self.left < 0:
            raise TooMany()
        return super()._handle_new_feature(*a, **k)


class Request:
    """one synthesis: the arguments, ready to be stated in several ways"""

    def __init__(self, seed, pf):
        rng = self.rng = random.Random(seed)
        self.left = pf.get("left", Counting.left)
        self.es = es = entityset(rng, pf)
        ents = [e.id for e in es.entities]
        self.target = rng.choice(es.first_choice if es.first_choice and rng.random() < .8 else ents)
        self.dist = int("p_dist" in pf and rng.random() < pf["p_dist"])
        if self.dist:
            self.es = es = distributed(rng, es)
        a, t, g = pick_prims(rng, pf)
        if self.dist and rng.random() < .8:
            a, t, g = [[n for n in q if Library.DASK in BYNAME[n].compatibility] for q in (a, t, g)]
        self.defaults = ["p_default" in pf and rng.random() < pf["p_default"] for _ in range(2)]
        if self.defaults[0]:
            a = []
        if self.defaults[1]:
            t = []
        self.aggs, self.trs, self.grps = ([instance(rng, n) for n in q] for q in (a, t, g))
        self.whs = [instance(rng, n) for n in (rng.sample(a, rng.randint(0, len(a))) if rng.random() < pf.get("p_whs", .5) else [])]
        self.default_where = rng.random() < .4
        if rng.random() < pf.get("p_all_where", 0):
            self.default_where = False
            self.whs = [instance(rng, n) for n in a]
        if self.default_where:
            self.whs = [P.Count()]
        self.depth = rng.choice(pf.get("depths", [1, 2, 2, 2, 3, 3, -1]))
        if self.depth == -1 and len(ents) > 3:
            self.depth = 3
        if self.depth == -2:
            self.depth = -1
        self.limit = rng.choice(pf.get("limits", [1, 1, 1, 2, 0]))
        self.ignE = rng.sample([e for e in ents if e != self.target], 1) if len(ents) > 1 and rng.random() < pf.get("p_ign", .2) else []
        self.ignV = {}
        if rng.random() < pf.get("p_ign", .2):
            for e in rng.sample(ents, rng.randint(1, len(ents))):
                vs = [v.id for v in es[e].variables]
                self.ignV[e] = rng.sample(vs, rng.randint(1, min(2, len(vs))))
        self.allowed = None
        if rng.random() < pf.get("p_allowed", .12):
            paths = [[self.target]]
            todo = [[self.target]]
            while todo:
                q = todo.pop()
                for r in es.relationships:
                    for x, y in ((r.parent_entity.id, r.child_entity.id), (r.child_entity.id, r.parent_entity.id)):
                        if q[-1] == x and y not in q:
                            todo.append(q + [y])
                            paths.append(q + [y])
            paths = [list(x) for x in dict.fromkeys(tuple(p) for p in paths)]
            self.allowed = rng.sample(paths, rng.randint(1, len(paths)))
        self.opts = []                                        # (keys, option or list); key = name, class or instance
        if rng.random() < pf.get("p_opts", .35):
            allp = self.aggs + self.trs + self.grps
            rng.shuffle(allp)
            used = set()
            for p in allp[:rng.choice([1, 1, 2])]:
                if p.name in used:
                    continue
                used.add(p.name)
                nin = len(p.input_types[0]) if isinstance(p.input_types[0], list) else len(p.input_types)
                group = p in self.grps
                o = [option(rng, es, group) for _ in range(nin)] if nin > 1 and rng.random() < .5 else option(rng, es, group)
                key = rng.choice(["name", "class", "inst"])
                if p.name not in P.get_aggregation_primitives() and p.name not in P.get_transform_primitives() and key == "name" and isinstance(o, list):
                    key = "inst"
                self.opts.append((key, p, o))
        self.types = rng.choice([None, None, "all", ["Numeric"], ["Discrete", "Datetime"], ["Variable"], ["Boolean", "Id"]])
        self.maxf = rng.choice([-1, -1, -1, 1, 3, 7])
        self.dropc = rng.choice([[], [], [], ["a"], ["SUM("], ["id", "by"]])
        self.drope = []
        self.seeds = []
        if rng.random() < pf.get("p_seeds", .25):
            self.seeds = self.make_seeds(rng)

    def make_seeds(self, rng):
        es, out = self.es, []
        for e in rng.sample(es.entities, rng.randint(1, len(es.entities))):
            nums = [v for v in e.variables if isinstance(v, vt.Numeric)]
            cats = [v for v in e.variables if isinstance(v, vt.Discrete)]
            r = rng.random()
            if nums and r < .4:
                f = ft.Feature(rng.choice(nums)) > rng.choice([0, 2])
            elif nums and r < .6:
                f = ft.Feature(rng.choice(nums)) * 2
            elif cats and r < .8:
                f = ft.Feature(rng.choice(cats)) == "x"
            else:
                kids = [x for x in es.relationships if x.parent_entity.id == e.id]
                if not kids:
                    continue
                r = rng.choice(kids)
                c = r.child_entity
                if sum(1 for x in es.relationships if (x.parent_entity.id, x.child_entity.id) == (e.id, c.id)) > 1 or len(list(es.find_backward_paths(e.id, c.id))) > 1:
                    continue
                f = ft.Feature(c["id"], parent_entity=e, primitive=P.Count)
            if rng.random() < .2:
                f = f.rename("seeded " + str(len(out)))
            out.append(f)
        return out

    def kwargs(self, how="plain", rng=None):
        def say(p):
            plain = not p.get_args_string() and not any(p is q for _, q, _ in self.opts if _ is not None)
            inst_key = any(k == "inst" and q is p for k, q, _ in self.opts)
            if how == "plain" or inst_key or p.get_args_string() or not plain_ok(p):
                return p
            if how == "classes":
                return type(p)
            return p.name if p.name in P.get_aggregation_primitives() or p.name in P.get_transform_primitives() else type(p)

        def plain_ok(p):
            return True
        rng = rng or random.Random(0)

        def seq(q):
            q = [say(p) for p in q]
            if how == "mixed":
                rng.shuffle(q)
            return q
        opts = {}
        for key, p, o in self.opts:
            opts[p.name if key == "name" else type(p) if key == "class" else p] = o
        seeds = list(self.seeds)
        if how == "mixed":
            rng.shuffle(seeds)
            opts = dict(sorted(opts.items(), key=lambda x: rng.random()))
        kw = dict(agg_primitives=seq(self.aggs), trans_primitives=seq(self.trs), groupby_trans_primitives=seq(self.grps),
                  max_depth=self.depth, max_features=self.maxf, ignore_entities=list(self.ignE) or None,
                  ignore_variables={k: list(v) for k, v in self.ignV.items()} or None, allowed_paths=self.allowed,
                  primitive_options=opts or None, seed_features=seeds or None, drop_contains=list(self.dropc), drop_exact=list(self.drope),
                  where_stacking_limit=self.limit)
        if self.defaults[0]:
            kw["agg_primitives"] = None
        if self.defaults[1]:
            kw["trans_primitives"] = None
        if not self.default_where:
            kw["where_primitives"] = seq(self.whs)
        return kw

    def build(self, how="plain", rng=None):
        rt = self.types if self.types is None or self.types == "all" else [RT[t] for t in self.types]
        obj = Counting(self.target, self.es, **self.kwargs(how, rng))
        obj.left = self.left
        return obj.build_features(return_variable_types=rt)

    def record(self):
        inst = {}
        for k, p, _ in self.opts:
            if k == "inst":
                inst[id(p)] = len(inst) + 1

        def seq(q):
            return [dict(p=prim(p), i=inst.get(id(p), 0)) for p in q]
        sn = Nodes(self.es)
        at = [sn.add(f) for f in self.seeds]
        return dict(es=schema(self.es), dist=self.dist, defaults=[int(x) for x in self.defaults], target=self.target, depth=self.depth, aggs=seq(self.aggs), trs=seq(self.trs), grps=seq(self.grps),
                    whs=seq(self.whs), limit=self.limit, allowed=dict(has=int(bool(self.allowed)), paths=self.allowed or []),
                    ignE=self.ignE, ignV=[[e, v] for e, v in self.ignV.items()],
                    opts=[dict(name=p.name, inst=inst.get(id(p), 0) if k == "inst" else 0, list=[enc_option(x) for x in (o if isinstance(o, list) else [o])]) for k, p, o in self.opts],
                    seednodes=sn.out, seedat=at, types=["Numeric", "Discrete", "Boolean"] if self.types is None else ["all"] if self.types == "all" else self.types,
                    dropc=self.dropc, drope=self.drope, maxf=self.maxf)


def listing(es, fs):
    nd = Nodes(es)
    return dict(list=[dict(at=nd.add(f), nm=f.get_name(), t=f.variable_type.__name__) for f in fs], nodes=nd.out)


def session_synth(seed, prm):
    try:
        return synth_lines(seed, prm)
    except TooMany:
        return None


def synth_lines(seed, prm):
    pf = prm.get("pf", prm)
    r = Request(seed, pf)
    rng = random.Random(seed + 1)
    lines = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        err, fs = shield(r.build)
        if err == "" and fs is not None and len(fs) > pf.get("cap", 70):
            return None
        if err == "" and r.maxf == -1 and fs and rng.random() < .25:
            r.drope = [f.get_name() for f in rng.sample(fs, min(2, len(fs)))] + ["nothing"]
            err, fs = shield(r.build)
        x = dict(ev="Synth", q=r.record(), err=err, list=[], nodes=[])
        if err == "":
            x.update(listing(r.es, fs))
        lines.append(x)
        if err == "":
            for how in rng.sample(["mixed", "mixed", "names", "classes", "plain", "process"], pf.get("n_same", 2)):
                if how == "process":
                    names, err = other_process(seed, pf, r)
                else:
                    err, got = shield(r.build, how, rng)
                    names = [f.get_name() for f in got] if err == "" else []
                lines.append(dict(ev="Same", how=how, names=names, err=err))
    return lines


# ------------------------------------------------- the same in other processes
CHILD = {}


def other_process(seed, pf, r):
    c = CHILD.get(os.getpid())
    if c is None:
        env = dict(os.environ, PYTHONHASHSEED=str(1 + os.getpid() % 1000))
        root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        c = CHILD[os.getpid()] = subprocess.Popen([sys.executable, "-m", "harness.dfs"], cwd=root, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                                  stderr=subprocess.DEVNULL, text=True)
    c.stdin.write(json.dumps([seed, pf, r.drope]) + "\n")
    c.stdin.flush()
    return json.loads(c.stdout.readline())


def serve():
    out = os.fdopen(os.dup(1), "w")
    fd = os.open("/dev/null", os.O_WRONLY)
    os.dup2(fd, 1)
    warnings.simplefilter("ignore")
    for ln in sys.stdin:
        seed, pf, drope = json.loads(ln)
        r = Request(seed, pf)
        r.drope = drope
        err, got = shield(r.build)
        out.write(json.dumps([[f.get_name() for f in got] if err == "" else [], err]) + "\n")
        out.flush()


if __name__ == "__main__":
    serve()
