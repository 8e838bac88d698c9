"""Sessions of calculations for the properties about feature matrices."""
import copy
import os
import random
import shutil
import tempfile
import numpy as np
import pandas as pd
import featuretools as ft
from .core import shield
from .values import enc
from . import scen as SC
from . import sessions as SS
from .scen import STEP

NOWDEP = {"TIME_SINCE", "AGE", "TIME_SINCE_LAST", "TIME_SINCE_FIRST"}


def prepare(seed, part, lti=None):
    """scenario, entity set, features; None when two columns share a name"""
    sc = SC.gen_scenario(seed, dict(part.get("pf", {})))
    es = SC.build_es(sc.ents, sc.rels)
    use = sc.rng.random() < sc.pf["p_lti"] if lti is None else lti
    if use and not sc.numeric:
        es.add_last_time_indexes()
        SC.shuffle_last_times(sc.rng, sc.pf, es)
    feats = SC.build_features(es, sc)
    if SS.collide(sc, feats):
        return None
    ents = [SC.project_entity(es, e) for e in sc.ents]
    return sc, es, feats, ents


def window(sc):
    rng = sc.rng
    if rng.random() < sc.pf["win"] and not sc.numeric:
        return rng.randint(1, 5) * STEP + rng.choice([0, 0, 0, 1, -1])
    return None


# ---------------------------------------------------------------- C07
def requests(seed, part):
    got = prepare(seed, part)
    if got is None:
        return None
    sc, es, feats, ents = got
    rng = sc.rng
    lines = [SS.load_event(sc, ents)]
    nowdep = any(nd["p"] in NOWDEP for nd in sc.nodes)
    for _ in range(part.get("calcs", 3)):
        incl, win = rng.random() < sc.pf["incl"], window(sc)
        r = rng.random()
        if r < 0.25:
            omit = rng.random() < 0.4 and win is None and not (nowdep and not sc.numeric) and not any(nd["u"]["t"] == "time" for nd in sc.nodes)
            lines.append(SS.all_visible_event(rng, sc, es, feats, SS.cut_time(rng, sc), incl, win, omit and not sc.numeric))
        else:
            reqs = SS.make_reqs(rng, sc)
            sub = rng.sample(sc.want, rng.randint(1, len(sc.want)))
            keep, sc.want = sc.want, sub
            lines.append(SS.calc_event(rng, sc, es, feats, reqs, incl, win, single=r > 0.75, extra=rng.random() < 0.6))
            sc.want = keep
    return lines


# ---------------------------------------------------------------- C08
def contexts(sc):
    """the relationship paths (from the target) along which each node is read"""
    out = [set() for _ in sc.nodes]

    def go(i, ctx):
        if ctx in out[i - 1]:
            return
        out[i - 1].add(ctx)
        nd = sc.nodes[i - 1]
        if nd["k"] == "dir":
            new = ctx + (("up", nd["path"][0]),)
        elif nd["k"] == "agg":
            new = ctx + tuple(("down", k) for k in nd["path"])
        else:
            new = ctx
        for x in nd["b"]:
            go(x[0], new)
        if nd["w"]:
            go(nd["w"][0], new)
        if nd["g"]:
            go(nd["g"][0], new)
    for i in sc.want:
        go(i, ())
    return out


def chain_base(sc, i):
    while sc.nodes[i - 1]["k"] == "dir":
        i = sc.nodes[i - 1]["b"][0][0]
    return i


def approx(seed, part):
    got = prepare(seed, part)
    if got is None:
        return None
    sc, es, feats, ents = got
    rng = sc.rng
    if any(nd["p"] in ("TIME_SINCE", "AGE") for nd in sc.nodes):
        return None
    ctx = contexts(sc)
    for i in sc.want:
        b = chain_base(sc, i)
        if b != i and sc.nodes[b - 1]["k"] == "agg" and len(ctx[b - 1]) > 1:
            return None
    lines = [SS.load_event(sc, ents)]
    for _ in range(part.get("calcs", 3)):
        incl, win = rng.random() < sc.pf["incl"], window(sc)
        reqs = SS.make_reqs(rng, sc)
        ap = rng.choice([1, 2, 3, 5]) if sc.numeric else rng.choice([STEP, STEP, 2 * STEP, 3 * STEP, 3600, 7200, 86399, 14 * STEP, 14 * STEP, 3 * STEP + 3600])
        single = rng.random() < sc.pf["single"]
        lines.append(SS.calc_event(rng, sc, es, feats, reqs, incl, win, appr=ap, single=single, extra=rng.random() < 0.3))
    return lines


# ---------------------------------------------------------------- C09
_CLUSTER = {}


def cluster(n=2):
    """one cluster per worker process, reused by all its sessions"""
    if n not in _CLUSTER:
        import logging
        for name in ("distributed", "distributed.worker", "distributed.scheduler", "distributed.nanny", "distributed.core", "tornado"):
            logging.getLogger(name).setLevel(logging.CRITICAL)
        from distributed import LocalCluster
        _CLUSTER[n] = LocalCluster(n_workers=n, threads_per_worker=1, processes=False, protocol="tcp://", dashboard_address=None,
                                   memory_limit=0 if False else "2GB")
    return _CLUSTER[n]


def same_event(sc, objs, es, reqs, names, sq, what, kw, single=None):
    """the request again; with single its only time is given as one value, and the instances in some list or series"""
    if single is not None:
        kw = dict(kw, instance_ids=single([i for i, _ in reqs]))
        cut = SS.tpy(sc, reqs[0][1])
    else:
        cut = None
    df = pd.DataFrame({"instance_id": [i for i, _ in reqs], "time": [SS.tpy(sc, t) for _, t in reqs]})
    if not sc.ents[sc.target - 1]["cols"][0]["str"]:
        df["instance_id"] = df["instance_id"].astype("int64")
    err, fm = shield(ft.calculate_feature_matrix, objs, es, cutoff_time=df if cut is None else cut, **kw)
    ev = dict(ev="Same", what=what, err=err, obs=[])
    if err == "":
        e2, got = shield(observe_full, fm, len(names), sq)
        if e2:
            ev["err"] = "unreadable result: " + e2
        else:
            ev["obs"] = got["obs"]
            want = [enc(i) for i, _ in reqs]
            if got["ids"] != want or got["cols"] != names:
                ev["err"] = "labels differ: %s %s" % (got["ids"], got["cols"])
    return ev


def observe_full(fm, ncols, sq):
    return SS.observe(fm, ncols, sq, fm.index.nlevels > 1, 0)


def splits(seed, part):
    """the same request split in many ways"""
    got = prepare(seed, part)
    if got is None:
        return None
    sc, es, feats, ents = got
    rng = sc.rng
    objs, want, names, sq = SS.expand_want(sc, feats, rng)
    lines = [SS.load_event(sc, ents)]
    for rnd in range(part.get("calcs", 2)):
        incl, win = rng.random() < sc.pf["incl"], window(sc)
        one = rng.random() < .35
        reqs = SS.make_reqs(rng, sc, times=[SS.cut_time(rng, sc)] if one else None)
        appr = None
        if not one and rng.random() < 0.25 and not any(nd["p"] in ("TIME_SINCE", "AGE") for nd in sc.nodes):
            ctx = contexts(sc)
            if not any(chain_base(sc, i) != i and sc.nodes[chain_base(sc, i) - 1]["k"] == "agg" and len(ctx[chain_base(sc, i) - 1]) > 1 for i in sc.want):
                appr = 3 if sc.numeric else 3 * STEP
        lines.append(SS.calc_event(rng, sc, es, feats, reqs, incl, win, appr=appr, plain=True))
        base = dict(include_cutoff_time=incl)
        if win is not None:
            base["training_window"] = SS.win_arg(rng, win)
        if appr is not None:
            base["approximate"] = appr if sc.numeric else SS.win_arg(rng, appr)
        for v in range(part.get("variants", 4)):
            kw = dict(base)
            tmp = None
            what = []
            if rng.random() < 0.8:
                kw["chunk_size"] = rng.choice([1, 1, 2, 3, 0.3, 0.5, 0.99, 7, 1000])
                what.append("chunk %s" % kw["chunk_size"])
            if rng.random() < 0.3:
                kw["progress_callback"] = nothing
                what.append("callback")
            single = None
            if one and rng.random() < .7:
                single = rng.choice([list, tuple, lambda x: id_series(sc, x), lambda x: shuffled_index(rng, id_series(sc, x)),
                                     lambda x: shuffled_index(rng, id_series(sc, x))])
                what.append("single")
            if rng.random() < part.get("p_cluster", 0.15):
                kw["n_jobs"] = 2
                kw["dask_kwargs"] = dict(cluster=cluster(rng.choice([1, 2, 3])))
                what.append("cluster")
            if rng.random() < 0.25:
                tmp = tempfile.mkdtemp(prefix="ftverif")
                kw["save_progress"] = tmp
                what.append("save")
            if rng.random() < 0.3:
                kw["cutoff_time_in_index"] = True
            lines.append(same_event(sc, objs, es, reqs, names, sq, " ".join(what), kw, single))
            if tmp:
                shutil.rmtree(tmp, ignore_errors=True)
        if rnd == 0 and rng.random() < 0.5:
            # other data, same structure (a reused cluster must notice)
            for e in sc.ents:
                for c in e["cols"]:
                    if c["type"] == "num" and not c.get("str"):
                        c["vals"] = [None if x is None else x + rng.choice([0, 1, 2]) for x in c["vals"]]
            es = SC.build_es(sc.ents, sc.rels)
            feats = SC.build_features(es, sc)
            objs, want, names, sq = SS.expand_want(sc, feats, rng)
            ents = [SC.project_entity(es, e) for e in sc.ents]
            lines.append(SS.load_event(sc, ents))
    return lines


def id_series(sc, ids):
    return pd.Series(ids, dtype=object if sc.ents[sc.target - 1]["cols"][0]["str"] else "int64")


def shuffled_index(rng, s):
    """labels that are not the positions"""
    lab = list(range(len(s)))
    rng.shuffle(lab)
    return s.set_axis(lab)


def nothing(update, percent, elapsed):
    pass


# ---------------------------------------------------------------- C10
def subsets(seed, part):
    """parts of a request made alone, in any order"""
    got = prepare(seed, part)
    if got is None:
        return None
    sc, es, feats, ents = got
    rng = sc.rng
    lines = [SS.load_event(sc, ents)]
    objs, want, names, sq = SS.expand_want(sc, feats, rng)
    owner = []
    for k, o in enumerate(objs):
        owner += [k] * o.number_output_features
    incl, win = rng.random() < sc.pf["incl"], window(sc)
    reqs = SS.make_reqs(rng, sc)
    lines.append(SS.calc_event(rng, sc, es, feats, reqs, incl, win, plain=True))
    for v in range(part.get("variants", 4)):
        rows = rng.sample(range(len(reqs)), rng.choice([1, rng.randint(1, len(reqs)), len(reqs)]))
        ks = rng.sample(range(len(objs)), rng.choice([1, rng.randint(1, len(objs)), len(objs)]))
        cols = [c for k in ks for c, o in enumerate(owner) if o == k]
        nm = [names[c] for c in cols]
        kw = dict(include_cutoff_time=incl)
        if win is not None:
            kw["training_window"] = SS.win_arg(rng, win)
        ev = same_event(sc, [objs[k] for k in ks], es, [reqs[r] for r in rows], nm, [sq[c] for c in cols], "rows %s columns %s" % (rows, cols), kw)
        ev.update(ev="Sub", rows=[r + 1 for r in rows], cols=[c + 1 for c in cols])
        lines.append(ev)
    return lines


# ---------------------------------------------------------------- C11
def boom(column):
    raise RuntimeError("boom")


def untouched(seed, part):
    """inputs looked at again after calculations, failing ones included"""
    got = prepare(seed, part)
    if got is None:
        return None
    sc, es, feats, ents = got
    rng = sc.rng
    lines = [SS.load_event(sc, ents)]
    snap = SS.snapshot(es, sc)
    objs, want, names, sq = SS.expand_want(sc, feats, rng)
    names0 = defs_text(objs)
    raw = {e.id: e.df.copy(deep=True) for e in es.entities}
    for _ in range(part.get("calcs", 3)):
        incl, win = rng.random() < sc.pf["incl"], window(sc)
        reqs = SS.make_reqs(rng, sc)
        r = rng.random()
        why = []
        if r < 0.25:
            ap = 2 if sc.numeric else 2 * STEP
            kw = dict(approximate=ap if sc.numeric else SS.win_arg(rng, ap))
        elif r < 0.4:
            kw = dict(chunk_size=2, progress_callback=nothing)
        elif r < 0.5 and rng.random() < part.get("p_cluster", 0.3):
            kw = dict(n_jobs=2, dask_kwargs=dict(cluster=cluster(2)))
        else:
            kw = {}
        kw["include_cutoff_time"] = incl
        if win is not None:
            kw["training_window"] = SS.win_arg(rng, win)
        fail = rng.random() < 0.3
        use = list(objs)
        if fail:
            P = ft.primitives.make_trans_primitive(boom, [ft.variable_types.Index], ft.variable_types.Numeric, name="boom")
            use.append(ft.Feature(es[sc.ents[sc.target - 1]["name"]]["id"], primitive=P))
        df, _, _ = SS.cutoff_frame(rng, sc, reqs, {"p": [1] * len(reqs)} if rng.random() < 0.3 else None)
        if rng.random() < 0.4:
            t = reqs[0][1]
            ids = list(dict.fromkeys(i for i, _ in reqs))
            arg = dict(cutoff_time=SS.tpy(sc, t), instance_ids=rng.choice([ids, ids, shuffled_index(rng, id_series(sc, ids)), None]))
        else:
            arg = dict(cutoff_time=df)
        if "approximate" in kw and "instance_ids" in arg:
            del kw["approximate"]
        kw.update(arg)
        before = freeze(kw)
        ulist = list(use)
        err, fm = shield(ft.calculate_feature_matrix, use, es, **kw)
        if freeze(kw) != before:
            why.append("arguments changed")
        if [id(x) for x in ulist] != [id(x) for x in use]:
            why.append("feature list changed")
        if defs_text(objs) != names0:
            why.append("feature definitions changed")
        if any(not es[k].df.equals(v) or list(es[k].df.dtypes) != list(v.dtypes) for k, v in raw.items()):
            why.append("stored frames changed")
        ev = SS.look_event(sc, es, snap, "; ".join(why) or "after calculation")
        ev["same"] = ev["same"] and not why
        lines.append(ev)
        if not fail:
            # the same calculation later gives what it must
            lines.append(SS.calc_event(rng, sc, es, feats, reqs, incl, win))
    return lines


def defs_text(objs):
    return [(f.unique_name(), f.get_name(), repr(f), [b.unique_name() for b in f.base_features], str(f.get_arguments())) for f in objs]


def freeze(kw):
    """comparable copy of everything a caller passed"""
    out = {}
    for k, v in kw.items():
        if isinstance(v, pd.DataFrame):
            out[k] = ("frame", list(v.columns), [str(t) for t in v.dtypes], v.index.tolist(), [[str(x) for x in v[c]] for c in v.columns])
        elif isinstance(v, dict):
            out[k] = ("dict", sorted((a, id(b) if a == "cluster" else repr(b)) for a, b in v.items()))
        elif isinstance(v, list):
            out[k] = ("list", list(v))
        else:
            out[k] = repr(v)
    return out
