"""Sessions of requests stated in every accepted and refused way (spec/FTRequest.tla), and of synthesised features."""
import datetime
import random
import numpy as np
import pandas as pd
import featuretools as ft
from .core import shield
from .values import enc, ts
from . import scen as SC
from . import sessions as SS
from .scen import STEP

# what synthesis may use here: primitives whose meaning the specification gives exactly for the columns of a scenario
S_AGG = ["count", "sum", "mean", "max", "min", "mode", "num_unique", "n_most_common", "percent_true", "num_true", "last", "first", "any", "all"]
S_TRA = ["month", "weekday", "is_null", "absolute", "add_numeric", "negate", "num_characters", "not", "cum_sum", "diff", "cum_count"]


def other_names(rng, sc):
    """sometimes the target's own columns have the generic names"""
    e = sc.ents[sc.target - 1]
    if rng.random() < .15:
        e["cols"][0]["name"] = "instance_id"
    tix = [c for c in e["cols"] if c["type"] == "tix"]
    if tix and rng.random() < .2:
        tix[0]["name"] = "time"
    elif tix and rng.random() < .1:
        tix[0]["name"] = "instance_id2"


def frames(sc):
    ents = {}
    for e in sc.ents:
        tix = [c["name"] for c in e["cols"] if c["type"] == "tix"]
        ents[e["name"]] = (SC.frame_of(e), e["cols"][0]["name"], tix[0] if tix else None, SC.types_of(e))
    rels = [(sc.ents[r["p"]]["name"], sc.ents[r["p"]]["cols"][0]["name"], sc.ents[r["c"]]["name"], r["col"]) for r in sc.rels]
    return ents, rels


def synthesis_options(rng, sc, part):
    aggs, tras = rng.sample(S_AGG, rng.randint(1, 3)), rng.sample(S_TRA, rng.randint(0, 2))
    o = dict(target_entity=sc.ents[sc.target - 1]["name"], agg_primitives=aggs, trans_primitives=tras, max_depth=rng.choice([1, 2, 2, 3]))
    if rng.random() < part.get("p_where", .3):
        o["where_primitives"] = rng.sample(aggs, rng.randint(1, len(aggs)))
    if rng.random() < .3:
        o["groupby_trans_primitives"] = rng.sample(["cum_sum", "cum_count", "diff", "cum_max"], 1)
    if rng.random() < .25:
        o["max_features"] = rng.randint(1, 12)
    return o


def synthesised(rng, sc, es, part):
    """feature definitions from synthesis, in place of the generated ones; None when there are too many or none"""
    for e in sc.ents:
        for c in e["cols"]:
            if c["type"] in ("cat", "num") and rng.random() < part.get("p_iv", .4):
                vals = [v for v in c["vals"] if v is not None]
                if c["type"] == "num" and c.get("float"):
                    continue
                if vals:
                    es[e["name"]][c["name"]].interesting_values = list(dict.fromkeys(rng.sample(vals, min(len(vals), 2))))
    opts = synthesis_options(rng, sc, part)
    err, feats = shield(ft.dfs, entityset=es, features_only=True, **opts)
    if err or not feats or len(feats) > 60:
        return None
    names = [n for f in feats for n in f.get_feature_names()]
    if len(set(names)) != len(names):
        return None
    err, got = shield(SC.nodes_of, feats, sc)
    if err:
        raise RuntimeError("cannot express " + err)
    if len(got[0]) > 90:
        return None
    return opts, feats, got, names


def setup(seed, part):
    rng = random.Random(seed)
    sc = SC.gen_scenario(seed, dict(part.get("pf", {}), p_sec=0 if rng.random() < .7 else .5))
    rng = sc.rng
    other_names(rng, sc)
    es = SC.build_es(sc.ents, sc.rels)
    opts = None
    if rng.random() < part.get("p_dfs", .4):
        got = synthesised(rng, sc, es, part)
        if got is None:
            return None
        opts, feats, (sc.nodes, sc.types, want), names = got
        objs = feats
        sq = [False] * len(want)
        sc.want = sorted({w[0] for w in want})
    else:
        feats = SC.build_features(es, sc)
        if SS.collide(sc, feats):
            return None
        objs, want, names, sq = SS.expand_want(sc, feats, rng)
    ents = [SC.project_entity(es, e) for e in sc.ents]
    return rng, sc, es, opts, objs, want, names, sq, ents


NOWDEP = {"TIME_SINCE", "AGE", "TIME_SINCE_LAST", "TIME_SINCE_FIRST"}


def window_arg(rng, secs):
    r = rng.random()
    if r < .3:
        return pd.Timedelta(seconds=secs)
    if r < .5:
        return pd.DateOffset(seconds=secs)
    return SS.win_arg(rng, secs)


def ask(rng, sc, es, opts, objs, want, names, sq, bad):
    """one request in one form, as an Ask line"""
    ent = sc.ents[sc.target - 1]
    isstr = ent["cols"][0]["str"]
    ix = ent["cols"][0]["name"]
    tix = [c["name"] for c in ent["cols"] if c["type"] == "tix"]
    tx = tix[0] if tix else ""
    own = "number" if sc.numeric else "time"
    timed = any(c["type"] == "tix" for e in sc.ents for c in e["cols"])
    nowdep = any(nd["p"] in NOWDEP or nd["u"]["t"] == "time" for nd in sc.nodes)
    f = dict(src="set", feats="list", cut="table", kind=own, own=own if timed else "any", t=[0, 0, 1], ix=ix, tx=tx, names=[], data=[], hasids=0, ids=[],
             chunk=["none", 0], win=["none", 0])
    wrong = rng.choice(["cut", "cut", "cut", "names", "names", "names", "names", "repeat", "repeat", "kind", "kind", "feats", "src", "chunk",
                        "win"]) if bad else ""
    kw = {}
    # --- where the data is
    r = rng.random()
    sec = any(e["sec"] for e in sc.ents)
    if wrong == "src":
        f["src"] = "nothing"
    elif r < .3 and not sec:
        f["src"] = "frames"
        kw["entities"], kw["relationships"] = frames(sc)
    else:
        kw["entityset"] = es
    # --- cutoff and instances
    cut = rng.choice(["table", "table", "single", "single", "omitted"])
    win = rng.randint(1, 5) * STEP + rng.choice([0, 0, 1, -1]) if rng.random() < .25 and not sc.numeric else None
    if cut == "omitted" and (nowdep or not timed or (win is not None)):
        cut = "single"
    if wrong == "cut":
        cut = "list"
    elif wrong in ("names", "repeat") and cut == "omitted":
        cut = "table"
    elif wrong == "names":
        cut = "table"
    elif wrong == "kind":
        cut = rng.choice(["single", "table"])
        if not timed:
            wrong, cut = "cut", "list"
    f["cut"] = cut
    kind = own
    if wrong == "kind":
        kind = rng.choice([k for k in ("number", "time", "text") if k != own])
        f["kind"] = kind
    reqs = SS.make_reqs(rng, sc)
    passed = None

    def tvalue(t):
        """the same moment in one of the types a caller may use"""
        if kind == "text":
            return str(ts(t))
        if kind == "number":
            t = int(t)
            return rng.choice([t, float(t), np.int64(t), np.float64(t)])
        x = ts(t)
        return rng.choice([x, x.to_pydatetime(), np.datetime64(x)])
    if cut == "table":
        if wrong == "repeat":
            reqs = reqs + [rng.choice(reqs)]
            rng.shuffle(reqs)
        iname = rng.choice(["instance_id", ix])
        tname = rng.choice(["time", tx or "time"])
        ids = [i for i, _ in reqs]
        tv = [t for _, t in reqs]
        icol = pd.Series(ids, dtype=object if isstr else "int64")
        if kind == "time":
            tcol = pd.Series([ts(t) for t in tv], dtype="datetime64[ns]")
        elif kind == "number":
            tcol = pd.Series(tv, dtype=rng.choice(["int64", "float64"]))
        else:
            tcol = pd.Series([str(ts(t)) for t in tv], dtype=object)
        tenc = [[2, 0, 1] if kind == "text" else [1, int(t), 1] if kind == "number" else [4, t, 1] for t in tv]
        cols = [(iname, icol, [enc(i) for i in ids]), (tname, tcol, tenc)]
        for j in range(rng.choice([0, 0, 1, 2])):
            v = [rng.choice(["x", "y", 3, 4]) for _ in reqs] if rng.random() < .5 else [rng.randint(0, 9) for _ in reqs]
            cols.append(("p%d" % j, pd.Series(v, dtype=object if any(isinstance(x, str) for x in v) else None), [enc(x) for x in v]))
        if wrong == "names":
            k = rng.random()
            if k < .25:
                cols = [c for c in cols if c[0] != iname]
            elif k < .5:
                cols = [c for c in cols if c[0] != tname]
            elif k < .75 and ix != "instance_id":
                cols = [c for c in cols if c[0] != iname] + [("instance_id", icol, cols[0][2]), (ix, icol, cols[0][2])]
            elif tx and tx != "time":
                cols = [c for c in cols if c[0] != tname] + [("time", tcol, tenc), (tx, tcol, tenc)]
            else:
                cols = [c for c in cols if c[0] != tname] + [("when", tcol, tenc)]
        rng.shuffle(cols)
        df = pd.DataFrame({n: c for n, c, _ in cols}, columns=[n for n, _, _ in cols])
        if rng.random() < .5:
            perm = list(range(len(df)))
            rng.shuffle(perm)
            df.index = rng.choice([perm, [p * 7 + 3 for p in perm], ["r%d" % p for p in perm], [0] * len(df)])
        kw["cutoff_time"] = df
        f.update(names=[n for n, _, _ in cols], data=[d for _, _, d in cols])
        passed = [n for n, _, _ in cols if n not in (iname, tname)]
        if rng.random() < .1:
            kw["instance_ids"] = [ids[0]]                    # only used beside a single cutoff
    else:
        t = reqs[0][1]
        ids = list(dict.fromkeys(i for i, _ in reqs))
        if cut == "single":
            kw["cutoff_time"] = tvalue(t)
            f["t"] = [2, 0, 1] if kind == "text" else [1, int(t), 1] if kind == "number" else [4, t, 1]
        elif cut == "list":
            kw["cutoff_time"] = [tvalue(t) for _ in ids]
        hasids = rng.random() < .6 or wrong == "repeat"
        if hasids:
            if wrong == "repeat":
                ids = ids + [rng.choice(ids)]
                rng.shuffle(ids)
            s = pd.Series(ids, dtype=object if isstr else "int64")
            kw["instance_ids"] = rng.choice([ids, tuple(ids), s, s.set_axis([i * 2 + 1 for i in range(len(s))]), s.values])
            f.update(hasids=1, ids=[enc(i) for i in ids])
    # --- the rest
    if win is not None and wrong != "win":
        kw["training_window"] = window_arg(rng, win)
        f["win"] = ["span", win]
    if wrong == "win":
        k = rng.random()
        f["win"] = ["rows", 3] if k < .5 else ["bad", 0]
        kw["training_window"] = rng.choice([ft.Timedelta(3, "observations"), "3 observations", "3 o"]) if k < .5 else \
            rng.choice(["5 fortnights", "days", "", [1, "d"], {"d": 1}, "3"])
        win = None
    if rng.random() < .35 or wrong == "chunk":
        n = len(reqs)
        if wrong == "chunk":
            c = rng.choice([0, -1, -3, -.5, 0.0])
        else:
            c = rng.choice([1, 2, n, n + 5, .5, .01, .99, 1.0])
        kw["chunk_size"] = c
        f["chunk"] = ["part" if isinstance(c, float) else "count", int(c * 1000)]
    incl = rng.random() < .6
    if not incl or rng.random() < .3:
        kw["include_cutoff_time"] = incl
    tindex = rng.random() < .5 and cut != "omitted"
    if tindex or rng.random() < .3:
        kw["cutoff_time_in_index"] = tindex
    via = "synthesis" if opts is not None and rng.random() < .4 and wrong not in ("feats",) else "calculate"
    if wrong == "feats":
        k = rng.choice(["empty", "other", "other", "other", "other"])
        f["feats"] = k
        fl = [] if k == "empty" else rng.choice([objs[0], tuple(objs), objs + ["x"], [None], "x", None, {0: objs[0]}, objs + [es]])
    else:
        fl = objs
    if via == "synthesis":
        o = dict(opts)
        if f["src"] == "frames":
            via = "calculate"                                # the frames' entities have no interesting values
    if via == "synthesis":
        err, r = shield(lambda: ft.dfs(**dict(opts, **kw)))
        fm = r[0] if err == "" else None
    else:
        err, fm = shield(lambda: ft.calculate_feature_matrix(fl, **kw))
    ev = dict(ev="Ask", form=f, err=err, tgt=sc.target, want=want, incl=incl, win=win if win is not None else -1, appr=0, names=names, via=via)
    ev.update(dict(obs=[], ids=[], times=[], cols=[], passobs=[[], []]))
    if err == "":
        e2, got = shield(SS.observe, fm, len(names), sq, tindex, len(fm.columns) - len(names))
        ev.update(dict(err="unreadable result: " + e2) if e2 else got)
    return ev


def session_forms(seed, part):
    got = setup(seed, part)
    if got is None:
        return None
    rng, sc, es, opts, objs, want, names, sq, ents = got
    lines = [SS.load_event(sc, ents)]
    snap = SS.snapshot(es, sc)
    for _ in range(part.get("calcs", 5)):
        lines.append(ask(rng, sc, es, opts, objs, want, names, sq, rng.random() < part.get("p_bad", .4)))
    lines.append(SS.look_event(sc, es, snap, "after requests"))
    return lines
