"""Sessions on distributed frames (traces for spec/FTSession.tla)."""
import dask
import dask.dataframe as dd
import featuretools as ft
from featuretools import variable_types as vt
from featuretools.utils.gen_utils import Library
from .core import shield
from .values import enc
from . import scen as SC
from . import sessions as SS

AGGS = {"COUNT", "SUM", "MEAN", "MIN", "MAX", "STD", "NUM_TRUE", "NUM_UNIQUE", "PERCENT_TRUE", "ANY", "ALL"}
TRANS = {n for n, c in SC.PRIMS.items() if Library.DASK in c.compatibility and n not in AGGS}


def build(rng, sc):
    """the generated entity set on distributed frames of random partitioning"""
    es = ft.EntitySet("es")
    for e in sc.ents:
        tix = [c["name"] for c in e["cols"] if c["type"] == "tix"]
        types = SC.types_of(e)
        for c in e["cols"]:
            if c["type"] == "id":
                types[c["name"]] = vt.Index
            elif c["type"] == "tix":
                types[c["name"]] = vt.NumericTimeIndex if e["numeric"] else vt.DatetimeTimeIndex
            elif c["type"] == "sectime":
                types[c["name"]] = vt.Numeric if e["numeric"] else vt.Datetime
        df = dd.from_pandas(SC.frame_of(e), npartitions=rng.randint(1, 4), sort=rng.random() < .5)
        es.entity_from_dataframe(e["name"], df, index=e["cols"][0]["name"], time_index=tix[0] if tix else None,
                                 secondary_time_index={s["t"]: list(s["cs"]) for s in e["sec"]} or None, variable_types=types)
    for r in sc.rels:
        es.add_relationship(ft.Relationship(es[sc.ents[r["p"]]["name"]][sc.ents[r["p"]]["cols"][0]["name"]],
                                            es[sc.ents[r["c"]]["name"]][r["col"]]))
    return es


def collect(fm, reqs, names, sq, iname, extra):
    """the rows of a collected matrix in the order of the request (distributed frames have no order)"""
    got = fm.compute()
    key = "tag" if extra else iname
    order = list(range(len(reqs))) if extra else [r[0] for r in reqs]
    rank = {v: k for k, v in enumerate(order)}
    pos = sorted(range(len(got)), key=lambda k: rank.get(got[key].tolist()[k], len(order)))
    got = got.iloc[pos]
    cols = [c for c in got.columns if c not in (iname, "tag")]
    arr = [[enc(v, square=sq[j] if j < len(sq) else False) for v in got[c].tolist()] for j, c in enumerate(cols)]
    return dict(obs=[list(r) for r in zip(*arr)] if arr else [[] for _ in reqs], ids=[enc(v) for v in got[iname].tolist()],
                cols=[str(c) for c in cols], passobs=[[], []])


def calc(rng, sc, es, feats, reqs, incl):
    objs, want, names, sq = SS.expand_want(sc, feats, rng)
    kw = dict(include_cutoff_time=incl)
    iname = sc.ents[sc.target - 1]["cols"][0]["name"]
    extra = False
    seen = [r for r in reqs if visible(sc, r[0], r[1], incl)]
    if len({t for _, t in reqs}) == 1 and rng.random() < .5:
        kw["cutoff_time"] = SS.tpy(sc, reqs[0][1])
        kw["instance_ids"] = [i for i, _ in reqs]
    else:
        extra = len({i for i, _ in reqs}) < len(reqs) or rng.random() < .3
        if extra:
            reqs = seen
        df, _, _ = SS.cutoff_frame(rng, sc, reqs, dict(tag=list(range(len(reqs)))) if extra else None, plain=True)
        kw["cutoff_time"] = df
    if rng.random() < .3:
        kw["chunk_size"] = rng.choice([1, 2, 100])
    err, fm = shield(ft.calculate_feature_matrix, objs, es, **kw)
    ev = dict(ev="Calc", err=err, reqs=[dict(id=enc(i), t=SS.tval(sc, t)) for i, t in reqs], tgt=sc.target, want=want, incl=incl,
              win=-1, appr=0, names=names, all=0, times=[], dist=1)
    ev["pass"] = [[], []]
    ev.update(obs=[], ids=[], cols=[], passobs=[[], []])
    if err == "":
        e2, got = shield(collect, fm, reqs, names, sq, iname, extra)
        if e2:
            ev["err"] = "unreadable result: " + e2
        else:
            ev.update(got)
    return ev


def visible(sc, i, t, incl):
    """is the instance in the target's data at the time?"""
    e = sc.ents[sc.target - 1]
    tix = [c for c in e["cols"] if c["type"] == "tix"]
    ids = e["cols"][0]["vals"]
    if i not in ids:
        return False
    if not tix:
        return True
    v = tix[0]["vals"][ids.index(i)]
    return v is not None and (v <= t if incl else v < t)


def session_dask(seed, part):
    pf = dict(part.get("pf", {}))
    pf.setdefault("aggs", AGGS)
    pf.setdefault("trans", TRANS)
    pf["w"] = pf.get("w") or dict(dir=2, agg=4, tra=3, grp=0)
    pf["p_whole"] = 0
    pf["no_prev"] = True                 # documented: no look-backs
    sc = SC.gen_scenario(seed, pf)
    rng = sc.rng
    dask.config.set(scheduler="synchronous")
    es = SC.build_es(sc.ents, sc.rels)
    dk = build(rng, sc)
    feats = SC.build_features(dk, sc)
    if SS.collide(sc, feats):
        return None
    ents = [SC.project_entity(es, e) for e in sc.ents]
    lines = [SS.load_event(sc, ents)]
    for _ in range(part.get("calcs", 1)):
        incl = rng.random() < sc.pf["incl"]
        times = [SS.cut_time(rng, sc) for _ in range(rng.choice([1, 1, 2]))]
        reqs = SS.make_reqs(rng, sc, times=times)
        if not any(visible(sc, i, t, incl) for i, t in reqs):
            continue
        lines.append(calc(rng, sc, dk, feats, reqs, incl))
    return lines
