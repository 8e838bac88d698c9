"""Recorded sessions with one entity set (traces for spec/FTSession.tla)."""
import random
import numpy as np
import pandas as pd
import featuretools as ft
from .core import shield
from .values import ts, enc, EPOCH
from . import scen as SC
from .scen import DAY, STEP

NOW = None


def expand_want(sc, feats, rng):
    """requested feature objects and the [node, output] pair of each column"""
    objs, want, names, sq = [], [], [], []
    cuts = sc.__dict__.setdefault("cuts", {})
    for i in sc.want:
        f = feats[i - 1]
        o = sc.nodes[i - 1]["o"]
        ks = list(range(o))
        # single columns of it, in any order (the same ones throughout a session)
        if o > 1 and i not in cuts:
            cuts[i] = rng.sample(ks, rng.randint(1, o)) if rng.random() < sc.pf.get("p_slice", 0.35) else None
        if o > 1 and cuts[i]:
            ks = cuts[i]
            objs += [f[k] for k in ks]
        else:
            objs.append(f)
        for k in ks:
            want.append([i, k + 1])
            sq.append(sc.types[i - 1] == "sq")
        names += [f.get_feature_names()[k] for k in ks]
    return objs, want, names, sq


def collide(sc, feats):
    """two calculated columns of one entity share a name (known finding C18-1)"""
    seen = set()
    for nd, f in zip(sc.nodes, feats):
        for n in f.get_feature_names():
            if (nd["e"], n) in seen:
                return True
            seen.add((nd["e"], n))
    return False


def cut_time(rng, sc):
    """a cutoff (abstract): near the data's times, often exactly on one"""
    if sc.numeric:
        return sc.ents[0]["off"] + rng.randint(0, sc.pf["steps"] + 1)
    t = rng.randint(0, sc.pf["steps"] + 1) * STEP
    r = rng.random()
    if r < 0.2:
        t += rng.choice([1, -1, 3600, 5])
    return max(t, 0)


def tval(sc, t):
    return [1, t, 1] if sc.numeric else [4, t, 1]


def tpy(sc, t):
    return t if sc.numeric else ts(t)


def make_reqs(rng, sc, n=None, unknown=None, times=None):
    """request list [(python id, abstract time)], no repeated pair"""
    ids = list(sc.ents[sc.target - 1]["cols"][0]["vals"])
    isstr = sc.ents[sc.target - 1]["cols"][0]["str"]
    n = n or rng.randint(*sc.pf["reqs"])
    if times is None:
        times = [cut_time(rng, sc) for _ in range(rng.randint(1, 4))]
    out, seen = [], set()
    for _ in range(n * 3):
        if len(out) >= n:
            break
        i = rng.choice(ids)
        if rng.random() < (sc.pf["p_unknown"] if unknown is None else unknown):
            i = "h13" if isstr else 77
        t = rng.choice(times)
        if (i, t) in seen:
            continue
        seen.add((i, t))
        out.append((i, t))
    return out


def win_arg(rng, secs):
    """several ways of writing one window"""
    forms = [ft.Timedelta(secs, "s")]
    if secs % 3600 == 0:
        forms += ["%d h" % (secs // 3600), ft.Timedelta(secs // 3600, "h")]
    if secs % DAY == 0:
        forms += ["%d days" % (secs // DAY), ft.Timedelta(secs // DAY, "d")]
    elif secs > DAY:
        forms += [ft.Timedelta({"d": secs // DAY, "s": secs % DAY})] * 2
    if secs % (7 * DAY) == 0:
        forms += ["%d weeks" % (secs // (7 * DAY)), ft.Timedelta(secs // (7 * DAY), "w"), ft.Timedelta(secs // (7 * DAY), "Weeks")]
    if secs % 60 == 0:
        forms.append(ft.Timedelta(secs // 60, "m"))
    forms.append("%d seconds" % secs)
    return rng.choice(forms)


def cutoff_frame(rng, sc, reqs, extra=None, plain=False):
    """the request as a DataFrame, in one of the accepted layouts"""
    ent = sc.ents[sc.target - 1]
    isstr = ent["cols"][0]["str"]
    tix = [c["name"] for c in ent["cols"] if c["type"] == "tix"]
    ids = pd.Series([i for i, _ in reqs], dtype=object if isstr else "int64")
    if sc.numeric:
        tv = pd.Series([t for _, t in reqs], dtype="int64")
    else:
        tv = pd.Series([ts(t) for _, t in reqs], dtype="datetime64[ns]")
    iname = "instance_id" if plain or rng.random() < 0.5 else "id"
    tname = "time" if plain or not tix or rng.random() < 0.5 else tix[0]
    cols = [(iname, ids), (tname, tv)]
    if not plain and rng.random() < 0.4:
        cols.reverse()
    for name, vals in (extra or {}).items():
        # wherever extra columns stand
        cols.insert(len(cols) if plain or rng.random() < 0.6 else 0, (name, pd.Series(vals)))
    df = pd.DataFrame(dict(cols), columns=[c for c, _ in cols])
    if not plain and rng.random() < 0.4 and len(df):
        perm = list(range(len(df)))
        rng.shuffle(perm)
        df.index = [p * 3 for p in perm]
    return df, iname, tname


def observe(fm, ncols, sq, tindex, npass=0):
    """encode a returned matrix"""
    labels = list(fm.columns)
    cut = len(labels) - npass
    if tindex:
        ids = [enc(v) for v in fm.index.get_level_values(0)]
        times = [enc(v) for v in fm.index.get_level_values(1)]
    else:
        ids, times = [enc(v) for v in fm.index], []
    arr = [[enc(v, square=(j < len(sq) and sq[j])) for v in fm.iloc[:, j].tolist()] for j in range(cut)]
    obs = [list(r) for r in zip(*arr)] if arr else [[] for _ in range(len(fm))]
    pobs = [[enc(v) for v in fm.iloc[:, j].tolist()] for j in range(cut, len(labels))]
    return dict(obs=obs, ids=ids, times=times, cols=[str(c) for c in labels[:cut]], passobs=[[str(c) for c in labels[cut:]], pobs])


def calc_event(rng, sc, es, feats, reqs, incl=True, win=None, appr=None, single=False, objs=None, want=None, names=None, sq=None,
               extra=False, plain=False, kwargs=None, sortedreq=False):
    """one calculation of the library, as a Calc line"""
    if objs is None:
        objs, want, names, sq = expand_want(sc, feats, rng)
    if sortedreq:
        reqs = sorted(reqs, key=lambda x: x[1])
    kw = dict(kwargs or {})
    kw["include_cutoff_time"] = incl
    tindex = rng.random() < 0.5
    kw["cutoff_time_in_index"] = tindex
    if win is not None:
        kw["training_window"] = win_arg(rng, win)
    if appr is not None:
        kw["approximate"] = win_arg(rng, appr) if not sc.numeric else appr
    passed = [[], []]
    if single:
        t = reqs[0][1]
        reqs = [(i, t) for i in dict.fromkeys(i for i, _ in reqs)]
        kw["cutoff_time"] = tpy(sc, t)
        ids = [i for i, _ in reqs]
        isstr = sc.ents[sc.target - 1]["cols"][0]["str"]
        kw["instance_ids"] = rng.choice([ids, pd.Series(ids, dtype=object if isstr else "int64"), np.array(ids, dtype=object if isstr else "int64")])
        if not isinstance(kw["instance_ids"], (list, pd.Series)):
            kw["instance_ids"] = list(kw["instance_ids"])
    else:
        ex = None
        if extra:
            ex = {"p%d" % j: [rng.randint(0, 9) for _ in reqs] for j in range(rng.randint(1, 2))}
            if rng.random() < 0.5:
                ex["q"] = [rng.choice(["x", "y", "z"]) for _ in reqs]
        df, iname, tname = cutoff_frame(rng, sc, reqs, ex, plain)
        kw["cutoff_time"] = df
        if ex:
            order = [c for c in df.columns if c not in (iname, tname)]
            passed = [order, [[enc(v) for v in ex[c]] for c in order]]
    npass = len(passed[0])
    err, fm = shield(ft.calculate_feature_matrix, objs, es, **kw)
    ev = dict(ev="Calc", err=err, reqs=[dict(id=enc(i), t=tval(sc, t)) for i, t in reqs], tgt=sc.target, want=want, incl=incl,
              win=win if win is not None else -1, appr=appr or 0, names=names, all=0)
    ev["pass"] = passed
    blank = dict(obs=[], ids=[], times=[], cols=[], passobs=[[], []])
    if err == "":
        e2, got = shield(observe, fm, len(names), sq, tindex, npass)
        if e2:
            ev.update(blank)
            ev["err"] = "unreadable result: " + e2
        else:
            ev.update(got)
    else:
        ev.update(blank)
    return ev


def all_visible_event(rng, sc, es, feats, t, incl=True, win=None, omit=False):
    """calculation of all instances visible at a single cutoff (no ids given);
    with omit the cutoff is left out too, which means now"""
    objs, want, names, sq = expand_want(sc, feats, rng)
    kw = dict(include_cutoff_time=incl, cutoff_time_in_index=rng.random() < 0.5)
    if win is not None:
        kw["training_window"] = win_arg(rng, win)
    if omit:
        t = 2000000000
        kw["cutoff_time_in_index"] = False
    else:
        kw["cutoff_time"] = tpy(sc, t)
    err, fm = shield(ft.calculate_feature_matrix, objs, es, **kw)
    ev = dict(ev="Calc", err=err, reqs=[dict(id=[0, 0, 1], t=tval(sc, t))], tgt=sc.target, want=want, incl=incl,
              win=win if win is not None else -1, appr=0, names=names, all=1)
    ev["pass"] = [[], []]
    ev.update(dict(obs=[], ids=[], times=[], cols=[], passobs=[[], []]))
    if err == "":
        e2, got = shield(observe, fm, len(names), sq, kw["cutoff_time_in_index"], 0)
        if e2:
            ev["err"] = "unreadable result: " + e2
        else:
            ev.update(got)
    return ev


def load_event(sc, ents=None, lti=None):
    return dict(ev="Load", S=SC.spec_scenario(sc, ents, lti))


def look_event(sc, es, snap, what):
    """stored data after calculations"""
    err, ents = shield(lambda: [SC.project_entity(es, e) for e in sc.ents])
    same = err == "" and snap is None or snap == snapshot(es, sc)
    return dict(ev="Look", ents=ents or [], same=bool(same), what=what + err)


def snapshot(es, sc):
    """everything stored that the abstract view leaves out"""
    out = []
    for e in sc.ents:
        ent = es[e["name"]]
        out.append((list(ent.df.columns), [str(t) for t in ent.df.dtypes], [enc(v) for v in ent.df.index],
                    [(v.id, type(v).__name__) for v in ent.variables], sorted(ent.secondary_time_index.items()),
                    str(ent.time_index), str(ent.index)))
    return out


def lti_abstract(sc):
    """last times in the specification's terms come from the library's own
    stored ones (their correctness is property C14's business)"""


def session(seed, part):
    """one scenario, several calculations, the stored data looked at again"""
    pf = dict(part.get("pf", {}))
    sc = SC.gen_scenario(seed, pf)
    rng = sc.rng
    es = SC.build_es(sc.ents, sc.rels)
    use_lti = rng.random() < sc.pf["p_lti"] and not sc.numeric
    if use_lti:
        es.add_last_time_indexes()
        SC.shuffle_last_times(rng, sc.pf, es)
    feats = SC.build_features(es, sc)
    if collide(sc, feats):
        return None
    ents = [SC.project_entity(es, e) for e in sc.ents]
    lines = [load_event(sc, ents)]
    snap = snapshot(es, sc)
    for _ in range(part.get("calcs", 2)):
        reqs = make_reqs(rng, sc)
        incl = rng.random() < sc.pf["incl"]
        win = None
        if rng.random() < sc.pf["win"] and not sc.numeric:
            win = rng.randint(1, 5) * STEP + rng.choice([0, 0, 0, 1, -1])
        single = rng.random() < sc.pf["single"]
        lines.append(calc_event(rng, sc, es, feats, reqs, incl, win, single=single, extra=rng.random() < 0.3))
    lines.append(look_event(sc, es, snap, "after calculations"))
    return lines
