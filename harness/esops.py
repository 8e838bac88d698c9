"""Recorded sessions of operations on entity sets (traces for
spec/FTEntitiesTrace.tla)."""
import copy
import os
import random
import shutil
import tempfile
import numpy as np
import pandas as pd
import featuretools as ft
from featuretools import variable_types as vt
from .core import shield
from .values import ts, enc, WORDS, ODD
from .scen import STEP

COLORS = ["blue", "green", "red", "white"]


# ---- projection of a set to the specification's view ----

def kind(dtype):
    if str(dtype) == "category":
        return "cat"
    return {"i": "int", "u": "int", "f": "float", "b": "bool", "M": "time", "O": "obj"}.get(dtype.kind, "?" + str(dtype))


def project(es):
    ents = []
    for e in es.entities:
        df = e.df
        cols = []
        for v in e.variables:
            c = df[v.id]
            cols.append(dict(n=v.id, t=v.type_string, k=kind(c.dtype), v=[enc(x) for x in c.tolist()],
                             iv=[enc(x) for x in v.interesting_values.tolist()]))
        lti = e.last_time_index
        m = [] if lti is None else [[enc(i), enc(t)] for i, t in zip(lti.index.tolist(), lti.tolist())]
        ents.append(dict(id=e.id, cols=cols, index=e.index, tix=e.time_index or "",
                         sec=[dict(t=t, cs=list(cs)) for t, cs in e.secondary_time_index.items()],
                         lti=dict(has=int(lti is not None), m=m), fr=[str(c) for c in df.columns], lab=[enc(x) for x in df.index.tolist()]))
    rels = [dict(pe=r.parent_entity.id, pv=r.parent_variable.id, ce=r.child_entity.id, cv=r.child_variable.id) for r in es.relationships]
    tt = {None: "", vt.NumericTimeIndex: "num", vt.DatetimeTimeIndex: "time"}.get(es.time_type, "?")
    return dict(ents=ents, rels=rels, tt=tt)


class Session:
    def __init__(self, rng):
        self.rng, self.sets, self.lines, self.stale = rng, [], [], []

    def line(self, op, i, args, err, **kw):
        e2, obs = shield(lambda: [project(es) for es in self.sets])
        if e2:
            err, obs = "unreadable set: " + e2, []
        d = dict(ev=op, op=op, set=i + 1, args=args, err=err, obs=obs, last=0)
        d.update(kw)
        self.lines.append(d)
        return err == ""

    def new(self):
        self.sets.append(ft.EntitySet("es%d" % len(self.sets)))
        self.stale.append(False)
        self.line("New", len(self.sets) - 1, {}, "")
        return len(self.sets) - 1

    def end(self):
        if self.lines:
            self.lines[-1]["last"] = 1
        return self.lines


# ---- columns ----

def series(k, vals):
    if k == "time":
        return pd.Series([pd.NaT if x is None else x if isinstance(x, pd.Timestamp) else ts(x) for x in vals], dtype="datetime64[ns]")
    if k == "int":
        return pd.Series(vals, dtype="int64")
    if k == "float":
        return pd.Series([np.nan if x is None else x for x in vals], dtype="float64")
    if k == "bool":
        return pd.Series(vals, dtype=bool)
    if k == "cat":
        return pd.Series(pd.Categorical(vals, categories=sorted({x for x in vals if x is not None})))
    return pd.Series([np.nan if x is None else x for x in vals], dtype=object)


def aval(k, x):
    if x is None:
        return [0, 0, 1]
    return [4, x, 1] if k == "time" and not isinstance(x, pd.Timestamp) else enc(x)


def frame(cols):
    return pd.DataFrame({c["n"]: series(c["k"], c["vals"]) for c in cols}, columns=[c["n"] for c in cols])


def acols(cols):
    return [dict(n=c["n"], t=c.get("t", ""), k=c["k"], v=[aval(c["k"], x) for x in c["vals"]], iv=[]) for c in cols]


def times(rng, n, numeric, nat=0.15, steps=6):
    out = []
    for _ in range(n):
        t = rng.randint(0, steps) * (1 if numeric else STEP)
        out.append(None if not numeric and rng.random() < nat else t)
    return out


def values(rng, k, n, pool=None):
    if k == "int":
        return [rng.randint(0, 6) for _ in range(n)]
    if k == "float":
        return [None if rng.random() < 0.2 else rng.choice([rng.randint(-3, 9), rng.randint(0, 8) / 4]) for _ in range(n)]
    if k == "bool":
        return [rng.random() < 0.5 for _ in range(n)]
    if k == "time":
        return times(rng, n, False)
    return [None if rng.random() < 0.15 else rng.choice(pool or COLORS) for _ in range(n)]


GIVEN = {"int": ["numeric", "ordinal", "categorical", "zip_code"], "float": ["numeric"], "bool": ["boolean"], "time": ["datetime", "date_of_birth"],
         "obj": ["categorical", "natural_language", "country_code", "sub_region_code", "email_address"], "cat": ["categorical"]}


class EntGen:
    """columns of a new entity of a set"""

    def __init__(self, rng, es, name, numeric, rows=(0, 7), p_time=0.7):
        self.rng = rng
        n = self.n = 0 if rng.random() < 0.06 else rng.randint(max(rows[0], 1), rows[1])
        self.isstr = rng.random() < 0.4
        pool = list(range(14))
        rng.shuffle(pool)
        ids = pool[:n]
        if self.isstr:
            ids = ["%s%d" % (name[0], i) for i in ids]
        self.index = "id" if rng.random() < 0.5 else name + "_id"
        cols = [dict(n=self.index, k="obj" if self.isstr else "int", vals=ids)]
        self.tix = ""
        if rng.random() < p_time:
            self.tix = "t" if rng.random() < 0.7 else "when"
            cols.append(dict(n=self.tix, k="int" if numeric and rng.random() < 0.8 else "float" if numeric else "time",
                             vals=times(rng, n, numeric)))
        # link columns to entities that exist
        j = 0
        for e in es.entities:
            if rng.random() < 0.5:
                for _ in range(rng.choice([1, 1, 2])):
                    pk = kind(e.df[e.index].dtype)
                    have = e.df[e.index].tolist()
                    if pk not in ("int", "obj"):
                        continue
                    if have:
                        vals = [rng.choice(have) for _ in range(n)]
                    else:
                        vals = [3] * n if pk == "int" else ["zz"] * n
                    if pk == "obj":
                        vals = [None if rng.random() < 0.15 else v for v in vals]
                    cols.append(dict(n="f%d" % j, k=pk, vals=vals, t=rng.choice(["", "id", "categorical"]) if pk == "obj" else rng.choice(["id", "numeric"])))
                    j += 1
        for j in range(rng.randint(1, 3)):
            k = rng.choice(["int", "float", "float", "bool", "obj", "obj", "cat", "time"])
            cols.append(dict(n="v%d" % j, k=k, vals=values(rng, k, n), t=rng.choice(GIVEN[k]) if rng.random() < 0.4 else ""))
        self.sec = {}
        if self.tix and rng.random() < 0.35:
            k = next(c["k"] for c in cols if c["n"] == self.tix)
            vals = times(rng, n, numeric)
            cols.append(dict(n="s", k=k, vals=vals))
            free = [c["n"] for c in cols if c["n"].startswith("v")]
            rng.shuffle(free)
            self.sec = {"s": sorted(free[:rng.randint(0, 2)])}
        rest = cols[1:]
        if rng.random() < 0.6:
            rng.shuffle(rest)
        self.cols = [cols[0]] + rest
        if rng.random() < 0.3:
            rng.shuffle(self.cols)


def add_args(rng, es, name, numeric, bad=0.15, sorted_ok=0.2, make=0.15, **kw):
    g = EntGen(rng, es, name, numeric, **kw)
    a = dict(id=name, index=g.index, make=0, tix=g.tix, sec=[dict(t=t, cs=c) for t, c in g.sec.items()], sorted=0)
    cols = g.cols
    if rng.random() < make:
        cols = [c for c in cols if c["n"] != g.index]
        a["make"] = 1 if rng.random() < 0.7 else 0
    elif g.tix and rng.random() < sorted_ok:
        # in order of time, ties in any order
        tv = next(c["vals"] for c in cols if c["n"] == g.tix)
        perm = sorted(range(g.n), key=lambda r: (tv[r] is None, tv[r] or 0))
        for c in cols:
            c["vals"] = [c["vals"][r] for r in perm]
        a["sorted"] = 1
    if rng.random() < bad:
        what = rng.randrange(7)
        ix = [c for c in cols if c["n"] == g.index]
        if what == 0 and ix and g.n > 1:
            ix[0]["vals"][0] = ix[0]["vals"][-1]
        elif what == 1:
            a["tix"] = "nowhere"
        elif what == 2:
            a["tix"] = g.index
        elif what == 3 and g.n and any(c["k"] in ("bool", "obj") and c["n"] != g.index for c in cols):
            a["tix"] = rng.choice([c["n"] for c in cols if c["k"] in ("bool", "obj") and c["n"] != g.index])
            a["sorted"] = 0
        elif what == 4:
            # times of the other kind
            if a["tix"] and not a["sec"]:
                c = next(c for c in cols if c["n"] == a["tix"])
                c["k"] = "time" if numeric else "int"
                c["vals"] = times(rng, g.n, not numeric)
                c.pop("t", None)
                a["sorted"] = 0
        elif what == 5 and ix:
            a["make"] = 1
        elif what == 6 and g.n:
            a["sec"] = [dict(t=rng.choice([c["n"] for c in cols]), cs=[])]
    for c in cols:
        if c["n"] in (a["index"], a["tix"]) or c["n"] in [s["t"] for s in a["sec"]]:
            c.pop("t", None)
    a["cols"] = acols(cols)
    return a, cols


def do_add(S, i, a, cols):
    es = S.sets[i]
    types = {c["n"]: c["t"] for c in cols if c.get("t")}
    rng = S.rng
    if rng.random() < 0.5:
        cls = vt.find_variable_types()
        types = {k: cls.get(v, v) for k, v in types.items()}
    err, _ = shield(es.entity_from_dataframe, a["id"], frame(cols), index=a["index"], make_index=bool(a["make"]),
                    time_index=a["tix"] or None, secondary_time_index={s["t"]: list(s["cs"]) for s in a["sec"]} or None,
                    already_sorted=bool(a["sorted"]), variable_types=types or None)
    if any(e.last_time_index is not None for e in es.entities):
        S.stale[i] = True
    return S.line("Add", i, a, err)


def names(es):
    return [e.id for e in es.entities]


def colnames(e):
    return [v.id for v in e.variables]


def cyclic(es, pe, ce):
    """would pe -> ce close a cycle"""
    up, todo = set(), [pe]
    while todo:
        x = todo.pop()
        if x in up:
            continue
        up.add(x)
        todo += [r.parent_entity.id for r in es.relationships if r.child_entity.id == x]
    return ce in up


def do_relate(S, i, r):
    es = S.sets[i]
    err, _ = shield(lambda: es.add_relationship(ft.Relationship(es[r["pe"]][r["pv"]], es[r["ce"]][r["cv"]])))
    if err == "" and any(e.last_time_index is not None for e in es.entities):
        S.stale[i] = True
    return S.line("Relate", i, r, err)


def op_relate(S, i, bad=0.25):
    rng, es = S.rng, S.sets[i]
    ns = names(es)
    if not ns:
        return
    if rng.random() < bad:
        pe, ce = rng.choice(ns), rng.choice(ns)
        r = dict(pe=pe, pv=rng.choice(colnames(es[pe]) + ["nowhere"]), ce=ce, cv=rng.choice(colnames(es[ce])))
        # (a column without any value takes the type of each parent it is related to)
        if not cyclic(es, pe, ce) and not (es[ce].df.empty and any((x.child_entity.id, x.child_variable.id) == (ce, r["cv"]) for x in es.relationships)):
            do_relate(S, i, r)
        return
    cand = []
    for p in es.entities:
        for c in es.entities:
            if p.id == c.id or cyclic(es, p.id, c.id):
                continue
            for v in c.variables:
                if v.id.startswith("f") and not v.id.startswith("first_") and c.index != v.id and v.id != c.time_index:
                    vals = [x for x in c.df[v.id].dropna().tolist()]
                    if vals and set(vals) <= set(p.df[p.index].tolist()) or rng.random() < 0.05:
                        cand.append(dict(pe=p.id, pv=p.index, ce=c.id, cv=v.id))
    have = [(r.child_entity.id, r.child_variable.id) for r in es.relationships]
    fresh = [r for r in cand if (r["ce"], r["cv"]) not in have]
    if rng.random() < 0.9 and fresh:
        do_relate(S, i, rng.choice(fresh))
    elif cand:
        r = rng.choice(cand)
        if not (es[r["ce"]].df.empty and (r["ce"], r["cv"]) in have):
            do_relate(S, i, r)


def op_normalize(S, i, bad=0.2, name=None):
    rng, es = S.rng, S.sets[i]
    if not names(es):
        return
    b = es[rng.choice(names(es))]
    cs = colnames(b)
    linkc = [r.child_variable.id for r in es.relationships if r.child_entity.id == b.id]
    linkp = [r.parent_variable.id for r in es.relationships if r.parent_entity.id == b.id]
    cand = [c for c in cs if c not in (b.index, b.time_index)]
    if not cand:
        return
    # mostly columns with repeated values, and not an existing link or time
    good = [c for c in cand if kind(b.df[c].dtype) in ("obj", "int", "bool", "cat") and c not in linkc]
    index = rng.choice(good or cand) if rng.random() > bad / 2 else rng.choice(cs)
    if kind(b.df[index].dtype) in ("float", "time") and rng.random() < 0.8:
        return
    free = [c for c in cs if c not in (index, b.index, b.time_index) and c not in linkc]
    # a second time moves with what depends on it
    rng.shuffle(free)
    add = free[:rng.choice([0, 1, 1, 2])]
    copy_ = free[len(add):][:rng.choice([0, 0, 1, 2])]
    a = dict(base=b.id, id=name or "n%d" % len(names(es)), index=index, mti="", mcol="", ntix="", sect="", secc=[], nsec="")
    r = rng.random()
    if r < 0.25:
        a["mti"] = "no"
    elif r < 0.4:
        a["mti"] = "yes"
    elif r < 0.6:
        tcols = [c for c in cs if c != index and (kind(b.df[c].dtype) == "time" or (es.time_type is vt.NumericTimeIndex and kind(b.df[c].dtype) in ("int", "float")))
                 and c not in linkc and c != b.index]
        if tcols:
            a["mti"], a["mcol"] = "col", rng.choice(tcols)
            add = [c for c in add if c != a["mcol"]]
            copy_ = [c for c in copy_ if c != a["mcol"]] + [a["mcol"]] if rng.random() < 0.9 else copy_
    if b.time_index and b.time_index not in (index, a["mcol"]) and rng.random() < (.5 if a["mti"] in ("no", "col") else .05):
        copy_ = copy_ + [b.time_index]
    if rng.random() < 0.35:
        a["ntix"] = rng.choice(["began", "t", index])
    if rng.random() < 0.3:
        tcols = [c for c in cs if c != index and kind(b.df[c].dtype) == "time" or c == b.time_index]
        if tcols:
            a["sect"] = rng.choice(tcols)
            oth = [c for c in cs if c not in (index, a["sect"], b.index) and c not in add + copy_]
            rng.shuffle(oth)
            a["secc"] = oth[:rng.randint(0, 2)]
            if rng.random() < 0.2:
                a["secc"].append(a["sect"])
            if rng.random() < 0.6:
                a["nsec"] = "ended"
            if a["sect"] != b.time_index and a["sect"] not in linkc + [index, a["mcol"]] + add + copy_ and rng.random() < 0.4:
                # the second time also moves
                add, a["nsec"] = add + [a["sect"]], "ended"
    if rng.random() < bad:
        what = rng.randrange(8)
        if what == 0:
            add = add + [b.index]
        elif what == 1 and b.time_index:
            add = add + [b.time_index]
        elif what == 2 and linkc:
            add = add + [linkc[0]]
        elif what == 3:
            copy_ = copy_ + [index]
        elif what == 4 and add:
            add = add + add[:1]
        elif what == 5:
            a["id"] = b.id
        elif what == 6:
            a["mti"], a["mcol"] = "col", rng.choice(cs)
        elif what == 7:
            copy_ = copy_ + ["nowhere"]
    a["add"], a["cop"] = add, copy_
    kw = {}
    if a["mti"]:
        kw["make_time_index"] = {"no": False, "yes": True, "col": a["mcol"]}[a["mti"]]
    if add or rng.random() < 0.5:
        kw["additional_variables"] = list(add)
    if copy_ or rng.random() < 0.5:
        kw["copy_variables"] = list(copy_)
    if a["ntix"]:
        kw["new_entity_time_index"] = a["ntix"]
    if a["sect"]:
        kw["make_secondary_time_index"] = {a["sect"]: list(a["secc"])}
        if a["nsec"]:
            kw["new_entity_secondary_time_index"] = a["nsec"]
    keep = copy.deepcopy(kw)
    err, _ = shield(es.normalize_entity, b.id, a["id"], index, **kw)
    if kw != keep:
        err = err or "the caller's arguments were changed"
    if any(e.last_time_index is not None for e in es.entities):
        S.stale[i] = True
    return S.line("Normalize", i, a, err)


def new_rows(rng, e, keep=0.7, fresh=2, change=0.3):
    """data for an entity: some of its rows, changed, and new ones"""
    df = e.df
    rows = [r for r in range(len(df)) if rng.random() < keep]
    rng.shuffle(rows)
    cols = []
    isstr = kind(df[e.index].dtype) == "obj"
    have = set(df[e.index].tolist())
    pool = [x for x in ([w for w in WORDS if len(w) in (2, 3) and w[1:].isdigit() and w[0] == "h"] if isstr else list(range(14, 30))) if x not in have]
    extra = rng.randint(0, fresh) if kind(df[e.index].dtype) in ("obj", "int") else 0
    for v in e.variables:
        k = kind(df[v.id].dtype)
        base = df[v.id].tolist()
        src = []
        for r in rows:
            x = base[r]
            src.append(x)
        if v.id == e.index:
            src += pool[:extra]
        else:
            for _ in range(extra):
                src.append(rng.choice(base) if base else None)
            if base and not v.type_string == "id" and rng.random() < change and src:
                src[rng.randrange(len(src))] = rng.choice(base)
        cols.append((v.id, src, df[v.id].dtype))
    out = {}
    for n, src, dt in cols:
        if None in src and str(dt) in ("int64", "bool"):
            return None
        out[n] = pd.Series(src, dtype=dt)
    res = pd.DataFrame(out, columns=[c[0] for c in cols])
    order = list(res.columns)
    if rng.random() < 0.5:
        rng.shuffle(order)
    res = res[order]
    if rng.random() < 0.4 and len(res):
        res.index = [3 * x + 1 for x in range(len(res))][::-1]
    return res


def fcols(df):
    return [dict(n=str(c), t="", k=kind(df[c].dtype), v=[enc(x) for x in df[c].tolist()], iv=[]) for c in df.columns]


def op_update(S, i, bad=0.2):
    rng, es = S.rng, S.sets[i]
    if not names(es):
        return
    e = es[rng.choice(names(es))]
    df = new_rows(rng, e)
    if df is None:
        return
    srt = 0
    if rng.random() < bad:
        what = rng.randrange(5)
        links = [r.child_variable.id for r in es.relationships if r.child_entity.id == e.id]
        if what == 0:
            df = df[[c for c in df.columns if c != rng.choice(list(df.columns))]]
        elif what == 1:
            df = df.assign(extra=1)
        elif what == 2 and len(df) > 1:
            df = df.copy()
            vals = df[e.index].tolist()
            vals[0] = vals[1]
            df[e.index] = vals
        elif what == 3 and len(df) and e.time_index and e.time_index not in links:
            df = df.copy()
            df[e.time_index] = pd.Series([ts(0)] * len(df), index=df.index, dtype="datetime64[ns]") if es.time_type is vt.NumericTimeIndex else \
                pd.Series([1] * len(df), index=df.index, dtype="int64")
        elif what == 4:
            df = df.rename(columns={rng.choice(list(df.columns)): "renamed"})
    elif e.time_index and rng.random() < 0.2:
        df = df.sort_values(e.time_index, kind="mergesort")
        srt = 1
    recalc = 0 if (S.stale[i] or rng.random() < 0.25) else 1
    a = dict(id=e.id, cols=fcols(df), sorted=srt, recalc=recalc)
    kw = {}
    if srt or rng.random() < 0.3:
        kw["already_sorted"] = bool(srt)
    if not recalc or rng.random() < 0.3:
        kw["recalculate_last_time_indexes"] = bool(recalc)
    keep = df.copy()
    err, _ = shield(e.update_data, df, **kw)
    if not df.equals(keep) or list(df.columns) != list(keep.columns):
        err = err or "the caller's data was changed"
    if not recalc and e.last_time_index is not None:
        S.stale[i] = True
    return S.line("Update", i, a, err)


def op_settime(S, i):
    rng, es = S.rng, S.sets[i]
    if not names(es):
        return
    e = es[rng.choice(names(es))]
    links = [r.child_variable.id for r in es.relationships if r.child_entity.id == e.id]
    cand = [c for c in colnames(e) if c != e.index and c not in links]
    times_ = [c for c in cand if kind(e.df[c].dtype) == "time"]
    if times_ and rng.random() < 0.7:
        cand = times_
    if rng.random() < 0.08:
        cand = [e.index]
    if not cand:
        return
    a = dict(id=e.id, col=rng.choice(cand), sorted=0)
    if len(e.df) == 0 or e.df[a["col"]].isnull().all() and kind(e.df[a["col"]].dtype) in ("obj", "cat"):
        return
    err, _ = shield(e.set_time_index, a["col"])
    if any(x.last_time_index is not None for x in es.entities):
        S.stale[i] = True
    return S.line("SetTime", i, a, err)


def op_lti(S, i, full=None):
    rng, es = S.rng, S.sets[i]
    ns = names(es)
    if not ns:
        return
    sub = [] if full or S.stale[i] or rng.random() < 0.5 else rng.sample(ns, rng.randint(1, len(ns)))
    keep = list(sub)
    err, _ = shield(es.add_last_time_indexes, sub if sub or rng.random() < 0.5 else None)
    if sub != keep:
        err = err or "the caller's list was changed"
    if not sub:
        S.stale[i] = False
    return S.line("LastTimes", i, dict(ids=keep), err)


def op_interesting(S, i):
    rng, es = S.rng, S.sets[i]
    m = rng.choice([0, 1, 2, 3, 5, 5, 40])
    err, _ = shield(es.add_interesting_values, max_values=m) if m != 5 or rng.random() < 0.5 else shield(es.add_interesting_values)
    return S.line("Interesting", i, dict(max=m), err)


def op_copy(S, i):
    err, es = shield(copy.deepcopy, S.sets[i])
    if err == "":
        S.sets.append(es)
        S.stale.append(S.stale[i])
    S.line("Copy", i, {}, err)
    return len(S.sets) - 1 if err == "" else None


def op_concat(S, x, y):
    rng = S.rng
    if S.stale[x] or S.stale[y]:
        return
    inplace = rng.random() < 0.4
    err, es = shield(S.sets[x].concat, S.sets[y], inplace=inplace) if inplace or rng.random() < 0.5 else shield(S.sets[x].concat, S.sets[y])
    if err == "" and not inplace:
        S.sets.append(es)
        S.stale.append(False)
    if err == "" and inplace and es is not S.sets[x]:
        err = "in place, but another set was returned"
    return S.line("Concat", x, dict(other=y + 1, inplace=int(inplace)), err)


# ---- sessions ----

def build(S, n=(1, 4), numeric=None, bad=0.1, make=0.1, link=0.9, **kw):
    """a set with several linked entities"""
    rng = S.rng
    i = S.new()
    numeric = rng.random() < 0.2 if numeric is None else numeric
    for j in range(rng.randint(*n)):
        a, cols = add_args(rng, S.sets[i], "abcdefgh"[j] + "e", numeric, bad=bad, make=make, **kw)
        do_add(S, i, a, cols)
        for _ in range(3):
            if rng.random() < link:
                op_relate(S, i, bad=bad)
    return i


def session_ops(seed, part):
    rng = random.Random(seed)
    S = Session(rng)
    numeric = rng.random() < 0.2
    i = build(S, (1, 3), numeric=numeric)
    for step in range(rng.randint(3, 8)):
        i = rng.randrange(len(S.sets))
        r = rng.random()
        if r < 0.2:
            name = "%sx%d" % ("efg"[step % 3], step)
            a, cols = add_args(rng, S.sets[i], name, numeric, bad=0.4)
            do_add(S, i, a, cols)
        elif r < 0.38:
            op_relate(S, i)
        elif r < 0.58:
            op_normalize(S, i, bad=0.35)
        elif r < 0.73:
            op_update(S, i, bad=0.35)
        elif r < 0.81:
            op_settime(S, i)
        elif r < 0.87:
            op_lti(S, i)
        elif r < 0.91:
            op_interesting(S, i)
        elif r < 0.95 and len(S.sets) < 3:
            op_copy(S, i)
        elif len(S.sets) > 1:
            op_concat(S, i, rng.randrange(len(S.sets)))
    return S.end()


def session_normalize(seed, part):
    rng = random.Random(seed)
    S = Session(rng)
    i = build(S, (1, 2), bad=0.0, make=0.05, rows=(2, 9))
    for _ in range(rng.randint(1, 4)):
        op_normalize(S, i, bad=0.08)
    return S.end()


def session_lti(seed, part):
    rng = random.Random(seed)
    S = Session(rng)
    i = build(S, (2, 5), bad=0.0, make=0.05, p_time=rng.choice([0.4, 0.8]), link=1.0)
    if rng.random() < 0.4:
        op_normalize(S, i, bad=0)
    op_lti(S, i)
    for _ in range(rng.randint(1, 3)):
        r = rng.random()
        if r < 0.4:
            op_update(S, i, bad=0)
        op_lti(S, i)
    return S.end()


def session_combine(seed, part):
    rng = random.Random(seed)
    S = Session(rng)
    i = build(S, (1, 3), bad=0.0, make=0.0, rows=(1, 8))
    if rng.random() < 0.4:
        op_lti(S, i, full=True)
    j = op_copy(S, i)
    for _ in range(rng.randint(1, 4)):
        op_update(S, rng.choice([i, j]), bad=0.2)
    if rng.random() < 0.15:
        op_settime(S, j)
    if rng.random() < 0.3:
        op_lti(S, rng.choice([i, j]))
    op_concat(S, *rng.choice([(i, j), (j, i)]))
    if rng.random() < 0.5:
        op_update(S, rng.randrange(len(S.sets)), bad=0.1)
        op_concat(S, rng.randrange(len(S.sets)), rng.randrange(len(S.sets)))
    return S.end()


def session_interesting(seed, part):
    rng = random.Random(seed)
    S = Session(rng)
    if rng.random() < 0.5:
        i = build(S, (1, 3), bad=0.0, rows=(1, 9))
    else:
        i = S.new()
        n = rng.randint(26, 60)
        words = [w for w in WORDS if w[1:].isdigit()]
        few = rng.sample(words, rng.randint(1, 4))
        p = rng.choice([0.0, 0.5, 0.95, 0.98])
        cols = [dict(n="id", k="int", vals=list(range(n)))]
        for j in range(2):
            k = rng.choice(["obj", "cat", "int"])
            w = few if k != "int" else list(range(3))
            many = words if k != "int" else list(range(60))
            cols.append(dict(n="v%d" % j, k=k, vals=[rng.choice(w) if rng.random() < p else rng.choice(many) for _ in range(n)],
                             t="categorical" if k != "int" else rng.choice(["categorical", "ordinal", "id"])))
        do_add(S, i, dict(id="ae", index="id", make=0, tix="", sec=[], sorted=0, cols=acols(cols)), cols)
    for _ in range(rng.randint(1, 3)):
        op_interesting(S, i)
        if rng.random() < 0.3:
            op_relate(S, i)
            op_normalize(S, i, bad=0)
    return S.end()


# ---- writing and reading back ----

def exact(x):
    """type and value of a cell as far as the abstract values leave them out"""
    return type(x).__name__ if isinstance(x, (str, bool, tuple)) else repr(x)


def describe(es):
    """properties of the variables beyond what the specification models"""
    out = [es.id]
    for e in sorted(es.entities, key=lambda e: e.id):
        for v in e.variables:
            d = v.to_data_description()
            d["properties"].pop("interesting_values")
            out.append(repr((e.id, type(v).__name__, sorted(d["type"].items(), key=str), sorted(d["properties"].items(), key=str), str(e.df[v.id].dtype),
                             ["missing" if x is None or x is pd.NaT or x is pd.NA or x != x else exact(x) for x in e.df[v.id].tolist()], [type(x).__name__ for x in v.interesting_values.tolist()])))
    return out


def write_read(rng, es, fmt=None):
    """(error, read set, error of a second write of the same place)"""
    d = tempfile.mkdtemp(prefix="ft_es_")
    try:
        path = os.path.join(d, "saved")
        fmt = fmt or rng.choice(["csv", "csv", "pickle", "parquet"])
        # the installed fastparquet cannot read a categorical column without any category
        if fmt == "parquet" and any(len(e.df[c].cat.categories) == 0 for e in es.entities for c in e.df.select_dtypes("category")):
            fmt = "pickle"
        kw = {}
        if fmt == "csv":
            if rng.random() < 0.5:
                kw["engine"] = rng.choice(["c", "python"])
            if rng.random() < 0.3:
                kw["compression"] = rng.choice(["gzip", "bz2", "infer"])
            if rng.random() < 0.4:
                kw["encoding"] = rng.choice(["utf-8", "latin-1"])
            if rng.random() < 0.3:
                kw["sep"] = rng.choice([";", "\t", "|"])
            write = es.to_csv
        elif fmt == "parquet":
            if rng.random() < 0.4:
                kw["compression"] = rng.choice(["gzip", None])
            write = es.to_parquet
        else:
            if rng.random() < 0.4:
                kw["compression"] = rng.choice(["gzip", "bz2", "zip", "xz"])
            write = es.to_pickle

        def go():
            write(path, **kw)
            if rng.random() < 0.3:
                import tarfile
                tar = os.path.join(d, "saved.tar")
                with tarfile.open(tar, "w") as t:
                    t.add(os.path.join(path, "data_description.json"), arcname="/data_description.json")
                    t.add(os.path.join(path, "data"), arcname="/data")
                return ft.read_entityset(tar)
            return ft.read_entityset(path)
        return (fmt, kw) + shield(go)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def op_save(S, i, fmt=None):
    es = S.sets[i]
    before = describe(es)
    fmt, kw, err, got = write_read(S.rng, es, fmt)
    after = before
    if err == "":
        S.sets.append(got)
        S.stale.append(False)
        e2, after = shield(describe, got)
        err = err or e2
    S.line("Save", i, dict(order=sorted(names(es)), how=[fmt, repr(kw)], before=before, after=after or []), err)
    return err == ""


EXTREME = dict(
    float=[0.1, 1234567.25, 1e-7, 3.25e10, 123456.789, -0.5, 1e300],
    int=[10**12 + 1, -5, 2**31, -2**40, 0],
    time=[pd.Timestamp(x) for x in ("2020-01-01 00:00:00.5", "2019-12-31 23:59:59.999999", "1969-07-20 20:17:40", "2020-01-01 00:00:00.000000001", "2200-02-28", "2020-01-03")])


def odd_column(rng, n, fmt):
    pool = [w for w in ODD + ["", " lead", "two words", "a,b", 'q"uote', "na"] if not (fmt == "csv" and w == "")]
    k = rng.choice(["obj", "obj", "obj", "cat", "cat", "float", "int", "time"])
    if k in EXTREME:
        some = rng.sample(EXTREME[k], rng.randint(1, 4))
        return k, [None if k != "int" and rng.random() < 0.15 else rng.choice(some) for _ in range(n)]
    some = rng.sample(pool, rng.randint(1, 4))
    return k, [None if rng.random() < 0.15 else rng.choice(some) for _ in range(n)]


def session_save(seed, part):
    rng = random.Random(seed)
    S = Session(rng)
    fmt = rng.choice(["csv", "csv", "pickle", "parquet"])
    i = S.new()
    numeric = rng.random() < 0.2
    for j in range(rng.randint(1, 4)):
        a, cols = add_args(rng, S.sets[i], "abcdefgh"[j] + rng.choice(["e", "e", " e", "é", "-1"]), numeric, bad=0.0, make=0.1)
        n = len(cols[0]["vals"])
        if rng.random() < 0.7:
            k, vals = odd_column(rng, n, fmt)
            cols.append(dict(n=rng.choice(["odd", "odd name", "a,b", 'q"', "ü", "1"]), k=k, vals=vals, t=rng.choice(["categorical", "zip_code", "natural_language", "discrete"]) if k == "obj" else rng.choice(["numeric", ""]) if k in ("float", "int") else ""))
            a["cols"] = acols(cols)
        do_add(S, i, a, cols)
        for _ in range(2):
            op_relate(S, i, bad=0)
    extreme = any(x.microsecond or x.nanosecond or abs(x.year - 2020) > 50 for e in S.sets[i].entities for c in e.df.select_dtypes("datetime") for x in e.df[c].dropna())
    if rng.random() < 0.3 and not extreme:
        op_normalize(S, i, bad=0)
    if rng.random() < 0.4:
        op_interesting(S, i)
    if rng.random() < 0.4:
        op_lti(S, i, full=True)
    if rng.random() < 0.3:
        shield(lambda: [setattr(v, "description", "a text, with \"quotes\"") for e in S.sets[i].entities for v in e.variables if rng.random() < 0.3])
    if op_save(S, i, fmt) and rng.random() < 0.3:
        op_save(S, len(S.sets) - 1, fmt)
    return S.end()


# ---- paths ----

def session_paths(seed, part):
    rng = random.Random(seed)
    S = Session(rng)
    i = S.new()
    es = S.sets[i]
    n = rng.randint(2, 6)
    acyclic = rng.random() < 0.7
    ids = "abcdef"[:n]
    edges = []
    for _ in range(rng.randint(1, 8)):
        p, c = rng.randrange(n), rng.randrange(n)
        if acyclic:
            if p == c:
                continue
            p, c = min(p, c), max(p, c)
        elif p == c and rng.random() < 0.7:
            continue
        edges.append((p, c))
    rows = {}
    for j in range(n):
        cols = [dict(n="id", k="int", vals=[1, 2])]
        for x, (p, c) in enumerate(edges):
            if c == j:
                cols.append(dict(n="f%d" % x, k="int", vals=[1, 2], t="id"))
        cols.append(dict(n="v", k="int", vals=[0, 0]))
        do_add(S, i, dict(id=ids[j] + "e", index="id", make=0, tix="", sec=[], sorted=0, cols=acols(cols)), cols)
    order = list(enumerate(edges))
    rng.shuffle(order)
    for x, (p, c) in order:
        do_relate(S, i, dict(pe=ids[p] + "e", pv="id", ce=ids[c] + "e", cv="f%d" % x))
    rels = es.relationships

    def ix(r):
        return [k for k, q in enumerate(rels) if q == r][0] + 1

    def rp(path):
        return [ix(r) for _, r in path]
    pairs = [(a, b) for a in range(n) for b in range(n)]
    rng.shuffle(pairs)
    for a, b in pairs[:part.get("pairs", 8)]:
        f, t = ids[a] + "e", ids[b] + "e"
        args = dict(to=t, fwd=[], bwd=[], up=[], down=[], up1=[], down1=[], uniq=2, deep=int(acyclic))
        args["from"] = f

        def ask():
            args["fwd"] = [[ix(r) for r in p] for p in es.find_forward_paths(f, t)]
            args["bwd"] = [[ix(r) for r in p] for p in es.find_backward_paths(f, t)]
            args["up1"] = [[e, rp(p)] for e, p in es.get_forward_entities(f)]
            args["down1"] = [[e, rp(p)] for e, p in es.get_backward_entities(f)]
            if acyclic:
                args["up"] = [[e, rp(p)] for e, p in es.get_forward_entities(f, deep=True)]
                args["down"] = [[e, rp(p)] for e, p in es.get_backward_entities(f, deep=True)]
        err, _ = shield(ask)
        e2, u = shield(es.has_unique_forward_path, f, t)
        args["uniq"] = 2 if e2 else int(bool(u))
        if err:
            args["uniq"] = 9
        S.line("Paths", i, args, err)
    return S.end()


# ---- feature matrices of sets that were combined, replaced or read back (traces for spec/FTSession.tla) ----

def in_order(ents):
    """generated entities with their rows in the order a combined set has"""
    out = []
    for e in ents:
        tix = [c for c in e["cols"] if c["type"] == "tix"]
        ids = e["cols"][0]["vals"]
        tv = tix[0]["vals"] if tix else [0] * e["n"]
        order = sorted(range(e["n"]), key=lambda r: (tv[r] is None, tv[r] or 0, ids[r]))
        out.append(dict(e, cols=[dict(c, vals=[c["vals"][r] for r in order]) for c in e["cols"]]))
    return out


def some_rows(e, rows):
    return dict(e, n=len(rows), cols=[dict(c, vals=[c["vals"][r] for r in rows]) for c in e["cols"]])


def session_combined_calc(seed, part):
    from . import scen as SC, sessions as SS
    sc = SC.gen_scenario(seed, dict(part.get("pf", {})))
    rng = sc.rng
    sc.ents = in_order(sc.ents)
    how = rng.choice(["concat", "concat", "update"])
    if how == "concat":
        a, b = [], []
        for e in sc.ents:
            side = [rng.choice("abc") for _ in range(e["n"])]
            a.append(some_rows(e, [r for r in range(e["n"]) if side[r] != "b"]))
            b.append(some_rows(e, [r for r in range(e["n"]) if side[r] != "a"]))
        x, y = SC.build_es(a, sc.rels), SC.build_es(b, sc.rels)
        es = x.concat(y, inplace=rng.random() < 0.5)
    else:
        # first other data, then the right one in any order
        a = [some_rows(e, [r for r in range(e["n"]) if rng.random() < 0.6] or [0]) for e in sc.ents]
        es = SC.build_es(a, sc.rels)
        if rng.random() < 0.3:
            es.add_last_time_indexes()
        for e in sc.ents:
            df = SC.frame_of(e)
            if any(c["type"] == "tix" for c in e["cols"]):
                df = df.sample(frac=1, random_state=rng.randrange(2**31))
            if rng.random() < 0.5:
                df = df[list(df.columns)[::-1]]
            es[e["name"]].update_data(df)
    # a set combined of parts may have last times: the windows of this part do not depend on them
    for ent in es.entities:
        ent.last_time_index = None
    feats = SC.build_features(es, sc)
    if SS.collide(sc, feats):
        return None
    lines = [SS.load_event(sc, [SC.abstract_entity(e) for e in sc.ents])]
    snap = SS.snapshot(es, sc)
    for _ in range(2):
        lines.append(SS.calc_event(rng, sc, es, feats, SS.make_reqs(rng, sc), rng.random() < 0.6, plain=rng.random() < 0.5))
    lines.append(SS.look_event(sc, es, snap, how))
    return lines


def session_read_calc(seed, part):
    from . import scen as SC, sessions as SS
    sc = SC.gen_scenario(seed, dict(part.get("pf", {})))
    rng = sc.rng
    fmt = rng.choice(["csv", "csv", "pickle", "parquet"])
    # csv cannot tell an empty string from a missing one, and does not keep the categories
    # of categorical keys (known finding C16-1)
    for e in sc.ents:
        for c in e["cols"]:
            if fmt == "csv" and type(c.get("kind")) is list:
                c["kind"] = ""
            if c["type"] == "text":
                c["vals"] = ["zz" if v == "" else v for v in c["vals"]]
    src = SC.build_es(sc.ents, sc.rels)
    if rng.random() < 0.4 and not sc.numeric:
        src.add_last_time_indexes()
    fmt, kw, err, es = write_read(rng, src, fmt)
    if err:
        return [dict(ev="Reject", err="", what="%s %s: %s" % (fmt, kw, err))]
    ents = [SC.project_entity(src, e) for e in sc.ents]
    feats = SC.build_features(es, sc)
    if SS.collide(sc, feats):
        return None
    lines = [SS.load_event(sc, ents), SS.look_event(sc, es, SS.snapshot(src, sc), "read back from %s %s" % (fmt, kw))]
    for _ in range(2):
        win = None
        if rng.random() < 0.3 and not sc.numeric:
            win = rng.randint(1, 5) * STEP
        lines.append(SS.calc_event(rng, sc, es, feats, SS.make_reqs(rng, sc), rng.random() < 0.6, win))
    lines.append(SS.look_event(sc, src, SS.snapshot(src, sc), "the set that was written"))
    return lines
