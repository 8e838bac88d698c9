"""Sessions with time spans and generated cutoff tables (spec/FTTimesTrace.tla)."""
import random
import numpy as np
import pandas as pd
import featuretools as ft
from featuretools.entityset.timedelta import Timedelta
from featuretools.utils.wrangle import _check_timedelta
from .core import shield
from .values import enc, EPOCH

LONG = dict(ms="milliseconds", s="seconds", h="hours", m="minutes", d="days", o="observations", w="weeks", Y="years", mo="months")
SPAN = dict(ms=99999, s=99999, h=9999, m=9999, d=999, o=20, w=99, Y=20, mo=40)


def spelling(rng, u):
    w = LONG[u]
    r = rng.random()
    if r < 0.3:
        return u
    if r < 0.65:
        w = w[:-1]
    c = rng.random()
    return w if c < 0.6 else w.capitalize() if c < 0.9 else w.upper()


def value(rng, u, neg=False, frac=True):
    v = rng.choice([1, 1, 2, rng.randint(0, 5), rng.randint(0, SPAN[u])])
    if neg and frac and u != "o" and rng.random() < (0.25 if u not in ("Y", "mo") else 0.05):
        v = round(v + rng.choice([0.5, 0.25, 0.125, 0.1, 0.001, 0.999, rng.randint(0, 999) / 1000]), 3)
    return -v if neg and rng.random() < 0.2 else v


def split(v):
    """whole and thousandths"""
    m = round(float(v) * 1000)
    if abs(m - float(v) * 1000) > 1e-4:
        return -987654321, 0
    return m // 1000, m % 1000


def instant(t):
    t = pd.Timestamp(t).round("us")
    d = t.normalize()
    return [int((d - pd.Timestamp("1970-01-01")).days), int((t - d).seconds), int((t - d).microseconds)]


def got_parts(td):
    out = []
    for u, v in td.times.items():
        w, q = split(v)
        out.append(dict(u=u, v=w, q=q))
    return out


def words(td):
    w = td.get_name().split(" ")
    out = []
    for x in w:
        try:
            f = float(x)
            out.append(str(int(f)) if f == int(f) else repr(round(f, 3)) if abs(f - round(f, 3)) < 1e-7 else x)
        except ValueError:
            out.append(x)
    return out


def parts_of(d):
    return [dict(u=list(u), v=split(v)[0], q=split(v)[1]) for u, v in d]


def make(rng, spans):
    """one way of making a span: (how, event, thunk)"""
    r = rng.random()
    base = dict(ev="Make", text=[], parts=[], src=0)
    if r < 0.3:
        u = rng.choice(list(LONG))
        text = "%d%s%s" % (value(rng, u), rng.choice(["", " ", " ", "  "]), spelling(rng, u))
        if rng.random() < 0.25:
            text = rng.choice(["-%s" % text, text + " ", "1.%s" % text, text + "1", "x" + text, "", "5", "days", "3 fortnights", "2 dys", "4 min",
                               "%d secs" % rng.randint(1, 9), "1 day 2 hours", "3 day s", "7 ss", "1 hr"])
        via = rng.choice([Timedelta, _check_timedelta])
        return dict(base, how="text", text=list(text)), lambda: via(text)
    if r < 0.5:
        u = rng.choice(list(LONG))
        sp, v = spelling(rng, u), value(rng, u, True)
        if rng.random() < 0.12:
            sp = rng.choice(["fortnights", "dy", "xx", "q", "sec", "mon"])
        return dict(base, how="units", parts=parts_of([(sp, v)])), lambda: Timedelta(v, sp)
    if r < 0.75:
        us = rng.sample([u for u in LONG if u != "o"], rng.randint(1, 4))
        d = {spelling(rng, u): value(rng, u, True) for u in us}
        if rng.random() < 0.08:
            d = rng.choice([{}, {"foo": 1}, dict(d, bars=2)])
        if rng.random() < 0.3 and len(d):
            ser = dict(unit=list(d), value=[d[k] for k in d])
            if len(d) == 1 and rng.random() < 0.6:
                ser = dict(unit=list(d)[0], value=list(d.values())[0])
            return dict(base, how="units", parts=parts_of(d.items())), lambda: Timedelta.from_dictionary(ser)
        return dict(base, how="units", parts=parts_of(d.items())), lambda: Timedelta(dict(d))
    if r < 0.8:
        v = round(rng.choice([rng.randint(0, 10**6), rng.randint(-5, 5)]) + rng.choice([0, 0, 0.5, 0.001, rng.randint(0, 999) / 1000]), 3)
        if rng.random() < 0.25:
            u, c = rng.choice([("d", pd.offsets.Day), ("h", pd.offsets.Hour), ("m", pd.offsets.Minute), ("s", pd.offsets.Second), ("w", pd.offsets.Week)])
            v = rng.choice([1, -1, rng.randint(-40, 400)])
            return dict(base, how="units", parts=parts_of([(u, v)])), lambda: _check_timedelta(c(v))
        return dict(base, how="seconds", parts=parts_of([("s", v)])), lambda: _check_timedelta(pd.Timedelta(v, "s"))
    if r < 0.85:
        us = rng.sample(["Y", "mo", "d", "h", "m", "s", "w"], rng.randint(1, 3))
        d = {LONG[u]: value(rng, u, True, u not in ("Y", "mo")) for u in us}
        return dict(base, how="units", parts=parts_of(d.items())), lambda: _check_timedelta(pd.DateOffset(**d))
    if not spans:
        return make(rng, spans)
    i = rng.randrange(len(spans))
    if r < 0.93:
        return dict(base, how="neg", src=i + 1), lambda: -spans[i]
    return dict(base, how="serial", src=i + 1), lambda: Timedelta.from_dictionary(spans[i].get_arguments())


def session_spans(seed, part):
    rng = random.Random(seed)
    spans, lines = [], []
    for _ in range(part.get("steps", 24)):
        r = rng.random()
        if r < 0.45 or not spans:
            ev, f = make(rng, spans)
            err, td = shield(f)
            ev.update(err=err, got=[], words=[])
            if err == "":
                spans.append(td)
                ev.update(got=got_parts(td), words=words(td))
            lines.append(ev)
        elif r < 0.85:
            i = rng.randrange(len(spans))
            t = pd.Timestamp(rng.choice(["2020-01-31", "2020-02-29", "2019-12-31", "2021-03-30", "2020-03-01", "2019-01-01", "2000-02-29"])) + \
                pd.Timedelta(rng.choice([0, 0, rng.randint(-40, 400)]), "d") + pd.Timedelta(rng.choice([0, 0, rng.randint(0, 86399)]), "s") + \
                pd.Timedelta(rng.choice([0, 0, 5000, 999999]), "us")
            sign = rng.choice([1, -1])
            err, x = shield(lambda: (t + spans[i]) if sign == 1 else (t - spans[i]))
            lines.append(dict(ev="Move", src=i + 1, t=instant(t), sign=sign, err=err, res=instant(x) if err == "" else []))
        else:
            i, j = rng.randrange(len(spans)), rng.randrange(len(spans))
            if rng.random() < 0.5:
                # the same units in another order or a part changed
                p = list(spans[i].times.items())
                rng.shuffle(p)
                if rng.random() < 0.5:
                    k = rng.randrange(len(p))
                    p[k] = (p[k][0], p[k][1] + 1)
                err, td = shield(lambda: Timedelta(dict(p)))
                if err:
                    continue
                spans.append(td)
                lines.append(dict(ev="Make", how="units", parts=parts_of(p), text=[], src=0, err="", got=got_parts(td), words=words(td)))
                j = len(spans) - 1
            lines.append(dict(ev="Eq", a=i + 1, b=j + 1, same=int(spans[i] == spans[j])))
    for k, x in enumerate(lines):
        x["last"] = int(k == len(lines) - 1)
    return lines


def session_cutoffs(seed, part):
    rng = random.Random(seed)
    lines = []
    for _ in range(part.get("steps", 6)):
        n_ids = rng.randint(1, 5)
        if rng.random() < 0.5:
            ids = [rng.randint(0, 6) for _ in range(n_ids)]
        else:
            ids = ["a%d" % rng.randint(0, 9) for _ in range(n_ids)]
        n = rng.choice([1, 2, 3, 4, 7])
        unit = rng.choice([1, 60, 3600, 86400, 7 * 86400, 90061])
        size = rng.randint(1, 4) * unit
        cut = [rng.randint(0, 400) * 43200 + rng.choice([0, 0, 17]) for _ in ids]
        mode = rng.choice(["n+size", "n+size", "size+start", "size+start", "n+start", "n+start", "all", "n", "size", "start", "none", "short"])
        a = dict(n=-1, size=-1, hasstart=0, start=[])
        if mode in ("n+size", "n+start", "all", "n", "short"):
            a["n"] = n
        if mode in ("n+size", "size+start", "all", "size", "short"):
            a["size"] = size
        if mode in ("size+start", "all", "start"):
            a["hasstart"], a["start"] = 1, [c - rng.randint(0, 6) * size - rng.choice([0, 0, 1, unit // 2]) + (size if rng.random() < 0.05 else 0) for c in cut]
        if mode == "n+start":
            a["hasstart"], a["start"] = 1, [c - rng.randint(1, 5) * max(n - 1, 1) * unit for c in cut]
        kcut = list(cut)
        if mode == "short" and n_ids > 1:
            kcut = kcut[:-1]
        kids = list(ids)
        form = rng.choice([list, np.array, pd.Series])
        times = [EPOCH + pd.Timedelta(c, "s") for c in kcut]
        if rng.random() < 0.3:
            times = [x.to_pydatetime() for x in times]
        kw = {}
        if a["n"] >= 0:
            kw["num_windows"] = a["n"]
        if a["size"] >= 0:
            kw["window_size"] = pd.Timedelta(a["size"], "s")
        if a["hasstart"]:
            kw["start"] = [EPOCH + pd.Timedelta(c, "s") for c in a["start"]]
        err, df = shield(ft.make_temporal_cutoffs, form(kids), rng.choice([list, pd.Series])(times), **kw)
        rows = []
        if err == "":
            if set(df.columns) != {"time", "instance_id"} or list(df.index) != list(range(len(df))):
                err = "unexpected layout"
            else:
                rows = [[enc(i), int(t[1]) if t[0] == 4 else t] for i, t in zip(df["instance_id"], [enc(x) for x in df["time"]])]
        lines.append(dict(ev="Table", ids=[enc(i) for i in ids], cut=kcut, err=err, rows=rows, **a))
    for k, x in enumerate(lines):
        x["last"] = int(k == len(lines) - 1)
    return lines
