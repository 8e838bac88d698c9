"""Recorded runs: progress callbacks, saved progress, failures and crashes (spec/FTRunTrace.tla)."""
import csv
import io
import os
import random
import re
import shutil
import signal
import sys
import tempfile
import time
import numpy as np
import pandas as pd
import featuretools as ft
from featuretools.primitives import TransformPrimitive
from featuretools import variable_types as vt
from .core import shield
from . import scen as SC
from . import sessions as SS
from . import calcs as CA
from .scen import STEP

FUSE = [None]                                    # the identifier whose calculation fails


class ExplodeX(TransformPrimitive):
    name, input_types, return_type = "explode_x", [vt.Variable], vt.Boolean

    def get_function(self):
        def f(col):
            if FUSE[0] is not None and FUSE[0] in list(col):
                raise RuntimeError("blown")
            return pd.Series([True] * len(col), index=col.index)
        return f


# ------------------------------------------------------------- rows as text
STAMP = re.compile(r"\d{4}-\d\d-\d\d")


def norm(t):
    if t in ("", "nan", "NaN", "NaT"):
        return "nan"
    if t in ("True", "False"):
        return "1" if t == "True" else "0"
    try:
        return "%.9g" % float(t)
    except ValueError:
        pass
    if STAMP.match(t):
        try:
            return str(pd.Timestamp(t))
        except ValueError:
            pass
    return t


def rows_of(text):
    r = list(csv.reader(io.StringIO(text)))
    if not r:
        return []
    order = [0] + sorted(range(1, len(r[0])), key=lambda j: r[0][j])
    out = []
    for x in [r[0]] + r[1:]:
        out.append("|".join(norm(x[j]) if j < len(x) else "?" for j in order))
    return out


def matrix_rows(fm):
    """(header, rows) of a matrix, without the cutoff times"""
    if fm.index.nlevels > 1:
        fm = fm.reset_index(level=1, drop=True)
    return rows_of(fm.to_csv())


def folder(path, header):
    """the result files, each as its rows; a wrong header makes a row of its own"""
    out, temp = [], 0
    for root, dirs, files in os.walk(path):
        temp += len(dirs)
        for f in sorted(files):
            if os.path.dirname(os.path.join(root, f)) != path:
                temp += 1
                continue
            with open(os.path.join(root, f), newline="") as h:
                q = rows_of(h.read())
            if not q or q[0] != header:
                out.append(["not a result: " + (q[0] if q else "")])
            else:
                out.append(q[1:])
    return sorted(out), temp


# -------------------------------------------------------------------- crashes
TRACED = ("utils.py", "calculate_feature_matrix.py")
WHERE = os.path.join("featuretools", "computational_backends")


def die_at_line(k):
    left = [k]

    def local(frame, event, arg):
        if event == "line":
            left[0] -= 1
            if left[0] < 0:
                os._exit(9)
        return local

    def trace(frame, event, arg):
        fn = frame.f_code.co_filename
        return local if os.path.basename(fn) in TRACED and WHERE in fn else None
    sys.settrace(trace)


def count_lines(run):
    n = [0]

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
        return local

    def trace(frame, event, arg):
        fn = frame.f_code.co_filename
        return local if os.path.basename(fn) in TRACED and WHERE in fn else None
    old = sys.gettrace()
    sys.settrace(trace)
    try:
        run()
    finally:
        sys.settrace(old)
    return n[0]


def die_at_file(path, k):
    left = [k]

    def hook(event, args):
        if event in ("open", "os.rename", "os.mkdir", "os.rmdir", "os.remove", "shutil.rmtree", "os.truncate") and any(
                isinstance(a, str) and a.startswith(path) for a in args):
            if event == "open" and isinstance(args[1], str) and args[1].startswith("r"):
                return
            left[0] -= 1
            if left[0] < 0:
                os._exit(9)
    sys.addaudithook(hook)


def in_child(arm, run):
    """run in a forked child that ends by force"""
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            fd = os.open("/dev/null", os.O_WRONLY)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            arm()
            run()
        except BaseException:
            os._exit(3)
        os._exit(0)
    end = time.time() + 40
    while time.time() < end:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            return st
        time.sleep(.004)
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    return -1


def limit_files(n):
    import resource
    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))


# ------------------------------------------------------------------- sessions
def session_runs(seed, part):
    pf = dict(part.get("pf", {}))
    pf.setdefault("reqs", (2, 9))
    got = CA.prepare(seed, dict(part, pf=pf))
    if got is None:
        return None
    sc, es, feats, ents = got
    rng = sc.rng
    objs, want, names, sq = SS.expand_want(sc, feats, rng)
    if not objs:
        return None
    target = es[objs[0].entity_id]
    objs = list(objs) + [ft.Feature(target[target.index], primitive=ExplodeX)]
    lines = []
    for _ in range(part.get("configs", 2)):
        lines += config(rng, sc, es, objs, part)
    return lines


def config(rng, sc, es, objs, part):
    FUSE[0] = None
    reqs = SS.make_reqs(rng, sc)
    kw = dict(include_cutoff_time=rng.random() < .6)
    timed = 1
    how = []
    single = rng.random() < .25
    if single:
        ids = list(dict.fromkeys(i for i, _ in reqs))
        kw.update(cutoff_time=SS.tpy(sc, reqs[0][1]), instance_ids=ids)
        how.append("single")
    else:
        df = pd.DataFrame({"instance_id": [i for i, _ in reqs], "time": [SS.tpy(sc, t) for _, t in reqs]})
        if not sc.ents[sc.target - 1]["cols"][0]["str"]:
            df["instance_id"] = df["instance_id"].astype("int64")
        kw["cutoff_time"] = df
        if rng.random() < .25 and not any(nd["p"] in CA.NOWDEP for nd in sc.nodes):
            kw["approximate"] = rng.choice([2, 3]) if sc.numeric else "%d hours" % rng.choice([24, 36, 48])
            how.append("approximate")
            timed = 0
    if rng.random() < .2:
        w = CA.window(sc)
        if w is not None:
            kw["training_window"] = SS.win_arg(rng, w)
    err, ref = shield(ft.calculate_feature_matrix, objs, es, **kw)
    if err:
        return []
    if rng.random() < .75:
        kw["chunk_size"] = rng.choice([1, 1, 2, 2, 3, .3, .5, 100])
        how.append("chunk %s" % kw["chunk_size"])
    parallel = rng.random() < part.get("p_cluster", .15)
    if parallel:
        kw.update(n_jobs=2, dask_kwargs=dict(cluster=CA.cluster(rng.choice([1, 2, 3]))))
        how.append("cluster")
    saving = rng.random() < part.get("p_save", .85)
    callback = rng.random() < part.get("p_callback", .5)
    q = matrix_rows(ref)
    header, rows = q[0], q[1:]
    lines = []
    calls = []

    def tell(update, percent, elapsed):
        calls.append([int(round(update * 1e6)), int(round(percent * 1e6))])
    base = dict(kw)
    if callback:
        base["progress_callback"] = tell

    def start(again):
        return dict(ev="Start", rows=rows, saving=int(saving), callback=int(callback), timed=timed, again=again)

    def once():
        d = tempfile.mkdtemp(prefix="ftruns")
        try:
            del calls[:]
            err, fm = shield(ft.calculate_feature_matrix, objs, es, **dict(base, **(dict(save_progress=d) if saving else {})))
            files, temp = folder(d, header)
            return err, fm, files, temp
        finally:
            shutil.rmtree(d, ignore_errors=True)
    err, fm, files, temp = once()
    lines.append(start(0))
    lines += [dict(ev="Report", upd=u, pct=p) for u, p in calls]
    end = dict(ev="End", how=" ".join(how), err=err, rows=[], files=files, temp=temp)
    if err == "":
        e2, r = shield(matrix_rows, fm)
        end["rows"], end["err"] = (r[1:], "") if e2 == "" else ([], e2)
        if e2 == "" and r[0] != header:
            end["err"] = "columns differ"
    lines.append(end)
    if end["err"]:
        return lines
    if rng.random() < part.get("p_fail", .4):
        col = ref[objs[-1].get_name()]
        seen = sorted({i if isinstance(i, str) else int(i) for i, x in zip(ref.index.get_level_values(0), col) if x is True or x == 1}, key=str)
        FUSE[0] = rng.choice(seen) if seen else None
        if seen:
            err, fm, files, temp = once()
            lines.append(start(1))
            lines += [dict(ev="Report", upd=u, pct=p) for u, p in calls]
            lines.append(dict(ev="Failed", how=" ".join(how), err=err, files=files))
        FUSE[0] = None
    if saving and not parallel:
        n = None
        for _ in range(part.get("crashes", 2)):
            d = tempfile.mkdtemp(prefix="ftruns")
            kind = rng.choice(["file", "file", "line", "limit"])

            def run():
                ft.calculate_feature_matrix(objs, es, **dict(base, save_progress=d))
            if kind == "line" and n is None:
                d2 = tempfile.mkdtemp(prefix="ftruns")
                n = count_lines(lambda: shield(ft.calculate_feature_matrix, objs, es, **dict(base, save_progress=d2)))
                shutil.rmtree(d2, ignore_errors=True)
            k = rng.randint(0, 12) if kind == "file" else rng.randint(0, 160) if kind == "limit" else rng.randint(0, max(1, n))
            arm = {"file": lambda: die_at_file(d, k), "line": lambda: die_at_line(k), "limit": lambda: limit_files(k)}[kind]
            st = in_child(arm, run)
            files, temp = folder(d, header)
            shutil.rmtree(d, ignore_errors=True)
            lines.append(start(1))
            lines.append(dict(ev="Crash", how="%s %d %s" % (kind, k, " ".join(how)), st=int(st), files=files))
    return lines
