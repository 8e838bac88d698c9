"""Running checks: workers generate sessions against the library, TLC judges
the recorded traces, verdicts become VIOLATION lines and evidence."""
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import time
import traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
OUT = os.path.join(VERIF, "out")
EVID = os.path.join(VERIF, "evidence")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


LIBRARY = os.path.dirname(importlib.util.find_spec("featuretools").origin) + os.sep


class MachineryError(Exception):
    def __init__(self, text, evaluated=False):
        super().__init__(text)
        self.evaluated = evaluated


def tlc(module, env=None, cfg=None, workers=1, timeout=1500, heap="2g", extra=()):
    """Run TLC on spec/<module>.tla; returns (exit code, output)."""
    meta = os.path.join(OUT, "meta", "%s-%d-%d" % (cfg or module, os.getpid(), time.time_ns() % 10**9))
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ)
    e.update(env or {})
    heap_opts = ["-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Djava.io.tmpdir=" + meta]
    cmd = ["java"] + heap_opts + ["-cp", JAR, "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE", "-config", (cfg or module) + ".cfg"] + list(extra) + [module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode() if isinstance(x.stdout, bytes) else (x.stdout or "")
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def unquote(line):
    """TLC prints strings quoted with escapes."""
    line = line.strip()
    if line.startswith('"') and line.endswith('"'):
        line = line[1:-1].replace('\\"', '"').replace("\\\\", "\\")
    return line


def judge(module, lines, tag, cfg=None):
    """Let TLC judge a trace.  Returns (verdicts, consumed, skipped cells)."""
    if not lines:
        return [], 0, 0, 0
    os.makedirs(os.path.join(OUT, "traces"), exist_ok=True)
    path = os.path.join(OUT, "traces", "%s-%d.ndjson" % (tag, os.getpid()))
    with open(path, "w") as fh:
        for x in lines:
            fh.write(json.dumps(x) + "\n")
    code, out = tlc(module, env={"FT_TRACE": path}, cfg=cfg)
    verdicts, consumed, skipped, total = [], None, 0, None
    for ln in out.splitlines():
        s = unquote(ln)
        if s.startswith("VERDICT "):
            verdicts.append(json.loads(s[8:]))
        m = re.match(r"CONSUMED (\d+) OF (\d+)(?: SKIPPEDCELLS (\d+))?", s)
        if m:
            consumed, total, skipped = int(m.group(1)), int(m.group(2)), int(m.group(3) or 0)
    if code != 0 or consumed is None or consumed != total:
        raise MachineryError("TLC failed on %s (exit %s)\n%s" % (path, code, out[-6000:]), evaluated="states generated" in out)
    if not os.environ.get("FT_KEEP"):
        os.unlink(path)
    m = re.findall(r"(\d+) states generated", out)
    return verdicts, consumed, skipped, int(m[-1]) if m else 0


def judge_all(module, lines, tag):
    """judge(), but sessions whose recorded values the specification cannot even evaluate (numbers out of every range, values of
    the wrong kind) are found one by one and rejected: nothing the specification describes looks like them"""
    try:
        return judge(module, lines, tag)
    except MachineryError as x:
        if not x.evaluated:
            raise
        sids = list(dict.fromkeys(y["sid"] for y in lines))
        if len(sids) == 1:
            return [dict(line=0, sid=sids[0], clause="no-behaviour", detail=[str(x)[-1200:]])], len(lines), 0, 0
        half = set(sids[:len(sids) // 2])
        a = judge_all(module, [y for y in lines if y["sid"] in half], tag)
        if len(a[0]) >= 3:
            return a
        b = judge_all(module, [y for y in lines if y["sid"] not in half], tag)
        return a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]


def shield(fn, *a, **k):
    """Call into the library: ('', value) or (error text, None)."""
    try:
        return "", fn(*a, **k)
    except Exception as x:
        return "%s: %s" % (type(x).__name__, str(x)[:300]), None


def _worker(args):
    tag, items, wid, budget = args
    t0 = time.time()
    by_mod = {}
    res = dict(sessions=0, verdicts=[], consumed=0, skipped=0, states=0, sample=[], errors=[], lines={}, kinds={}, dropped=0)
    sys.path.insert(0, VERIF)
    sink = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("FT_LOUD"):
        os.dup2(sink, 1)
        os.dup2(sink, 2)
    for sid, (part, seed) in items:
        if time.time() - t0 > budget:
            res["dropped"] += 1
            continue
        try:
            lines = part["gen"](seed, dict(part))
        except Exception as x:
            if isinstance(x, MemoryError) or getattr(x, "errno", None) in (12, 23, 24, 28):
                res["errors"].append("session %s seed %s: %s" % (part["name"], seed, traceback.format_exc()[-3000:]))
                continue
            # the library raised where it must not, or what it returned cannot be read as any result at all
            tb = traceback.format_exc()
            res["verdicts"].append(dict(line=0, sid=sid, clause="library-error" if LIBRARY in tb else "unreadable", detail=[tb[-1500:]]))
            continue
        if lines is None:
            continue
        res["sessions"] += 1
        for x in lines:
            x["sid"] = sid
            k = part["name"] + ":" + x["ev"]
            res["kinds"][k] = res["kinds"].get(k, 0) + 1
        by_mod.setdefault(part["spec"], []).extend(lines)
        if len(res["sample"]) < 1 and sum(len(json.dumps(x)) for x in lines) < 30000:
            res["sample"].append(dict(part=part["name"], seed=seed, lines=lines))
    res["gen_s"] = time.time() - t0
    for mod, lines in by_mod.items():
        try:
            v, c, s, st = judge_all(mod, lines, "%s-%s-%s" % (tag, mod, wid))
        except MachineryError as x:
            res["errors"].append(str(x))
            continue
        res["verdicts"] += v
        res["consumed"] += c
        res["skipped"] += s
        res["states"] += st
        for y in v:
            if len(res["lines"]) < 12:
                res["lines"].setdefault(y["sid"], (mod, [x for x in lines if x["sid"] == y["sid"]]))
    res["wall"] = time.time() - t0
    return res


def run_sessions(tag, parts, tier, seed, procs=8):
    """Generate and judge the sessions of all parts; deterministic in seed."""
    jobs = []
    for pi, part in enumerate(parts):
        n = part[tier] if tier in part else part["quick"]
        for i in range(n):
            jobs.append((part, (seed * 1000003 + pi * 100003 + i) % (2**31)))
    items = list(enumerate(jobs))
    procs = min(procs, max(1, len(items)))
    chunks = [items[w::procs] for w in range(procs)]
    budget = 420 if tier == "quick" else 10 * 3600
    ctx = mp.get_context("fork")
    with ctx.Pool(procs) as pool:
        results = pool.map(_worker, [(tag, c, w, budget) for w, c in enumerate(chunks)], chunksize=1)
    tot = dict(sessions=0, verdicts=[], consumed=0, skipped=0, states=0, sample=[], errors=[], lines={}, kinds={}, dropped=0, gen_s=0, wall=0)
    for r in results:
        for k in ("sessions", "consumed", "skipped", "dropped", "states"):
            tot[k] += r[k]
        tot["verdicts"] += r["verdicts"]
        tot["errors"] += r["errors"]
        tot["lines"].update(r["lines"])
        tot["sample"] += r["sample"]
        for k, v in r["kinds"].items():
            tot["kinds"][k] = tot["kinds"].get(k, 0) + v
        tot["gen_s"] = max(tot["gen_s"], r["gen_s"])
        tot["wall"] = max(tot["wall"], r["wall"])
    tot["jobs"] = dict(items)
    return tot


def model_check(module, cfg, timeout=600, workers=8, heap="6g"):
    """Exhaustive TLC run of a design; returns dict(states, distinct, depth, ok, output)."""
    t0 = time.time()
    code, out = tlc(module, cfg=cfg, workers=workers, timeout=timeout, heap=heap)
    m = list(re.finditer(r"(\d+) states generated, (\d+) distinct states found", out))
    m = m[-1] if m else None
    d = re.search(r"depth of the complete state graph search is (\d+)", out)
    return dict(module=module, cfg=cfg, code=code, states=int(m.group(1)) if m else 0, distinct=int(m.group(2)) if m else 0,
                depth=int(d.group(1)) if d else 0, wall_s=round(time.time() - t0, 1), output=out,
                ok=(code == 0 and "No error has been found" in out))
