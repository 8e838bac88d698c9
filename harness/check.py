"""Command line of the checks: python -m harness.check <property> --tier quick|thorough [--replay FILE]."""
import argparse
import concurrent.futures as cf
import json
import os
import sys
import time
import warnings

warnings.filterwarnings("ignore")
from . import core  # noqa: E402


def compact(x, limit=400):
    t = json.dumps(x)
    return t if len(t) <= limit else t[:limit] + "..."


def known_findings():
    p = os.path.join(core.VERIF, "known-findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def replay(path, registry):
    d = json.load(open(path))
    part = next(p for p in registry.PROPS[d["property"]]["parts"] if p["name"] == d["part"])
    lines = part["gen"](d["seed"], dict(part))
    for x in lines or []:
        x["sid"] = 0
    v = core.judge(part["spec"], lines or [], "replay")[0]
    for y in v:
        print("line %s clause %s detail %s" % (y["line"], y["clause"], compact(y["detail"], 2000)))
    if v:
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    print("the recorded violation does not occur on this tree")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--version", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--parts", default="")
    a = ap.parse_args()
    if a.version:
        import featuretools
        print("featuretools", featuretools.__version__, featuretools.__file__)
        return 0
    if not os.environ.get("FT_TIER_FORCED") and a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    t0 = time.time()
    os.makedirs(core.EVID, exist_ok=True)
    os.makedirs(os.path.join(core.OUT, "replays"), exist_ok=True)
    from . import registry
    if a.replay:
        return replay(a.replay, registry)
    pid = a.pid
    P = registry.PROPS[pid]
    parts = [p for p in P["parts"] if not a.parts or p["name"] in a.parts.split(",")]
    res = core.run_sessions(pid, parts, a.tier, a.seed)
    models = []
    for m in P.get("models", []):
        cfg = m.get(a.tier, m["quick"])
        models.append(core.model_check(m["module"], cfg, timeout=m.get("timeout", 600 if a.tier == "quick" else 3 * 3600),
                                       heap="6g" if a.tier == "quick" else "16g"))
    # report
    bad = 0
    seen = {}
    for v in res["verdicts"]:
        seen.setdefault(v["sid"], v)
    for sid, v in sorted(seen.items()):
        part, seed = res["jobs"][sid]
        bad += 1
        if bad > 5:
            continue
        path = os.path.join(core.OUT, "replays", "%s-%s-%d.json" % (pid, part["name"], seed))
        with open(path, "w") as fh:
            json.dump(dict(property=pid, part=part["name"], seed=seed, clause=v["clause"], detail=v["detail"],
                           session=res["lines"].get(sid, (None, None))[1]), fh, indent=1)
        print("%s: session %s/%d rejected, clause %s: %s" % (pid, part["name"], seed, v["clause"], compact(v["detail"])))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    for f in known_findings():
        if f["property"] == pid and f.get("probe"):
            from . import probes
            try:
                still = getattr(probes, f["probe"])()
            except Exception as x:
                print("known finding %s: probe failed: %s" % (f["id"], x))
                still = False
            if still:
                print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    errors = list(res["errors"])
    for m in models:
        if not m["ok"]:
            errors.append("model %s (%s) not accepted by TLC:\n%s" % (m["module"], m["cfg"], m["output"][-3000:]))
    if res["dropped"]:
        errors.append("time budget exhausted: %d sessions not run" % res["dropped"]) if a.tier == "quick" else None
    traces = res["sessions"]
    samples = res["sample"][:2]
    cov = dict(states=res["states"] + sum(m["distinct"] for m in models),
               transitions=res["consumed"] + sum(m["states"] for m in models),
               traces_validated_against_impl=traces, samples=samples,
               trace_lines=res["consumed"], lines_by_part=res["kinds"],
               cells_beyond_exact_arithmetic=res["skipped"],
               models=[{k: m[k] for k in ("module", "cfg", "states", "distinct", "depth", "wall_s", "ok")} for m in models],
               sessions_requested=len(res["jobs"]), sessions_dropped=res["dropped"])
    ev = dict(property=pid, tier=a.tier, seed=a.seed, level=P.get("level", "model_checking"), coverage=cov,
              assumptions=P.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=bad)
    if P.get("level") == "exploration":
        cov.update(evaluations=traces, distinct_nontrivial=traces, rule="seeded sessions")
    with open(os.path.join(core.EVID, pid + ".json"), "w") as fh:
        json.dump(ev, fh)
    print("%s %s: %d sessions, %d trace lines judged by TLC, %d states, %.0f s, %d violating sessions" %
          (pid, a.tier, traces, res["consumed"], cov["states"], time.time() - t0, bad))
    if bad:
        return 1
    if errors:
        for e in errors[:5]:
            print("CHECK ERROR: " + e, file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
