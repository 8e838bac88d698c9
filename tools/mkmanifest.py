"""Writes MANIFEST.json from properties.jsonl and harness/registry.py."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from harness import registry
props = [json.loads(x) for x in open("properties.jsonl")]
checks, na = [], []
for p in props:
    P = registry.PROPS.get(p["id"])
    if P is None:
        na.append(dict(property=p["id"], reason="no specification module decides it yet; see DESIGN.md"))
        continue
    mods = sorted({x["spec"] for x in P["parts"]})
    models = [m["module"] for m in P.get("models", [])]
    note = P.get("note") or ("Sessions of the real library are recorded and every line is judged by TLC against spec/%s.tla; "
                             "assurance covers the sessions explored (deterministic in the seed) and the exhaustively checked models. "
                             "Trusted: the recorder's projection of pandas values (harness/values.py), TLC." % mods[0])
    checks.append(dict(property=p["id"], quick_cmd="./check %s --tier quick" % p["id"], thorough_cmd="./check %s --tier thorough" % p["id"],
                       evidence_file="evidence/%s.json" % p["id"],
                       technique="TLA+ (TLC): trace validation of recorded library sessions against %s%s" %
                       (", ".join(mods), "; exhaustive model checking of " + ", ".join(models) if models else ""),
                       level=P.get("level", "model_checking"), level_note=note))
json.dump(dict(version=1, setup_cmd="mkdir -p out evidence && ./check --version", checks=checks, not_applicable=na,
               notes="All checks import featuretools from /repo's working tree; no hooks are needed in /repo."), open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
