import sys, traceback
sys.path.insert(0, "/verif")
from harness import scen as SC
seed = int(sys.argv[1])
PF = eval(sys.argv[3]) if len(sys.argv) > 3 else {}
sc = SC.gen_scenario(seed, PF)
es = SC.build_es(sc.ents, sc.rels)
for i, n in enumerate(sc.nodes):
    print(i + 1, sc.types[i], {k: v for k, v in n.items() if k != "q"}, sc.pyq[i])
print("want", sc.want, "target", sc.target)
print(es)
try:
    f = SC.build_features(es, sc)
    for i, x in enumerate(f): print(i + 1, x)
except Exception:
    traceback.print_exc()
if len(sys.argv) > 2:
    import importlib, json
    from harness import sessions, core
    def shield(fn, *a, **k):
        try:
            return "", fn(*a, **k)
        except Exception as x:
            traceback.print_exc()
            return repr(x), None
    sessions.shield = shield
    for ev in sessions.session(seed, dict(pf=PF)):
        print(json.dumps({k: v for k, v in ev.items() if k != "S"})[:1500])
