import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks.spec import SPEC, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in SPEC:
        s = SPEC[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py check %s quick" % i, thorough_cmd="python3 run.py check %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=s["technique"], level=s.get("level", "model_checking"), level_note=s["note"]))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na,
         notes="Every check builds its harnesses from /repo's working tree into /verif/build (git-ignored). No hooks in /repo are needed: nondeterminism is taken over at the public seams (functors, template parameters, the TBB and <random> headers).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
