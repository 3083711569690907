#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed iff checks/<id>.py exists and it is described here."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAY = "TLA+ spec checked by TLC; its behaviours replayed in the real classes"
TRACE = "TLA+ spec; traces recorded from real runs validated by TLC"
BOTH = "TLA+ spec checked by TLC; behaviours replayed in the code and recorded traces validated by TLC"
T = {}
exec(open(os.path.join(V, "tools", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T and os.path.exists(os.path.join(V, "checks", i + ".py")):
        tech, note = T[i][:2]
        checks.append(dict(property=i, quick_cmd="python3 checks/%s.py quick" % i, thorough_cmd="python3 checks/%s.py thorough" % i,
                           technique=tech, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="true", hooks=dict(guard="", enable="no hooks: the checks use public interfaces only", source_commits=[]),
         checks=checks, not_applicable=na, notes="Specs in spec/, drivers in harness/, checks in checks/; see DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
