#!/usr/bin/env python3
"""regenerates properties.jsonl and MANIFEST.json from spec/props.py"""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "spec"))
from props import PROPS
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
checks, na = [], []
for p in PROPS:
    if os.path.exists(os.path.join(V, "checks", "p_%s.py" % p["id"].lower())):
        checks.append({"property": p["id"], "quick_cmd": "python3 checks/run.py %s quick" % p["id"], "thorough_cmd": "python3 checks/run.py %s thorough" % p["id"],
            "technique": "static analysis: " + p["tech"], "level": "other", "level_note": p["note"]})
    else: na.append({"property": p["id"], "reason": p.get("na", "check not built yet")})
json.dump({"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
  "notes": "All checks share one clang-plugin export of /repo's current tree (tool/sddx.cc, tu/all.cc) and one abstract interpreter (checks/engine.py). No hooks are added to /repo."},
  open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
