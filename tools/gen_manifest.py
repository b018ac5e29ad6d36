#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from lib/specs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import specs
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
     "notes": "Every check builds the library from /repo's working tree with its own flags into a scratch directory; no hooks in /repo are needed. Findings: known-findings.txt."}
for i in ids:
    s = specs.SPECS.get(i)
    if not s:
        m["not_applicable"].append({"property": i, "reason": "no check built yet"})
        continue
    m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                        "technique": s["technique"], "level": "exploration", "level_note": s["note"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not claimed")
