#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and tools/claims.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claims = json.load(open(os.path.join(V, "tools", "claims.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = claims.get(p)
    if c is None or not os.path.exists(os.path.join(V, "pbt", "props", p + ".cpp")):
        na.append({"property": p, "reason": "its check is not built yet"})
        continue
    checks.append({"property": p,
                   "quick_cmd": "python3 pbt/check.py %s --tier quick" % p,
                   "thorough_cmd": "python3 pbt/check.py %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p,
                   "technique": "property-based testing: " + c[0],
                   "level": "exploration",
                   "level_note": c[1]})
m = {"version": 1, "setup_cmd": "python3 pbt/check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds the library from /repo's working tree in a scratch directory that it removes. "
              "No hooks in /repo are needed: the harnesses call the public API."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
