#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
exec(open(here + "/claims.py").read())
checks = []
na = []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        tech, note = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": f"bash tool/check.sh {i}", "thorough_cmd": f"bash tool/check.sh {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "other", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "bash tool/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only: an abstract interpreter over go/ssa of /repo's working tree; see DESIGN.md."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
