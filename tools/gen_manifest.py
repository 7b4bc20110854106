#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE, TECH = {}, {}
exec(open(os.path.join(V, "tools", "manifest_notes.py")).read())
checks = [dict(property=p["id"], quick_cmd=f"python3 tools/check.py {p['id']}", thorough_cmd=f"python3 tools/check.py {p['id']} --tier thorough",
               technique=TECH[p["id"]], level="model_checking", level_note=NOTE[p["id"]]) for p in props if p["id"] in NOTE]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks,
         not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], "not built yet")) for p in props if p["id"] not in NOTE],
         notes="See DESIGN.md. Genuine defects repaired or recorded are in known_findings.txt.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
