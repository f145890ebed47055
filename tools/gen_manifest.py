#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl, props/*.py and the notes below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
NOTES = {}
if os.path.exists(V + "/tools/notes.json"):
    d = json.load(open(V + "/tools/notes.json"))
    NA, NOTES = d.get("not_applicable", {}), d.get("notes", {})
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if os.path.exists("%s/props/%s.py" % (V, i)) and i not in NA:
        checks.append({
            "property": i, "level": "other",
            "level_note": NOTES.get(i, "bounded symbolic execution of the real functions over real arithmetic; all values, fixed small shapes; see DESIGN.md"),
            "technique": "symbolic execution of the real PyTorch/Python code (every tensor element a solver term) with z3 deciding each obligation on every path; counterexamples replayed on the real code",
            "quick_cmd": "/opt/venv/bin/python check.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough /opt/venv/bin/python check.py %s" % i})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
