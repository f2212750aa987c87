#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/claims.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
claims = json.load(open(os.path.join(root, "tools/claims.json")))
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [], "not_applicable": [],
     "notes": "All checks are black-box property-based tests of exported API; no hooks in /repo are needed."}
for p in props:
    c = claims.get(p["id"])
    if c:
        m["checks"].append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json", "technique": c["technique"],
            "level": "exploration", "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
