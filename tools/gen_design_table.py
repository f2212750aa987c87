#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.txt."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for l in open(os.path.join(ROOT, "tools", "caught.txt")):
    if l.strip():
        k, v = l.split(None, 1)
        caught[k] = v.strip()
rows = ["| planted bug | breaks | caught by |", "|---|---|---|"]
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    i = os.path.basename(d)
    rows.append(f"| `{i}` | {m['property']}: {m['what_it_breaks']} | {caught.get(i, '?')} |")
p = os.path.join(ROOT, "DESIGN.md")
t = open(p).read()
t = re.sub(r"(<!-- seeded -->\n).*?(<!-- /seeded -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), t, flags=re.S)
open(p, "w").write(t)
