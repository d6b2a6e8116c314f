"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (a writing aid; no check uses it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "\n## 7. Planted bugs\n"
s = open(V + "/DESIGN.md").read().split(M)[0].rstrip() + "\n" + M + """
Each was written from the property's text and the code, passes the 81 tests, and its demonstration passes on the unchanged tree and fails with the
patch. The column says which check was run on it and reports it (quick tier, seed 1).

| bug | caught by | what it breaks |
|---|---|---|
"""
r = {}
for i in os.listdir(V + "/seeded"):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    r[m["property"], i] = " ".join(m["what_it_breaks"].split()).replace("|", "/")
for (p, i), w in sorted(r.items()):
    s += f"| {i} | {p} | {w[:150]} |\n"
open(V + "/DESIGN.md", "w").write(s)
