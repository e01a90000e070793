"""Rewrites the section of DESIGN.md on planted changes from seeded/*/meta.json and tools/caught.json."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(os.path.join(V, "tools", "caught.json")))
rows = ["| change | property | what it breaks | needs | caught by (quick tier) |", "|---|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {C.get(i, 'not run')} |")
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(<!-- seeded -->\n).*?(<!-- /seeded -->)", lambda x: x[1] + "\n".join(rows) + "\n" + x[2], s, flags=re.S)
open(p, "w").write(s)
