#!/usr/bin/env python3
# rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/caught.json
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(V + "/tools/caught.json"))
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    by, rem = c.get(d, [m["property"], ""])
    rows.append(f"| {d}: {m['what_it_breaks']} | {by} | {rem} |")
t = open(V + "/DESIGN.md").read()
head = "| Planted bug | Caught by | Remarks |\n|---|---|---|\n"
i = t.index(head) + len(head)
j = t.find("\n\n", i)
open(V + "/DESIGN.md", "w").write(t[:i] + "\n".join(rows) + (t[j:] if j >= 0 else "\n"))
