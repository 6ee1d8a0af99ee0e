#!/usr/bin/env python3
"""Writes the planted-bug section of DESIGN.md from seeded/*/meta.json and results.txt (output of run.py)."""
import json, os, re
R = "/verif"
res = {}
for l in open(f"{R}/tools/plant/results.txt"):
    t = l.split(" ", 3)
    if len(t) < 3: continue
    m = re.search(r"sub-check (\S+):", l) or re.search(r"sub-check (\S+),", l)
    res[t[0]] = (t[2], m.group(1) if m else "")
ids = sorted(i for i in os.listdir(f"{R}/seeded") if os.path.exists(f"{R}/seeded/{i}/meta.json"))
out = [f"""## Planted bugs

{len(ids)} changes under `seeded/`, written from the property texts and the code; each compiles, passes the 24
tests and touches lines of the original repository (`tools/plant/origin.py` lists those that only touch
lines of our own fixes; these were dropped). Sources: `tools/plant/batch*.py`, made and validated by
`plant.py`, run by `run.py`. Last run of each property's quick check (sub-check that reported it):

| planted bug | needs | caught by |
|---|---|---|"""]
n = 0
for i in ids:
    m = json.load(open(f"{R}/seeded/{i}/meta.json"))
    v, s = res.get(i, ("not run", ""))
    n += v == "CAUGHT"
    out.append(f"| {i} | {m['needs']} | " + (f"{m['property']} {s}" if v == "CAUGHT" else v.lower()) + " |")
out.append(f"\n{n} of {len(ids)} caught.\n")
d = open(f"{R}/DESIGN.md").read().split("<!-- planted -->")[0]
open(f"{R}/DESIGN.md", "w").write(d + "<!-- planted -->\n" + "\n".join(out))
print(n, len(ids))
