#!/usr/bin/env python3
"""Runs the checks against planted bugs: python3 run.py [ids]. Applies each to /repo and undoes it straight afterwards.
Prints for every bug the verdict of its property's check; with ALL=1 of every check."""
import sys, os, subprocess, json, shutil, tempfile
SEED = "/verif/seeded"
ids = sys.argv[1:] or sorted(os.listdir(SEED))
for i in ids:
    if not os.path.exists(f"{SEED}/{i}/meta.json"): continue
    m = json.load(open(f"{SEED}/{i}/meta.json"))
    p = subprocess.run(["git", "-C", "/repo", "apply", f"{SEED}/{i}/patch.diff"], capture_output=True, text=True)
    if p.returncode: print(i, "DOES NOT APPLY", p.stderr); continue
    try:
        props = [f"C{k:02}" for k in range(1, 33)] if os.environ.get("ALL") else [m["property"]]
        res = []
        for c in props:
            r = subprocess.run(["/verif/check.sh", c], capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            if c == m["property"]: own = (r.returncode, r.stdout[:300].replace("\n", " | ") if r.returncode == 1 else r.stdout[-200:] + r.stderr[-200:])
            if r.returncode == 1 and v: res.append(c)
            elif r.returncode != 0: res.append(f"{c}?{r.returncode}")
        print(i, m["property"], "CAUGHT" if own[0] == 1 else "MISSED", " ".join(res) if len(props) > 1 else "", own[1][:260], flush=True)
    finally: subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
