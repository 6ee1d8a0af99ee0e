#!/usr/bin/env python3
"""Which planted bugs do not touch lines of the original repository?"""
import subprocess, os, re
SEED = "/verif/seeded"; ORIG = "bb0feab"
sh = lambda *a: subprocess.run(a, capture_output=True, text=True, cwd="/repo").stdout
blame = {}
def orig(f):
    if f not in blame:
        # a line is ours when blame does not reach the original commit's ancestry
        anc = set(sh("git", "rev-list", ORIG).split())
        blame[f] = [any(c.startswith(l.split()[0].lstrip("^")) for c in anc) if not l.startswith("^") else True for l in sh("git", "blame", "-l", "-s", f).splitlines()]
    return blame[f]
for i in sorted(os.listdir(SEED)):
    ok = False
    f = None
    for l in open(f"{SEED}/{i}/patch.diff"):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1)); prev = None
        elif f and l.startswith(" "): n += 1
        elif f and l.startswith("-") and not l.startswith("---"):
            ok |= orig(f)[n - 1]; n += 1
        elif f and l.startswith("+") and not l.startswith("+++"):
            a = orig(f)[n - 2] if n >= 2 else False; b = orig(f)[n - 1] if n - 1 < len(orig(f)) else False
            ok |= a or b
    if not ok: print(i)
