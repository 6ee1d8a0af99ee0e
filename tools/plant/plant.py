#!/usr/bin/env python3
"""Makes planted bugs: python3 plant.py FILE.py [ids]. FILE.py defines BUGS, a list of dicts
id, property, edits=[(file, old, new)], needs, breaks, demo (body of main, panics when broken), pre (items before main).
Each is tried in a scratch copy (applies, builds, tests pass, demo 0 / nonzero) and kept under /verif/seeded/<id>."""
import concurrent.futures, sys, os, subprocess, json, shutil, runpy, tempfile
SEED = "/verif/seeded"
base = json.load(open("/opt/vp/BASELINE.json"))
DEMO = '''#!/bin/bash
# run in the repository; exit 0 when the property holds in the demonstrated case
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
t="$(mktemp -d)" || exit 3
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
algeo = { path = "$repo" }
EOF
cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
cd "$t" || exit 3
export CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true%s
cargo build --offline -q >"$t/log" 2>&1 || { tail -20 "$t/log"; exit 3; }
timeout 120 "$t/target/debug/demo"
'''
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = set(sys.argv[2:])
    def go(b):
        t = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
        try: print(b["id"], one(b, t), flush=True)
        except Exception as e: print(b["id"], "ERROR", e, flush=True)
        finally: shutil.rmtree(t)
    todo = [b for b in bugs if (b["id"] in only if only else not os.path.exists(f"{SEED}/{b['id']}/meta.json"))]
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", 5))) as ex: list(ex.map(go, todo))
def one(b, t):
    repo = t + "/repo"
    sh("cp", "-a", os.environ.get("BASE", "/repo"), repo)
    d = t + "/seed"; os.mkdir(d)
    open(d + "/main.rs", "w").write("#![allow(unused)]\n" + b.get("pre", "") + "\nfn main() {\n" + b["demo"] + "\n}\n")
    open(d + "/demo.sh", "w").write(DEMO % (' RUSTFLAGS="--cfg algeo_verif"' if b.get("hooks") else ""))
    os.chmod(d + "/demo.sh", 0o755)
    r0 = sh("bash", d + "/demo.sh", cwd=repo)
    if r0.returncode != 0: return "DEMO FAILS ON CLEAN: " + (r0.stdout + r0.stderr)[-1500:]
    for f, old, new in b["edits"]:
        s = open(f"{repo}/{f}").read()
        if s.count(old) != 1: return f"EDIT matches {s.count(old)} times: {old}"
        open(f"{repo}/{f}", "w").write(s.replace(old, new))
    open(d + "/patch.diff", "w").write(sh("git", "-C", repo, "diff").stdout)
    c = sh("cargo", "build", "--offline", cwd=repo)
    if c.returncode: return "DOES NOT BUILD " + c.stderr[-1500:]
    r1 = sh("bash", d + "/demo.sh", cwd=repo)
    if r1.returncode == 0: return "DEMO PASSES WITH PATCH"
    if r1.returncode == 3: return "DEMO DOES NOT BUILD WITH PATCH " + r1.stdout
    try: c = sh("cargo", "test", "--offline", cwd=repo, timeout=400)
    except subprocess.TimeoutExpired: return "TESTS TIME OUT"
    if c.returncode: return "TESTS FAIL " + "\n".join(l for l in c.stdout.splitlines() if "FAILED" in l or "panicked" in l)[:500]
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    out = f"{SEED}/{b['id']}"
    if os.path.exists(out): shutil.rmtree(out)
    shutil.copytree(d, out)
    return "kept"
main()
