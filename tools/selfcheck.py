#!/usr/bin/env python3
"""Development aid: every unit against /repo's tree: extraction without errors or mismatches, all obligations discharged.
usage: selfcheck.py [--record] [unit...]     --record rewrites contracts/baseline from the tree first"""
import json, os, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
args = sys.argv[1:]
rec = "--record" in args
units = [a for a in args if not a.startswith("-")] or sorted(f[:-5] for f in os.listdir(ROOT + "/contracts/baseline"))
tmp = tempfile.mkdtemp()
def one(u):
    rs, js, b = f"{tmp}/{u}.rs", f"{tmp}/{u}.json", f"{ROOT}/contracts/baseline/{u}.json"
    if rec:
        subprocess.run([ROOT + "/vx/target/debug/vx", REPO, ROOT + "/contracts", u + ".vx", rs, js, "--record", b], capture_output=True)
    c = [ROOT + "/vx/target/debug/vx", REPO, ROOT + "/contracts", u + ".vx", rs, js]
    if os.path.exists(b):
        c += ["--baseline", b]
    p = subprocess.run(c, capture_output=True, text=True)
    m = p.stdout + p.stderr
    v = subprocess.run(["verus", "--triggers-mode", "silent", "--num-threads", "2", rs], capture_output=True, text=True)
    line = [l for l in (v.stdout + v.stderr).splitlines() if "verification results" in l]
    ok = p.returncode == 0 and "mismatch" not in m and line and ", 0 errors" in line[0]
    return u, ok, (line or ["no result"])[0], m.strip()[:300]
with ThreadPoolExecutor(4) as ex:
    rs = list(ex.map(one, units))
for u, ok, l, m in rs:
    print(("ok  " if ok else "FAIL"), u, l, m)
sys.exit(0 if all(r[1] for r in rs) else 1)
