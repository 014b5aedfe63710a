#!/usr/bin/env python3
"""tools/mkseed.py SPEC.json...: make and confirm planted bugs in a scratch copy of /repo.
SPEC: {"id","property","edits":[[file, old, new],...],"demo": shell text,"needs","what_it_breaks"}"""
import json, os, subprocess, sys, re
S = "/tmp/w/seedrepo"
def sh(c, cwd=S, **k):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600, **k)
if not os.path.exists(S):
    subprocess.run(f"cp -a /repo {S}", shell=True, check=True)
sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq")
r = sh("cargo build --workspace --offline 2>&1 | tail -3")
clean = sh("true")
for f in sys.argv[1:]:
    sp = json.load(open(f))
    d = f"/verif/seeded/{sp['id']}"
    os.makedirs(d, exist_ok=True)
    open(f"{d}/demo.sh", "w").write("#!/bin/bash\n" + sp["demo"].strip() + "\n")
    os.chmod(f"{d}/demo.sh", 0o755)
    for n, t in sp.get("files", {}).items():
        open(f"{d}/{n}", "w").write(t)
    sh("git checkout -q -f . && cargo build --workspace --offline")
    r0 = sh(f"bash {d}/demo.sh")
    ok = True
    for (p, old, new) in sp["edits"]:
        t = open(f"{S}/{p}").read()
        if t.count(old) != 1:
            print(sp["id"], "edit text occurs", t.count(old), "times in", p); ok = False
        open(f"{S}/{p}", "w").write(t.replace(old, new, 1))
    if not ok:
        sh("git checkout -q -f ."); continue
    b = sh("cargo build --workspace --offline && cargo build -p json_typegen_shared --no-default-features --offline")
    if b.returncode:
        print(sp["id"], "does not build:\n", b.stdout[-1500:]); sh("git checkout -q -f ."); continue
    t = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8")
    r1 = sh(f"bash {d}/demo.sh")
    diff = sh("git diff").stdout
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump({k: sp[k] for k in ("property", "needs", "what_it_breaks")}, open(f"{d}/meta.json", "w"), indent=1)
    good = r0.returncode == 0 and r1.returncode != 0 and t.returncode == 0
    print(sp["id"], "OK" if good else "BAD", "clean", r0.returncode, "patched", r1.returncode, "tests", t.returncode)
    if not good:
        print("clean:", r0.stdout[-600:], "\npatched:", r1.stdout[-600:], "\n", "\n".join(l for l in t.stdout.splitlines() if "FAILED" in l or "panicked" in l)[:800])
    sh("git checkout -q -f .")
