#!/usr/bin/env python3
"""seed.py ID [--test] [--edit FILE]: (development) a planted bug in scratch copies: does it apply,
build, does the demonstration fail with it, does the check report it. --test also runs the tests."""
import json, os, shutil, subprocess, sys
ID = sys.argv[1]; S = f"/verif/seeded/{ID}"; W = f"/tmp/p/seed-{ID}"
shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
def sh(c, **k):
    p = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
    return p.returncode, p.stdout
try:
    pid = json.load(open(f"{S}/meta.json"))["property"]
    sh(f"git -C /repo worktree prune; git clone -q /repo {W}/repo")
    rc, o = sh(f"git apply {S}/patch.diff", cwd=f"{W}/repo")
    if rc: sys.exit(f"{ID}: does not apply\n{o}")
    os.makedirs(f"{W}/verif")
    for x in ("check", "tools", "harness", "symex", "known_findings.json"):
        sh(f"cp -a /verif/{x} {W}/verif/")
    sh(f"cp -a /verif/build {W}/verif/build")
    env = dict(os.environ, VERIF_REPO=f"{W}/repo")
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    if "--nocheck" not in sys.argv:
        rc, o = sh(f"time -p {W}/verif/check {pid} --tier {tier}", env=env, executable="/bin/bash")
        print(f"{ID} {pid}: check exit {rc}", *[x[:220] for x in o.splitlines() if x.startswith(("VIOLATION", "real", "ERROR", "UNRES"))], sep="\n   ")
        if rc != 1: print(o[-1500:])
finally:
    shutil.rmtree(W, ignore_errors=True)
