#!/usr/bin/env python3
"""Author's tool for planted bugs (no check uses it).
seed.py confirm ID...   patch applies, builds, stable tests pass, demo 0 without / nonzero with (in /tmp/wt)
seed.py catch ID...     applies the patch to /repo, runs the property's quick check, undoes it
"""
import json, os, subprocess, sys, time
S = "/verif/seeded"
WT = "/tmp/wt"
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def fresh():
    if not os.path.isdir(WT):
        sh("cp -a /repo " + WT)
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=WT)
def confirm(i):
    d = S + "/" + i
    fresh()
    r = sh("git apply %s/patch.diff" % d, cwd=WT)
    if r.returncode: return "patch does not apply " + r.stderr
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
    r = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", cwd=WT, env=env)
    ok = sum(1 for l in r.stdout.splitlines() if l.startswith("test ") and l.endswith("... ok"))
    if r.returncode: return "tests fail: " + (r.stdout + r.stderr)[-1500:]
    t = time.time()
    a = sh("bash %s/demo.sh" % d, cwd=WT)
    b = sh("bash %s/demo.sh" % d, cwd="/repo")
    sh("git checkout -- .", cwd=WT)
    if "error" in a.stderr and "could not compile" in a.stderr: return "demo does not compile " + a.stderr
    if a.returncode == 0: return "demo passes with the patch"
    if b.returncode: return "demo fails on the unchanged tree " + b.stdout + b.stderr
    return "confirmed (%d tests, demos %.0fs): %s" % (ok, time.time() - t, a.stderr.strip().splitlines()[-2:])
def catch(i):
    d = S + "/" + i
    p = json.load(open(d + "/meta.json"))["property"]
    if sh("git -C /repo status --porcelain --untracked-files=no").stdout: sys.exit("/repo is dirty")
    r = sh("git -C /repo apply %s/patch.diff" % d)
    if r.returncode: return "patch does not apply"
    try:
        t = time.time()
        r = sh("python3 check.py %s quick" % p, cwd="/verif")
    finally:
        sh("git -C /repo checkout -- .")
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    return "%s exit %d %.0fs %s" % (p, r.returncode, time.time() - t, v or r.stdout[-300:])
for i in sys.argv[2:] or sorted(os.listdir(S)):
    print(i, {"confirm": confirm, "catch": catch}[sys.argv[1]](i), flush=True)
