#!/usr/bin/env python3
"""mk.py ID file: stdin is python defining property, needs, breaks, edits=[(file, old, new)], demo"""
import json, os, shutil, subprocess, sys
ns = {}
exec(sys.stdin.read(), ns)
i = sys.argv[1]
d = "/verif/seeded/" + i
os.makedirs(d, exist_ok=True)
sys.path.insert(0, "/verif/tools")
WT = "/tmp/wt"
if not os.path.isdir(WT): subprocess.run("cp -a /repo " + WT, shell=True)
subprocess.run("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", shell=True, cwd=WT)
for f, o, n in ns["edits"]:
    s = open(WT + "/" + f).read()
    assert s.count(o) == 1, (f, o, s.count(o))
    open(WT + "/" + f, "w").write(s.replace(o, n))
open(d + "/patch.diff", "w").write(subprocess.run("git diff", shell=True, cwd=WT, capture_output=True, text=True).stdout)
subprocess.run("git checkout -- .", shell=True, cwd=WT)
json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
shutil.copy("/verif/tools/demo_template.sh", d + "/demo.sh")
open(d + "/demo.rs", "w").write(ns["demo"])
