#!/usr/bin/env python3
"""seed.py NAME PROP PKG: makes /verif/seeded/NAME from the changes in the scratch copy /tmp/seed/repo and demo files given.
Usage: seed.py NAME PROP PKG UTIL|- DEMO_TEST.go 'needs' 'what it breaks'"""
import sys, os, subprocess, shutil, json
name, pr, pkg, util, demo, needs, what = sys.argv[1:8]
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
scratch = "/tmp/seed/repo"
env = dict(os.environ)
d = os.path.join(root, "seeded", name)
os.makedirs(d, exist_ok=True)
patch = subprocess.run(["git", "-C", scratch, "diff"], capture_output=True, text=True).stdout
assert patch.strip(), "no change"
open(d + "/patch.diff", "w").write(patch)
shutil.copy(demo, d + "/demo_test.go")
if util != "-":
    shutil.copy(os.path.join(root, "tools/demo", util), d + "/demo_util_test.go")
shutil.copy(os.path.join(root, "tools/demo/demo.sh"), d + "/demo.sh")
open(d + "/PKG", "w").write(pkg + "\n")
json.dump({"property": pr, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
