#!/usr/bin/env python3
"""Writes DESIGN.md from its head, the tables and the harnesses."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
def prop(id, title, statement, over, text, why, files, mech, na=None):
    P.append((id, title, text, why, files, mech))
DC = "directive/controller/"
exec(open(os.path.join(ROOT, "tools", "props.py")).read())
exec(open(os.path.join(ROOT, "tools", "oracle.py")).read())
H = {}
for f in sorted(glob.glob(os.path.join(ROOT, "harness/zzverif/h*/*.go"))):
    s = open(f).read()
    for m in re.finditer(r"((?://[^\n]*\n)+)func (\w+)\(\)", s):
        d, fn = m.group(1), m.group(2)
        pm = re.search(r"//verif:prop (.*)", d)
        if not pm: continue
        b = re.search(r"//verif:bounds (.*)", d)
        q = re.search(r"//verif:quick(.*)", d)
        t = re.search(r"//verif:thorough(.*)", d)
        for p in pm.group(1).split():
            H.setdefault(p, []).append((fn, (b.group(1) if b else "").strip(), (q.group(1) if q else "").strip(), (t.group(1) if t else "").strip()))
S = []
for d in sorted(glob.glob(os.path.join(ROOT, "seeded/*/meta.json"))):
    m = json.load(open(d))
    S.append("* `%s` (%s): %s; needs %s" % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"], m["needs"]))
out = open(os.path.join(ROOT, "DESIGN.md"), "w")
_print = print
def print(*a):
    _print(*a, file=out)
print(open(os.path.join(ROOT, "tools", "design_head.md")).read().replace("SEEDED", "\n".join(S)))
print("## Properties\n\nEvery property is decided by the engine as described; none is not applicable.\n")
for id, title, text, why, files, mech in P:
    print("### %s %s\n" % (id, title))
    print("Code: " + "; ".join("%s (%s)" % (w, n) for n, w in mech) + ".")
    print("Oracle: " + ORACLE[id])
    print("Reach: " + text + ". " + why)
    print()
    for fn, b, q, t in H.get(id, []):
        print("* `%s`: %s [quick: %s; thorough: %s]" % (fn, b, q or "default", t or "default"))
    print()
