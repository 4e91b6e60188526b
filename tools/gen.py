#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []

def prop(id, title, statement, over, text, why, files, mech, na=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})
    if na:
        NA.append({"property": id, "reason": na})

DC = "directive/controller/"
exec(open(os.path.join(ROOT, "tools", "props.py")).read())

LEVEL_NOTE = ("Every path and every schedule within the stated bounds (preemptions, operations, threads, value widths) of harnesses "
  "that call the real functions through the public API is encoded from the current source's SSA form and decided by z3; "
  "counterexamples are re-executed in the encoding and natively. Trusted: the Go-to-SSA translation (x/tools), the engine, the models of "
  "sync/context/time/logging, the memory model is sequentially consistent with scheduling points at synchronisation operations; in every explored state conflicting accesses of unsynchronised segments of two threads are reported as data races. Outside the bounds nothing is claimed.")
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
na_ids = {n["property"] for n in NA}
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": p["id"],
                 "quick_cmd": "./check.sh %s quick" % p["id"],
                 "thorough_cmd": "./check.sh %s thorough" % p["id"],
                 "technique": "symbolic execution of the Go SSA of the real code with symbolic inputs and schedules, decided by an SMT solver (z3), counterexamples replayed natively",
                 "level": "model_checking", "level_note": LEVEL_NOTE}
                for p in P if p["id"] not in na_ids],
     "not_applicable": NA}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
import jsonschema
sp = json.load(open("/root/.vp/PROPERTIES.schema.json")) if os.path.exists("/root/.vp/PROPERTIES.schema.json") else None
if sp:
    for p in P:
        jsonschema.validate(p, sp)
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(P), "properties,", len(m["checks"]), "checks")
