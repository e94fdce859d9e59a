#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below and jobs.py."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import jobs
V = jobs.V
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=("standard output of the program", "files it writes")):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state], "observe_at": list(observe), "hook_needed": None}})


NA = []
NOTE = ("Every path of the program's LLVM bitcode (compiled from /repo's tree on each run) from the command script to exit, for every value of the free "
        "input bytes, is executed symbolically; branch feasibility and assertions are decided by Z3 (or by value tables that Z3 certifies); counterexamples are replayed "
        "against an ASan build of the same sources. Bounded by the templates listed in the evidence file. Trusts the engine's instruction semantics and libc model, "
        "which are compared with native runs on sampled paths. ")
EXTRA = {}

exec(open(V + "/bin/props.py").read())

with open(V + "/properties.jsonl", "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "python3 bin/check.py --setup", "checks": [], "not_applicable": NA,
     "notes": "Method: symbolic execution of /repo's bitcode with Z3; see DESIGN.md. No hooks in /repo are needed."}
for p in sorted(P, key=lambda p: p["id"]):
    i = p["id"]
    if i not in jobs.PROPS:
        assert any(n["property"] == i for n in NA), i
        continue
    c = {"property": i, "quick_cmd": "python3 bin/check.py %s" % i,
         "technique": "symbolic execution of the program's LLVM bitcode, paths and assertions decided by Z3", "level": "model_checking",
         "level_note": NOTE + EXTRA.get(i, "") + "Bounds: " + jobs.PROPS[i].bounds("quick") + "."}
    if jobs.PROPS[i].t:
        c["thorough_cmd"] = "python3 bin/check.py %s --tier thorough" % i
    m["checks"].append(c)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    for p in P:
        jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
except ImportError:
    pass
print(len(P), "properties,", len(m["checks"]), "checks")
