#!/usr/bin/env python3
"""replay.py DIR: run a recorded counterexample against the current tree (ASan build)."""
import json, os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import check, jobs
d = sys.argv[1]
v = json.load(open(d + "/violation.json"))
tmp = tempfile.mkdtemp(prefix="mmv-replay-")
try:
    n = check.Native(tmp)
    n.build()
    j = jobs.Job(v["harness"], v["variant"], raw=v["defs"])
    r = n.run(j, open(d + "/inputs", "rb").read().hex())
    print(r["out"], r["err"], "exit", r["rc"])
    sys.exit(1 if r["rc"] else 0)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
