#!/usr/bin/env python3
"""replay.py FILE: rebuild the native harness from /repo's tree and re-run a recorded counterexample"""
import json, os, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B, run as R
d = json.load(open(sys.argv[1]))
_, nat = B.build([d["bin"]])[d["bin"]]
with tempfile.TemporaryDirectory() as t:
    n = R.native(nat, d["entry"], d["params"], d["finding"]["vals"], t)
print(n["kind"], n["detail"])
for x in n["notes"]:
    print("  ", x)
sys.exit(0 if n["kind"] == "ok" else 1)
