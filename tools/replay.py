#!/usr/bin/env python3
"""replay.py PROPERTY SEED CASE: run one recorded case of the concrete harness again on /repo's current tree"""
import os, sys, json, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
prop, check.SEED, case = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
meta = json.load(open(f"{check.V}/tools/props.json")).get(prop, {})
check.KIND = check.KINDS[meta.get("crate", "program")]
b, mode, msg = check.build_harness()
if not b:
    sys.exit("harness does not build:\n" + msg)
r = check.concrete(b, prop, 60, case)
shutil.rmtree(os.path.dirname(b), ignore_errors=True)
print(json.dumps(r, indent=1))
sys.exit(1 if r.get("violation") else 0)
