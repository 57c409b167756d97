#!/bin/bash
# builds the extraction tool and the concrete harness, offline, from the committed files
cd "$(dirname "$0")/.." || exit 3
python3 - <<'P'
import sys
sys.argv = ["check.py", "setup"]
import check, os, shutil
ok, m = check.build_vx()
print("vx", ok, m[-300:])
for k in check.KINDS:
    check.KIND = check.KINDS[k]
    b, mode, msg = check.build_harness()
    print("harness", k, bool(b), mode, msg[-300:])
    if b:
        shutil.rmtree(os.path.dirname(b), ignore_errors=True)
sys.exit(0 if ok else 3)
P
