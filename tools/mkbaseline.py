"""Record which functions of the committed tree carry no contract (tools/baseline.json)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.argv = ["check.py", "all"]
import check
ok, m = check.build_vx()
assert ok, m
os.makedirs(f"{V}/work", exist_ok=True)
for k, kind in check.KINDS.items():
    check.KIND = kind
    u = set()
    names = {}
    for c in ("host", "solana"):
        ok, m = check.extract("all", c, f"{V}/work/b.rs", f"{V}/work/b.json")
        assert ok, m
        j = json.load(open(f"{V}/work/b.json"))
        assert not j["lost"], j["lost"]
        u |= set(j["uncontracted"])
        names.update({f["fn"]: f["names"] for f in j["fns"] if f["contracted"]})
    json.dump({"uncontracted": sorted(u), "names": dict(sorted(names.items()))}, open(f"{V}/{kind['baseline']}", "w"), separators=(",", ":"))
    print(k, len(u))
