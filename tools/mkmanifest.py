"""Write MANIFEST.json from properties.jsonl and tools/props.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl") if l.strip()]
meta = json.load(open(f"{V}/tools/props.json"))
NA = {"C01": "the property is about TypeScript code in js/src; no contract-based deductive verifier for TypeScript is installed, and proving a transcription in another language would be a model, not the code"}
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    b = meta.get(i, {}).get("bounded")
    tech = ("bounded stand-in: random histories of the real crate against a reference model; the contracts of the called functions are discharged by Verus as well"
            if b else "contract-based deductive verification (Verus) of the functions mechanically extracted from /repo, failures replayed on the real crate")
    note = ("bounded: " if b else "proof: every obligation of every function under contract is discharged by Verus/Z3 " + ("" if meta.get(i, {}).get("crate") == "wasm" else "for the host and the on-chain layout of u128, ") + "for all inputs and iterations, without bound; ") + meta.get(i, {}).get("note", "")
    note += (" Trusted: Verus, vstd, Z3, the extraction tool (vx), assumed contracts on dependencies as listed in the evidence file's assumptions.")
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                   "technique": tech, "level": "exploration" if b else "proof", "level_note": note})
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh",
           "hooks": {"guard": "cfg(aob_verif)", "enable": "RUSTFLAGS='--cfg aob_verif' (the harness build in check.py); the extraction drops the hooks", "source_commits": ["2eb3666"]},
           "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]},
          open(f"{V}/MANIFEST.json", "w"), indent=1)
