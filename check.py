#!/usr/bin/env python3
"""Decide one property of the order book by contract-based deductive verification.

  check.py PROPERTY

1. /repo's current source is extracted mechanically (extract/, `vx`) into one Verus
   crate carrying the contracts of contracts/, once for the host layout of u128 and
   once for the on-chain one.
2. Verus discharges every obligation of every function under contract.  A third copy
   with `assert(false)` planted at every function entry and loop head must fail
   everywhere (no contradictory precondition or invariant).
3. A failed obligation that belongs to the property is replayed: the concrete harness
   (harness/) searches the real crate for a failing input.
4. The concrete harness also runs for a short time when every obligation is discharged.
"""
import difflib
import fcntl, glob, json, os, re, subprocess, sys, tempfile, threading, time, shutil

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("AOB_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
# the two crates of the repository that carry contracts
KINDS = {
    "program": dict(root="program/src/lib.rs", crate="program", contracts="contracts", baseline="tools/baseline.json", harness="harness", bin="aob-harness",
                    copies=(("host", "host", False), ("solana", "solana", False), ("vacuity", "host", True))),
    "wasm": dict(root="js/wasm/src/lib.rs", crate="js/wasm", contracts="contracts_wasm", baseline="tools/baseline_wasm.json", harness="harness_wasm", bin="aob-harness-wasm",
                 copies=(("host", "host", False), ("vacuity", "host", True))),
}
KIND = KINDS["program"]
BUDGET = 780 if TIER == "quick" else 3300


def left():
    return BUDGET - (time.time() - T0)


def sh(cmd, timeout, **kw):
    """run, never raise; (rc, out, err); rc None on time out"""
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=max(1, timeout), text=True, errors="replace", **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        d = lambda x: x.decode("utf8", "replace") if isinstance(x, bytes) else (x or "")
        return None, d(e.stdout), d(e.stderr)
    except OSError as e:
        return 127, "", str(e)


class Lock:
    def __init__(self, name):
        os.makedirs(f"{V}/work", exist_ok=True)
        self.f = open(f"{V}/work/{name}.lock", "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


# ------------------------------------------------------------------ builds
def build_vx():
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    env.pop("RUSTUP_TOOLCHAIN", None)
    with Lock("vx"):
        rc, _, err = sh(["cargo", "build", "--offline", "--quiet"], 600, cwd=f"{V}/extract", env=env)
    return rc == 0, err[-2000:]


def harness_env():
    env = dict(os.environ)
    # the toolchain the repository is built with: newer ones align u128 to 16 bytes
    env.update(RUSTUP_TOOLCHAIN="1.76.0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER=f"{V}/tools/rustcw.sh", RUST_BACKTRACE="0",
               CARGO_TARGET_DIR=f"{V}/{KIND['harness']}/target")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    env.pop("CARGO_INCREMENTAL", None)
    return env


def build_harness():
    """returns (ok, mode, message)"""
    env = harness_env()
    msg = ""
    hd = KIND["harness"]
    with Lock(hd):
        src = f"{V}/{hd}"
        if REPO != "/repo":
            src = tempfile.mkdtemp(prefix="aobh")
            shutil.copytree(f"{V}/{hd}/src", f"{src}/src")
            for f in ("Cargo.toml", "Cargo.lock"):
                t = open(f"{V}/{hd}/{f}").read().replace('"/repo/', f'"{REPO}/')
                open(f"{src}/{f}", "w").write(t)
            env["CARGO_TARGET_DIR"] = os.environ["AOB_HTARGET"] + "-" + hd if "AOB_HTARGET" in os.environ else f"{src}/target"
        for hook in (True, False) if KIND["crate"] == "program" else (False,):
            e = dict(env, RUSTFLAGS="--cfg aob_verif")
            cmd = ["cargo", "build", "--offline", "--quiet"] + (["--features", "hook"] if hook else [])
            rc, _, err = sh(cmd, 500, cwd=src, env=e)
            if rc == 0:
                b = f"{e['CARGO_TARGET_DIR']}/debug/{KIND['bin']}"
                keep = tempfile.mkdtemp(prefix="aobbin")
                shutil.copy(b, f"{keep}/{KIND['bin']}")
                x = f"{e['CARGO_TARGET_DIR']}/expanded.rs"
                if os.path.exists(x):
                    shutil.copy(x, f"{keep}/expanded.rs")
                return f"{keep}/{KIND['bin']}", "with hooks" if hook else "without hooks", ""
            msg = err[-2500:]
    return None, "", msg


def dictionary():
    """the integer literals of the source under test: values worth trying"""
    vals = set()
    for f in sorted(glob.glob(f"{REPO}/{KIND['crate']}/src/**/*.rs", recursive=True)):
        try:
            t = open(f, errors="replace").read()
        except OSError:
            continue
        t = re.split(r"#\[cfg\(test\)\]\s*mod ", t)[0]
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|128|size))?(?:\s*<<\s*([0-9]+))?\b", t):
            try:
                v = int(m[1].replace("_", ""), 0) << int(m[2] or 0)
            except ValueError:
                continue
            if 3 < v < 1 << 64:
                vals.add(v)
    return sorted(vals)[:400]


def concrete(binary, prop, seconds, case=None):
    out = tempfile.mktemp(suffix=".json")
    cmd = [binary, "--prop", prop, "--seed", str(SEED), "--seconds", str(int(seconds)), "--threads", str(os.cpu_count() or 8), "--out", out]
    d = dictionary()
    if d:
        cmd[-2:-2] = ["--dict", ",".join(map(str, d))]
    if case is not None:
        cmd += ["--case", str(case)]
    rc, so, se = sh(cmd, seconds + 60)
    try:
        j = json.load(open(out))
        os.remove(out)
    except Exception:
        return {"cases": 0, "operations": 0, "longest": 0, "failed_to_run": f"exit {rc}: {se[-500:]}"}
    j["cmd"] = " ".join(cmd[:-2])
    return j


# ------------------------------------------------------------------ extraction and proof
def registry(crate, ver, path):
    """a source file of a dependency, in the version /repo is locked to"""
    t = ""
    for f in (f"{REPO}/Cargo.lock", f"{REPO}/program/Cargo.lock", f"{V}/harness/Cargo.lock"):
        try:
            t = open(f).read()
            break
        except OSError:
            pass
    m = re.findall(rf'name = "{crate}"\nversion = "([^"]+)"', t)
    if m:
        ver = m[-1]
    g = sorted(glob.glob(os.path.expanduser(f"~/.cargo/registry/src/*/{crate}-{ver}/{path}")))
    return g[0] if g else ""


def fpmath():
    return registry("bonfida-utils", "0.4.4", "src/fp_math.rs")


def prove_derived(expanded, work):
    """the code generated by derive macros, from the compiler's expansion, against the contracts the main proof assumes of it"""
    out = f"{work}/derived.rs"
    r = {"misfit": None, "verified": 0, "errors": 0, "smt_ms": 0, "diag": [], "wall": 0, "info": [], "map": None, "fns": [], "trusted": []}
    if not os.path.exists(expanded):
        return dict(r, misfit="no expansion of the crate")
    rc, so, se = sh([f"{V}/extract/target/debug/derive", "--expanded", expanded, "--prelude", f"{V}/contracts/derived/prelude.rs",
                     "--borshsize", registry("bonfida-utils", "0.4.4", "src/borsh_size.rs"), "--accounts", registry("bonfida-utils", "0.4.4", "src/accounts.rs"),
                     "--instruction", registry("solana-program", "1.18.23", "src/instruction.rs"), "--numtraits", registry("num-traits", "0.2.19", "src/cast.rs"),
                     "--out", out], 60)
    if rc != 0:
        return dict(r, misfit="extraction: " + (so + se).strip()[-300:])
    v = verus(out, [], min(240, left() - 60), 2)
    v["map"], v["info"], v["fns"] = None, line_info(out), json.loads(so)["fns"]
    text = open(out).read()
    body, spec = assumed_items(text)
    v["trusted"] = [f"derived code: assumed contract or opaque type: {x}" + (f" ({body.count(x)} instances)" if body.count(x) > 1 else "") for x in sorted(set(body))]
    v["trusted"] += [f"derived code: axiom {x}" for x in re.findall(r"axiom fn (\w+)", text)]
    v["trusted"] += [f"derived code: assumed contract of a std function: {x}" for x in sorted(set(spec))]
    v["trusted"] += ["derived code: extract/src/bin/derive.rs: what it replaces in the expanded text is listed at the top of that file"]
    return v


def extract(prop, cfg, out, mp, vac=False, fit=None, scope=None):
    cmd = [f"{V}/extract/target/debug/vx", "--repo", REPO, "--root", KIND["root"], "--contracts", f"{V}/{KIND['contracts']}", "--out", out, "--map", mp, "--prop", prop, "--cfg", cfg]
    if KIND["crate"] == "program":
        cmd += ["--features", "utils", "--fpmath", fpmath()]
    if vac:
        cmd.append("--vacuity")
    for k, v in (fit or {}).items():
        if v:
            cmd += [f"--{k}", v if isinstance(v, str) else "|".join(sorted(v))]
    if scope:
        cmd += ["--scope", ",".join(sorted(scope))]
    rc, so, se = sh(cmd, 60)
    return rc == 0, (so + se)[-2000:]


def line_info(path):
    """per line of the extracted file: function, clause, source position"""
    info = []
    fn = cl = src = None
    raw = None
    vac = None
    for l in open(path).read().split("\n"):
        s = l.strip()
        if s.startswith("//@fn "):
            fn, cl, raw = json.loads(s[6:]), None, None
        elif s.startswith("//@src "):
            cl, raw, vac = None, None, None
            p = s[7:].split(":")
            src = ":".join(p[:2])
            if len(p) < 3:
                fn = None
        elif s.startswith("//@raw "):
            fn, cl, raw = None, None, s[7:]
        elif s.startswith("//@vac "):
            vac = json.loads(s[7:])
        elif s.startswith("//@{"):
            try:
                cl = json.loads(s[3:])
            except ValueError:
                pass
        elif s.startswith("//@gen"):
            pass
        info.append((fn, cl, src, raw, vac, l))
    return info


def verus(path, extra, timeout, threads):
    d = os.path.dirname(path)
    env = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "RUSTC_WRAPPER"):
        env.pop(k, None)
    cmd = ["verus", os.path.basename(path), "--multiple-errors", "3", "--triggers-mode", "silent", "--output-json", "--time", "--rlimit", "60",
           "--num-threads", str(threads), "--error-format=json"] + extra
    t = time.time()
    rc, so, se = sh(cmd, timeout, cwd=d, env=env)
    r = {"cmd": " ".join(cmd), "rc": rc, "wall": time.time() - t, "verified": 0, "errors": 0, "smt_ms": 0, "misfit": None, "diag": []}
    try:
        j = json.loads(so[so.index("{"):])
        vr = j.get("verification-results", {})
        r["verified"], r["errors"] = vr.get("verified", 0), vr.get("errors", 0)
        r["smt_ms"] = j.get("times-ms", {}).get("smt", {}).get("total", 0)
        if vr.get("encountered-vir-error") or "verified" not in vr or (vr.get("encountered-error") and not r["errors"]):
            r["misfit"] = "not accepted by the verifier's front end"
    except ValueError:
        r["misfit"] = "time out" if rc is None else "the verifier gave no result"
    for l in se.split("\n"):
        if not l.startswith("{"):
            continue
        try:
            dg = json.loads(l)
        except ValueError:
            continue
        if dg.get("level") == "error" and not dg.get("message", "").startswith("aborting"):
            r["diag"].append(dg)
    r["err"] = se[-3000:] if r["misfit"] else ""
    return r


def renamed(m, fit):
    """variables and functions that only changed their name since the contracts were written"""
    base = meta_all().get("names", {})
    more = False
    lost = [x["fn"] for x in m["lost"] if x.get("anchor") == "function not found"]
    for l in lost:
        file = l.split("::")[0]
        new = [f for f in m["fns"] if not f["contracted"] and f["fn"] not in meta_all()["uncontracted"] and f["fn"].startswith(file + "::")
               and f["fn"].rsplit("::", 1)[0] == l.rsplit("::", 1)[0] and len(f.get("names", [])) == len(base.get(l, []))]
        if len(new) == 1 and f"{new[0]['fn']}={l}" not in fit["alias"]:
            fit["alias"].add(f"{new[0]['fn']}={l}")
            more = True
    al = dict(x.split("=", 1) for x in fit["alias"])
    for f in m["fns"]:
        old, new = base.get(al.get(f["fn"], f["fn"])), f.get("names")
        if not old or new is None or old == new or not f["contracted"]:
            continue
        mp = {}
        for op, a0, a1, b0, b1 in difflib.SequenceMatcher(None, old, new, autojunk=False).get_opcodes():
            if op == "replace" and a1 - a0 == b1 - b0:
                for o, n in zip(old[a0:a1], new[b0:b1]):
                    if o not in new and n not in old and mp.get(o, n) == n:
                        mp[o] = n
        for o, n in mp.items():
            x = f"{f['fn']}@{o}={n}"
            if x not in fit["rename"]:
                fit["rename"].add(x)
                more = True
    return more


def reshaped_loops(m):
    """functions with loops whose local variables differ from those the invariants were written for"""
    base = meta_all().get("names", {})
    return {f["fn"] for f in (m or {}).get("fns", []) if f.get("loops") and f.get("contracted") and base.get(f["fn"]) is not None and base[f["fn"]] != f.get("names")}


HINTS = ("ghost", "inv", "invxb", "lens", "dec")


def refit(r, fit):
    """the front end rejects the text: leave out the proof hints it rejects, then the body of a function it does not support"""
    n = sum(len(v) for v in fit.values() if not isinstance(v, str))
    sigs = {f["fn"]: f for f in (r["map"] or {}).get("fns", [])}
    for d in r["diag"]:
        sp = [s for s in d.get("spans", []) if s.get("is_primary")] or spans_of(d)
        for s in sp:
            fn, cl, src, raw, _, text = r["info"][min(max(s["line_start"] - 1, 0), len(r["info"]) - 1)]
            if not fn or "fn" not in fn:
                continue
            f = fn["fn"]
            if cl and cl.get("k") in HINTS and f not in fit["bare"]:
                fit["drop"].add(f"{f}@{cl['o']}")
            elif f in sigs and f not in fit["bare"] and sigs[f]["contracted"]:
                fit["bare"].add(f)
            elif f in sigs:
                fit["stub"].add(f)
    return sum(len(v) for v in fit.values() if not isinstance(v, str)) > n


def spans_of(d):
    r = list(d.get("spans", []))
    for c in d.get("children", []):
        r += c.get("spans", [])
    return r


def failures(res, info, own):
    """list of {fn, tags, what, src, kind, text}"""
    out = []
    for d in res["diag"]:
        msg = d["message"]
        body, sig = [], []
        for s in spans_of(d):
            i = min(max(s["line_start"] - 1, 0), len(info) - 1)
            fn, cl, src, raw, _, text = info[i]
            k = cl["k"] if cl else None
            (sig if k in ("req", "ens") else body).append((fn, cl, src, raw, text.strip(), s.get("label")))
        main = body or sig
        f = next((x[0]["fn"] for x in main if x[0]), None)
        raw = next((x[3] for x in main if x[3]), None) if not f else None
        tags = set()
        clauses = []
        for x in body + sig:
            if x[1]:
                same = x[0] and x[0]["fn"] == f
                if same or x[1]["k"] in ("ens", "req") or x[1]["k"] == "item":
                    if x[1]["k"] == "req" and not same:
                        clauses.append(f"{x[1].get('o','')}: {x[4]}")
                        continue
                    tags |= set(x[1].get("tags") or [])
                clauses.append(f"{x[1].get('o','')}: {x[4]}")
        src = next((x[2] for x in main if x[2]), None)
        code = [x[4] for x in main if not x[1]]
        hints = sorted({x[1]["o"] for x in body if x[1] and x[1]["k"] == "ghost" and x[0] and x[0]["fn"] == f})
        out.append({"fn": f, "raw": raw, "tags": sorted(tags), "what": msg, "src": src, "clauses": clauses, "code": code[:4], "hints": hints if hints and not code else [],
                    "rlimit": "rlimit" in msg.lower() or "resource limit" in msg.lower(), "text": d.get("rendered", msg)})
    return out


def prove(prop, work, threads=3, extra=()):
    """extraction and proof for both layouts and the vacuity copy, in parallel"""
    res = {}

    def one(name, cfg, vac):
        out, mp = f"{work}/{name}.rs", f"{work}/{name}.json"
        fit = {k: set() for k in ("rename", "alias", "drop", "bare", "stub", "noiso")}

        def bad(msg):
            res[name] = {"misfit": "extraction: " + msg.strip()[-300:], "verified": 0, "errors": 0, "smt_ms": 0, "diag": [], "wall": 0, "cmd": "vx", "err": msg, "map": None, "info": []}

        ok, msg = extract(prop, cfg, out, mp, vac)
        if not ok:
            return bad(msg)
        # names that changed: the contracts follow them
        for _ in range(2):
            more = renamed(json.load(open(mp)), fit)
            if not more:
                break
            ok, msg = extract(prop, cfg, out, mp, vac, fit)
            if not ok:
                return bad(msg)
        # functions nobody has written a contract for: unfolded where they are called
        if set(json.load(open(mp))["uncontracted"]) - set(meta_all()["uncontracted"]):
            fit["inline"] = "yes"
            for _ in range(2):
                ok, msg = extract(prop, cfg, out, mp, vac, fit)
                if not ok:
                    return bad(msg)
                if not renamed(json.load(open(mp)), fit):
                    break
        for _ in range(12):
            r = verus(out, list(extra), min(420, left() - 60), threads)
            r["map"] = json.load(open(mp))
            r["info"] = line_info(out)
            if not r["misfit"] or not r["diag"] or not refit(r, fit):
                break
            ok, msg = extract(prop, cfg, out, mp, vac, fit)
            if not ok:
                return bad(msg)
        r["fit"] = fit
        if not vac and not r["misfit"]:
            retry(r, name, cfg, fit)
        res[name] = r

    def retry(r, name, cfg, fit):
        """a failed proof hint is no obligation of the code: where nothing else fails in a function, prove it again without the hint"""
        fs = failures(r, r["info"], {})
        byfn = {}
        for f in fs:
            byfn.setdefault(f["fn"], []).append(f)
        reloop = reshaped_loops(r["map"])
        alone = set()

        def plan(byfn):
            """what to leave out or change, per function"""
            p = {}
            for k, v in byfn.items():
                if k and all(f["hints"] for f in v) and {f"{k}@{o}" for f in v for o in f["hints"]} - fit["drop"]:
                    p[k] = {f"{k}@{o}" for f in v for o in f["hints"]}
                elif k in reloop and k not in fit["noiso"]:
                    p[k] = set()
                    fit["noiso"].add(k)
                elif k and k not in alone and any(f["rlimit"] for f in v):
                    p[k] = set()
                    alone.add(k)
            return p

        fns = plan(byfn)
        for _ in range(4):
            if not fns or left() < 300:
                return
            for k, v in fns.items():
                fit["drop"] |= v
            fns = set(fns)
            out, mp = f"{work}/{name}-again.rs", f"{work}/{name}-again.json"
            for _ in range(8):
                ok, msg = extract(prop, cfg, out, mp, False, fit, fns)
                if not ok:
                    return
                q = verus(out, list(extra), min(300, left() - 200), threads)
                q["map"], q["info"] = json.load(open(mp)), line_info(out)
                if not q["misfit"] or not q["diag"] or not refit(q, fit):
                    break
            if q["misfit"]:
                return
            # the functions proved again replace their first result
            again = failures(q, q["info"], {})
            gone = {f["fn"] for f in fs if f["fn"] in fns} - {f["fn"] for f in again}
            r["errors"] = max(0, r["errors"] - len(gone))
            r["verified"] += len(gone)
            r.setdefault("again", []).extend(sorted(gone))
            r["replaced"] = r.get("replaced", set()) | fns
            r["extra_failures"] = [f for f in r.get("extra_failures", []) if f["fn"] not in fns] + [f for f in again if f["fn"] in fns]
            r["smt_ms"] += q["smt_ms"]
            byfn = {}
            for f in again:
                byfn.setdefault(f["fn"], []).append(f)
            fs = again
            fns = plan(byfn)

    ts = [threading.Thread(target=one, args=a) for a in KIND["copies"]]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return res


def main():
    global KIND
    prop = sys.argv[1]
    meta = json.load(open(f"{V}/tools/props.json")).get(prop, {})
    bounded_only = meta.get("bounded", False)
    KIND = KINDS[meta.get("crate", "program")]
    work = f"{V}/work/{prop}"
    os.makedirs(work, exist_ok=True)
    hb = {}

    def hbuild():
        hb["r"] = build_harness()

    th = threading.Thread(target=hbuild)
    th.start()
    ok, msg = build_vx()
    res = prove(prop, work) if ok else {}
    verdicts, undecided, deps, outside, hintless = [], [], [], [], []
    own_of = {}
    allmap = {}
    for name in [c[0] for c in KIND["copies"] if not c[2]]:
        r = res.get(name)
        if r is None:
            undecided.append("the extraction tool does not build: " + msg[-200:])
            continue
        m = r["map"]
        if m:
            for f in m["fns"]:
                own_of[f["fn"]] = f.get("own", [])
                allmap[f["fn"]] = f
        if r["misfit"]:
            undecided.append(f"{name}: {r['misfit']} {first_error(r)}")
            continue
        lost_in = {x.get("fn"): x.get("anchor") for x in m["lost"]}
        unc = set(m["uncontracted"])
        base_unc = set(meta_all()["uncontracted"])
        inl = {x["fn"]: x["helper"] for x in m.get("inlined", [])}
        new_unc = {short(u) for u in unc - base_unc}
        rel = closure(prop, m["fns"], r["info"])
        again = r.get("replaced", set())
        for f in [f for f in failures(r, r["info"], own_of) if f["fn"] not in again] + r.get("extra_failures", []):
            f["layout"] = name
            fn = f["fn"]
            if fn and fn not in rel:
                outside.append(f)
                continue
            mine = prop in f["tags"] or (not f["tags"] and fn and prop in own_of.get(fn, []))
            calls_new = sorted(set(c for c in allmap.get(fn, {}).get("calls", []) if c in new_unc)) if fn else []
            if f["rlimit"]:
                undecided.append(f"{name}: {fn}: solver resource limit")
                deps.append(f)
            elif fn in lost_in:
                undecided.append(f"{name}: {fn}: contract does not fit the code any more ({lost_in[fn]})")
                deps.append(f)
            elif calls_new:
                undecided.append(f"{name}: {fn} calls {', '.join(calls_new)}, which has no contract")
                deps.append(f)
            elif fn in inl:
                undecided.append(f"{name}: {fn}: not proved with {inl[fn]}, which has no contract, unfolded")
                deps.append(f)
            elif fn in reshaped_loops(m):
                undecided.append(f"{name}: {fn}: the loop invariants were written for other local variables")
                deps.append(f)
            elif mine:
                verdicts.append(f)
            else:
                deps.append(f)
        for l in m["lost"]:
            fn = l.get("fn")
            if fn in rel and l.get("hint"):
                # a proof hint that found no place: the proof is complete if it goes through all the same
                hintless.append(f"{name}: {fn}: {l.get('anchor')}")
            elif fn in rel:
                undecided.append(f"{name}: {fn}: {l.get('anchor')}")
    undecided = list(dict.fromkeys(undecided))
    # vacuity
    vac = res.get("vacuity")
    if vac and vac["misfit"] and not undecided:
        undecided.append(f"vacuity copy: {vac['misfit']} {first_error(vac)}")
    vac_n = vac_miss = 0
    vac_list = []
    if vac and not vac["misfit"]:
        hit = set()
        for d in vac["diag"]:
            for s in spans_of(d):
                i = s["line_start"] - 1
                if i < len(vac["info"]) and vac["info"][i][4] and "assert(false)" in vac["info"][i][5]:
                    hit.add(json.dumps(vac["info"][i][4], sort_keys=True))
        alln = {json.dumps(x[4], sort_keys=True) for x in vac["info"] if x[4]}
        vac_n = len(alln)
        vac_list = sorted(alln - hit)
        vac_miss = len(vac_list)
        for x in vac_list:
            undecided.append(f"vacuous: the entry or loop head {x} is unreachable under its contract")
    th.join()
    binary, mode, hmsg = hb["r"]

    # derived code
    der = None
    if meta.get("derived"):
        der = prove_derived(os.path.join(os.path.dirname(binary), "expanded.rs"), work) if binary else {"misfit": "the crate does not build", "verified": 0, "errors": 0, "fns": [], "smt_ms": 0}
        if der["misfit"]:
            undecided.append(f"derived code: {der['misfit']} {first_error(der) if der.get('diag') else ''}")
        else:
            for f in failures(der, der["info"], {}):
                undecided.append(f"derived code: {f['fn']}: {f['what']}")

    # concrete run
    trouble = bool(verdicts or deps or undecided)
    if TIER == "thorough":
        secs = 240
    elif verdicts or deps:
        secs = 150
    elif undecided:
        secs = 90
    else:
        secs = 12
    if bounded_only and not trouble:
        secs = max(secs, 45)
    if meta.get("seconds"):
        secs = max(secs, meta["seconds"])
    secs = max(5, min(secs, left() - 40))
    conc = concrete(binary, prop, secs) if binary else {"cases": 0, "operations": 0, "longest": 0, "failed_to_run": "harness does not build: " + hmsg[-300:]}

    violation = None
    os.makedirs(f"{V}/work/replay", exist_ok=True)
    rp = f"{V}/work/replay/{prop}.json"
    base = {"property": prop, "seed": SEED, "failed_obligations": [{k: f[k] for k in ("fn", "layout", "tags", "what", "src", "clauses", "code", "text")} for f in verdicts + deps],
            "undecided": undecided}
    if conc.get("violation"):
        v = conc["violation"]
        base.update({"failing_input": v["log"], "what": v["what"], "case": v["case"],
                     "replay_cmd": f"cd {V} && python3 tools/replay.py {prop} {SEED} {v['case']}"})
        violation = f"VIOLATION property={prop} replay={rp}"
        why = v["what"]
    elif verdicts:
        violation = f"VIOLATION property={prop} replay={rp} no-failing-input-found"
        why = "; ".join(sorted({f"{f['fn']}: {f['what']}" for f in verdicts}))
    if violation:
        json.dump(base, open(rp, "w"), indent=1)

    # evidence
    con = [f for f in allmap.values() if f.get("contracted") and f.get("verified")]
    touched = sorted(f["fn"] for f in con)
    owned = sorted(f["fn"] for f in con if prop in f.get("own", []))
    tagged = tagged_clauses(res.get("host"), prop)
    ob = sum(res[n]["verified"] + res[n]["errors"] for n in ("host", "solana") if n in res)
    di = sum(res[n]["verified"] for n in ("host", "solana") if n in res)
    if der:
        ob += der["verified"] + der["errors"]
        di += der["verified"]
    m0 = (res.get("host") or {}).get("map") or {}
    followed = sorted({x for n in ("host", "solana") for x in ((res.get(n) or {}).get("fit") or {}).get("rename", set())})
    again = sorted({x for n in ("host", "solana") for x in (res.get(n) or {}).get("again", [])})
    try:
        host_text = open(f"{work}/host.rs").read()
    except OSError:
        host_text = ""
    ev = {
        "property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
        "level": "exploration" if bounded_only else "proof",
        "coverage": {
            "obligations": ob, "discharged": di,
            "checker_cmd": (res.get("host") or {}).get("cmd", "verus"),
            "trusted_base": trusted_base(m0, host_text) + ((der or {}).get("trusted") or []),
            "backend": "Verus 0.2026.09.13 with its bundled Z3; one SMT query set per function" + (", per u128 layout" if KIND["crate"] == "program" else "; usize of 32 and of 64 bits"),
            "functions_under_contract": touched,
            "functions_owned_by_this_property": owned,
            "clauses_tagged_with_this_property": tagged,
            **({"derived_code": {"functions": der["fns"], "obligations": der["verified"] + der["errors"], "discharged": der["verified"], "solver_ms": der["smt_ms"],
                                 "from": "the compiler's macro expansion of /repo and the dependencies' sources (extract/src/bin/derive.rs)", "problem": der["misfit"]}} if der else {}),
            "functions_without_contract": m0.get("uncontracted", []),
            "solver_ms": {n: res[n]["smt_ms"] for n in ("host", "solana") if n in res},
            "proof_wall_s": {n: round(res[n]["wall"], 1) for n in res},
            "vacuity": {"planted_assert_false": vac_n, "not_refuted_as_expected": vac_miss},
            "failed_obligations": [f"{f['layout']} {f['fn']}: {f['what']}" for f in verdicts + deps],
            "undecided": undecided,
            "functions_unfolded_into_their_callers": [f"{x['helper']} into {x['fn']}" for x in m0.get("inlined", [])],
            "proof_hints_without_a_place": hintless, "renamed_variables_followed": followed, "proved_again_without_failed_hints": again,
            "bounded": {"what": ("random histories of the real crate against a reference model (not counted as proved)" if KIND["crate"] == "program" else "random books read by the real crate (not counted as proved)"), "evaluations": conc.get("cases", 0),
                        "operations": conc.get("operations", 0), "longest_case": conc.get("longest", 0), "seconds": round(secs), "harness": mode, "problem": conc.get("failed_to_run")},
        },
        "assumptions": assumptions(m0, meta),
        "wall_s": round(time.time() - T0, 1),
        "violations": 1 if violation else 0,
    }
    if bounded_only:
        ev["coverage"].update({"evaluations": conc.get("cases", 0), "distinct_nontrivial": conc.get("cases", 0),
                               "rule": "each case is a different pseudo-random history; non-trivial: it executes at least one instruction",
                               "samples": [f"case 0 of seed {SEED}: {conc.get('cmd','')} --case 0"]})
    os.makedirs(f"{V}/evidence", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    print(f"{prop}: {di}/{ob} obligations discharged, vacuity {vac_n - vac_miss}/{vac_n}, concrete {conc.get('cases',0)} cases / {conc.get('operations',0)} operations in {round(secs)} s, {round(time.time()-T0)} s in all")
    for u in undecided[:12]:
        print("UNDECIDED (bounded stand-in used):", u)
    for t in dict.fromkeys(f"{f['fn']}: {f['what']}" for f in deps[:12]):
        print("note: failed obligation in a function this property rests on:", t)
    for t in dict.fromkeys(f"{f['fn']}" for f in outside):
        print("note: failed obligation in a function this property does not rest on:", t)
    if conc.get("failed_to_run"):
        print("note: concrete run:", conc["failed_to_run"])
    for l in known_findings(prop):
        print(f"KNOWN-FINDING: property={prop} {l}")
    if binary:
        shutil.rmtree(os.path.dirname(binary), ignore_errors=True)
    for n in ("vacuity.rs",):
        try:
            os.remove(f"{work}/{n}")
        except OSError:
            pass
    if violation:
        for f in verdicts[:6]:
            print(f"failed obligation: {f['fn']} ({f['src']}): {f['what']} {'; '.join(f['clauses'][:2])}")
        print("reason:", why)
        print(violation)
        sys.exit(1)
    sys.exit(0)


def closure(prop, fns, info):
    """functions the property rests on: owners, functions with a clause tagged with it, and all they call"""
    by = {}
    for f in fns:
        by.setdefault(short(f["fn"]), []).append(f)
    seen = {f["fn"] for f in fns if prop in f.get("own", [])}
    seen |= {x[0]["fn"] for x in info if x[0] and x[1] and prop in (x[1].get("tags") or [])}
    todo = list(seen)
    idx = {f["fn"]: f for f in fns}
    while todo:
        for c in idx.get(todo.pop(), {}).get("calls", []):
            for g in by.get(c.rsplit("::", 1)[-1], []):
                if g["fn"] not in seen:
                    seen.add(g["fn"])
                    todo.append(g["fn"])
    return seen


def short(u):
    return u.rsplit("::", 1)[-1]


_META = None


def meta_all():
    global _META
    if _META is None:
        _META = json.load(open(f"{V}/{KIND['baseline']}"))
    return _META


def first_error(r):
    for d in r["diag"]:
        sp = [s for s in spans_of(d)]
        at = ""
        if sp and r.get("info"):
            i = min(sp[0]["line_start"] - 1, len(r["info"]) - 1)
            at = f" at {r['info'][i][2]}"
        return d["message"][:200] + at
    return r.get("err", "")[-300:].strip().replace("\n", " ")


def tagged_clauses(r, prop):
    if not r or not r.get("info"):
        return 0
    seen = set()
    for x in r["info"]:
        if x[1] and prop in (x[1].get("tags") or []):
            seen.add((x[1].get("o"), x[1].get("k")))
    return len(seen)


def known_findings(prop):
    out = []
    try:
        for l in open(f"{V}/known-findings"):
            l = l.strip()
            if l.startswith(f"finding: property={prop} "):
                out.append(l.split(" ", 2)[2])
    except OSError:
        pass
    return out


def trusted_base(m, text=""):
    """What the proof takes on trust: everything in the verified text that Verus does not check."""
    t = ["Verus, its vstd library and Z3", "rustc's front end", "extract/ (vx): mechanical extraction; what it drops is listed under assumptions",
         "contracts/stubs.rs: contracts assumed for bytemuck, borsh, num_traits, solana_program and bonfida_utils::checks" if KIND["crate"] == "program" else
         "contracts_wasm/stubs.rs: contracts assumed for borsh (decoders of the integer types and of the derived ones, field by field), RefCell (read only), slice to array conversion, from_le_bytes, to_owned"]
    t += [f"trusted contract: {x}" for x in m.get("trusted", [])]
    body, spec = assumed_items(text)
    for x in sorted(set(body)):
        t.append(f"assumed contract or opaque type: {x}" + (f" ({body.count(x)} instances)" if body.count(x) > 1 else ""))
    t += [f"assumed contract of a std function: {x}" for x in sorted(set(spec))]
    n = len(re.findall(r"\bassume\(", text))
    if n:
        t.append(f"{n} assume() statements, all in the generated call records of marked functions (ran_X holds of the arguments and the result of the call, an uninterpreted relation)")
    return t


def assumed_items(text):
    spec = re.findall(r"assume_specification(?:<[^\[]*>)? ?\[(.+?)\] ?\(", text)
    body, gen, mod = [], [], []
    pend = False
    for l in text.split("\n"):
        c = l.strip()
        if c.startswith("//"):
            continue
        g = re.match(r"(?:pub )?mod (\w+) *\{", c)
        if g:
            mod.append((len(l) - len(l.lstrip()), g.group(1)))
        if "external_body]" in c:
            pend = True
        g = re.search(r"\bfn (\w+)|\bstruct (\w+)", c) if pend else None
        if g:
            body.append(g.group(1) or g.group(2))
            pend = False
    return body, spec


def assumptions(m, meta):
    a = [f"dropped by the extraction: {x}" for x in m.get("dropped", [])]
    a += [f"extraction: {x}" for x in m.get("notes", [])]
    a += meta.get("assumes", [])
    return a


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except Exception as e:  # an internal error decides nothing
        import traceback
        traceback.print_exc()
        print("INTERNAL ERROR:", e)
        sys.exit(3)
