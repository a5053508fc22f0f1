#!/usr/bin/env python3
"""check.py PROPERTY: decides one property by contract-based verification of /repo's current source.

 1. vx extracts the functions the property depends on from /repo and weaves in the contracts.
 2. Verus discharges the obligations. All accepted: the property is proved, exit 0.
 3. Otherwise the harness searches for a failing input on the real crate. Found: VIOLATION.
 4. None found: if the code kept the shape the contracts are written for, the failed obligation
    itself is the violation (no-failing-input-found); if the code left that shape (a loop of
    another kind, a construct the verifier or the extractor does not know), the harness's bounded
    search is the answer, labelled bounded.
"""
import json, os, re, subprocess, sys, time, itertools, shutil, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
WORK = os.path.join(VERIF, ".work")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
T0 = time.time()

CONF = json.load(open(os.path.join(VERIF, "contracts", "units.json")))
ENV = dict(os.environ, RUST_BACKTRACE="0", CARGO_NET_OFFLINE="true")
LOG = []


def say(*a):
    print(*a, flush=True)


def run(cmd, timeout, env=None, cwd=None):
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env or ENV,
                           cwd=cwd, errors="replace", stdin=subprocess.DEVNULL)
        rc, out, err = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        f = lambda b: (b or b"").decode(errors="replace") if isinstance(b, (bytes, type(None))) else b
        rc, out, err = 124, f(e.stdout), f(e.stderr)
    return rc, out, err, time.time() - t


def build_vx():
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(WORK, "vx"))
    rc, out, err, dt = run(["cargo", "build", "--offline", "--quiet"], 600, env, os.path.join(VERIF, "extract"))
    if rc != 0:
        raise SystemExit("cannot build the extractor:\n" + err[-3000:])
    return os.path.join(WORK, "vx", "debug", "vx")


def extract(vx, unit, d, choices=None, extra=()):
    out, rep, cf = (os.path.join(d, unit + x) for x in (".rs", ".report.json", ".choices.json"))
    for f in (out, rep):
        if os.path.exists(f):
            os.remove(f)
    json.dump(choices or {}, open(cf, "w"))
    rc, so, se, _ = run([vx, "--repo", REPO, "--contracts", os.path.join(VERIF, "contracts"), "--unit", unit,
                         "--out", out, "--report", rep, "--choices", cf, *extra], 120)
    if rc != 0:
        return None, None, (so + se).strip()[-2000:]
    return out, json.load(open(rep)), ""


def regions(path):
    """line -> function under contract, or the lemma file"""
    m, cur, stack = {}, None, []
    for i, l in enumerate(open(path), 1):
        if l.startswith("//@BEGIN "):
            cur = l[9:].strip()
        elif l.startswith("//@END"):
            cur = None
        elif l.startswith("//@RAW "):
            cur = "lemmas " + l[7:].strip()
        elif l.startswith("//@RAWEND"):
            cur = None
        m[i] = cur
    return m


def site(block):
    """The line of the code whose obligation failed: a clause of a trait's contract is another place than the method that breaks it."""
    cur = None
    for l in block.split("\n"):
        m = re.match(r"\s*(\d+)\s*\|", l)
        if m:
            cur = int(m.group(1))
        elif cur and re.search(r"[-^_] (at this exit|at the end of the function body)", l):
            return cur
    return None


def left():
    """seconds left for the proofs: a check of the quick tier must answer in time, the search for a failing input included"""
    return (520 if TIER != "thorough" else 3000) - (time.time() - T0)


def verus(path, rlimit=30, seed=None, timeout=420, extra=()):
    cmd = ["verus", os.path.basename(path), "--output-json", "--time", "--multiple-errors", "5", "--rlimit", str(rlimit),
           "--num-threads", "8", *extra]
    if seed:
        cmd += ["--smt-option", "smt.random_seed=%d" % seed]
    rc, out, err, dt = run(cmd, max(20, min(timeout, left())), cwd=os.path.dirname(path))
    res = {"rc": rc, "cmd": " ".join(cmd), "wall": dt, "stderr": err, "path": path, "verified": 0, "errors": None, "smt_ms": 0,
           "functions": {}, "failed": [], "kind": "ok"}
    try:
        j = json.loads(out)
        vr = j["verification-results"]
        res["verified"], res["errors"] = vr.get("verified", 0), vr.get("errors", 0)
        res["success"] = vr.get("success", False)
        res["vir_error"] = vr.get("encountered-vir-error", False)
        smt = j.get("times-ms", {}).get("smt", {})
        res["smt_ms"] = smt.get("smt-run", 0)
        for m in smt.get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                n = f["function"].split("::", 1)[-1]
                x = res["functions"].setdefault(n, {"us": 0, "queries": 0, "ok": True})
                x["us"] += f.get("time-micros", 0)
                x["queries"] += 1
                x["ok"] = x["ok"] and f.get("success", False)
    except Exception:
        res["success"] = False
        res["vir_error"] = True
    if res["success"] and not res["errors"] and res["verified"] > 0 and rc == 0:
        return res
    # which obligations failed, by function
    reg = regions(path)
    base = os.path.basename(path)
    blocks = re.split(r"\n(?=(?:error|note|warning)[:\[])", "\n" + err)
    rlim = False
    for b in blocks:
        b = b.strip("\n")
        if not b.startswith("error"):
            continue
        head = b.split("\n", 1)[0]
        if head.startswith("error: aborting"):
            continue
        m = re.search(r"--> %s:(\d+):" % re.escape(base), b)
        where = reg.get(site(b)) or (reg.get(int(m.group(1))) if m else None)
        if "rlimit" in head.lower() or "resource limit" in head.lower():
            rlim = True
        res["failed"].append({"what": head, "function": where, "line": int(m.group(1)) if m else None, "text": b[:3000]})
    if rc == 124:
        res["kind"] = "timeout"
    elif res["failed"] and all("must have a decreases clause" in f["what"] for f in res["failed"]):
        res["kind"] = "failed"        # a function that calls itself: termination is an obligation
    elif res["errors"] in (None, 0) or res["vir_error"]:
        res["kind"] = "rejected"      # not in the verifier's language: no obligation was decided
    elif rlim and all("rlimit" in f["what"].lower() or "resource limit" in f["what"].lower() for f in res["failed"]):
        res["kind"] = "rlimit"
    else:
        res["kind"] = "failed"
    return res


def shape(rep):
    r = {f["key"]: {"loops": [l["kind"] for l in f["loops"]], "closures": f["closures"]} for f in rep["functions"]}
    r["_others"] = rep["others"]
    # what loops carry along in variables, and returns out of them
    r["_carried"] = {f["key"]: [len(f["carried"]), f["exits"]] for f in rep["functions"] if f.get("carried") or f.get("exits")}
    r["_locals"] = {f["key"]: f["locals"] + f["params"] for f in rep["functions"] if f["vars"]}
    return r


def baseline(unit):
    try:
        return json.load(open(os.path.join(VERIF, "contracts", "shapes.json"))).get(unit, {})
    except Exception:
        return {}


def intact(rep, unit, funcs):
    """Do the functions (all of them if funcs is empty) still have the loops their contracts speak about?"""
    base = baseline(unit)
    now = shape(rep)
    for f in rep["functions"]:
        k = f["key"]
        if funcs and k not in funcs:
            continue
        if f["unbound"] or f.get("loops_without_invariant"):
            return False, "%s: %s" % (k, "a variable its contract names is gone" if f["unbound"] else "a loop without invariant")
        if k in base and base[k] != now[k]:
            return False, "%s: its loops or closures are of another kind: %s, was %s" % (k, now[k], base[k])
        (c0, e0), (c1, e1) = base.get("_carried", {}).get(k, [0, 0]), now["_carried"].get(k, [0, 0])
        if c1 > c0:
            return False, "%s: a loop has a variable that its invariants do not know: %s" % (k, ", ".join(f["carried"]))
        if e1 < e0:
            return False, "%s: a loop is no longer left by return" % k
        if f.get("unfamiliar"):
            return False, "%s: computes by %s, for which its contract has no lemmas" % (k, ", ".join(f["unfamiliar"]))
        if f.get("opaque"):
            return False, "%s: calls %s, which is not under contract and cannot be inlined" % (k, ", ".join(f["opaque"]))
    return True, ""


def concerns(out, rep, about):
    """The functions of the unit that those the property is about (a pattern) may call, by name; operators and conversions count as called."""
    reg, text = regions(out), {}
    for i, l in enumerate(open(out), 1):
        if reg.get(i):
            text.setdefault(reg[i], []).append(l)
    keys = [f["key"] for f in rep["functions"]]
    unseen = {"eq", "ne", "clone", "cmp", "partial_cmp", "deref", "deref_mut", "borrow", "from", "into", "next", "default", "drop", "fmt"}
    got = {k for k in keys if re.search(about, k) or k.split("::")[-1] in unseen}
    todo = list(got)
    while todo:
        called = set(re.findall(r"(\w+)", "".join(text.get(todo.pop(), []))))
        for k in keys:
            if k not in got and k.split("::")[-1] in called:
                got.add(k)
                todo.append(k)
    return got | {k for k in text if k not in keys}


def rank(f, was):
    """Assignments of the function's variables to the names its contract is missing, the likeliest first: in the order of declaration
    that the contract was written for, and no variable twice."""
    names = []
    for n in f["locals"] + f["params"]:
        if n not in names and not n.endswith(("_s", "_t", "_e")):
            names.append(n)
    bound = {v for k, v in f["vars"] if k not in f["unbound"]}
    old = {k: v for k, v in f["vars"]}
    was = [n for i, n in enumerate(was) if n not in was[:i]]
    # the positions of the names that are gone, among those that are not there any more; and of the new names
    gone = [n for n in was if n not in names]
    new = [n for n in names if n not in was]
    pool = [n for n in names if n not in bound][:8] + [n for n in names if n in bound][:3]
    opts = []
    for c in itertools.product(pool, repeat=len(f["unbound"])):
        cost = 0
        for k, n in zip(f["unbound"], c):
            o = old[k]
            if o in gone and n in new:
                cost += 2 * abs(gone.index(o) - new.index(n)) + (0 if o in was and n in names and abs(was.index(o) - names.index(n)) <= 1 else 1)
            else:
                cost += 4
            cost += 3 if n in bound else 0
        cost += 5 * (len(c) - len(set(c)))
        opts.append((cost, c))
        if len(opts) > 200000:
            break
    opts.sort(key=lambda x: x[0])
    return [dict(zip(f["unbound"], c)) for _, c in opts[:120]]


def search_vars(vx, unit, d, rep, budget):
    """The contract of a function names a local variable that is gone: try the others."""
    was = baseline(unit).get("_locals", {})
    cands = [(f["key"], rank(f, was.get(f["key"], []))) for f in rep["functions"] if f["unbound"]]
    choices = {k: o[0] for k, o in cands if o}
    best = None
    t = time.time()
    for key, opts in cands:
        for o in opts:
            if time.time() - t > budget:
                return best
            choices[key] = o
            out, r2, e = extract(vx, unit, d, choices)
            if out is None:
                continue
            v = verus(out)
            bad = {f["function"] for f in v["failed"]}
            if v["kind"] == "ok":
                return (out, r2, v)
            if v["kind"] == "failed" and key not in bad:
                best = (out, r2, v)
                break
        else:
            if opts:
                choices[key] = opts[0]
    return best


def mined_literals():
    """integer literals of the source: inputs that a changed source may single out"""
    xs = set()
    for p in glob.glob(os.path.join(REPO, "src", "**", "*.rs"), recursive=True):
        t = open(p, errors="replace").read()
        t = t.split("#[cfg(test)]")[0]
        t = re.sub(r"//.*", "", t)
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?:u8|u16|u32|u64|usize|i32|i64|isize)?(?![\w.])", t):
            try:
                x = int(m.group(1).replace("_", ""), 0)
            except ValueError:
                continue
            xs.add(x)
    return sorted(xs)


def harness(prop, secs, d, timeout, release=False):
    """the concrete cases; release: without debug assertions and overflow checks"""
    gen = os.path.join(d, "gen")
    os.makedirs(gen, exist_ok=True)
    lits = mined_literals()
    mined = sorted({y for x in lits for y in (x - 1, x, x + 1) if 0 <= y < 2**63})
    core = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 63, 64, 65}
    alph = [y for y in mined if 1 <= y < 2**32 and y not in core][:24]
    small = [y for y in mined if 1 <= y <= 40 and y not in {1, 2, 3, 4, 5}][:12]
    open(os.path.join(gen, "extra.rs"), "w").write(
        "pub const MINED: &[u64] = &[%s];\n" % ", ".join(map(str, mined)) +
        "macro_rules! extra_alphabets { ($f:ident, $h:expr) => { each!($f, $h, %s); } }\n" % " ".join(map(str, alph)) +
        "macro_rules! extra_small { ($f:ident, $h:expr) => { each!($f, $h, %s); } }\n" % " ".join(map(str, small)) +
        "macro_rules! extra_widths { ($f:ident, $h:expr) => { each!($f, $h, %s); } }\n" % " ".join(map(str, [y for y in alph if y >= 2])))
    env = dict(ENV, VP_GEN=gen, CARGO_TARGET_DIR=os.path.join(WORK, "harness-release" if release else "harness"), VERIF_SEED=str(SEED),
               RUSTFLAGS="-Awarnings" + (" --cfg rustyalgebra_verif" if CONF[prop].get("hook") else "") + (" -Cdebug-assertions=off" if release else ""))
    src = os.path.join(VERIF, "harness")
    if REPO != "/repo":
        src = os.path.join(d, "harness")
        shutil.rmtree(src, ignore_errors=True)
        shutil.copytree(os.path.join(VERIF, "harness"), src, ignore=shutil.ignore_patterns("target"))
        p = os.path.join(src, "Cargo.toml")
        t = open(p).read().replace('"/repo"', '"%s"' % REPO)
        open(p, "w").write(t)
    build, sub = ["cargo", "build", "--offline", "--quiet", "--features", prop], ()
    if CONF[prop].get("sanitizer") and not release:
        # memory accesses are watched by the address sanitizer, which the nightly compiler has
        san = dict(env, RUSTFLAGS=env["RUSTFLAGS"] + " -Zsanitizer=address", ASAN_OPTIONS="detect_leaks=0:abort_on_error=0")
        sb = ["cargo", "+nightly"] + build[1:] + ["--target", "x86_64-unknown-linux-gnu"]
        rc, out, err, dt = run(sb, 700, san, src)
        if rc == 0:
            build, env, sub = sb, san, ("x86_64-unknown-linux-gnu",)
    rc, out, err, dt = run(build, 700, env, src)
    if rc != 0:
        return {"built": False, "log": err[-3000:], "fails": [], "evals": 0, "distinct": 0, "samples": [], "wall": dt}
    exe = os.path.join(env["CARGO_TARGET_DIR"], *sub, "debug", "vp-harness")
    rc, out, err, dt2 = run([exe, prop, str(secs)], timeout, env)
    r = {"built": True, "rc": rc, "fails": [], "evals": 0, "distinct": 0, "samples": [], "wall": dt + dt2, "log": err[-1500:],
         "cmd": "VERIF_SEED=%d vp-harness %s %d" % (SEED, prop, secs), "done": "\nDONE" in "\n" + out}
    group = ""
    for l in out.splitlines():
        if l.startswith("FAIL "):
            r["fails"].append(l[5:])
        elif l.startswith("SAMPLE "):
            r["samples"].append(l[7:])
        elif l.startswith("GROUP "):
            group = l[6:]
        elif l.startswith("STATS "):
            m = re.search(r"evaluations=(\d+) distinct=(\d+)", l)
            r["evals"], r["distinct"] = int(m.group(1)), int(m.group(2))
    if not r["fails"] and not r["done"]:
        if rc == 124:
            r["fails"] = []   # out of time without a verdict on the case at hand: no finding
        else:
            r["fails"].append("%s %s -- the process ends abnormally (status %d) %s" % (prop, group, rc, err[-400:].replace("\n", " ")))
    return r


def write_evidence(prop, cov, assumptions, level, violations):
    p = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(p), exist_ok=True)
    ev = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level, "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - T0, 2), "violations": violations}
    json.dump(ev, open(p, "w"), indent=1)


def isolate(out):
    """Once more, with every loop seen through its invariant alone: a smaller question to the solver."""
    t = open(out).read().replace("#![verifier::loop_isolation(false)]\n", "", 1)
    p = out[:-3] + "_isolated.rs"
    open(p, "w").write(t)
    return verus(p, rlimit=120, timeout=200)


def decide(vx, unit, d, again=True):
    """extract and verify one unit"""
    out, rep, e = extract(vx, unit, d)
    if out is None:
        return (unit, None, None, e)
    v = verus(out)
    if not again:
        return (unit, rep, v, "")
    if v["kind"] in ("rlimit", "timeout"):
        # an undecided obligation: more resources, another seed
        for s in (0, 7, 23):
            if left() < 60:
                break
            v2 = verus(out, rlimit=150, seed=s, timeout=200)
            if v2["kind"] not in ("rlimit", "timeout"):
                v = v2
                break
    if v["kind"] != "ok" and any(f["unbound"] for f in rep["functions"]):
        r = search_vars(vx, unit, d, rep, min(200, left() - 40))
        if r:
            out, rep, v = r
    elif v["kind"] == "failed":
        # a proof near the solver's limits may need more than the default
        v2 = verus(out, rlimit=120, seed=11, timeout=200)
        if v2["kind"] == "ok":
            v = v2
        else:
            v2 = isolate(out)
            if v2["kind"] == "ok":
                v = v2
    return (unit, rep, v, "")


def main():
    prop = sys.argv[1]
    conf = CONF[prop]
    d = os.path.join(WORK, prop)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    vx = build_vx()
    units = conf.get("units", [prop])
    results, lost = [decide(vx, u, d) for u in units], []
    # units whose contracts these rely on: verified too, so that the proof of the property is whole
    props = []
    todo = list(conf.get("depends", []))
    while todo:
        p = todo.pop(0)
        if p not in props and p != prop:
            props.append(p)
            todo += CONF[p].get("depends", [])
    deps = [u for p in props for u in CONF[p].get("units", [p])]
    ok = all(v is not None and v["kind"] == "ok" for _, _, v, _ in results)
    dep_results = [decide(vx, u, d, ok and left() > 120) for u in dict.fromkeys(deps) if u not in units]
    for unit, rep, v, e in results + dep_results:
        if rep is None:
            lost.append("%s: %s" % (unit, e))
        elif v["kind"] == "ok":
            new = sorted(set(rep["others"]) - set(baseline(unit).get("_others", rep["others"])))
            if new and not conf.get("obligations"):
                lost.append("%s: not under contract: %s" % (unit, ", ".join(new)))
    if conf.get("obligations"):
        # memory safety: every place that leaves the compiler's checks is in one of the units
        seen = {x for _, rep, _, _ in results if rep for f in rep["functions"] for x in [f["key"], *f["inlined"]]}
        for x in sorted({x for _, rep, _, _ in results if rep for x in rep["unsafe"]}):
            if x not in seen and x.split("::")[-1] not in seen:
                lost.append("unsafe code that is not under contract: " + x)
    for unit, rep, v, e in dep_results:
        if v is not None and v["kind"] != "ok":
            lost.append("%s, which this property relies on: %s" % (unit, v["kind"]))
    accepted = not lost and all(v is not None and v["kind"] == "ok" for _, _, v, _ in results + dep_results)

    fns, obligations, discharged, smt, cmds = {}, 0, 0, 0, []
    inlined, trusted = set(), []
    for unit, rep, v, e in results + dep_results:
        if rep is None:
            continue
        for f in rep["functions"]:
            fns[f["key"]] = {"contract": f["has_contract"], "body": f["has_body"], "loops": len(f["loops"])}
            inlined.update(f["inlined"])
        if v:
            obligations += v["verified"] + (v["errors"] or 0)
            discharged += v["verified"]
            smt += v["smt_ms"]
            cmds.append("vx --unit %s | %s" % (unit, v["cmd"]))
        src = open(os.path.join(d, unit + ".rs")).read()
        trusted += sorted(set(re.findall(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:broadcast )?(?:proof )?(?:unsafe )?fn (\w+)", src)))
        trusted += sorted(set(re.findall(r"assume_specification\s*(?:<[^>]*>)?\s*\[\s*([^\]]*?)\s*\]", src)))
        trusted += sorted(set(re.findall(r"axiom fn (\w+)", src)))
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": " ; ".join(cmds) or "none",
        "trusted_base": CONF["_trusted"] + conf.get("trusted", []) + ["assumed inside the unit: " + ", ".join(sorted(set(trusted)))] ,
        "back_end": "Verus 0.2026.09.13 with Z3",
        "solver_ms": smt,
        "functions_under_contract": sorted(k for k, f in fns.items() if f["body"]),
        "helpers_inlined": sorted(inlined),
        "extraction": CONF["_extraction"],
    }
    assumptions = CONF["_assumptions"] + conf.get("assumptions", [])

    # every function of the property must really have produced obligations
    if accepted and (obligations < sum(1 for f in fns.values() if f["body"]) or not fns):
        accepted = False
        lost.append("fewer obligations than functions")

    if accepted and TIER != "thorough":
        cov["verdict"] = "all obligations accepted"
        write_evidence(prop, cov, assumptions, "proof", 0)
        say("PROVED property=%s functions=%d obligations=%d solver_ms=%d wall=%.1fs" % (prop, len(cov["functions_under_contract"]), obligations, smt, time.time() - T0))
        return 0

    vac = None
    if accepted:
        # thorough: no contract is vacuous, the proofs hold with another solver seed, and the real crate agrees with the contracts on concrete inputs
        vac = vacuity(vx, [r[0] for r in results + dep_results], d)
        cov["vacuity"] = vac
        for unit, rep, v, e in results + dep_results:
            extract(vx, unit, d)
            v2 = verus(os.path.join(d, unit + ".rs"), rlimit=150, seed=SEED + 100)
            cov.setdefault("second_seed", []).append({"unit": unit, "verdict": v2["kind"], "verified": v2["verified"]})
    hr = harness(prop, 240 if TIER == "thorough" else 100, d, 500 if TIER == "thorough" else 300)
    if hr["built"] and not hr["fails"] and time.time() - T0 < 640:
        # the same cases in a build like a release
        h2 = harness(prop, 60, d, 150, True)
        if h2["built"]:
            h2["fails"] = ["(built without debug assertions) " + f for f in h2["fails"]]
            hr = dict(hr, fails=h2["fails"], evals=hr["evals"] + h2["evals"], wall=hr["wall"] + h2["wall"])
    cov["replay_search"] = {"evaluations": hr["evals"], "distinct": hr["distinct"], "samples": hr["samples"][:8], "built": hr["built"],
                            "findings": hr["fails"][:5]}
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, prop + ".txt")
    failtxt = []
    for unit, rep, v, e in results + dep_results:
        if v is None:
            failtxt.append("unit %s: %s" % (unit, e))
        elif v["kind"] != "ok":
            failtxt.append("unit %s: %s (%d verified, %s errors)" % (unit, v["kind"], v["verified"], v["errors"]))
            for f in v["failed"][:8]:
                failtxt.append("obligation of %s: %s\n%s\n" % (f["function"], f["what"], f["text"]))
            if not v["failed"]:
                failtxt.append(v["stderr"][-3000:])
    failtxt += ["outside the contracts: " + l for l in lost]
    if hr["fails"]:
        open(rpath, "w").write("Property %s is broken on the real code.\n\nFailing inputs (replay: %s):\n%s\n\nVerifier:\n%s\n" % (
            prop, hr.get("cmd", ""), "\n".join(hr["fails"]), "\n".join(failtxt) or "accepted all obligations"))
        cov["verdict"] = "failing input found"
        write_evidence(prop, cov, assumptions, "proof", len(hr["fails"]))
        for f in hr["fails"][:3]:
            say("FAILS " + f[:600])
        for t in failtxt[:3]:
            say(t[:600])
        say("VIOLATION property=%s replay=%s" % (prop, rpath))
        return 1
    if accepted:
        bad = [x for x in (vac or {}).get("vacuous", [])]
        if bad:
            say("contracts that nothing can satisfy: %s" % bad)
        cov["verdict"] = "all obligations accepted"
        write_evidence(prop, cov, assumptions, "proof", 0)
        say("PROVED property=%s functions=%d obligations=%d solver_ms=%d replayed=%d wall=%.1fs" % (
            prop, len(cov["functions_under_contract"]), obligations, smt, hr["evals"], time.time() - T0))
        return 0
    # no failing input; is the failure one of an obligation about code of the known shape?
    why = list(lost)
    for unit, rep, v, e in results:
        if v is None or v["kind"] == "ok":
            continue
        if v["kind"] == "rejected":
            why.append("%s: the verifier does not accept the extracted text: %s" % (unit, (v["failed"] or [{"what": v["stderr"][-300:]}])[0]["what"]))
        elif v["kind"] in ("timeout", "rlimit"):
            why.append("%s: the solver gave up" % unit)
        else:
            bad = v["failed"]
            if conf.get("obligations"):
                # of the failed obligations only those on memory accesses speak about this property
                bad = [f for f in bad if "precondition" in f["what"] and re.search(conf["obligations"], f["text"])]
                if not bad:
                    why.append("%s: an obligation that is not about memory failed: %s of %s" % (unit, v["failed"][0]["what"], v["failed"][0]["function"]))
                    continue
            if conf.get("about"):
                own = concerns(v["path"], rep, conf["about"])
                bad = [f for f in bad if f["function"] in own or f["function"] not in {g["key"] for g in rep["functions"]}]
                if not bad:
                    why.append("%s: a function that this property does not use failed: %s" % (unit, v["failed"][0]["function"]))
                    continue
            ok, w = intact(rep, unit, {f["function"] for f in bad})
            if not ok:
                why.append("%s: %s" % (unit, w))
            else:
                why = None
                break
    if why is None or not hr["built"]:
        open(rpath, "w").write("Property %s: an obligation is not accepted; no failing input was found in %d cases.\n\n%s\n%s\n" % (
            prop, hr["evals"], "\n".join(failtxt), "" if hr["built"] else "the harness does not build:\n" + hr["log"]))
        cov["verdict"] = "obligation failed, no failing input found"
        write_evidence(prop, cov, assumptions, "proof", 1)
        for t in failtxt[:3]:
            say(t[:800])
        say("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rpath))
        return 1
    cov["verdict"] = "bounded: the code left the contracts' reach; no failing input in the bounded search"
    cov["bounded_because"] = why
    cov["evaluations"], cov["distinct_nontrivial"] = hr["evals"], hr["distinct"]
    cov["rule"] = "concrete cases of the property on the real crate, generated as in harness/src; distinct by their text"
    cov["samples"] = hr["samples"][:8]
    write_evidence(prop, cov, assumptions, "exploration", 0)
    say("BOUNDED property=%s (not proved: %s) cases=%d wall=%.1fs" % (prop, "; ".join(why)[:500], hr["evals"], time.time() - T0))
    return 0


def vacuity(vx, units, d):
    """false must not be provable at the start of any function or loop body under contract"""
    res = {"checked": 0, "vacuous": []}
    for unit in units:
        out, rep, e = extract(vx, unit, d, None, ("--vacuity",))
        if out is None:
            res["vacuous"].append(e)
            continue
        v = verus(out)
        failed = {f["function"] for f in v["failed"]}
        reg = regions(out)
        want = {}
        failed_lines = {f["line"] for f in v["failed"]}
        for i, l in enumerate(open(out), 1):
            if "vp_vacuity" in l:
                res["checked"] += 1
                if i not in failed_lines:
                    want.setdefault(reg.get(i), []).append(i)
        res["vacuous"] += ["%s: %s" % (unit, k) for k in want]
    return res


if __name__ == "__main__":
    try:
        sys.exit(main())
    finally:
        pass
