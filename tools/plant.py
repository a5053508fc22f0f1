#!/usr/bin/env python3
"""plant.py ID.. [--check PROP|own|none]: confirm seeded/ID in a scratch copy of /repo (builds, 43 tests pass, demo passes before and fails after)
and run the property's check against the copy."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
args = sys.argv[1:]
which = "own"
if "--check" in args:
    i = args.index("--check"); which = args[i + 1]; del args[i:i + 2]
def sh(c, cwd, t=600, **e):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=dict(os.environ, **e), errors="replace")
    return p.returncode, p.stdout
for i in args:
    s = os.path.join(V, "seeded", i)
    meta = json.load(open(os.path.join(s, "meta.json")))
    d = tempfile.mkdtemp(prefix="plant_")
    try:
        r = os.path.join(d, "repo")
        sh("git clone -q /repo %s && cp -a /repo/Cargo.lock %s/ 2>/dev/null; true" % (r, r), "/")
        dd = os.path.join(d, "demo"); os.mkdir(dd)
        for f in os.listdir(s):
            if f not in ("meta.json", "patch.diff"):
                shutil.copy(os.path.join(s, f), dd)
        a, o1 = sh("bash %s/demo.sh" % dd, r)
        c, o = sh("git apply %s/patch.diff" % s, r)
        if c: print(i, "PATCH DOES NOT APPLY", o); continue
        t, o2 = sh("cargo test --offline 2>&1 | grep -E '^test result|FAILED|^error' | head -5", r, CARGO_TARGET_DIR=d + "/t")
        b, o3 = sh("bash %s/demo.sh" % dd, r)
        ok = a == 0 and b != 0 and "43 passed" in o2
        print(i, meta["property"], "OK" if ok else "BAD", "demo clean=%d patched=%d" % (a, b), o2.strip().replace("\n", " ")[:120])
        if not ok: print(o1[-1500:], "\n----\n", o3[-1500:])
        if which != "none":
            for p in ([meta["property"]] if which == "own" else which.split(",")):
                c, o = sh("python3 check.py " + p, V, 900, VP_REPO=r)
                print("   check %s rc=%d %s" % (p, c, " | ".join(l[:400] for l in o.strip().split("\n") if l.startswith(("VIOL", "FAILS", "PROVED", "BOUND", "Trace")))[-700:]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    sys.stdout.flush()
