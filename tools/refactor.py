#!/usr/bin/env python3
"""Applies the edits of refactorings.py, each in a copy, and runs the checks that depend on the edited code. None may exit 1.

refactor.py [-j N] [-t DIR] [NAME..]: scratch and outputs (NAME.PROPERTY) in DIR, default /tmp/vp-refactor; removed afterwards
except for the outputs."""
import argparse, os, queue, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from refactorings import RF
ap = argparse.ArgumentParser()
ap.add_argument("-j", type=int, default=3)
ap.add_argument("-t", default="/tmp/vp-refactor")
ap.add_argument("names", nargs="*")
a = ap.parse_args()
rf = [r for r in RF if not a.names or r[0] in a.names]
os.makedirs(a.t + "/out", exist_ok=True)
q = queue.Queue()
bad = []
for i in range(a.j):
    v = "%s/v%d" % (a.t, i)
    shutil.rmtree(v, ignore_errors=True)
    shutil.copytree(V, v, ignore=shutil.ignore_patterns(".git", "seeded"), symlinks=True)
    q.put(i)


def job(r):
    name, edits, props = r
    i = q.get()
    try:
        repo = "%s/r%d" % (a.t, i)
        shutil.rmtree(repo, ignore_errors=True)
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns("target", ".git"))
        for f, o, n in edits:
            p = repo + "/src/" + f
            t = open(p).read()
            live = re.sub(r"/\*.*?\*/", lambda m: "\0" * len(m.group(0)), t, flags=re.S)   # not in comments
            at = 0 if o == t else live.find(o)
            if at < 0:
                print(name, "OLD NOT FOUND", f, o[:60], flush=True)
                return
            open(p, "w").write(t[:at] + n + t[at + len(o):])
        p = subprocess.run(["cargo", "test", "--offline", "-q"], cwd=repo, env=dict(os.environ, CARGO_TARGET_DIR="%s/t%d" % (a.t, i)), capture_output=True, text=True)
        if p.returncode:
            print(name, "TESTFAIL", [l for l in (p.stdout + p.stderr).splitlines() if "error" in l or "panicked" in l][:4], flush=True)
            return
        out = []
        for c in props.split():
            p = subprocess.run(["python3", "check.py", c], cwd="%s/v%d" % (a.t, i), env=dict(os.environ, VP_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick"), capture_output=True, text=True)
            s = p.stdout
            v = "NOINPUT" if "no-failing" in s else "VIOLATION" if "VIOLATION" in s else "PROVED" if "PROVED" in s else "BOUNDED" if "BOUNDED" in s else "ODD"
            out.append("%s:%s(%d)" % (c, v, p.returncode))
            if p.returncode:
                bad.append(name)
            open("%s/out/%s.%s" % (a.t, name, c), "w").write(s + p.stderr)
        print(name, " ".join(out), flush=True)
    finally:
        q.put(i)


with ThreadPoolExecutor(a.j) as ex:
    list(ex.map(job, rf))
for i in range(a.j):
    for k in "vrt":
        shutil.rmtree("%s/%s%d" % (a.t, k, i), ignore_errors=True)
print("alarms:", sorted(set(bad)))
