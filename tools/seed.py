#!/usr/bin/env python3
"""Plant bugs: tools/seed.py add SPEC.py | check ID... | tests ID...
SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo=python source)].
Everything happens in scratch copies under /tmp; /repo is never touched."""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")

def copy():
    d = tempfile.mkdtemp(prefix="seedwt_")
    subprocess.run(["cp", "-a", "/repo/.", d], check=True)
    return d

def demo(ident, cwd):
    d = tempfile.mkdtemp(prefix="demo_")
    for f in os.listdir(os.path.join(S, ident)):
        if f not in ("meta.json", "patch.diff"):
            shutil.copy(os.path.join(S, ident, f), d)
    try:
        p = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=cwd, env=ENV, capture_output=True, text=True, timeout=300)
        return p.returncode, (p.stdout + p.stderr)[-300:]
    finally:
        shutil.rmtree(d)

def add(spec):
    for s in runpy.run_path(spec)["SEEDS"]:
        wt = copy()
        try:
            for fn, old, new in s["edits"]:
                p = os.path.join(wt, fn)
                t = open(p).read()
                assert t.count(old) == 1, (s["id"], fn, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            d = os.path.join(S, s["id"])
            os.makedirs(d, exist_ok=True)
            diff = subprocess.run(["git", "diff"], cwd=wt, capture_output=True, text=True, check=True).stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
            open(os.path.join(d, "demo.py"), "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\n" + s["demo"])
            open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n# cwd: the repository. Exit 0 when the behaviour is right.\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
            a, b = demo(s["id"], "/repo"), demo(s["id"], wt)
            print(s["id"], "clean", a[0], "patched", b[0], "OK" if a[0] == 0 and b[0] != 0 else "!!! " + a[1] + b[1], flush=True)
        finally:
            shutil.rmtree(wt)

def patched(ident):
    wt = copy()
    subprocess.run(["git", "apply", os.path.join(S, ident, "patch.diff")], cwd=wt, check=True)
    return wt

def check(idents):
    for i in idents or sorted(os.listdir(S)):
        prop = json.load(open(os.path.join(S, i, "meta.json")))["property"]
        wt = patched(i)
        try:
            p = subprocess.run([os.path.join(V, "check.sh"), prop], env=dict(os.environ, VF_REPO=wt), capture_output=True, text=True)
            print(i, prop, "CAUGHT" if p.returncode == 1 and "VIOLATION property=" + prop in p.stdout else f"MISSED rc={p.returncode}", [l for l in p.stdout.splitlines() if l.startswith("failing")] or p.stdout[-300:], flush=True)
        finally:
            shutil.rmtree(wt)

def tests(idents):
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for i in idents or sorted(os.listdir(S)):
        wt = patched(i)
        w = tempfile.mkdtemp()
        try:
            p = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "xdist.plugin", "-n", os.environ.get("SEED_N", "4"), "--rootdir=" + wt, wt], cwd=w, env=dict(ENV, PYTHONPATH=wt), capture_output=True, text=True)
            print(i, p.stdout.strip().splitlines()[-1], flush=True)
        finally:
            shutil.rmtree(wt); shutil.rmtree(w)

if __name__ == "__main__":
    c = sys.argv[1]
    if c == "add":
        add(sys.argv[2])
    else:
        {"check": check, "tests": tests}[c](sys.argv[2:])
