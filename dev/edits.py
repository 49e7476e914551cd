#!/usr/bin/env python3
"""Development self-test: applies small edits to a scratch copy of /repo/source+include and runs checks on it.
   python3 dev/edits.py [-p C01,C02] [-k name-substring] [-b (also compile-check with gcc)] [-j N] [-v]
Each edit: dict(name, file, subs=[(old,new)...], kind 'ok'|'bug', props=[...]) in dev/ed_*.py.
For kind ok all (selected) checks must stay quiet; for kind bug one of the props' checks must report."""
import argparse, glob, importlib.util, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
ap = argparse.ArgumentParser()
ap.add_argument("-p", default=""); ap.add_argument("-k", default=""); ap.add_argument("-b", action="store_true"); ap.add_argument("-j", type=int, default=6)
ap.add_argument("-v", action="store_true"); ap.add_argument("-K", default=""); ap.add_argument("-f", default="")
a = ap.parse_args()
sys.path.insert(0, os.path.dirname(HERE))
from oslan.rules.registry import RULES
edits = []
for f in sorted(glob.glob(HERE + "/ed_*.py")):
    sp = importlib.util.spec_from_file_location("x", f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m); edits += m.EDITS
sel = [p for p in a.p.split(",") if p]
edits = [e for e in edits if (e["name"].startswith(a.k[1:]) if a.k[:1] == "^" else a.k in e["name"]) and (not a.K or e["kind"] == a.K) and (not sel or e["kind"] == "ok" or set(e["props"]) & set(sel))]
if a.f: edits = [e for e in edits if any(x in str(e["file"]) for x in a.f.split(","))]
def go(e):
    d = tempfile.mkdtemp(prefix="ed_")
    try:
        subprocess.run(["cp", "-a", "/repo/source", "/repo/include", "/repo/Makefile.am", "/repo/configure.ac", d], check=True)
        for x in ("_build",):
            os.makedirs(d + "/_build/include/osl", exist_ok=True)
            if os.path.exists("/repo/_build/include/osl/scop.h"): shutil.copy("/repo/_build/include/osl/scop.h", d + "/_build/include/osl/")
        fs = e["file"]
        for o, n in e["subs"]:
            ok = False
            for f in ([fs] if isinstance(fs, str) else fs):
                p = os.path.join(d, f); t = open(p).read()
                if o in t:
                    open(p, "w").write(t.replace(o, n, 1)); ok = True; break
            if not ok: return e, "EDIT-FAILED " + o[:60]
        if a.b:
            for f in ([fs] if isinstance(fs, str) else fs):
                if f.endswith(".c"):
                    r = subprocess.run(["gcc", "-fsyntax-only", "-w", "-DOSL_GMP_IS_HERE", "-I" + d + "/include", "-I" + d + "/_build/include", d + "/" + f], capture_output=True, text=True)
                    if r.returncode: return e, "COMPILE-FAILED " + r.stderr[:300]
        res = {}
        ps = sel or ([p for p in e["props"] if p in RULES] if e["kind"] == "bug" else list(RULES))
        for p in ps:
            if p not in RULES: continue
            r = subprocess.run([sys.executable, os.path.join(os.path.dirname(HERE), "check.py"), p], capture_output=True, text=True, env=dict(os.environ, OSLAN_REPO=d, OSLAN_EVID=d))
            res[p] = (r.returncode, r.stdout + r.stderr[-300:])
        return e, res
    finally:
        shutil.rmtree(d)
bad = tot = 0
with ThreadPoolExecutor(a.j) as ex:
    for e, r in ex.map(go, edits):
        tot += 1
        if isinstance(r, str):
            print("!!", e["name"], r); bad += 1; continue
        codes = {p: c for p, (c, _) in r.items()}
        if e["kind"] == "ok": good = all(c == 0 for c in codes.values())
        else: good = any(c == 1 for c in codes.values()) and all(c in (0, 1) for c in codes.values())
        und = sum(o.count("\nundecided:") for _, o in r.values())
        if not good or a.v:
            print("ok " if good else "BAD", e["kind"], e["name"], {p: c for p, c in codes.items() if c or a.v}, "undecided %d" % und if und else "")
            for p, (c, o) in r.items():
                if (c and (e["kind"] == "ok" or a.v)) or a.v:
                    print("    " + "\n    ".join(l[:260] for l in o.splitlines()[:5]))
        bad += not good
print(tot, "edits,", bad, "not as expected")
