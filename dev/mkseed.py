#!/usr/bin/env python3
"""dev/mkseed.py FILE.py [ID...]: build /verif/seeded/<id> from definitions
SEEDS = [dict(id, prop, subs=[(file, old, new)...], demo=C source, needs, breaks, flags='')], confirm each on /repo
(builds, 21 tests pass, demo 0 without / nonzero with the patch) and show what the checks say."""
import importlib.util, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# exit 0: behaves as promised; nonzero: broken.  Everything is written to a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/seed.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
gcc -g -w -DOSL_GMP_IS_HERE %s -I/repo/include -I/repo/_build/include "$D/demo.c" $(find /repo/source -name '*.c') -lgmp -o "$T/demo" || exit 2
cd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo > out.txt 2>&1
rc=$?
head -c 2000 out.txt
exit $rc
"""
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
def clean(): sh("git -C /repo checkout -- .")
sp = importlib.util.spec_from_file_location("x", sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
want = sys.argv[2:]
for s in m.SEEDS:
    if want and s["id"] not in want: continue
    d = f"{V}/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.c", "w").write(s["demo"])
    open(d + "/demo.sh", "w").write(DEMO % s.get("flags", ""))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    assert not sh("git -C /repo status --short").stdout.strip(), "repo dirty"
    r0 = sh(f"cd /repo && bash {d}/demo.sh")
    try:
        fail = ""
        for f, o, n in s["subs"]:
            p = "/repo/" + f
            t = open(p).read()
            if t.count(o) < 1: fail = "no match: " + o[:50]; break
            if t.count(o) > 1 and not s.get("first"): fail = "ambiguous: " + o[:50]; break
            open(p, "w").write(t.replace(o, n, 1))
        if fail: print("!!", s["id"], fail); continue
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        t = sh("bash /opt/vp/test.sh /tmp/o.json")
        passed = len(json.load(open("/tmp/o.json"))["passed"])
        r1 = sh(f"cd /repo && bash {d}/demo.sh")
        cs = {}
        for pr in [s["prop"]] + s.get("also", []):
            c = sh(f"cd {V} && OSLAN_EVID=/tmp python3 check.py {pr}")
            cs[pr] = c.returncode
        good = r0.returncode == 0 and r1.returncode not in (0, 2) and passed == 21
        print("ok " if good else "BAD", s["id"], "demo", r0.returncode, "->", r1.returncode, "tests", passed, "checks", cs)
        if not good: print((r0.stdout + r0.stderr)[-400:], "\n--\n", (r1.stdout + r1.stderr)[-400:])
    finally:
        clean()
sh("bash /opt/vp/build.sh")
