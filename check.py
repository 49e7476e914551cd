#!/usr/bin/env python3
"""Run the static check of one property on /repo's current working tree:  python3 check.py C01

exit 0: the rule holds on everything analysed (listed known findings are printed as KNOWN-FINDING lines)
exit 1: VIOLATION line; the report file lists every violated obligation with file:line, rule and instance
exit 3: the analysis itself is broken (an anchor vanished, the sources do not compile, ...)"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from oslan import ir                       # noqa: E402
from oslan.ir import AnalysisBroken        # noqa: E402
from oslan.rules import common             # noqa: E402
from oslan.rules.registry import RULES     # noqa: E402

KNOWN = os.path.join(HERE, "known_findings.txt")


def known_keys(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("finding: ") and f"property={prop} " in line:
                k = line.split(" key=", 1)[1]
                k, _, what = k.partition(" :: ")
                out[k.strip()] = what.strip()
    return out


def main():
    prop = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    spec = RULES[prop]
    ev = os.environ.get("OSLAN_EVID") or os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    try:
        M = ir.build()
        rep = common.Report(M, prop)
        rep.tier = tier
        for modname, fn in spec["run"]:
            mod = importlib.import_module("oslan.rules." + modname)
            getattr(mod, fn)(M, rep)
        # vacuity guard: a rule that suddenly finds (nearly) nothing to decide gives no answer.  The bound leaves room for
        # a refactored function or two; a violation found by another rule is reported in any case.
        if not rep.violations:
            for rule, n in spec.get("need", {}).items():
                rep.need(rule, max(1, n // 4))
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN:", e)
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN: internal error")
        return 3
    kn = known_keys(prop)
    new = [v for v in rep.violations if v["key"] not in kn]
    old = [v for v in rep.violations if v["key"] in kn]
    for v in old:
        print(f"KNOWN-FINDING: property={prop} {v['file']}:{v['line']} {v['func']}: [{v['rule']}] {v['msg']}")
    wall = time.time() - t0
    obligations = len(rep.instances) + len(rep.violations) + len(rep.undecided)
    per_rule = dict(sorted(rep.counts.items()))
    funcs = sorted({f for f, _, _ in rep.instances})
    cov = dict(
        explanation=spec["explain"],
        obligations=obligations, discharged=len(rep.instances), undecided=len(rep.undecided), violated=len(new), known_findings=len(old),
        obligations_by_rule=per_rule,
        translation_units=len(M.sources), functions_in_program=sum(1 for f in M.funcs.values() if not f.decl),
        functions_with_obligations=len(funcs), functions=funcs[:200],
        undecided_samples=[" | ".join(map(str, u))[:300] for u in rep.undecided[:20]],
        samples=[" | ".join(map(str, x))[:200] for x in rep.instances[:: max(1, len(rep.instances) // 12)]][:14],
        rules=spec["rules"], extra=getattr(rep, "extra", {}))
    json.dump(dict(property=prop, tier=tier, seed=seed, level="other", coverage=cov, wall_s=round(wall, 3)),
              open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    print(f"{prop}: {len(M.sources)} units, {obligations} obligations, {len(rep.instances)} discharged, {len(rep.undecided)} undecided, "
          f"{len(new)} violated, {len(old)} known; {wall:.1f}s")
    for u in rep.undecided[:10]:
        print("undecided:", " | ".join(map(str, u))[:300])
    if new:
        path = os.path.join(ev, prop + ".violation.txt")
        with open(path, "w") as f:
            for v in new:
                f.write(f"{v['file']}:{v['line']}: in {v['func']}: rule {v['rule']}: {v['msg']}\n    key: {v['key']}\n")
        for v in new[:20]:
            print(f"{v['file']}:{v['line']}: in {v['func']}: rule {v['rule']}: {v['msg']}"[:400])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
