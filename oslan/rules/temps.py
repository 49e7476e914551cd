"""C19: what an operation obtains for its own use is released exactly once on every path, or handed on; nothing is used
after its release.  Decided by the ownership typestate of oslan/owner.py."""
import os
from concurrent.futures import ProcessPoolExecutor
from multiprocessing import get_context
from ..owner import Owner, Sim, REQUEST
from ..ir import AnalysisBroken
from .common import *

_O = None


def releasing(O, F):
    """does the function release anything it was given or read?"""
    for i in F.insts:
        if i.op != "call":
            continue
        for k in range(len(i.ops)):
            if "F" in O.effect(i, k) or "F" in O.content_effect(i, k):
                return True
    return False


def what(O, F, b):
    if b[0] == "param":
        return "parameter " + str(F.params[b[1]].id or b[1])
    if b[0] == "load":
        a = b[1].ops[0]
        if a.k == "inst" and a.v.op == "gep" and O.part(a):
            return "the former " + a.v.sty[len(S):] + "." + O.M.fields[a.v.sty][a.v.ops[2].v][0]
        return "a pointer read"
    ts = O.mr.targets(b[1])
    same = [j for j in F.insts if j.op == "call" and set(O.mr.targets(j)) & set(ts)]
    part = ""
    if b[0] == "field":
        part = "'s " + O.M.fields[b[2][0][0]][b[2][0][1][1]][0]
    return f"{ts[0] if ts else '?'}" + part + (f"#{[j.n for j in same].index(b[1].n)}" if len(same) > 1 else "")


def one(fn):
    O = _O
    F = O.M.funcs[fn]
    out = []
    sims = list(O.done.get(fn, ()))
    bs = []
    swaps = any(i.op == "store" and i.ops[0].ty in ("ptr", None) and O.part(i.ops[1]) for i in F.insts)
    if releasing(O, F):
        bs += [("param", k) for k in range(F.nparams) if F.params[k].ty == "ptr"]
        bs += [("load", i) for i in F.insts if i.op == "load" and i.ty == "ptr"]
    elif swaps:
        bs += [("load", i) for i in F.insts if i.op == "load" and i.ty == "ptr" and O.part(i.ops[0])]
    for b in bs:
        sims.append((b, Sim(O, F, b).run()))
    for b, s in sims:
        line = b[1].line if b[0] != "param" else F.line
        end = set(s.outcomes)
        out.append((b[0], what(O, F, b), line, dict(s.found), bool(s.returned or s.outs)))
    return fn, out


def run(M, rep):
    global _O
    check_model(M)
    _O = O = Owner(M)
    if sum(1 for s in O.sum.values() if s.fresh) < 60 or sum(1 for s in O.sum.values() if frozenset("F") in s.param) < 15:
        raise AnalysisBroken("ownership summaries vanished")
    fns = sorted(n for n, F in M.funcs.items() if not F.decl)
    with ProcessPoolExecutor(min(8, os.cpu_count() or 1), mp_context=get_context("fork")) as ex:
        res = list(ex.map(one, fns, chunksize=4))
    for fn, items in res:
        for kind, name, line, found, handed in items:
            made = kind not in ("param", "load")
            bad = False
            for (w, l), (rl, msg) in sorted(found.items(), key=repr):
                if w == "undecided":
                    rep.undec(fn, "released-once" if made else "not-used-after", f"{name} (line {line}): {msg}")
                    bad = True
                    continue
                if w == "leak":
                    rep.bad(fn, line, "released-once", f"{name} (line {line}) is taken out of its place and neither released, returned nor stored on a path that returns at line {rl}" if kind == "load" else
                            f"what {name} hands out at line {line} is neither released, returned nor stored on a path that returns at line {rl}",
                            key=f"{fn}:leak:{name}")
                elif w == "twice":
                    rep.bad(fn, l, "released-once", f"{name} (line {line}) is released a second time by {msg}, after line {rl}", key=f"{fn}:twice:{name}")
                elif w == "returned":
                    rep.bad(fn, l, "not-used-after", f"{name} (line {line}) is returned after its release at line {rl}", key=f"{fn}:returned:{name}")
                elif w == "shared":
                    rep.bad(fn, l, "not-used-after", f"{name} (line {line}) is released by {msg} with what held it, though it has been stored in another structure", key=f"{fn}:shared:{name}")
                else:
                    rep.bad(fn, l, "not-used-after", f"{name} (line {line}) is {msg} after its release at line {rl}", key=f"{fn}:used:{name}")
                bad = True
            if not bad:
                rep.ok(fn, "released-once" if made else "not-used-after", f"{name} line {line}" + (": handed to the caller" if handed else ""))
