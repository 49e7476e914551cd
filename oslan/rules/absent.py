"""C21: operations given an absent structure, or a structure with an absent part, never access memory through it."""
import re
from ..ir import AnalysisBroken
from ..modref import ModRef
from ..nullness import Nullness, NULL, NN, BOT, PN
from .common import *

OPS = re.compile(r"^osl_\w+?_(dump|idump|p?print(_\w+)?|spprint(_\w+)?|sprint|psprint\w*|n?clone(_nconstraints)?|free(_inside)?|equal(_one)?|part_equal|count|number|size|"
                 r"integrity_check|check_compatible_scoplib|get_\w+|is_\w+|has_\w+|lookup|find|nb_\w+|to_strings|names|union|filter|concat(_constraints)?)$")
# helpers that work on the inside of one existing structure (documented so)
INNER = {"osl_annotation_text_clone", "osl_annotation_text_idump", "osl_region_text_clone", "osl_region_text_idump", "osl_region_clone_one"}
OPTSTR = {("scop", "language"), ("loop", "private_vars"), ("loop", "user"), ("pluto_unroll", "iter")}


# operations on a list or a stack given by the place of its head: an empty one, and nothing to add
HEADS = re.compile(r"^osl_\w+?_(add|push|pop|dup|drop|destroy|remove(_node|_part)?)$")


def chain_text(k):
    out, i = [], 0
    while i + 1 < len(k):
        out.append(f"{k[i]}:{k[i + 1]}")
        i += 2
    return " -> ".join(out)


def run(M, rep):
    check_model(M)
    mr = ModRef(M)
    N = Nullness(M, mr.targets, mr)
    ops = []
    for n, F_ in sorted(M.funcs.items()):
        b = n.split("@")[0]
        if F_.decl or b not in M.ptypes or not OPS.match(b) or b in INNER or b not in M.public:
            continue
        ts = M.ptypes[b]
        off = 0 if F_.nparams == len(ts) and "..." not in ts else -1
        ps = [(p + off, t) for p, t in enumerate(ts) if p > 0 and t.startswith(S) and t.count("*") == 1 and p + off < F_.nparams]
        if ps:
            ops.append((n, F_, ps))
    # --- absent operand
    for n, F_, ps in ops:
        sp = {p for p, _ in ps}
        for p, t in ps:
            res = []
            for others in ((NN,) if len(ps) == 1 else (NN, BOT)):
                r, fs = N.call(n, tuple(NULL if k == p else others if k in sp else BOT for k in range(F_.nparams)))
                res.append((r, fs))
            fs = [x for _, f in res for x in f]
            what = f"{t[len(S):].rstrip('*')} operand {p}"
            if fs:
                k, w = fs[0]
                rep.bad(n, k[1], "absent-operand", f"with an absent {what}: {w} at {chain_text(k)}", key=f"{n}:{p}")
            elif any(r is None for r, _ in res):
                rep.bad(n, F_.line, "absent-operand", f"with an absent {what} the operation always stops the program", key=f"{n}:{p}:stop")
            else:
                rep.ok(n, "absent-operand", what)
    # --- empty list or stack
    H = Nullness(M, mr.targets, mr)
    H.memory = True
    for n, F_ in sorted(M.funcs.items()):
        b = n.split("@")[0]
        if F_.decl or b not in M.ptypes or not HEADS.match(b) or b not in M.public:
            continue
        ts = M.ptypes[b]
        off = 0 if F_.nparams == len(ts) else -1
        hs = [(p + off, t) for p, t in enumerate(ts) if p > 0 and t.startswith(S) and t.count("*") in (1, 2) and p + off < F_.nparams]
        q = {p: t.count("*") for p, t in hs}
        if 2 not in q.values():
            continue
        for p, t in hs:
            r, fs = H.call(n, tuple((PN if q[k] == 2 else NULL) if k == p or q.get(k) == q[p] == 2 else BOT for k in range(F_.nparams)))
            what = ("empty " if t.count("*") == 2 else "absent ") + f"{t[len(S):].rstrip('*')} operand {p}"
            if fs:
                k, w = fs[0]
                rep.bad(n, k[1], "empty-list", f"with an {what}: {w} at {chain_text(k)}", key=f"{n}:{p}")
            elif r is None:
                rep.bad(n, F_.line, "empty-list", f"with an {what} the operation always stops the program", key=f"{n}:{p}:stop")
            else:
                rep.ok(n, "empty-list", what)
    # --- absent part
    for T in sorted(FIELDS):
        if T == "names":
            continue
        for k, (fn, ty) in enumerate(M.fields[S + T]):
            kind = FIELDS[T].get(fn, "")
            if not (kind.startswith(("own:", "link")) or kind == "data" or (T, fn) in OPTSTR):
                continue
            seen = set()
            for n, F_, ps in ops:
                # only operations that can reach such a structure are an obligation
                sp = {p for p, _ in ps}
                ctx = tuple(NN if q in sp else BOT for q in range(F_.nparams))
                r, fs = N.call(n, ctx, (S + T, k))
                for x, w in fs:
                    leaf = x[-2:]
                    if leaf in seen:
                        continue
                    seen.add(leaf)
                    rep.bad(leaf[0], leaf[1], "absent-part", f"with an absent {T}.{fn}: {w} ({chain_text(x)})", key=f"{leaf[0]}:{T}.{fn}")
                if not fs and (n, (S + T, k)) in N.reads:
                    rep.ok(n, "absent-part", f"{T}.{fn}")
    # --- absent part of one structure among others (a list of which one element lacks it)
    for n, F_, ps in ops:
        sp = {p for p, _ in ps}
        ctx = tuple(NN if q in sp else BOT for q in range(F_.nparams))
        for T in sorted(FIELDS):
            if T == "names":
                continue
            bs = N.bases(F_, S + T)
            for k, (fn, ty) in enumerate(M.fields[S + T]):
                kind = FIELDS[T].get(fn, "")
                if not (kind.startswith(("own:", "link")) or kind == "data" or (T, fn) in OPTSTR):
                    continue
                for b, line in sorted(bs.get(k, {}).items(), key=str):
                    fs = N.part(n, ctx, (S + T, k), b)
                    if not fs:
                        rep.ok(n, "absent-in-one", f"{T}.{fn}, line {line}")
                    for x, w in fs[:1]:
                        rep.bad(n, x[1], "absent-in-one", f"with an absent {T}.{fn} in one structure: {w} ({chain_text(x)})", key=f"{n}:{T}.{fn}:one")
