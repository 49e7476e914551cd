"""C08: operations that only inspect a structure never write to it, to anything it leads to, and never release it."""
import re
from ..ir import AnalysisBroken
from ..engine import Engine, Incomplete
from ..modref import ModRef
from .common import *

# operations that inspect or copy, whatever their prototype says
OBSERVER = re.compile(r"^osl_\w+?_(p?print(_\w+)?|s?p?print(_\w+)?|dump|idump|idump_indent|equal(_one)?|part_equal|n?clone(_one|_nconstraints)?|count|number|size|lookup|find|has_URI|"
                      r"is_\w+|get_\w+|check_\w+|integrity_check|nb_components|to_strings|names|strings|column_string(_scoplib)?|expression|subexpression|concat|concat_constraints|filter|union)$")
SKIP = {"osl_relation_check_attribute", "osl_names_names"}


def run(M, rep):
    check_model(M)
    mr = ModRef(M)
    for f, l in sorted(mr.unknown):
        rep.undec(f, "purity", f"call at line {l} to an unknown function")
    oblig = {}
    for n, F_ in sorted(M.funcs.items()):
        base = n.split("@")[0]
        if F_.decl or base not in M.ptypes:
            continue
        ts, cs = M.ptypes[base], M.pconst.get(base, [])
        off = 0 if F_.nparams == len(ts) and "..." not in ts else -1      # a structure returned by value is a hidden first parameter
        for p, t in enumerate(ts):
            if p == 0 or not t.startswith(S) or t.count("*") != 1 or p + off >= F_.nparams:
                continue
            if p < len(cs) and cs[p]:
                oblig.setdefault(n, []).append((p + off, t, "read-only operand"))
            elif OBSERVER.match(base) and base not in SKIP:
                oblig.setdefault(n, []).append((p + off, t, "operand of an inspecting operation,"))
    if len(oblig) < 150:
        raise AnalysisBroken(f"only {len(oblig)} inspecting operations found")
    owed = {(n, p) for n, ps in oblig.items() for p, _, _ in ps}
    for n, ps in sorted(oblig.items()):
        for p, t, why in ps:
            ws = {k: w for k, w in mr.W[n].items() if k[0] == p}
            if not ws:
                rep.ok(n, "purity", f"parameter {p} ({t[len(S):].rstrip('*')}, {why}) is never written")
                continue
            (_, d), w = sorted(ws.items(), key=lambda x: x[0][1])[0]
            if w[3]:
                # only the path-insensitive provenance says so: confirm on the paths of this function
                if not confirm(M, mr, n, p):
                    rep.ok(n, "purity", f"parameter {p} ({t[len(S):].rstrip('*')}, {why}): no path writes it")
                    continue
            ch = mr.chain(n, (p, d))
            # reported once, where the writing call chain enters an operation that owes nothing itself
            if w[1] is not None and any((w[1], q) in owed and (q, dd) in mr.W[w[1]] for q in range(8) for dd in (0, 1)):
                continue
            path = " -> ".join(f"{f}:{l}" for f, l in ch)
            rep.bad(n, w[0], "purity", f"the {why} {F_names(M, n, p)} is modified ({w[2]}): {path}", key=f"{n}:{p}")


def confirm(M, mr, fn, p):
    memo = mr.__dict__.setdefault("_confirm", {})
    if (fn, p) not in memo:
        memo[(fn, p)] = False
        memo[(fn, p)] = confirm1(M, mr, fn, p)
    return memo[(fn, p)]


def confirm1(M, mr, fn, p):
    """a write through memory of this function's own: is there a path on which what it holds is the operand?"""
    hits, its = [], []
    E = Engine(M, opaque=lambda n: True, track=lambda n: False)

    def bases(t):
        """what a term leads back to"""
        out, todo = set(), [t]
        while todo:
            x = todo.pop()
            while x[0] in ("fld", "idx", "ld"):
                x = x[1]
            if x in out:
                continue
            out.add(x)
            if x[0] in ("ret", "call"):
                names = [x[1]] if x[1] in mr.R else sorted({n for k, v in mr.slots.items() if x[1] == "*" + fname(k) for n in v})
                sh = 0 if x[1] in mr.R else 1
                for n in names:
                    for r in mr.RS.get(n, ()):
                        if r[0] + sh < len(x[2]):
                            todo.append(x[2][r[0] + sh])
            elif x[0] == "it":
                for sm in E.summaries:
                    if sm.key == x[1] and x[2] in sm.inits:
                        todo += [v for v in [sm.inits[x[2]]] + list(sm.steps.get(x[2], ())) if v is not None]
            elif x[0] == "itm":
                for sm in E.summaries:
                    if sm.key == x[1]:
                        todo += list(sm.cells.get(x[2], ()))
        return out

    def fname(k):
        fs = M.fields.get(k[0], [])
        return fs[k[1]][0] if k[1] < len(fs) else "?"

    def probe(t):
        its.append(t)

    def held(s, a):
        """values held in the memory behind a"""
        out, todo = set(), [a]
        while todo:
            x = todo.pop()
            for addr, v in s.mem.items():
                if E.objroot(addr) == x and v is not None and v not in out:
                    out.add(v)
                    todo.append(v)
        return out

    def on_store(E_, frame, i, s, a, v):
        probe(a)

    def on_call(E_, frame, i, s, name, args):
        ts = mr.targets(i)
        if name.startswith("*"):
            args = args[1:]           # the first one is the function itself
        for t in ts:
            G = M.funcs.get(t)
            if G is None or G.decl:
                mr.external(t, i, [{("T", k)} for k in range(len(args))], lambda rs, *_: [probe(args[r[1]]) for r in rs if r[0] == "T" and r[1] < len(args)], lambda *_: None)
                continue
            for (q, d), w in mr.W[t].items():
                q2 = q
                if w[3] and not confirm(M, mr, t, q):
                    continue
                if q2 < len(args):
                    if d == 0:
                        probe(args[q2])
                    else:
                        if bases(args[q2]) & {("arg", p)}:
                            probe(args[q2])
                        o = E.objroot(args[q2])
                        for v in held(s, o):
                            probe(v)
                        # left there by a loop before
                        for sm in E.summaries:
                            for a, vs in sm.cells.items():
                                if E.objroot(a) == o:
                                    for v in vs:
                                        probe(v)
    E.store_hook, E.call_hook = on_store, on_call
    try:
        E.analyse(fn)
    except Incomplete:
        return False
    return any(("arg", p) in bases(t) for t in set(its))


def F_names(M, n, p):
    F_ = M.funcs[n]
    return F_.params[p].id or f"#{p}"
