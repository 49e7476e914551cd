"""C03: destruction.  Every path of every free function releases each owned block exactly once, reads nothing already
released, releases nothing it does not own, and accepts a missing structure."""
from ..engine import Engine, Incomplete, NULL, ZERO, atom_eq, atom_le0, add, subterms, lin, State, relin
from ..ir import AnalysisBroken
from .common import *
from .loops import Loops, facts_state


class Free:
    def __init__(self, M, rep):
        self.M, self.rep = M, rep
        self.fns = {}
        for t in FIELDS:
            n = f"osl_{t}_free"
            f = M.funcs.get(n)
            if f is not None and not f.decl and f.nparams == 1:
                self.fns[n] = t
        self.inside = {n: t for n, t in (("osl_relation_free_inside", "relation"),) if n in M.funcs}
        self.rel = set(self.fns) | {"free", "osl_int_clear", "*free", "osl_int_free"}

    def run(self):
        for fn, t in sorted(self.fns.items()):
            self.check(fn, t)
        for fn, t in self.inside.items():
            self.check(fn, t, node=False)

    def check(self, fn, t, node=True):
        self.fn, self.t = fn, t
        self.names = [p.id for p in self.M.funcs[fn].params]
        E = Engine(self.M, opaque=lambda n: n in self.rel, pure=lambda n: False, track=lambda n: n in self.rel, max_states=3000, max_steps=400000)
        E.keep_facts = True
        E.load_hook = self.on_load
        E.call_hook = self.on_call
        self.E, self.L = E, Loops(E)
        self.ownfields = {}
        try:
            res = E.analyse(fn)
        except Incomplete as e:
            self.rep.undec(fn, "free", str(e))
            return
        X = ("arg", 0)
        for s, v, line in res.rets:
            f = facts_state(s.facts)
            if f.known(atom_eq(X, NULL)):
                self.rep.ok(fn, "free-null", "missing structure accepted")
                continue
            self.foreign(s.ev, 0)
            islist = any(k == "link" for _, _, k, _ in fields(self.M, t)) and node
            if islist:
                nx = fidx(self.M, t, "next")
                done = False
                for x in s.ev:
                    sm = self.L.sm(x)
                    if sm is None:
                        continue
                    for it, init in self.L.walker(sm, S + t, nx):
                        if strip_ep(init) != X:
                            continue
                        done = True
                        for bi, (m, facts, e2, env) in enumerate(sm.backs):
                            self.node(facts_state(facts), e2, it, t, True, line)
                        if self.L.at_end(s.facts, it, S + t, nx):
                            self.rep.ok(fn, "free-all-nodes", "walked to the end")
                        else:
                            self.rep.bad(fn, line, "free-all-nodes", f"returns although nodes of the list may not have been released", key=f"{fn}:free-all-nodes")
                if done:
                    continue
                nxt = strip_ep(("ld", F(self.M, X, t, "next"), 0))
                n = sum(1 for e in s.ev if e[0] == "call" and e[1] == fn and strip_ep(e[2][0]) == nxt)
                if n == 1 or f.known(atom_eq(nxt, NULL)):
                    self.rep.ok(fn, "free-all-nodes", "rest released recursively")
                elif any(e[0] == "loop" for e in s.ev) and not n and self.follows(s, nx):
                    self.rep.undec(fn, "free-all-nodes", "walk not understood")
                    continue
                else:
                    self.rep.bad(fn, line, "free-all-nodes", "the remaining nodes of the list are not released exactly once", key=f"{fn}:free-all-nodes")
            self.node(f, s.ev, X, t, node, line)

    def follows(self, s, nx):
        """does a loop on this path look at next fields at all?"""
        for sm in self.L.below(s.ev):
            for st in list(sm.steps.values()) + [list(b[3].values()) for b in sm.backs]:
                for v in st:
                    if v is not None and any(y[0] == "fld" and y[2] == S + self.t and y[3] == nx for y in subterms(v)):
                        return True
        return False

    # ------------------------------------------------------------------ use after release, missing structure
    def on_call(self, E, frame, i, s, name, args):
        if name not in self.rel:
            return
        p = strip_ep(args[1] if name == "*free" and len(args) > 1 else args[-1] if name == "osl_int_clear" else args[0])
        if name in ("osl_int_clear", "osl_int_free"):
            return
        if not E.quiet and ("freed", p) in s.mem and s.decide(atom_eq(p, NULL)[0]) is not True:
            self.rep.bad(self.fn, i.line, "free-once", f"{show(self.M, p, self.names)} is released a second time", key=f"{self.fn}:free-twice:{show(self.M, p, self.names)}")
        s.mem[("freed", p)] = ("int", i.line or 0)

    def on_load(self, E, frame, i, s, addr):
        if E.quiet:
            return
        a = strip_ep(addr)
        st = set(subterms(a))
        for k in s.mem:
            if k[0] == "freed" and k[1] in st and k[1] != NULL:
                self.rep.bad(self.fn, i.line, "free-use", f"{show(self.M, ('ld', a, 0), self.names)} is read after {show(self.M, k[1], self.names)} was released",
                             key=f"{self.fn}:free-use:{show(self.M, a, self.names)}")
                return
        b = a
        while b[0] in ("fld", "idx"):
            b = b[1]
        if b == ("arg", 0):
            if s.decide(("peq", b, NULL)) is False:
                self.rep.ok(self.fn, "free-null", f"line {i.line}")
            else:
                self.rep.bad(self.fn, i.line, "free-null", f"{self.names[0]} is dereferenced although it can be missing (NULL)", key=f"{self.fn}:free-null")

    # ------------------------------------------------------------------ obligations
    def target(self, e):
        if e[0] != "call" or e[1] not in self.rel:
            return None
        if e[1] == "*free":
            return strip_ep(e[2][1]) if len(e[2]) > 1 else None
        if e[1] in ("osl_int_clear", "osl_int_free"):
            return strip_ep(e[2][1])
        return strip_ep(e[2][0])

    def count(self, ev, names, p):
        p = strip_ep(p)
        return sum(1 for e in ev if e[0] == "call" and e[1] in names and self.target(e) == p)

    def foreign(self, ev, d):
        """blocks the structure does not own"""
        for e in ev:
            p = self.target(e)
            if p is not None and p[0] == "ld" and p[1][0] == "fld":
                sty, fi = p[1][2], p[1][3]
                t = sty[len(S):]
                fl = self.M.fields.get(sty)
                if t in FIELDS and fl and fi < len(fl):
                    k = FIELDS[t].get(fl[fi][0], "skip")
                    if k in ("borrow", "skip", "val") and fl[fi][0] != "fake_member_to_disable_warning":
                        self.rep.bad(self.fn, e[4], "free-owned", f"releases {t}.{fl[fi][0]}, which the structure does not own", key=f"{self.fn}:free-owned:{t}.{fl[fi][0]}")
                    if k.startswith("own:") and e[1] not in (f"osl_{k[4:]}_free",):
                        self.rep.bad(self.fn, e[4], "free-owned", f"releases {t}.{fl[fi][0]} (a {k[4:]}) with {e[1]}", key=f"{self.fn}:free-with:{t}.{fl[fi][0]}")
            sm = self.L.sm(e)
            if sm is not None and d < 4:
                for b in sm.backs:
                    self.foreign(b[2], d + 1)

    def node(self, f, ev, X, t, itself, line):
        for name, r in self.contents(f, ev, X, t):
            self.verdict(name, t, r, line)
        if itself:
            n = self.count(ev, ("free",), X)
            self.verdict("the structure itself", t, True if n == 1 else ("twice" if n > 1 else ("maybe" if self.hidden(ev, X) else "no")), line)

    def verdict(self, name, t, r, line):
        if r is True:
            self.rep.ok(self.fn, "free-once", f"{t}: {name}")
        elif r == "maybe":
            self.rep.undec(self.fn, "free-once", f"release of {t}: {name} not understood")
        elif r == "twice":
            self.rep.bad(self.fn, line, "free-once", f"{t}: {name} is released more than once", key=f"{self.fn}:free-twice:{t}.{name}")
        else:
            self.rep.bad(self.fn, line, "free-once", f"{t}: {name} is not released" + (" in full" if r == "part" else ""), key=f"{self.fn}:free-once:{t}.{name}")

    def hidden(self, ev, p):
        """the block may be released through something not recognised"""
        p = strip_ep(p)
        for sm in self.L.below(ev):
            for b in sm.backs:
                for e in b[2]:
                    q = self.target(e)
                    if q is not None and (p == q or p in set(subterms(q)) and False):
                        return True
        return False

    def contents(self, f, ev, X, t):
        out = []
        for i, n, k, ct in fields(self.M, t):
            if k in ("skip", "link", "val", "borrow"):
                continue
            a = ("fld", X, S + t, i)
            v = strip_ep(("ld", a, 0))
            absent = f.known(atom_eq(v, NULL))
            if k == "str":
                out.append((n, self.once(f, ev, ("free",), v, absent)))
            elif k.startswith("own:"):
                out.append((n, self.once(f, ev, (f"osl_{k[4:]}_free",), v, absent)))
            elif k == "data":
                ifc = strip_ep(("ld", F(self.M, X, t, "interface"), 0))
                c1, c2 = self.count(ev, ("*free",), v), self.count(ev, ("free",), v)
                if f.known(atom_eq(ifc, NULL)):
                    out.append((n, True if absent or c2 == 1 else "no" if c2 == 0 else "twice"))
                else:
                    okf = any(e[0] == "call" and e[1] == "*free" and self.target(e) == v and strip_ep(e[2][0]) == strip_ep(("ld", F(self.M, ifc, "interface", "free"), 0)) for e in ev)
                    out.append((n, True if (c1 == 1 and okf and c2 == 0) or absent else "twice" if c1 + c2 > 1 else "no"))
            elif k.startswith("sub:"):
                out += [(n + "." + nn, r) for nn, r in self.contents(f, ev, a, k[4:])]
            elif k.startswith("arr:") or k.startswith("arr2:") or k == "strv":
                elem = "str" if k == "strv" else k.split(":")[1]
                r = self.once(f, ev, ("free",), v, absent)
                out.append((n, r))
                if not absent and (elem == "str" or k.startswith("arr2")):
                    out.append((n + " entries", self.entries(f, ev, X, t, n, k, v)))
            elif k == "cells":
                out.append((n, self.once(f, ev, ("free",), v, absent)))
                if not absent:
                    out.append((n + " entries", self.loop_cover(f, ev, [strip_ep(("ld", F(self.M, X, t, "size"), 0))], lambda e: self.cell_at(e, v), X)))
            elif k == "matrix":
                rows, cols = [strip_ep(("ld", F(self.M, X, t, c), 0)) for c in ("nb_rows", "nb_columns")]
                prod = ("bin", "mul") + tuple(sorted((rows, cols), key=repr))
                empty = any(f.known(atom_le0(z)) for z in (rows, cols, prod)) or any(f.known(atom_eq(z, ZERO)) for z in (rows, cols))
                # an empty matrix has no row table (C04): nothing has to be released for it
                out.append((n, self.once(f, ev, ("free",), v, absent or empty)))
                if absent:
                    continue
                m0 = strip_ep(("ld", v, 0))
                if not empty:
                    out.append((n + "[0]", self.once(f, ev, ("free",), m0, f.known(atom_eq(m0, NULL)))))
                    r = self.loop_cover(f, ev, [prod], lambda e: self.cell_at(e, m0), X)
                    if r is not True:
                        r2 = self.cells2(f, ev, v, rows, cols, X)
                        r = r2 if r2 is True or r == "no" else r
                    out.append((n + " cells", r))
        return out

    def once(self, f, ev, names, v, absent):
        n = self.count(ev, names, v)
        if n == 1:
            return True
        if n > 1:
            return True if absent else "twice"
        if absent:
            return True
        return "maybe" if self.hidden(ev, v) else "no"

    def cell_at(self, e, base):
        """index of the cell cleared by event e in block base"""
        if e[0] == "call" and e[1] == "osl_int_clear":
            a = self.target(e)
            ix = ZERO
            if a[0] == "idx":
                ix, a = a[3], a[1]
            if a == base:
                return ix
        return None

    def entry_at(self, e, base):
        if e[0] == "call" and e[1] == "free":
            p = self.target(e)
            if p[0] == "ld":
                a, ix = p[1], ZERO
                if a[0] == "idx":
                    ix, a = a[3], a[1]
                if a == base:
                    return ix
        return None

    def loop_cover(self, f, ev, bounds, at, X, skip=None):
        """a loop among ev applies `at` to every index below one of the bounds"""
        worst = "no"
        if any(f.known(atom_le0(b)) for b in bounds):
            return True
        for x in ev:
            sm = self.L.sm(x)
            if sm is None or not sm.backs:
                continue
            ixs = []
            twice = False
            for m, facts, e2, env in sm.backs:
                got = [at(e) for e in e2]
                got = [g for g in got if g is not None]
                if len(got) > 1 and len(set(got)) < len(got):
                    twice = True
                if not got and skip is not None:
                    g = skip(facts_state(facts))
                    got = [g] if g is not None else []
                ixs.append(got[0] if got else None)
            if not any(z is not None for z in ixs):
                continue
            if twice:
                return "twice"
            if None in ixs:
                return "part"
            c = [self.L.cover(sm, f.facts, x[4], ixs[0], b, self.plain) for b in bounds]
            if "yes" in c:
                return True
            worst = "part" if c and all(z == "no" for z in c) else "maybe"
        return worst

    @staticmethod
    def plain(b):
        c, d = lin(b)
        return all(k[0] in ("ld", "bin") and not any(y[0] in ("itm", "uninit", "ret") for y in subterms(k)) for k in d)

    def cells2(self, f, ev, m, rows, cols, X):
        worst = "no"
        for x in ev:
            sm = self.L.sm(x)
            if sm is None or not sm.backs:
                continue
            oks, row = [], None
            for b in sm.backs:
                ff = facts_state(b[1])
                r = "no"
                for it in list(sm.phis.values()) + [strip_ep(z) for z in sm.derived.values()]:
                    base = strip_ep(("ld", self.E.mk_idx(m, "ptr", it), 0))
                    q = self.loop_cover(ff, b[2], [cols], lambda e: self.cell_at(e, base), X)
                    if q is True:
                        r, row = True, it
                    elif q != "no":
                        r = q
                oks.append(r)
            if oks and all(o is True for o in oks) and row is not None:
                c = self.L.cover(sm, f.facts, x[4], row, rows, self.plain)
                return True if c == "yes" else "part" if c == "no" else "maybe"
            if any(o != "no" for o in oks):
                worst = "maybe" if "maybe" in oks else "part"
        return worst

    def entries(self, f, ev, X, t, n, k, v):
        parts = k.split(":")
        if k == "strv":
            for x in ev:
                sm = self.L.sm(x)
                if sm is None or not sm.backs:
                    continue
                ixs = []
                for m, facts, e2, env in sm.backs:
                    got = [z for z in (self.entry_at(e, v) for e in e2) if z is not None]
                    ixs.append(got[0] if got else None)
                if all(z is None for z in ixs):
                    continue
                if None in ixs:
                    return "part"
                # runs from 0 to the terminating NULL entry
                iv = self.L.ivar(sm, ixs[0])
                if iv is None:
                    return "maybe"
                if iv[1] != 1 or iv[2] != ZERO:
                    return "part" if iv[2][0] == "int" else "maybe"
                last = strip_ep(("ld", self.E.mk_idx(v, "ptr", ixs[0]), 0))
                if f.known(atom_eq(last, NULL)):
                    return True
                r = self.L.cover(sm, f.facts, x[4], ixs[0], strip_ep(("call", "osl_strings_size", (X,))), None)
                return True if r == "yes" else "maybe"
            # nothing to release when the first entry is the terminator
            if f.known(atom_eq(strip_ep(("ld", v, 0)), NULL)):
                return True
            return "maybe" if any(e[0] == "loop" for e in ev) else "no"
        if len(parts) > 2 and parts[2]:
            bounds = [strip_ep(("ld", F(self.M, X, t, parts[2]), 0))]
        elif t == "irregular" and n == "predicates":
            bounds = [strip_ep(("ld", F(self.M, X, t, "nb_statements"), 0))]
        elif t == "irregular":
            bounds = [strip_ep(add(("ld", F(self.M, X, t, "nb_control"), 0), ("ld", F(self.M, X, t, "nb_exit"), 0)))]
        else:
            return "maybe"

        def skip(ff):
            """entry i is known to be absent"""
            for a, p in ff.facts.items():
                if p and a[0] == "peq" and a[2] == NULL and a[1][0] == "ld":
                    b, ix = a[1][1], ZERO
                    if b[0] == "idx":
                        ix, b = b[3], b[1]
                    if b == v:
                        return ix
            return None
        r = self.loop_cover(f, ev, bounds, lambda e: self.entry_at(e, v), X, skip)
        if r is not True or n != "iterators":
            return r
        # second level: the strings of each entry
        for x in ev:
            sm = self.L.sm(x)
            if sm is None or not sm.backs:
                continue
            ok = []
            for b in sm.backs:
                ff = facts_state(b[1])
                g = False
                for it in list(sm.phis.values()):
                    base = strip_ep(("ld", self.E.mk_idx(v, "ptr", it), 0))
                    nb = strip_ep(("ld", self.E.mk_idx(("ld", F(self.M, X, t, "nb_iterators"), 0), "i32", it), 0))
                    if self.loop_cover(ff, b[2], [nb], lambda e: self.entry_at(e, base), X) is True:
                        g = True
                ok.append(g)
            if ok and all(ok):
                return True
        return "part" if not f.known(atom_le0(bounds[0])) else True


def run(M, rep):
    check_model(M)
    e = Free(M, rep)
    if len(e.fns) < 24:
        raise AnalysisBroken(f"only {len(e.fns)} free functions found")
    e.run()
