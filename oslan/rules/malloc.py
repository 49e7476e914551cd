"""C04: fresh structures.  On every path of every allocation function each field of the new structure holds a defined
neutral value, and every cell of a new matrix or vector is initialised in the precision recorded in it."""
from ..engine import Engine, Incomplete, NULL, ZERO, atom_eq, atom_le0, add, scale, subterms, lin
from ..ir import AnalysisBroken
from .common import *
from .loops import Loops, facts_state

UNDEF = ("int", -1)
# integer fields that start as "undefined" (their documented marker), counts and flags that start as zero
UNDEFINED = {("relation", f) for f in ("type", "nb_output_dims", "nb_input_dims", "nb_local_dims", "nb_parameters")} | \
    {("coordinates", f) for f in ("line_start", "line_end", "column_start", "column_end", "indent")} | \
    {("dependence", f) for f in FIELDS["dependence"] if FIELDS["dependence"][f] == "val"} | \
    {("symbols", f) for f in ("type", "generated", "nb_dims")}
SPECIAL = {("scop", "version"): ("int", 1)}


class Malloc:
    def __init__(self, M, rep):
        self.M, self.rep = M, rep
        self.fns = {}
        for n, f in M.funcs.items():
            if f.decl or not n.startswith("osl_") or not n.endswith(("_malloc", "_pmalloc")) or n not in M.public:
                continue
            pt = M.ptypes.get(n, ["?"])[0]
            if pt.startswith(S) and pt.endswith("*") and pt[len(S):-1] in FIELDS:
                self.fns[n] = pt[len(S):-1]

    def run(self):
        for fn, t in sorted(self.fns.items()):
            self.check(fn, t)

    def check(self, fn, t):
        M = self.M
        self.fn, self.t = fn, t
        F_ = M.funcs[fn]
        self.names = [p.id for p in F_.params]
        E = Engine(M, opaque=lambda n: n.startswith(("osl_int_", "osl_util_get")), pure=lambda n: n.startswith("osl_util_get"), track=lambda n: True, max_states=200)
        E.track_store = lambda a, s: True
        E.keep_facts = True
        self.E, self.L = E, Loops(E)
        try:
            res = E.analyse(fn)
        except Incomplete as e:
            self.rep.undec(fn, "malloc-field", str(e))
            return
        if not res.rets:
            self.rep.bad(fn, F_.line, "malloc-field", "no path returns a structure", key=f"{fn}:noreturn")
        for s, v, line in res.rets:
            f = facts_state(s.facts)
            if v == NULL or v == ZERO:
                self.rep.bad(fn, line, "malloc-field", "a path returns no structure", key=f"{fn}:null")
                continue
            if v[0] != "alloc":
                self.rep.undec(fn, "malloc-field", f"returned structure not tracked: {show(M, v, self.names)}")
                continue
            self.obj(s, f, v, v, t, line, "")

    def bad(self, line, t, n, why):
        self.rep.bad(self.fn, line, "malloc-field", f"{t}.{n} {why}", key=f"{self.fn}:{t}.{n}")

    def clean(self, v):
        """no part of the value comes from uninitialised memory"""
        return not any(x[0] in ("uninit", "undef", "undefv") for x in subterms(v))

    def obj(self, s, f, root, O, t, line, prefix):
        M, rep = self.M, self.rep
        for i, (n, ct) in enumerate(M.fields[S + t]):
            k = FIELDS[t].get(n, "new")
            if t == "null":
                continue
            a = ("fld", O, S + t, i)
            name = prefix + n
            if k.startswith("sub:"):
                self.obj(s, f, root, a, k[4:], line, name + ".")
                continue
            v = self.E.load(s, a)
            if not self.clean(v):
                self.bad(line, t, name, "is left uninitialised")
                continue
            if k in ("matrix", "cells"):
                self.block(s, f, O, t, n, k, v, line)
            elif k == "strv":
                if v == NULL or (v[0] == "alloc" and self.E.load(s, v) == NULL):
                    rep.ok(self.fn, "malloc-field", f"{t}.{name}")
                elif v[0] == "alloc" and not self.clean(self.E.load(s, v)):
                    self.bad(line, t, name, "has an uninitialised first entry instead of its terminator")
                else:
                    rep.undec(self.fn, "malloc-field", f"{t}.{name} = {show(M, v, self.names)}")
            elif t == "relation" and n in ("nb_rows", "nb_columns", "precision") or t == "vector" and n in ("size", "precision"):
                self.attr(s, f, t, n, v, line)
            elif ct.endswith("*"):
                if v == NULL or v == ZERO:
                    rep.ok(self.fn, "malloc-field", f"{t}.{name}")
                elif v[0] == "ret" or v[0] == "alloc":
                    rep.undec(self.fn, "malloc-field", f"{t}.{name} = {show(M, v, self.names)}")
                else:
                    self.bad(line, t, name, f"starts as {show(M, v, self.names)} instead of being absent")
            else:
                want = SPECIAL.get((t, n), UNDEF if (t, n) in UNDEFINED else ZERO)
                if v == want or (k == "new" and v in (ZERO, UNDEF)):
                    rep.ok(self.fn, "malloc-field", f"{t}.{name}")
                elif v[0] == "int":
                    self.bad(line, t, name, f"starts as {v[1]} instead of {want[1]}")
                else:
                    rep.undec(self.fn, "malloc-field", f"{t}.{name} = {show(M, v, self.names)}")

    def attr(self, s, f, t, n, v, line):
        """requested sizes and precision are recorded"""
        np = self.M.funcs[self.fn].nparams
        args = [("arg", i) for i in range(np)]
        sizes = ["nb_rows", "nb_columns"] if t == "relation" else ["size"]
        if np == len(sizes) + 1:
            want = [args[0] if n == "precision" else args[1 + sizes.index(n)]]
        elif np == len(sizes):
            want = [None if n == "precision" else args[sizes.index(n)]]
        elif np == 0:
            want = [None if n == "precision" else ZERO]
        else:
            want = None
        if want is None:
            self.rep.undec(self.fn, "malloc-field", f"{t}.{n}")
        elif want == [None]:
            # default precision: whatever the library's query answers
            if v[0] in ("call", "ret") and v[1] == "osl_util_get_precision":
                self.rep.ok(self.fn, "malloc-field", f"{t}.{n}")
            elif v[0] in ("arg", "int"):
                self.bad(line, t, n, f"is {show(self.M, v, self.names)} instead of the default precision")
            else:
                self.rep.undec(self.fn, "malloc-field", f"{t}.{n}")
        elif v == want[0] or f.known(atom_eq(strip_ep(v), want[0])):
            self.rep.ok(self.fn, "malloc-field", f"{t}.{n}")
        elif v[0] in ("arg", "int"):
            self.bad(line, t, n, f"is {show(self.M, v, self.names)} instead of the requested {show(self.M, want[0], self.names)}")
        else:
            self.rep.undec(self.fn, "malloc-field", f"{t}.{n}")

    # ------------------------------------------------------------------ cells
    def block(self, s, f, O, t, n, k, v, line):
        def val(x):
            return strip_ep(self.E.load(s, F(self.M, O, t, x)))
        if k == "cells":
            size, prec = val("size"), val("precision")
            empty = f.known(atom_le0(size)) or f.known(atom_eq(size, ZERO))
            if v == NULL:
                if empty:
                    self.rep.ok(self.fn, "malloc-cells", f"{t}: no cells")
                else:
                    self.bad(line, t, n, "is absent although cells were requested")
                return
            if v[0] != "alloc":
                self.rep.undec(self.fn, "malloc-cells", f"{t}.{n}")
                return
            self.bytes(v, size, ("int", 8), t, n, line)
            self.verdict(self.cells(s.ev, f, v, size, prec), t, n, line)
            return
        rows, cols, prec = val("nb_rows"), val("nb_columns"), val("precision")
        empty = any(f.known(atom_le0(z)) or f.known(atom_eq(z, ZERO)) for z in (rows, cols))
        if v == NULL:
            if empty:
                self.rep.ok(self.fn, "malloc-cells", f"{t}: no cells")
            else:
                self.bad(line, t, n, "is absent although cells were requested")
            return
        if empty or v[0] != "alloc":
            self.rep.undec(self.fn, "malloc-cells", f"{t}.{n}")
            return
        self.bytes(v, rows, ("int", 8), t, n, line)
        best = "no row pointer is set"
        for x in s.ev:
            sm = self.L.sm(x)
            if sm is None or not sm.backs:
                continue
            self.blocks = set()
            r = self.rowloop(x, sm, f, v, rows, cols, prec, t, n, line)
            if r == "cells":
                # the cells are initialised by other loops
                r = self.elsewhere(s, f, v, rows, cols, prec)
            if r is True:
                self.verdict(True, t, n, line)
                return
            if r is not None or best == "no row pointer is set":
                best = r if r is not None or self.touches(sm, v) else best
        if any(e[0] == "store" and e[1] == v for e in s.ev) and best == "no row pointer is set":
            best = None
        self.verdict(best, t, n, line)

    def touches(self, sm, v):
        v = strip_ep(v)
        return any(e[0] == "store" and v in set(subterms(strip_ep(e[1]))) for b in sm.backs for e in b[2])

    def elsewhere(self, s, f, v, rows, cols, prec):
        prod = self.mul(rows, cols)
        best = "no cell is initialised"
        for blk in self.blocks:
            r = self.cells(s.ev, f, blk, prod, prec)
            if r is True:
                return True
            if r != "no cell is initialised":
                best = r
        for x in s.ev:
            sm = self.L.sm(x)
            if sm is None or not sm.backs:
                continue
            out, index = [], None
            for m, facts, e2, env in sm.backs:
                ff = facts_state({**f.facts, **facts})
                got = None
                for sm2 in self.L.below(e2):
                    for b2 in sm2.backs:
                        for e in b2[2]:
                            if e[0] == "call" and e[1].startswith("osl_int_init") and len(e[2]) > 1:
                                a = strip_ep(e[2][1])
                                a = a[1] if a[0] == "idx" else a
                                if a[0] in ("uninit", "ld") and a[1] != strip_ep(v) and a[1][0] == "idx" and a[1][1] == strip_ep(v):
                                    got = a
                                elif a[0] in ("uninit", "ld") and a[1] == strip_ep(v):
                                    got = a
                if got is not None:
                    index = got[1][3] if got[1][0] == "idx" else ZERO
                    r = self.cells(e2, ff, got, cols, prec)
                    out.append(r if r is not None else False)
                elif ff.known(atom_le0(cols)):
                    out.append(True)
                else:
                    out.append(None)
            if index is None:
                continue
            if None in out:
                return "a row of cells can be skipped"
            if all(o is True for o in out):
                c = self.L.cover(sm, f.facts, x[4], index, rows, self.plainb)
                return True if c == "yes" else "the loop does not visit exactly the requested rows" if c == "no" else None
            w = [o for o in out if isinstance(o, str)]
            return w[0] if w else None
        return best

    @staticmethod
    def plainb(b):
        return all(k[0] in ("arg", "ld", "bin") for k in lin(b)[1])

    def verdict(self, r, t, n, line):
        if r is True:
            self.rep.ok(self.fn, "malloc-cells", f"{t}.{n}: every cell initialised")
        elif r is None:
            self.rep.undec(self.fn, "malloc-cells", f"{t}.{n}: initialisation not understood")
        else:
            self.bad(line, t, n, "is not initialised in full: " + r)

    def bytes(self, v, count, unit, t, n, line):
        """the block is large enough"""
        if v[2] == "calloc":
            sz = self.mul(strip_ep(v[3][0]), strip_ep(v[3][1]))
        elif v[2] == "malloc":
            sz = strip_ep(v[3][0])
        else:
            self.rep.undec(self.fn, "malloc-size", f"{t}.{n}")
            return
        want = self.mul(count, unit)
        d = add(sz, want, -1)
        if d[0] == "int" and d[1] >= 0:
            self.rep.ok(self.fn, "malloc-size", f"{t}.{n}")
            return
        if d[0] == "int":
            self.bad(line, t, n, f"is allocated with {-d[1]} bytes too few")
            return
        # a multiple of the same quantity
        for u in (0, 1, 2, 3, 4, 5, 6, 7):
            if add(sz, self.mul(count, ("int", u)), -1)[0] == "int":
                self.bad(line, t, n, f"is allocated with {u} bytes per entry")
                return
        self.rep.undec(self.fn, "malloc-size", f"{t}.{n}: {show(self.M, sz, self.names)}")

    @staticmethod
    def mul(a, b):
        if a[0] == "int":
            return scale(b, a[1])
        if b[0] == "int":
            return scale(a, b[1])
        return ("bin", "mul") + tuple(sorted((a, b), key=repr))

    @staticmethod
    def init_at(e, base):
        """index of the cell of block base initialised by event e, with the precision used"""
        if e[0] == "call" and e[1].startswith("osl_int_init") and len(e[2]) >= 2:
            a, ix = strip_ep(e[2][1]), ZERO
            if a[0] == "idx":
                ix, a = a[3], a[1]
            if a == base:
                return ix, strip_ep(e[2][0])
        return None

    def cells(self, ev, f, base, bound, prec, off=ZERO):
        """every cell base[off .. off+bound) is initialised in precision prec: True / reason / None (not understood)"""
        if f.known(atom_le0(bound)) or f.known(atom_eq(bound, ZERO)):
            return True
        base = strip_ep(base)
        res = "no cell is initialised"
        for x in ev:
            sm = self.L.sm(x)
            if sm is None or not sm.backs:
                continue
            ixs = []
            for m, facts, e2, env in sm.backs:
                got = [z for z in (self.init_at(e, base) for e in e2) if z is not None]
                ixs.append(got[0] if got else None)
            if all(z is None for z in ixs):
                if any(self.L.below(b[2]) for b in sm.backs):
                    res = res if res != "no cell is initialised" else None
                continue
            if None in ixs:
                return "a cell can be skipped"
            for ix, p in ixs:
                if p != prec and not f.known(atom_eq(p, prec)):
                    if p[0] in ("arg", "int", "call"):
                        return f"cells are created in precision {show(self.M, p, self.names)}, not the recorded {show(self.M, prec, self.names)}"
                    return None
            c = self.L.cover(sm, f.facts, x[4], add(ixs[0][0], off, -1), bound, self.plainb)
            if c == "yes":
                return True
            res = "the loop does not visit exactly the requested cells" if c == "no" else None
        return res

    def rowloop(self, x, sm, f, v, rows, cols, prec, t, n, line):
        """rows: m[i] points to the start of row i of one block, whose cells are all initialised"""
        out = []
        index = None
        for m, facts, e2, env in sm.backs:
            ff = facts_state({**f.facts, **facts})
            st = [(strip_ep(e[1]), strip_ep(e[2])) for e in e2 if e[0] == "store" and strip_ep(e[1])[0] in ("idx", "alloc") and (strip_ep(e[1])[1] == strip_ep(v) or strip_ep(e[1]) == strip_ep(v))]
            if not st:
                out.append(None)
                continue
            a, row = st[-1]
            ix = a[3] if a[0] == "idx" else ZERO
            index = ix
            o, base = ZERO, row
            if row[0] == "idx":
                o, base = row[3], row[1]
            raw = (base, o)
            if base[0] == "it" and base[1] == sm.key and o == ZERO:
                # a running pointer advancing by one row per iteration
                st_ = {strip_ep(z) for z in sm.steps.get(base[2], ()) if z is not None}
                if len(st_) == 1:
                    z = st_.pop()
                    iv = self.L.ivar(sm, ix)
                    if z[0] == "idx" and z[1] == base and iv is not None and iv[1] == 1:
                        o, base = self.mul(add(ix, iv[2], -1), z[3]), strip_ep(sm.inits[base[2]])
            if base[0] != "alloc":
                out.append(False)
                continue
            # start of the row, in cells: one block for all rows, or one block per row
            if sm.key in base[5]:
                want = ZERO
                self.bytes(base, cols, ("int", 8), t, n + "[i]", line)
            else:
                want = self.mul(ix, cols)
                self.blocks.add(base)
                self.bytes(base, self.mul(rows, cols), ("int", 8), t, n + "[0]", line)
            if o != want:
                wrong = all(q[0] in ("arg", "int", "bin", "it", "lin") for q in (o,))
                out.append("row pointers do not point to the start of their rows" if wrong else False)
                continue
            # cells of this row
            r = self.cells(e2, ff, raw[0], cols, prec, raw[1])
            out.append(r if r is not None else False)
        if all(o is None for o in out):
            return None
        if None in out:
            return "a row can be skipped"
        if all(o is True or o == "no cell is initialised" for o in out):
            c = self.L.cover(sm, f.facts, x[4], index, rows, self.plainb)
            ok = True if all(o is True for o in out) else "cells"
            return ok if c == "yes" else "the loop does not visit exactly the requested rows" if c == "no" else None
        w = [o for o in out if isinstance(o, str)]
        return w[0] if w else None


def run(M, rep):
    check_model(M)
    c = Malloc(M, rep)
    if len(c.fns) < 28:
        raise AnalysisBroken(f"only {len(c.fns)} allocation functions found")
    c.run()
