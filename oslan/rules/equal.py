"""C02: equality verdicts.  Every path answering "equal" has established the equality of every content field of every node;
every path answering "different" has established a difference; a missing structure is never dereferenced."""
import re
from ..engine import relin, Engine, Incomplete, NULL, ZERO, atom_eq, atom_le0, add, subterms, subst, lin, State, reatom
from ..ir import AnalysisBroken
from .common import *
from .loops import Loops, facts_state

EQ = re.compile(r"^osl_(\w+?)(_part)?_equal(_one)?$")
# content that the library documents as irrelevant for equality
EXCLUDED = {"comment": {"comment"},                    # "the test does not apply well on textual content"
            "textual": {"textual"},                    # raw text is printed by nobody and never compared
            "dependence": {"ref_source_access_ptr", "ref_target_access_ptr", "stmt_source_ptr", "stmt_target_ptr"},  # addresses of other objects
            "null": {"fake_member_to_disable_warning"}}
# entries compared without regard to their order ("we accept a different order")
UNORDERED = {"arrays": ("nb_names", ("id", "names")), "extbody": ("nb_access", ("start", "length")), "loop": ("nb_stmts", ("stmt_ids",))}
UNORDERED_LIST = {"generic", "loop"}
# descriptors are compared one to one (a descriptor copied out of a registry keeps its place in the list)
NODE_ONLY = {"interface"}
# strings that may be absent
OPTSTR = {("scop", "language"), ("loop", "private_vars"), ("loop", "user"), ("pluto_unroll", "iter")}
COUNTS = re.compile(r"^osl_\w+_(count|number|nb_components|size)$")


class Eq:
    def __init__(self, M, rep):
        self.M, self.rep = M, rep
        self.fns = {}
        for n, f in M.funcs.items():
            m = EQ.match(n)
            if m and not f.decl and m.group(1) in FIELDS and f.nparams == 2 and not f.internal:
                pt = M.ptypes.get(n, [])
                if len(pt) == 3 and pt[1] == pt[2] == S + m.group(1) + "*":
                    self.fns[n] = (m.group(1), bool(m.group(2) or m.group(3)))

    def pure(self, n):
        return n in self.fns or n.startswith("osl_int_") or bool(COUNTS.match(n)) or n in ("*equal",)

    def run(self):
        for fn, (t, node) in sorted(self.fns.items()):
            if not getattr(self, "only", None) or fn in self.only:
                self.check(fn, t, node)

    # ------------------------------------------------------------------
    def check(self, fn, t, node):
        M = self.M
        self.fn, self.t, self.node = fn, t, node
        self.names = [p.id for p in M.funcs[fn].params]
        E = Engine(M, opaque=lambda n: self.pure(n), pure=self.pure, track=lambda n: False, max_states=400, max_steps=200000)
        E.keep_facts = True
        E.load_hook = self.on_load
        E.call_hook = self.on_call
        self.E, self.L = E, Loops(E)
        self.derefs = 0
        try:
            res = E.analyse(fn)
        except Incomplete as e:
            self.rep.undec(fn, "equal", str(e))
            return
        n1 = n0 = 0
        for s, v, line in res.rets:
            for st, truth in self.split(s, v):
                if truth:
                    n1 += 1
                    self.yes(st, line)
                else:
                    n0 += 1
                    self.no(st, line)
        if not n1:
            self.rep.bad(fn, 0, "equal-yes", "never answers that two structures are equal")
        if not n0 and t not in ("textual",):
            self.rep.bad(fn, 0, "equal-no", "never answers that two structures differ")

    def split(self, s, v):
        if v[0] == "int":
            return [(s, v[1] != 0)]
        from ..engine import lit_of
        lit = lit_of(v)
        out = []
        for pol in (True, False):
            c = s.copy()
            if c.assume((lit[0], lit[1] == pol)):
                out.append((c, pol))
        return out

    # ------------------------------------------------------------------ missing structures
    def on_load(self, E, frame, i, s, addr):
        if E.quiet:
            return
        b = addr[1] if addr[0] in ("fld", "idx") else addr
        while b[0] in ("fld", "idx"):
            b = b[1]
        if b in (("arg", 0), ("arg", 1)) or (b[0] == "it" and frame["F"].name == self.fn):
            if b[0] == "it" and not self.is_walker(E, b, frame):
                return
            d = s.decide(("peq", b, NULL))
            if d is None:
                # found equal to (another) structure: exists
                for a, p in s.facts.items():
                    if a[0] == "peq" and a[2] == NULL and not p and a[1][0] == "call" and a[1][1] in self.fns and b in a[1][2]:
                        o = [z for z in a[1][2] if z != b]
                        if o and s.decide(atom_eq(b, o[0])[0]) is False:
                            d = False
            if d is False:
                self.rep.ok(self.fn, "equal-null", f"line {i.line}")
                return
            self.rep.bad(self.fn, i.line, "equal-null", f"{show(self.M, b, self.names)} is dereferenced although it can be missing (NULL) here",
                         key=f"{self.fn}:equal-null:{show(self.M, b, self.names)}")

    def is_walker(self, E, b, frame):
        return False

    def on_call(self, E, frame, i, s, name, args):
        if E.quiet or name not in ("strcmp", "strncmp"):
            return
        for a in args[:2]:
            if a[0] == "ld" and a[1][0] == "fld":
                sty, fi = a[1][2], a[1][3]
                tf = (sty[len(S):], M_field(self.M, sty, fi))
                if tf in OPTSTR:
                    if s.decide(("peq", a, NULL)) is False:
                        self.rep.ok(self.fn, "equal-null", f"{tf[1]} compared only when present")
                    else:
                        self.rep.bad(self.fn, i.line, "equal-null", f"optional string {tf[0]}.{tf[1]} is passed to {name} although it can be missing (NULL)",
                                     key=f"{self.fn}:equal-null:{tf[1]}")

    # ------------------------------------------------------------------ facts
    def fs(self, facts):
        return facts_state(facts)

    def vals_equal(self, f, x, y):
        """values x and y are known to be equal"""
        x, y = strip_ep(x), strip_ep(y)
        if x == y:
            return True
        if f.known(atom_eq(x, y)):
            return True
        # both known to be the same constant
        for c in (NULL, ("int", 1)):
            if f.known(atom_eq(x, c)) and f.known(atom_eq(y, c)):
                return True
        return False

    def call_true(self, f, names, x, y):
        x, y = strip_ep(x), strip_ep(y)
        for n in names:
            for a, b in ((x, y), (y, x)):
                if f.decide(("peq", ("call", n, (a, b)), NULL)) is False:
                    return True
        return False

    def str_equal(self, f, x, y):
        if self.vals_equal(f, x, y):
            return True
        x, y = strip_ep(x), strip_ep(y)
        return any(f.known(atom_eq(("call", "strcmp", (a, b)), ZERO)) for a, b in ((x, y), (y, x)))

    def deq(self, t):
        return [n for n, (tt, node) in self.fns.items() if tt == t and not node]

    def neq(self, t):
        return [n for n, (tt, node) in self.fns.items() if tt == t]

    # ------------------------------------------------------------------ equality of a node's fields
    def node_missing(self, f, s, ev, X, Y, t, skip=()):
        """content fields of nodes X, Y (pointers) whose equality is not established: [(name, definite)]"""
        if self.vals_equal(f, X, Y):
            return []
        if t != self.t or True:
            if self.call_true(f, [n for n in self.neq(t) if n != self.fn or t != self.t], X, Y):
                return []
        out = []
        for i, n, k, ct in fields(self.M, t):
            if k in ("skip", "link") or n in EXCLUDED.get(t, ()) or n in skip:
                continue
            ax, ay = ("fld", X, S + t, i), ("fld", Y, S + t, i)
            x, y = ("ld", ax, 0), ("ld", ay, 0)
            r = True
            if k in ("val", "borrow"):
                r = self.vals_equal(f, x, y)
            elif k == "str":
                r = self.str_equal(f, x, y)
            elif k.startswith("own:"):
                r = self.vals_equal(f, x, y) or self.call_true(f, self.deq(k[4:]), x, y)
            elif k.startswith("sub:"):
                for nn, d in self.node_missing(f, s, ev, ax, ay, k[4:]):
                    out.append((n + "." + nn, d))
                continue
            elif k == "data":
                r = self.data_equal(f, X, Y, x, y)
            elif k in ("matrix", "cells"):
                r = self.cells_equal(f, s, ev, X, Y, t, k)
            elif k.startswith("arr") or k == "strv":
                r = self.array_equal(f, s, ev, X, Y, t, i, n, k)
            if r is True:
                continue
            if r is False:
                r = self.definite(f, s, ev, x, y)
            out.append((n, r))
        return out

    def definite(self, f, s, ev, x, y):
        """no fact anywhere relates the two values (or those that do leave them possibly different)"""
        x, y = strip_ep(x), strip_ep(y)

        def both(a):
            st = set(subterms(a))
            return x in st and y in st
        here = [(a, p) for a, p in f.facts.items() if both(a)]
        if any(self.plain_diff(a, p) for a, p in here):
            return "yes"
        weak = [self.weak(a, p) for a, p in here]
        if not all(weak):
            return "maybe"
        for sm in self.L.below(ev):
            for m, facts, e2, env in sm.backs:
                if any(both(strip_ep(a)) and not (strip_ep(a), p) in here for a, p in facts.items()):
                    return "maybe"
        return "yes"

    def weak(self, a, p):
        """a fact about two values that does not make them equal"""
        if a[0] == "le0":
            return len(lin(a[1])[1]) == 2
        if a[0] == "peq" and a[2] == NULL and not p and a[1][0] == "call" and a[1][1] in self.fns:
            return self.fns[a[1][1]][1]           # only the first nodes / parts were compared
        return False

    def plain_diff(self, a, p):
        if a[0] in ("eq0",):
            return not p
        if a[0] == "peq" and a[1][0] == "call":
            return not p if a[1][1] in ("strcmp", "osl_int_ne") else p
        return False

    def data_equal(self, f, X, Y, x, y):
        x, y = strip_ep(x), strip_ep(y)
        for a, p in f.facts.items():
            if a[0] == "peq" and a[2] == NULL and not p and a[1][0] == "call" and a[1][1] == "*equal":
                if {a[1][2][1], a[1][2][2]} == {x, y}:
                    return True
        return False

    def mine(self, sm, a):
        """the loop-carried values of this loop an atom speaks about"""
        return [y for y in set(subterms(a)) if y[0] == "it" and y[1] == sm.key]

    def live_backs(self, sm, f, mode):
        """completed iterations that can precede an exit in this mode under these facts: a condition every further
        iteration requires, and that holds at the exit, held at the end of every iteration"""
        req = []
        for a, p in f.facts.items():
            ts = self.mine(sm, a)
            if len(ts) == 1 and all(strip_ep_get(b[1], a) == p for b in sm.backs):
                req.append((a, p, ts[0]))
        out = []
        for bi, b in enumerate(sm.backs):
            if bi < len(sm.backmodes) and len(sm.modes) > 1 and not self.reaches(sm, sm.backmodes[bi][1], mode):
                continue
            st = State()
            st.facts = dict(b[1])
            ok = True
            for a, p, t in req:
                nx = b[3].get(t[2])
                if nx is None:
                    continue
                c = const_of(a, p)
                if c is not None:
                    nx = relin(subst(nx, lambda y: c if y == t else None))
                na, np = reatom(subst(a, lambda z: nx if z == t else None))
                ok = ok and st.assume((na, np == p))
            # flags accumulated with | and & keep every contribution
            for n, t in sm.phis.items():
                z = f.decide(atom_eq(t, ZERO)[0]) if t[0] == "it" else None
                nx = b[3].get(n)
                if z is None or nx is None:
                    continue
                x = accumulated(nx, t, z)
                if x is not None:
                    a, p = atom_eq(x, ZERO)
                    ok = ok and st.assume((a, p == z))
            if ok:
                out.append((b[0], st.facts, b[2], b[3]))
        return out

    def last_backs(self, sm, f, mode):
        out = []
        for bi, b in enumerate(sm.backs):
            if bi < len(sm.backmodes) and sm.backmodes[bi][1] != mode:
                continue
            st = State()
            st.facts = dict(b[1])
            ok = True
            for a, p in f.facts.items():
                ts = [y for y in set(subterms(a)) if y[0] == "it" and y[1] == sm.key]
                if len(ts) == 1 and b[3].get(ts[0][2]) is not None:
                    na, np = reatom(subst(a, lambda z: b[3][ts[0][2]] if z == ts[0] else None))
                    ok = ok and st.assume((na, np == p))
            if ok:
                out.append((b[0], st.facts, b[2], b[3]))
        return out

    # cells: m[i][j] / v[i]
    def cells_equal(self, f, s, ev, X, Y, t, k):
        worst = False
        if k == "matrix":
            rows, cols = ("ld", F(self.M, X, t, "nb_rows"), 0), ("ld", F(self.M, X, t, "nb_columns"), 0)
            rows2, cols2 = ("ld", F(self.M, Y, t, "nb_rows"), 0), ("ld", F(self.M, Y, t, "nb_columns"), 0)
            base = F(self.M, X, t, "m"), F(self.M, Y, t, "m")
            if f.known(atom_le0(strip_ep(rows))) or f.known(atom_le0(strip_ep(rows2))):
                return True
            for x in ev:
                sm = self.L.sm(x)
                if sm is None or not sm.backs:
                    continue
                oks = []
                for m, facts, e2, env in self.live_backs(sm, f, x[5]):
                    good = None
                    ff = self.fs(facts)
                    for y in e2:
                        sm2 = self.L.sm(y)
                        if sm2 is None or not sm2.backs:
                            continue
                        lb = self.live_backs(sm2, ff, y[5])
                        ijs = [self.cell_fact(self.fs(b2[1]), base) for b2 in lb]
                        if not lb or all(ij is None for ij in ijs):
                            good = good or False
                            continue
                        if any(ij is not None and ij[0] is None for ij in ijs):
                            return "yes"
                        if None in ijs:
                            skip = lb[ijs.index(None)]
                            same = any(p and a[0] == "peq" and a[2] != NULL for a, p in skip[1].items())
                            worst = worst or ("maybe" if same else "yes")
                            good = good or False
                            continue
                        for ij in ijs:
                            r = max(self.cov(x, f, ij[0], rows, X, Y), self.cov(x, f, ij[0], rows2, X, Y), key=self.rank)
                            c = max(self.cov(y, ff, ij[1], cols, X, Y), self.cov(y, ff, ij[1], cols2, X, Y), key=self.rank)
                            if r == c == "yes":
                                good = True
                            elif good is not True:
                                worst = "yes" if "no" in (r, c) else worst or "maybe"
                                good = good or False
                    if good is None and ff.known(atom_le0(strip_ep(cols))):
                        good = True
                    oks.append(good)
                if oks and all(o is True for o in oks):
                    return True
            return worst
        size = [("ld", F(self.M, X, t, "size"), 0), ("ld", F(self.M, Y, t, "size"), 0)]
        base = F(self.M, X, t, "v"), F(self.M, Y, t, "v")
        if any(f.known(atom_le0(strip_ep(z))) for z in size):
            return True
        for x in ev:
            sm = self.L.sm(x)
            if sm is None or not sm.backs:
                continue
            ixs = [self.vcell_fact(self.fs(b[1]), base) for b in self.live_backs(sm, f, x[5])]
            if ixs and all(i is not None for i in ixs):
                c = max((self.cov(x, f, ixs[0], z, X, Y) for z in size), key=self.rank)
                if c == "yes":
                    return True
                worst = "yes" if c == "no" else "maybe"
        return worst

    RK = {"no": 0, "unk": 1, "yes": 2}

    def rank(self, c):
        return self.RK[c]

    def cov(self, x, f, ix, bound, X, Y):
        sm = self.L.sm(x)
        roots = set(subterms(strip_ep(X))) | set(subterms(strip_ep(Y)))

        def plain(b):
            c, d = lin(b)
            return all(k[0] in ("ld", "call") and not any(y[0] in ("it", "itm", "uninit", "ret", "bin") and y not in roots for y in subterms(k)) for k in d)
        return self.L.cover(sm, f.facts, x[4], ix, bound, plain)

    def cell_fact(self, f, base):
        """(i, j) for which x->m[i][j] == y->m[i][j] is established; (None, None) when different positions are compared"""
        from .clone import CloneCheck
        bx, by = strip_ep(base[0]), strip_ep(base[1])
        bad = None
        for a, p in f.facts.items():
            if a[0] == "peq" and a[2] == NULL and a[1][0] == "call" and a[1][1] in ("osl_int_ne", "osl_int_eq"):
                if p != (a[1][1] == "osl_int_ne"):
                    continue
                u, v = a[1][2][1], a[1][2][2]
                if u[0] != "ld" or v[0] != "ld":
                    continue
                cu, cv = CloneCheck.cell_pos(u[1]), CloneCheck.cell_pos(v[1])
                if cu is None or cv is None:
                    continue
                if {cu[2], cv[2]} == {bx, by}:
                    if cu[:2] == cv[:2]:
                        return cu[:2]
                    bad = (None, None)
        return bad

    def vcell_fact(self, f, base):
        bx, by = strip_ep(base[0]), strip_ep(base[1])
        for a, p in f.facts.items():
            if a[0] == "peq" and a[2] == NULL and a[1][0] == "call" and a[1][1] in ("osl_int_ne", "osl_int_eq") and p == (a[1][1] == "osl_int_ne"):
                u, v = a[1][2][1], a[1][2][2]
                pos = [self.elem_pos(z[1]) if z[0] == "ld" else None for z in (u, v)]
                if None in pos:
                    continue
                if {pos[0][1], pos[1][1]} == {bx, by} and pos[0][0] == pos[1][0]:
                    return pos[0][0]
        return None

    @staticmethod
    def elem_pos(a):
        """&x->v[i] -> (i, &x->v)"""
        i = ZERO
        if a[0] == "idx":
            i, a = a[3], a[1]
        if a[0] != "ld":
            return None
        return i, a[1]

    # arrays
    def elem_equal_at(self, f, ax, ay, elem):
        """index at which the facts establish equality of the entries of *ax and *ay"""
        bx, by = strip_ep(ax), strip_ep(ay)
        for i1, i2 in self.elem_facts(f, bx, by, elem):
            if i1 == i2:
                return i1
        return None

    def elem_facts(self, f, bx, by, elem):
        """index pairs at which entries of *bx and *by are known equal"""
        out = []
        for a, p in f.facts.items():
            if elem == "val":
                if a[0] == "eq0" and p:
                    c, d = lin(a[1])
                    if c == 0 and len(d) == 2 and sorted(d.values()) == [-1, 1]:
                        ts = list(d)
                        pos = [self.elem_pos(z[1]) if z[0] == "ld" else None for z in ts]
                        if None in pos:
                            continue
                        if pos[0][1] == bx and pos[1][1] == by:
                            out.append((pos[0][0], pos[1][0]))
                        elif pos[0][1] == by and pos[1][1] == bx:
                            out.append((pos[1][0], pos[0][0]))
            else:
                if a[0] == "peq" and a[2] == NULL and p and a[1][0] == "call" and a[1][1] == "strcmp":
                    u, v = a[1][2][:2]
                    pos = [self.elem_pos(z[1]) if z[0] == "ld" else None for z in (u, v)]
                    if None in pos:
                        continue
                    if pos[0][1] == bx and pos[1][1] == by:
                        out.append((pos[0][0], pos[1][0]))
                    elif pos[0][1] == by and pos[1][1] == bx:
                        out.append((pos[1][0], pos[0][0]))
        return out

    def bounds_of(self, X, Y, t, n, k):
        parts = k.split(":")
        if k == "strv":
            return [("call", "osl_strings_size", (X,)), ("call", "osl_strings_size", (Y,))]
        if len(parts) > 2 and parts[2]:
            return [("ld", F(self.M, Z, t, parts[2]), 0) for Z in (X, Y)]
        if t == "irregular":
            if n == "predicates":
                return [("ld", F(self.M, Z, t, "nb_statements"), 0) for Z in (X, Y)]
            return [add(("ld", F(self.M, Z, t, "nb_control"), 0), ("ld", F(self.M, Z, t, "nb_exit"), 0)) for Z in (X, Y)]
        return []

    def array_equal(self, f, s, ev, X, Y, t, i, n, k):
        ax, ay = ("fld", X, S + t, i), ("fld", Y, S + t, i)
        elem = "str" if k == "strv" else k.split(":")[1]
        bounds = self.bounds_of(X, Y, t, n, k)
        if self.vals_equal(f, ("ld", ax, 0), ("ld", ay, 0)):
            return True
        if any(f.known(atom_le0(strip_ep(b))) for b in bounds):
            return True
        if k == "strv" and not self.vals_equal(f, bounds[0], bounds[1]):
            return self.definite(f, s, ev, bounds[0], bounds[1]) if all(any(y[0] == "call" and y == strip_ep(b) for a in f.facts for y in subterms(a)) for b in bounds) else "maybe"
        unordered = t in UNORDERED and n in UNORDERED[t][1]
        # memcmp of the whole block
        for a, p in f.facts.items():
            if a[0] == "peq" and p and a[2] == NULL and a[1][0] == "call" and a[1][1] == "memcmp" and elem == "val":
                u, v, sz = a[1][2][:3]
                if {u, v} == {strip_ep(("ld", ax, 0)), strip_ep(("ld", ay, 0))}:
                    from ..engine import scale
                    return True if any(sz == strip_ep(scale(b, 4)) for b in bounds) else "maybe"
        worst = False
        for x in ev:
            sm = self.L.sm(x)
            if sm is None or not sm.backs:
                continue
            if k.startswith("arr2"):
                r = self.arr2_loop(f, x, sm, X, Y, t, n, ax, ay, elem, bounds)
            elif unordered:
                r = self.unordered_loop(f, x, sm, X, Y, t, n, elem, bounds)
            else:
                r = self.ordered_loop(f, x, sm, X, Y, ax, ay, elem, bounds)
            if r is True:
                return True
            worst = worst or r
        return worst or (False if not unordered else "yes")

    def ordered_loop(self, f, x, sm, X, Y, ax, ay, elem, bounds):
        ixs, hit = [], False
        for m, facts, e2, env in self.live_backs(sm, f, x[5]):
            ff = self.fs(facts)
            i = self.elem_equal_at(ff, ax, ay, elem)
            if i is not None:
                hit = True
            ixs.append(i)
        if not hit:
            return False
        if None in ixs:
            return "yes"
        c = max((self.cov(x, f, ixs[0], b, X, Y) for b in bounds), key=self.rank)
        return True if c == "yes" else ("yes" if c == "no" else "maybe")

    def reaches(self, sm, a, b):
        if a == b:
            return True
        seen, todo = {a}, [a]
        while todo:
            z = todo.pop()
            for p, q in sm.trans:
                if p == z and q not in seen:
                    if q == b:
                        return True
                    seen.add(q)
                    todo.append(q)
        return False

    def arr2_loop(self, f, x, sm, X, Y, t, n, ax, ay, elem, bounds):
        inner = "nb_predicates" if n == "predicates" else "nb_iterators"
        hit, worst = False, None
        for m, facts, e2, env in self.live_backs(sm, f, x[5]):
            ff = self.fs(facts)
            got = False
            for y in e2:
                sm2 = self.L.sm(y)
                if sm2 is None or not sm2.backs:
                    continue
                for iv in self.index_terms(sm):
                    rx, ry = [("idx", ("ld", z, 0), "ptr", iv) for z in (ax, ay)]
                    ib = [("ld", ("idx", ("ld", F(self.M, Z, t, inner), 0), "i32", iv), 0) for Z in (X, Y)]
                    r = self.ordered_loop(ff, y, sm2, X, Y, rx, ry, elem, ib)
                    if r is True:
                        c = max((self.cov(x, f, iv, b, X, Y) for b in bounds), key=self.rank)
                        if c == "yes":
                            got = True
                        else:
                            worst = worst or ("yes" if c == "no" else "maybe")
                    elif r:
                        worst = worst or r
            if not got:
                for iv in self.index_terms(sm):
                    for Z in (X, Y):
                        if ff.known(atom_le0(strip_ep(("ld", ("idx", ("ld", F(self.M, Z, t, inner), 0), "i32", iv), 0)))):
                            got = True
            hit = hit or got
            if not got:
                return worst or False
        return True if hit else False

    def index_terms(self, sm):
        out = [t for n, t in sm.phis.items() if self.L.ivar(sm, t)]
        return out + [strip_ep(v) for v in sm.derived.values() if self.L.ivar(sm, strip_ep(v))]

    # unordered: every entry of one side has an equal counterpart
    def unordered_loop(self, f, x, sm, X, Y, t, n, elem_, bounds):
        group = UNORDERED[t][1]
        kinds = {m: FIELDS[t][m].split(":")[1] for m in group}
        oks = []
        for m, facts, e2, env in self.live_backs(sm, f, x[5]):
            ff = self.fs(facts)
            i = self.found_pair(ff, e2, X, Y, t, group, kinds)
            oks.append(i)
        if not any(o is not None for o in oks):
            return False
        if None in oks:
            return "yes"
        c = max((self.cov(x, f, oks[0], b, X, Y) for b in bounds), key=self.rank)
        return True if c == "yes" else ("yes" if c == "no" else "maybe")

    def pair_index(self, f, X, Y, t, group, kinds):
        common = None
        for g in group:
            ax, ay = strip_ep(F(self.M, X, t, g)), strip_ep(F(self.M, Y, t, g))
            ps = set(self.elem_facts(f, ax, ay, kinds[g]))
            common = ps if common is None else common & ps
        return common or set()

    def found_pair(self, ff, e2, X, Y, t, group, kinds):
        """outer index for which this iteration found an equal counterpart"""
        for i, j in self.pair_index(ff, X, Y, t, group, kinds):
            return i
        for y in e2:
            sm2 = self.L.sm(y)
            if sm2 is None:
                continue
            r = self.flagged(sm2, y[5], lambda f2: next(iter(self.pair_index(f2, X, Y, t, group, kinds)), (None,))[0], ff)
            if r is not None:
                return r
        return None

    def flagged(self, sm, mode, ev, f=None):
        """the loop was left in a mode that is only entered by an iteration establishing ev(facts)"""
        if len(sm.modes) < 2 or mode == 0:
            return None
        got = None
        if f is not None:
            rs = [ev(self.fs(b[1])) for b in self.last_backs(sm, f, mode)]
            if rs and all(r is not None for r in rs):
                return rs[0]
        # modes reachable from the first one without passing an establishing iteration
        plainm, todo = {0}, [0]
        while todo:
            z = todo.pop()
            for bi, (p, q) in enumerate(sm.backmodes):
                if p != z:
                    continue
                r = ev(self.fs(sm.backs[bi][1]))
                if r is not None:
                    got = r
                    continue
                if q not in plainm:
                    plainm.add(q)
                    todo.append(q)
        return got if mode not in plainm else None

    # ------------------------------------------------------------------ "equal"
    def yes(self, s, line):
        t = self.t
        f = self.fs(s.facts)
        X, Y = ("arg", 0), ("arg", 1)
        if self.vals_equal(f, X, Y):
            self.rep.ok(self.fn, "equal-yes", "same structure")
            return
        if self.call_true(f, [n for n in self.deq(t) if n != self.fn], X, Y):
            self.rep.ok(self.fn, "equal-yes", "delegated")
            return
        if f.known(atom_eq(X, NULL)) != f.known(atom_eq(Y, NULL)) and (f.decide(atom_eq(X, NULL)[0]) is False or f.decide(atom_eq(Y, NULL)[0]) is False):
            self.rep.bad(self.fn, line, "equal-yes", "answers equal for a missing and an existing structure")
            return
        islist = any(k == "link" for _, _, k, _ in fields(self.M, t)) and not self.node
        if not islist or t in NODE_ONLY:
            self.report_missing(self.node_missing(f, s, s.ev, X, Y, t), line)
            return
        nx = fidx(self.M, t, "next")
        # walked in parallel?
        best = None
        for x in s.ev:
            sm = self.L.sm(x)
            if sm is None:
                continue
            w0 = [w for w in self.L.walker(sm, S + t, nx) if self.E.root(w[1]) == X]
            w1 = [w for w in self.L.walker(sm, S + t, nx) if self.E.root(w[1]) == Y]
            if w0 and w1 and t not in UNORDERED_LIST:
                self.parallel(f, s, x, sm, w0[0], w1[0], line)
                return
            if t in UNORDERED_LIST and (w0 or w1):
                best = (x, sm, (w0 or w1)[0], bool(w0))
        if t in UNORDERED_LIST and best:
            self.unordered_list(f, s, best, line)
            return
        if t in UNORDERED_LIST:
            self.rep.undec(self.fn, "equal-yes", "list comparison not understood")
            return
        # first nodes here, the rest by recursion
        miss = self.node_missing(f, s, s.ev, X, Y, t)
        self.report_missing(miss, line)
        x, y = ("ld", F(self.M, X, t, "next"), 0), ("ld", F(self.M, Y, t, "next"), 0)
        if self.vals_equal(f, x, y) or self.call_true(f, self.deq(t), x, y):
            self.rep.ok(self.fn, "equal-list", "rest of the lists compared")
        else:
            d = self.definite(f, s, s.ev, x, y)
            if d == "maybe":
                self.rep.undec(self.fn, "equal-list", "comparison of the remaining nodes not understood")
            else:
                self.rep.bad(self.fn, line, "equal-list", "answers equal without comparing the remaining nodes of the lists", key=f"{self.fn}:equal-list")

    def report_missing(self, miss, line):
        t = self.t
        for n, d in miss:
            if d == "maybe":
                self.rep.undec(self.fn, "equal-yes", f"comparison of {t}.{n} not understood")
            else:
                self.rep.bad(self.fn, line, "equal-yes", f"answers equal on a path that has not compared {t}.{n} in full", key=f"{self.fn}:equal-yes:{t}.{n}")
        if not miss:
            for i, n, k, c in fields(self.M, t):
                if k not in ("skip", "link") and n not in EXCLUDED.get(t, ()):
                    self.rep.ok(self.fn, "equal-yes", f"{t}.{n}")

    def parallel(self, f, s, x, sm, w0, w1, line):
        t = self.t
        nx = fidx(self.M, t, "next")
        a, b = w0[0], w1[0]
        for init, X in ((w0[1], ("arg", 0)), (w1[1], ("arg", 1))):
            if strip_ep(init) != X:
                # nodes before the loop must have been compared
                self.rep.undec(self.fn, "equal-list", "walk does not start at the head")
                return
        for m, facts, e2, env in self.live_backs(sm, f, x[5]):
            ff = self.fs(facts)
            st = State()
            st.facts = facts
            self.report_missing(self.node_missing(ff, st, e2, a, b, t), line)
        # how it ends
        na, nb = ("ld", F(self.M, a, t, "next"), 0), ("ld", F(self.M, b, t, "next"), 0)
        if self.vals_equal(f, a, b):
            self.rep.ok(self.fn, "equal-list", "both lists end together")
        elif self.vals_equal(f, na, nb):
            self.rep.ok(self.fn, "equal-list", "both lists end together")
            self.report_missing(self.node_missing(f, s, s.ev, a, b, t), line)
        else:
            self.rep.bad(self.fn, line, "equal-list", "answers equal although one list may be longer than the other or be left unread", key=f"{self.fn}:equal-list")

    def unordered_list(self, f, s, best, line):
        t = self.t
        x, sm, w, first = best
        nx = fidx(self.M, t, "next")
        X, Y = ("arg", 0), ("arg", 1)
        counted = any(f.known(atom_eq(("call", n, (X,)), ("call", n, (Y,)))) for n in (f"osl_{t}_count", f"osl_{t}_number"))
        if counted:
            self.rep.ok(self.fn, "equal-list", "same number of nodes")
        else:
            self.rep.bad(self.fn, line, "equal-list", "answers equal without knowing that both lists have the same number of nodes", key=f"{self.fn}:equal-list-count")
        if not self.L.at_end(s.facts, w[0], S + t, nx):
            self.rep.bad(self.fn, line, "equal-list", "answers equal before every node of the first list was looked up", key=f"{self.fn}:equal-list-end")
        for m, facts, e2, env in sm.backs:
            ff = self.fs(facts)
            ok = self.node_pair(ff, w[0], t)
            for y in e2:
                sm2 = self.L.sm(y)
                if sm2 is not None and not ok:
                    ok = self.flagged(sm2, y[5], lambda f2: True if self.node_pair(f2, w[0], t) else None, ff)
            if ok:
                self.rep.ok(self.fn, "equal-yes", "every node has an equal counterpart")
            else:
                self.rep.bad(self.fn, line, "equal-yes", "a node is accepted without an equal counterpart in the other list", key=f"{self.fn}:equal-yes:node")

    def node_pair(self, f, a, t):
        """facts establish that node a equals some node of the other list"""
        if t != "generic":
            for q, p in f.facts.items():
                if q[0] == "peq" and q[2] == NULL and not p and q[1][0] == "call" and q[1][1] in self.neq(t) and a in q[1][2]:
                    return True
                if q[0] == "eq0" and p and q[1][0] == "lin":
                    c, d = lin(add(q[1], ("int", 1)))
                    if q[1][1] == -1 and len(q[1][2]) == 1 and q[1][2][0][0][0] == "call" and q[1][2][0][0][1] in self.neq(t) and a in q[1][2][0][0][2]:
                        return True
            return False
        ifn, dat = False, False
        ia, da = strip_ep(("ld", F(self.M, a, t, "interface"), 0)), strip_ep(("ld", F(self.M, a, t, "data"), 0))
        for q, p in f.facts.items():
            if q[0] == "peq" and q[2] == NULL and not p and q[1][0] == "call":
                if q[1][1] in self.neq("interface") and ia in q[1][2]:
                    ifn = True
                if q[1][1] == "*equal" and da in q[1][2]:
                    dat = True
        return ifn and dat

    # ------------------------------------------------------------------ "different"
    def no(self, s, line):
        f = self.fs(s.facts)
        if self.differs(f, s.ev):
            self.rep.ok(self.fn, "equal-no", "difference found")
        elif self.t == "generic" and any(a[0] == "peq" and a[2] == NULL and p and is_ld(a[1], ("fld", a[1][1][1], S + "generic", fidx(self.M, "generic", "interface")))
                                         for a, p in f.facts.items() if a[1][0] == "ld" and a[1][1][0] == "fld"):
            self.rep.ok(self.fn, "equal-no", "unregistered generic: equality cannot be stated")
        elif self.fuzzy(f, s.ev):
            self.rep.undec(self.fn, "equal-no", f"line {line}: reason of the difference not understood")
        else:
            self.rep.bad(self.fn, line, "equal-no", "answers different on a path that has found no difference", key=f"{self.fn}:equal-no:{self.sig(f)}")

    def sig(self, f):
        return ",".join(sorted(show_lit(self.M, l, self.names)[:50] for l in f.facts.items()))[:160]

    def side(self, t):
        r = set()
        for y in subterms(t):
            if y == ("arg", 0):
                r.add(0)
            elif y == ("arg", 1):
                r.add(1)
            elif y[0] == "it":
                r |= self.it_side(y)
        return r

    def it_side(self, y):
        for sm in self.E.summaries:
            if sm.key == y[1]:
                init = sm.inits.get(y[2])
                if init is not None and init[0] not in ("int",):
                    return self.side(init)
        return set()

    def norm(self, t, side):
        """path with the structure's root abstracted"""
        def g(y):
            if y[0] == "arg":
                return ("root",)
            if y[0] == "it" and self.it_side(y):
                return ("root",)
            return None
        return subst(t, g)

    def differs(self, f, ev, depth=3):
        nulls, nonn = [], []
        for a, p in f.facts.items():
            if a[0] == "eq0" and not p:
                c, d = lin(a[1])
                ts = list(d)
                if len(ts) == 2 and c == 0 and len(self.side(ts[0]) | self.side(ts[1])) == 2 and any(f.facts.get(("peq", z, NULL)) is True for z in ts):
                    return True
                if len(ts) == 2 and c == 0 and self.side(ts[0]) and self.side(ts[1]) and self.side(ts[0]) != self.side(ts[1]) and not (ts[0][0] in ("arg", "it") and ts[1][0] in ("arg", "it")):
                    return True
                if len(ts) == 1 and c == -1 and ts[0][0] == "call" and ts[0][1] in self.fns:
                    return True
            elif a[0] == "le0":
                c, d = lin(a[1])
                ts = list(d)
                if len(ts) == 2 and self.side(ts[0]) != self.side(ts[1]) and self.side(ts[0]) and self.side(ts[1]):
                    # x - y <= -1 or x - y >= 1
                    if (p and c >= 1) or (not p and c <= 0):
                        return True
            elif a[0] == "peq" and a[2] == NULL:
                x = a[1]
                if x[0] == "call":
                    sides = self.side(x)
                    if x[1] in ("strcmp", "osl_int_ne", "memcmp", "strncmp") and not p and len(sides) == 2:
                        return True
                    if (x[1] in self.fns or x[1] in ("osl_int_eq", "*equal")) and p and len(sides) == 2:
                        return True
                (nulls if p else nonn).append(x)
            elif a[0] == "peq" and not p:
                if len(self.side(a[1]) | self.side(a[2])) == 2 and a[1][0] == "ld":
                    return True
        for x in nulls:
            for y in nonn:
                if self.side(x) and self.side(y) and self.side(x) != self.side(y) and self.norm(x, 0) == self.norm(y, 0):
                    return True
                if x[0] in ("arg", "it") and y[0] in ("arg", "it") and self.side(x) != self.side(y) and self.side(x) and self.side(y):
                    return True
        if depth:
            for y in ev:
                sm = self.L.sm(y)
                if sm is None:
                    continue
                # left with a flag set by an iteration that found a difference
                if self.flagged(sm, y[5], lambda f2: True if self.differs(f2, (), 0) else None):
                    return True
                # the last iteration left a condition behind that only a difference produces
                if len(sm.modes) > 1 and y[5] != 0:
                    rel = self.last_backs(sm, f, y[5])
                    if rel and all(self.differs(self.fs(b[1]), b[2], depth - 1) for b in rel):
                        return True
                # search without success: every iteration that went on saw a difference
                if any(len(self.side(a)) == 2 and self.mine(sm, a) for a, p in y[3]):
                    continue
                rel = self.live_backs(sm, f, y[5])
                if y[5] == 0 and len(sm.modes) > 1:
                    # nothing to search through: judged like an unsuccessful search
                    for m2 in range(1, len(sm.modes)):
                        r2 = self.live_backs(sm, f, m2)
                        if r2 and all(self.differs(self.fs(b[1]), b[2], depth - 1) for b in r2):
                            return True
                if rel and all(self.differs(self.fs(b[1]), b[2], depth - 1) for b in rel):
                    return True
        return False

    def counter(self, y):
        """a loop variable advancing by a constant"""
        for sm in self.E.summaries:
            if sm.key == y[1] and y[0] == "it":
                st = {add(x, y, -1) for x in sm.steps.get(y[2], ()) if x is not None}
                return len(st) == 1 and next(iter(st))[0] == "int"
        return False

    def fuzzy(self, f, ev):
        for a, p in f.facts.items():
            if len(self.side(a)) == 2 and any(y[0] in ("bin", "itm", "ret") for y in subterms(a)):
                return True
            if any(y[0] in ("it", "itm") and not self.it_side(y) and not self.counter(y) for y in subterms(a)) and ev:
                return True
        return False


def strip_ep_get(facts, a):
    v = facts.get(a)
    if v is None:
        for k, p in facts.items():
            if strip_ep(k) == a:
                return p
    return v


def const_of(a, p):
    """the constant an atom pins its only term to"""
    if not p:
        return None
    if a[0] == "peq" and a[2] == NULL:
        return ZERO
    if a[0] == "eq0":
        c, d = lin(a[1])
        if len(d) == 1 and abs(list(d.values())[0]) == 1:
            return ("int", -c * list(d.values())[0])
    return None


def accumulated(v, t, zero):
    """x of  v = t | x (zero: the result is 0)  or  v = t & x (the result is not 0)"""
    if v[0] == "bin" and v[1] == ("or" if zero else "and") and t in v[2:4]:
        o = [x for x in v[2:4] if x != t]
        return o[0] if o else None
    return None


def M_field(M, sty, i):
    return M.fields[sty][i][0]


def run(M, rep):
    check_model(M)
    e = Eq(M, rep)
    if len(e.fns) < 22:
        raise AnalysisBroken(f"only {len(e.fns)} equality functions found")
    e.run()
