"""C22 and C24: what an edit of a relation or vector leaves behind - recorded sizes, kind and counts that agree with the matrix (C22), and every
cell at its documented place (C24).

The cells written on a path are collected as rectangles (the ranges of the loops around the write) with the value put there (relative to the written
position); they must tile the documented layout of the result."""
from ..engine import Engine, Incomplete, NULL, ZERO, atom_eq, atom_le0, add, scale, lin, subterms, subst, relin, State
from ..ir import AnalysisBroken
from .common import *
from .cells import Cells, CEngine, EDITS, ONE, DIM, hyps, prove

MONE = ("int", -1)
R, V = "relation", "vector"
SIZES = {"relation": ("nb_rows", "nb_columns"), "vector": ("size",)}
KEPT = ("type", "precision", "nb_output_dims", "nb_input_dims", "nb_local_dims", "nb_parameters", "next")
BUILD = ("osl_relation_concat_vector", "osl_relation_concat_constraints", "osl_relation_from_vector",
         "osl_vector_add", "osl_vector_sub", "osl_vector_add_scalar", "osl_vector_mul_scalar")
TAGS = ("osl_vector_tag_inequality", "osl_vector_tag_equality")
COPIES = ("osl_relation_clone", "osl_relation_nclone", "osl_relation_clone_nconstraints", "osl_vector_clone")


class Vague(Exception):
    """the analysis cannot tell"""


class Split(Vague):
    """whether e <= 0 matters: both cases are looked at"""
    def __init__(self, e):
        super().__init__("two limits that cannot be compared")
        self.e = e


FIXED = set()           # positions in the list of the part being treated


def its(t):
    return {x for x in subterms(t) if x[0] in ("it", "itp", "itm")} - FIXED


class Piece:
    """cells [r0,r1) x [c0,c1) of an object receive a value: a polynomial {monomial: factor} whose monomials are () or (source, row, column); row and
    column are ('rel', d): the written position + d, or ('abs', e)"""
    __slots__ = ("o", "r", "c", "val", "line", "diag")

    def __init__(self, o, r, c, val, line, diag=None):
        self.o, self.r, self.c, self.val, self.line, self.diag = o, r, c, val, line, diag


class Edits(Cells):
    rule = "layout"

    # ------------------------------------------------------------------ documented effects
    def position(self, known, row, n):
        """where a row goes when -1 stands for the end"""
        if known(atom_eq(row, MONE)):
            return n
        if row == n:
            return n
        l = atom_eq(row, MONE)
        if known((l[0], not l[1])) or known(atom_le0(scale(row, -1))):
            return row
        return ("call", "position", (row, n), 0, "cur")

    def spec(self, fn, d, a, known):
        """(object or 'ret', rows, columns, precision, [(r0, r1, c0, c1, value)], in place?) documented for an operation"""
        full = {}
        cell = lambda o, dr=ZERO, dc=ZERO, k=1: {(o, ("rel", dr), ("rel", dc)): k}
        vec = lambda v, dc=ZERO, k=1: {(v, ("abs", ZERO), ("rel", dc)): k}
        zero = {}
        if fn in ("osl_relation_replace_vector", "osl_relation_add_vector", "osl_relation_sub_vector"):
            r, v, row = a
            n, m = d(r, R, "nb_rows"), d(r, R, "nb_columns")
            if fn.endswith("replace_vector"):
                segs = [(row, add(row, ONE), ZERO, m, vec(v))]
            else:
                segs = [(row, add(row, ONE), ZERO, ONE, (cell(r), vec(v))),
                        (row, add(row, ONE), ONE, m, {**cell(r), **vec(v, k=1 if "add" in fn else -1)})]
            return r, n, m, d(r, R, "precision"), segs, True
        if fn in ("osl_relation_insert_vector", "osl_relation_insert_blank_row"):
            r, row = a[0], a[-1]
            n, m = d(r, R, "nb_rows"), d(r, R, "nb_columns")
            p = self.position(known, row, n)
            q = add(p, ONE)
            return r, add(n, ONE), m, d(r, R, "precision"), [(ZERO, p, ZERO, m, cell(r)), (p, q, ZERO, m, vec(a[1]) if len(a) == 3 else zero),
                                                            (q, add(n, ONE), ZERO, m, cell(r, MONE))], False
        if fn == "osl_relation_concat_vector":
            r, v = a
            n, m = d(r, R, "nb_rows"), d(r, R, "nb_columns")
            return "ret", add(n, ONE), m, d(r, R, "precision"), [(ZERO, n, ZERO, m, cell(r)), (n, add(n, ONE), ZERO, m, vec(v))], False
        if fn == "osl_relation_from_vector":
            m = d(a[0], V, "size")
            return "ret", ONE, m, d(a[0], V, "precision"), [(ZERO, ONE, ZERO, m, vec(a[0]))], False
        if fn in ("osl_relation_insert_blank_column", "osl_relation_insert_columns"):
            r, c = a[0], a[-1]
            n, m = d(r, R, "nb_rows"), d(r, R, "nb_columns")
            w = ONE if len(a) == 2 else d(a[1], R, "nb_columns")
            e = add(c, w)
            return r, n, add(m, w), d(r, R, "precision"), [(ZERO, n, ZERO, c, cell(r)), (ZERO, n, c, e, zero if len(a) == 2 else cell(a[1], ZERO, scale(c, -1))),
                                                          (ZERO, n, e, add(m, w), cell(r, ZERO, scale(w, -1)))], False
        if fn == "osl_relation_replace_constraints":
            r, s, row = a
            n2, m = d(s, R, "nb_rows"), d(r, R, "nb_columns")
            return r, d(r, R, "nb_rows"), m, d(r, R, "precision"), [(row, add(row, n2), ZERO, m, cell(s, scale(row, -1)))], True
        if fn == "osl_relation_insert_constraints":
            r, s, row = a
            n, m, n2 = d(r, R, "nb_rows"), d(r, R, "nb_columns"), d(s, R, "nb_rows")
            p = self.position(known, row, n)
            q = add(p, n2)
            return r, add(n, n2), m, d(r, R, "precision"), [(ZERO, p, ZERO, m, cell(r)), (p, q, ZERO, m, cell(s, scale(p, -1))),
                                                           (q, add(n, n2), ZERO, m, cell(r, scale(n2, -1)))], False
        if fn == "osl_relation_concat_constraints":
            r, s = a
            n, m, n2 = d(r, R, "nb_rows"), d(r, R, "nb_columns"), d(s, R, "nb_rows")
            return "ret", add(n, n2), m, d(r, R, "precision"), [(ZERO, n, ZERO, m, cell(r)), (n, add(n, n2), ZERO, m, cell(s, scale(n, -1)))], False
        if fn == "osl_relation_swap_constraints":
            r, x, y = a
            n, m = d(r, R, "nb_rows"), d(r, R, "nb_columns")
            return r, n, m, d(r, R, "precision"), [(x, add(x, ONE), ZERO, m, cell(r, add(y, x, -1))), (y, add(y, ONE), ZERO, m, cell(r, add(x, y, -1)))], True
        if fn in ("osl_relation_remove_row", "osl_relation_remove_column"):
            r, x = a
            n, m = d(r, R, "nb_rows"), d(r, R, "nb_columns")
            if fn.endswith("row"):
                k = add(n, MONE)
                return r, k, m, d(r, R, "precision"), [(ZERO, x, ZERO, m, cell(r)), (x, k, ZERO, m, cell(r, ONE))], False
            k = add(m, MONE)
            return r, n, k, d(r, R, "precision"), [(ZERO, n, ZERO, x, cell(r)), (ZERO, n, x, k, cell(r, ZERO, ONE))], False
        if fn in ("osl_vector_add", "osl_vector_sub"):
            m = d(a[0], V, "size")
            return "ret", None, m, d(a[0], V, "precision"), [(ZERO, ONE, ZERO, m, {**vec(a[0]), **vec(a[1], k=1 if fn.endswith("add") else -1)})], False
        if fn == "osl_vector_add_scalar":
            m = d(a[0], V, "size")
            l = add(m, MONE)
            return "ret", None, m, d(a[0], V, "precision"), [(ZERO, ONE, ZERO, l, vec(a[0])), (ZERO, ONE, l, m, {**vec(a[0]), ("scalar", a[1]): 1})], False
        if fn == "osl_vector_mul_scalar":
            m = d(a[0], V, "size")
            return "ret", None, m, d(a[0], V, "precision"), [(ZERO, ONE, ZERO, m, {("times", a[1]) + next(iter(vec(a[0]))): 1})], False
        if fn in TAGS:
            m = d(a[0], V, "size")
            return a[0], None, m, d(a[0], V, "precision"), [(ZERO, ONE, ZERO, ONE, {(): 1} if fn.endswith("inequality") else {})], True
        return None

    def effect(self, E, s, name, args, i):
        """the sizes recorded after an opaque edit are the documented ones (decided where that edit is analysed)"""
        n = name.split("@")[0]
        pre = {}
        sp = None
        if n in EDITS or n in BUILD:
            sp = self.spec(n, lambda o, t, f: self.get(E, s, o, t, f), list(args), s.known)
        kept = [(x, self.get(E, s, args[0], R, x)) for x in KEPT] if n in EDITS else []
        r = super().effect(E, s, name, args, i)
        if r is False or sp is None:
            return r
        o, rows, cols, prec, segs, inplace = sp
        t = R if n.startswith("osl_relation") else V
        if o == "ret":
            o = s.env[i.n]
        if rows is not None and t == R:
            self.put(s, o, R, "nb_rows", rows)
        self.put(s, o, t, DIM[t][-1], cols)
        self.put(s, o, t, "precision", prec)
        for x, v in kept:
            self.put(s, o, R, x, v)
        return r

    # ------------------------------------------------------------------ analysis of one operation
    def study(self, fn):
        M = self.M
        public = lambda n: n.split("@")[0] in M.public and n != fn
        for opaque, steps in ((public, 100000), (lambda n: public(n) or n in M.funcs and not M.funcs[n].decl and not self.has(n) and n != fn, 200000)):
            E = CEngine(M, opaque=opaque, track=lambda n: n in M.funcs and n.split("@")[0] in M.public or n in ("free", "memcpy", "memmove"), max_states=4000,
                        models=models(M), max_steps=steps)
            E.cells = self
            E.keep_facts = True
            E.track_store = lambda a, s: True
            self.E, self.fn, self.acc, self.writes = E, fn, {}, {}
            self.met, self.sums, self.ours = set(), {}, False
            self.names = [p.id for p in M.funcs[fn].params]
            try:
                self.res = E.analyse(fn)
                return True
            except Incomplete as e:
                why = str(e)
        self.rep.undec(fn, self.rule, why)
        return False

    def on_call(self, E, frame, i, s, name, args):
        pass

    def on_store(self, E, frame, i, s, a, v):
        pass

    # ------------------------------------------------------------------ what is written
    def limits(self, f, t):
        """[(kind, bound)] on the loop variable t in the facts: ('lo', b): t >= b, ('hi', b): t < b, ('ne', b), ('eq', b)"""
        out = []
        for a, p in f.items():
            if a[0] == "eq0" or a[0] == "peq" and t in (a[1], a[2]) and a[2] == NULL:
                e = a[1]
            elif a[0] == "le0":
                e = a[1] if p else add(scale(a[1], -1), ONE)
            else:
                continue
            c, d = lin(e)
            k = d.get(t)
            if k is None:
                if any(t in subterms(x) for x in d):
                    raise Vague("a condition on the loop variable")
                continue
            if abs(k) != 1:
                raise Vague("a condition on a multiple of the loop variable")
            rest = add(e, scale(t, k), -1)
            b = scale(rest, -k)                     # t == b
            if a[0] == "le0":
                out.append(("hi", add(b, ONE)) if k == 1 else ("lo", b))
            else:
                out.append(("eq" if p else "ne", b))
        return out

    def le(self, fs, a, b):
        return self.holds(fs, "le", add(a, b, -1))

    def eq(self, fs, a, b):
        return a == b or self.holds(fs, "eq", add(a, b, -1))

    def ranges_of(self, sm, x, back, path, t):
        """the values of loop variable t for which this way through the loop is taken: [(lo, hi)]"""
        n = t[2] if t[0] == "it" else None
        if n is None or n not in sm.inits:
            raise Vague("the loop variable is not a counter")
        ds = {add(y, t, -1) for y in sm.steps.get(n, ()) if y is not None}
        if len(ds) != 1 or next(iter(ds)) not in (ONE, MONE):
            raise Vague("the loop variable does not advance by one")
        st = next(iter(ds))
        init = strip_ep(sm.inits[n])
        ex = [(k, b) for k, b in self.limits(dict(x[3]), t)]
        if st == ONE:
            ends = [b for k, b in ex if k in ("lo", "eq") and not its(b) - self.outer]
            ends = [b for b in ends if b != init] or ends
            if not ends or not x[4]:
                raise Vague("the end of the loop is not known")
            lo, hi = init, ends[0] if len(ends) == 1 else self.pickend(path, ends, max)
        else:
            ends = [b if k == "hi" else add(b, ONE) for k, b in ex if k in ("hi", "eq") and not its(b) - self.outer]
            ends = [b for b in ends if b != add(init, ONE)] or ends
            if not ends or not x[4]:
                raise Vague("the end of the loop is not known")
            lo, hi = (ends[0] if len(ends) == 1 else self.pickend(path, ends, min)), add(init, ONE)
        if its(lo) | its(hi):
            raise Vague("the range of the loop depends on another loop")
        out = [(lo, hi)]
        for k, b in self.limits(back, t):
            if its(b):
                continue                             # handled as a diagonal
            nw = []
            for l, h in out:
                if k == "lo":
                    if self.le(path, b, l):
                        nw.append((l, h))
                    elif self.le(path, l, b):
                        nw.append((b, h))
                    else:
                        raise Split(add(b, l, -1))
                elif k == "hi":
                    if self.le(path, h, b):
                        nw.append((l, h))
                    elif self.le(path, b, h):
                        nw.append((l, b))
                    else:
                        raise Split(add(b, h, -1))
                elif k == "eq":
                    nw.append((b, add(b, ONE)))
                elif self.eq(path, b, h) or self.le(path, h, b) or self.le(path, add(b, ONE), l):
                    nw.append((l, h))
                elif self.eq(path, b, l):
                    nw.append((add(l, ONE), h))
                else:
                    nw += [(l, b), (add(b, ONE), h)]
            out = nw
        return out

    def pickend(self, path, ends, which):
        """the exit tests leave several limits: the tightest one"""
        for e in ends:
            if all(self.le(path, o, e) if which is max else self.le(path, e, o) for o in ends):
                return e
        raise Vague("several ends of the loop")

    def owner(self, a):
        a = strip_ep(a)
        c = self.cell(a)
        if c is None:
            return None
        o, t, ix = c
        return (o, ZERO, ix[0]) if t == V else (o, ix[0], ix[1])

    def writes_of(self, ev, path, loops=(), facts=None):
        """pieces written by the events, in order"""
        out = []
        for x in ev:
            if x[0] == "loop":
                sm = self.E.summaries[x[2]]
                for m, f, e2, env in sm.backs:
                    if not self.mentions(e2):
                        continue
                    if self.contradicts(path, f):
                        continue
                    out += self.writes_of(e2, path, loops + ((sm, x, f),), f)
            elif x[0] == "call":
                out += self.one_call(x, path, loops)
            elif x[0] == "store" and self.owner(x[1]) is not None:
                raise Vague(f"line {x[3]}: a cell is stored to directly")
        return out

    def mentions(self, ev):
        return any(x[0] == "call" or x[0] == "store" and self.owner(x[1]) is not None or x[0] == "loop" and any(self.mentions(b[2]) for b in self.E.summaries[x[2]].backs) for x in ev)

    def contradicts(self, path, f):
        st = State()
        st.facts = dict(path)
        for a, p in f.items():
            if its(a):
                continue
            d = st.decide(a)
            if d is not None and d != p:
                return True
        return False

    def arg_value(self, v):
        """polynomial of an operand"""
        if v[0] in ("ld", "clob"):
            o = self.owner(v[1])
            if o is not None:
                return {o: 1}
        raise Vague("an operand that is not a cell")

    def one_call(self, x, path, loops):
        name, args, line = x[1].split("@")[0], list(x[2]), x[4]
        if name in EDITS or name in TAGS:
            return self.delegated(name, args, path, loops, line, x)
        if not name.startswith("osl_int_"):
            return []
        ts = self.M.ptypes.get(name)
        if not ts or "union.osl_int*" not in ts[1:]:
            return []
        dst = [k for k, t in enumerate(ts[1:]) if t == "union.osl_int*"]
        ow = [self.owner(args[k]) for k in dst]
        if all(o is None for o in ow):
            r = {self.E.objroot(strip_ep(args[k]))[0] for k in dst}
            if r <= {"alloca"}:
                return []
            raise Vague(f"line {line}: {name} writes to an unknown cell")
        op = name[8:]
        if op == "swap":
            if None in ow:
                raise Vague("swap with a temporary")
            return self.place(ow[0], {ow[1]: 1}, path, loops, line) + self.place(ow[1], {ow[0]: 1}, path, loops, line)
        if op in ("clear",):
            raise Vague("a cell is cleared")
        ints = [args[k] for k, t in enumerate(ts[1:]) if t in ("int", "long") and k > 0]
        vals = [self.arg_value(args[k]) for k, t in enumerate(ts[1:]) if t == "union.osl_int"]
        d = ow[0]
        if op in ("assign",):
            v = vals[0]
        elif op in ("add", "sub"):
            v = dict(vals[0])
            for k, c in vals[1].items():
                v[k] = v.get(k, 0) + (c if op == "add" else -c)
        elif op == "oppose":
            v = {k: -c for k, c in vals[0].items()}
        elif op in ("set_si", "init_set_si"):
            v = {(): ints[0][1]} if ints[0][0] == "int" else {("scalar", ints[0]): 1}
        elif op in ("add_si",):
            v = dict(vals[0])
            k = () if ints[0][0] == "int" else ("scalar", ints[0])
            v[k] = v.get(k, 0) + (ints[0][1] if k == () else 1)
        elif op == "mul_si":
            if ints[0][0] == "int":
                v = {k: c * ints[0][1] for k, c in vals[0].items()}
            else:
                v = {("times", ints[0]) + k: c for k, c in vals[0].items()}
        elif op in ("increment", "decrement"):
            v = dict(vals[0])
            v[()] = v.get((), 0) + (1 if op == "increment" else -1)
        elif op == "init":
            v = {}
        else:
            raise Vague(f"line {line}: {name}")
        return self.place(d, {k: c for k, c in v.items() if c}, path, loops, line)

    def place(self, dst, val, path, loops, line):
        """the rectangles a write inside these loops covers"""
        o, r, c = dst
        if its(o):
            raise Vague("the object written depends on a loop")
        boxes = [((r, None), (c, None))]
        used = set()
        doms = []
        diag = None
        tr, tc = its(r), its(c)
        # a condition that ties the two loop variables together: the write goes along a diagonal
        if len(tr) == 1 and len(tc) == 1 and tr != tc:
            ties = [(a[1], p) for sm, x, f in loops for a, p in f.items() if a[0] in ("eq0", "le0") and next(iter(tr)) in lin(a[1])[1] and next(iter(tc)) in lin(a[1])[1]]
            if ties and all(not p for e, p in ties) and len(ties) == 1 and not val:
                diag = ("off", None, None)
            elif any(not p for e, p in ties) or len({repr(e) for e, p in ties}) > 1:
                raise Vague("conditions on two loop variables")
            elif ties:
                e = ties[0][0]
                u, t = next(iter(tc)), next(iter(tr))
                k = lin(e)[1][u]
                if abs(k) != 1:
                    raise Vague("a diagonal")
                diag = (t, u, scale(add(e, scale(u, k), -1), -k))       # u == this
        if tr and tr == tc:
            diag = (next(iter(tr)), None, None)
        parts = [{}]
        allf = {}
        for sm, x, f in loops:
            allf.update(f)
        for t in sorted(tr | tc, key=repr):
            cand = [l for l in loops if l[0].key == t[1]]
            if len(cand) != 1:
                raise Vague("loop variable of an unknown loop")
            sm, x, f = cand[0]
            self.outer = set()
            rg = self.ranges_of(sm, x, allf, path, t)
            parts = [dict(q, **{}) | {t: g} for q in parts for g in rg]
        # every loop around the write runs at least once for the whole range, or not at all
        for sm, x, f in loops:
            if not any(t[1] == sm.key for t in tr | tc):
                raise Vague("a write repeated by a loop that does not move it")
            for a, p in f.items():
                if any(y[0] in ("itm", "itp") for y in subterms(a)):
                    continue
                if not its(a) and not State.known(self.st(path), (a, p)):
                    # a condition inside the loop that does not depend on it and is not settled
                    if self.data(a):
                        raise Vague("a condition on the cells")
                    raise Vague("an unsettled condition inside the loop")
                if its(a) and a[0] not in ("le0", "eq0", "peq"):
                    raise Vague("a condition inside the loop")
                if its(a) and self.data(a):
                    raise Vague("a condition on the cells")
        out = []
        for q in parts:
            def span(e, ts):
                if not ts:
                    return e, add(e, ONE)
                if len(ts) != 1:
                    raise Vague("an index made of several loop variables")
                t = next(iter(ts))
                k = lin(e)[1].get(t)
                if k not in (1, -1):
                    raise Vague("an index that is not the loop variable plus something")
                lo, hi = q[t]
                rest = add(e, scale(t, k), -1)
                if its(rest):
                    raise Vague("an index made of several loop variables")
                return (add(lo, rest), add(hi, rest)) if k == 1 else (add(add(rest, hi, -1), ONE), add(add(rest, lo, -1), ONE))
            rr, cc = span(r, tr), span(c, tc)
            v = {}
            for k, n in val.items():
                v[self.norm(k, r, c, diag)] = n
            dg = None
            if diag is not None and diag[0] == "off":
                dg = diag
            elif diag is not None:
                dg = ("diag", add(c, r, -1) if diag[1] is None else relin(subst(add(c, r, -1), lambda y: diag[2] if y == diag[1] else None)))
                if its(dg[1]):
                    raise Vague("a diagonal")
            out.append(Piece(o, rr, cc, v, line, dg))
        return out

    def st(self, path):
        s = State()
        s.facts = dict(path)
        return s

    def data(self, a):
        return any(x[0] == "ld" and self.cell(strip_ep(x[1])) is not None or x[0] in ("call", "ret") and "osl_int" in repr(x) for x in subterms(a))

    def norm(self, k, r, c, diag):
        if k == ():
            return k
        if k[0] == "times":
            return k[:2] + self.norm(k[2:], r, c, diag)
        if k[0] == "scalar":
            return k
        o, sr, sc = k
        if its(o):
            raise Vague("the source depends on a loop")

        def rel(s, w):
            if not its(s) and not its(w):
                return ("rel", add(s, w, -1))
            if not its(s):
                return ("abs", s)
            d = add(s, w, -1)
            if its(d):
                raise Vague("the source does not move with the written cell")
            return ("rel", d)
        return (o, ("abs", ZERO) if self.isvec(o) else rel(sr, r), rel(sc, c))

    def isvec(self, o):
        return self.kind.get(o) == V

    def delegated(self, name, args, path, loops, line, x):
        if loops:
            raise Vague(f"line {line}: {name} in a loop")
        d = lambda o, t, f: self.before(x, o, t, f)
        sp = self.spec(name, d, [strip_ep(a) for a in args], self.st(path).known)
        o, rows, cols, prec, segs, inplace = sp
        out = [Piece(o, (r0, r1), (c0, c1), v, line) for r0, r1, c0, c1, v in segs]
        if not inplace:
            out.insert(0, ("fresh", o))
        return out

    def before(self, x, o, t, f):
        """the value of a field when the call was made: operands are not edited twice (checked), so it is the first value"""
        a = F(self.M, o, t, f)
        for ob, vals in self.made.items():
            if ob == o and f in vals:
                return vals[f]
        return ("ld", a, 0)

    # ------------------------------------------------------------------ one path
    def objects(self, ev):
        """what is known of the objects made on the path: base contents and sizes"""
        for x in ev:
            if x[0] != "call":
                continue
            n, a, r = x[1].split("@")[0], [strip_ep(y) for y in x[2]], strip_ep(x[3]) if x[3] is not None else None
            if n in ("osl_relation_pmalloc", "osl_vector_pmalloc"):
                t = R if "relation" in n else V
                self.kind[r] = t
                self.made[r] = dict(zip(("precision",) + SIZES[t], a))
                self.base[r] = {}
            elif n in COPIES:
                t = R if "relation" in n else V
                self.kind[r] = t
                self.made[r] = {f: self.before(x, a[0], t, f) for f in ("precision",) + SIZES[t]}
                self.base[r] = {(a[0], ("abs", ZERO) if t == V else ("rel", ZERO), ("rel", ZERO)): 1}
                self.copied[r] = a[0]
            elif n == "osl_relation_from_vector":
                self.kind[r] = R
                self.made[r] = dict(precision=self.before(x, a[0], V, "precision"), nb_rows=ONE, nb_columns=self.before(x, a[0], V, "size"))
                self.base[r] = {(a[0], ("abs", ZERO), ("rel", ZERO)): 1}
            elif n in BUILD:
                sp = self.spec(n, lambda o, t, f: self.before(x, o, t, f), a, lambda l: False)
                self.kind[r] = R if "relation" in n else V
                self.made[r] = dict(precision=sp[3], nb_rows=sp[1], nb_columns=sp[2], size=sp[2])
                self.built[r] = sp

    def resolve(self, val):
        """values of cells of temporaries are the values they were made of"""
        out = {}
        for k, n in val.items():
            pre = ()
            if k and k[0] == "times":
                pre, k = k[:2], k[2:]
            if len(k) == 3 and k[0] in self.base and k[0] not in self.touched:
                for b, m in self.base[k[0]].items():
                    if b == ():
                        out[pre + b] = out.get(pre + b, 0) + n * m
                        continue
                    src, br, bc = b
                    r = br if br[0] == "abs" else k[1] if k[1][0] == "abs" else ("rel", add(k[1][1], br[1]))
                    c = ("rel", add(k[2][1], bc[1])) if k[2][0] == "rel" else k[2]
                    nk = pre + (src, r, c)
                    out[nk] = out.get(nk, 0) + n * m
                continue
            out[pre + k] = out.get(pre + k, 0) + n
        return {k: n for k, n in out.items() if n}

    def path(self, fn, s, v, line):
        M, rep = self.M, self.rep
        fs = frozenset((strip_ep(a) if a[0] not in ("true", "false") else a, p) for a, p in s.facts.items())
        args = [("arg", k) for k in range(M.funcs[fn].nparams)]
        types = M.ptypes[fn]
        self.kind = {("arg", k): t[len(S):-1] for k, t in enumerate(types[1:]) if t in (S + "relation*", S + "vector*")}
        self.made, self.base, self.copied, self.touched, self.built = {}, {}, {}, set(), {}
        known = self.st(fs).known
        ptr = [a for a in args if a in self.kind]
        if any(known(atom_eq(p, NULL)) for p in ptr):
            return
        sp = self.spec(fn, lambda o, t, f: ("ld", F(M, o, t, f), 0), args, known)
        o, rows, cols, prec, segs, inplace = sp
        t = R if fn.startswith("osl_relation") else V
        if o == "ret":
            if v is None or v == NULL:
                rep.bad(fn, line, "sizes", "nothing is returned for operands that are there", key=f"{fn}:null")
                return
            o = v
        if fn == "osl_relation_swap_constraints" and known(atom_eq(args[1], args[2])):
            segs = []
        get = lambda ob, f: strip_ep(self.get(self.E, s, ob, t, f))
        self.objects(s.ev)
        o_ = strip_ep(o)
        # ---- C22: the recorded sizes
        want = {DIM[t][-1]: cols, "precision": prec}
        if rows is not None:
            want["nb_rows"] = rows
        for f, w in want.items():
            g = get(o_, f)
            if self.eq(fs, g, w):
                rep.ok(fn, "sizes", f"{f} of the result is {show(M, w, self.names)}")
            elif self.clear(g) and self.clear(w):
                rep.bad(fn, line, "sizes", f"{f} of the result is {show(M, g, self.names)} instead of {show(M, w, self.names)}", key=f"{fn}:{f}")
            else:
                rep.undec(fn, "sizes", f"{f} of the result: {show(M, g, self.names)}")
        if t == R and o_[0] == "arg":
            for f in KEPT:
                if f == "precision":
                    continue
                g = get(o_, f)
                w = ("ld", F(M, o_, R, f), 0)
                if g == w or self.eq(fs, g, w):
                    rep.ok(fn, "kept", f"{f} is kept")
                else:
                    rep.bad(fn, line, "kept", f"{f} of the edited relation becomes {show(M, g, self.names)}", key=f"{fn}:{f}")
        # ---- C22: the matrix belongs to a relation of those sizes
        mf = "m" if t == R else "v"
        raw = self.get(self.E, s, o_, t, mf)
        cur = strip_ep(raw)
        home = o_
        if cur[0] == "ld" and cur[1][0] == "fld" and cur[1][3] == fidx(M, t, mf) and cur[1][2] == S + t:
            home = cur[1][1]
        if raw[0] == "ld" and raw[2] >= 1000:
            rep.ok(fn, "matrix", "left to the edit that is called")
        elif home != o_ and home in self.made:
            for f in SIZES[t] + ("precision",):
                g, w = get(o_, f), self.made[home].get(f)
                if w is None or not self.clear(g) or not self.clear(w):
                    rep.undec(fn, "matrix", f"{f} against the matrix taken over")
                elif self.eq(fs, g, w):
                    rep.ok(fn, "matrix", f"{f} agrees with the matrix taken over")
                else:
                    rep.bad(fn, line, "matrix", f"{f} is {show(M, g, self.names)}, the matrix taken over was made with {show(M, w, self.names)}", key=f"{fn}:matrix:{f}")
        elif home == o_ and o_ in self.made and o_[0] != "arg":
            for f in SIZES[t]:
                g, w = get(o_, f), self.made[o_].get(f)
                if w is None:
                    continue
                if self.eq(fs, g, w):
                    rep.ok(fn, "matrix", f"{f} agrees with the matrix that was made")
                elif self.clear(g) and self.clear(w):
                    rep.bad(fn, line, "matrix", f"{f} is {show(M, g, self.names)}, the matrix was made with {show(M, w, self.names)}", key=f"{fn}:matrix:{f}")
        elif home == o_ and o_[0] == "arg" and cur == ("ld", F(M, o_, t, mf), 0):
            # the matrix is still the old one: so are its sizes
            for f in SIZES[t]:
                g, w = get(o_, f), ("ld", F(M, o_, t, f), 0)
                if self.eq(fs, g, w):
                    rep.ok(fn, "matrix", f"{f} still agrees with the matrix")
                elif self.clear(g) and self.holds(fs, "le", add(add(w, g, -1), ONE)):
                    rep.bad(fn, line, "matrix", f"{f} becomes {show(M, g, self.names)}, the matrix has {show(M, w, self.names)}", key=f"{fn}:matrix:{f}")
                else:
                    rep.undec(fn, "matrix", f"{f} becomes {show(M, g, self.names)} with the same matrix")
        else:
            rep.undec(fn, "matrix", f"where the matrix comes from: {show(M, cur, self.names)}")
        # ---- C24: the cells
        try:
            self.layout(fn, s, fs, o_, home, segs, line, t)
        except Vague as e:
            rep.undec(fn, "layout", f"path returning at line {line}: {e}")

    def clear(self, e):
        """made of arguments and first values of sizes only"""
        return all(x[0] == "arg" or x[0] == "ld" and x[2] == 0 and x[1][0] == "fld" and (x[1][1][0] == "arg" or x[1][1] in FIXED) or x[0] == "call" and x[1] == "position" for x in lin(e)[1])

    def layout(self, fn, s, fs, o, home, segs, line, t):
        return self.layout_of(fn, s.ev, fs, o, home, segs, line, t)

    def layout_of(self, fn, ev, fs, o, home, segs, line, t, depth=3):
        try:
            return self.layout_at(fn, ev, fs, o, home, segs, line, t)
        except Split as e:
            if not depth:
                raise
            for l in (atom_le0(e.e), atom_le0(add(scale(e.e, -1), ONE))):
                if l[0][0] == "true" or l[0][0] == "false":
                    raise
                st = self.st(fs)
                if st.assume(l) and not prove(self.with_bounds(frozenset(st.facts.items()), [e.e]), ONE):
                    self.touched = set()
                    self.layout_of(fn, ev, frozenset(st.facts.items()), o, home, segs, line, t, depth - 1)

    def layout_at(self, fn, ev, fs, o, home, segs, line, t):
        M, rep = self.M, self.rep
        pieces = self.writes_of(ev, fs)
        pieces = [p for p in pieces]
        # the object whose cells end up in the result
        tgt = home
        if o in self.built and home == o:
            # handed out by another builder: its documented layout
            pieces = [("fresh", o)] + [Piece(o, (a, b), (c, d), v, line) for a, b, c, d, v in self.built[o][4]] + \
                [p for p in pieces if not isinstance(p, tuple)]
        mine, fresh = [], False
        for p in pieces:
            if isinstance(p, tuple):
                if p[1] in (o, tgt):
                    if mine or fresh:
                        raise Vague("edited several times")
                    fresh = True
                    tgt = p[1]
                else:
                    self.touched.add(p[1])
                continue
            if p.o == tgt or p.o == o and fresh:
                mine.append(p)
            else:
                self.touched.add(p.o)
        if o[0] == "arg" and tgt == o and not fresh:
            base, what = {(o, ("abs", ZERO) if t == V else ("rel", ZERO), ("rel", ZERO)): 1}, "in place"
        elif fresh:
            base = None
        else:
            base = self.base.get(tgt)
            if base is None:
                raise Vague("what the new matrix holds to begin with")
        other = [p for p in pieces if not isinstance(p, tuple) and p.o != tgt and p.o[0] == "arg"]
        for p in other:
            rep.bad(fn, p.line, "layout", f"cells of {show(M, p.o, self.names)} are changed, which is not the object edited", key=f"{fn}:other")
            return
        # values; cells of the result itself read by the edit: what was there to begin with
        inplace = o[0] == "arg" and tgt == o and not fresh
        for n, p in enumerate(mine):
            if p.val is None:
                continue
            own = {k: c for k, c in p.val.items() if len(k) == 3 and k[0] == tgt and not (fresh and k[0] == o)}
            if own and not inplace:
                if base is None or any(k[1] not in (("rel", ZERO), ("abs", ZERO)) or k[2] != ("rel", ZERO) for k in own):
                    raise Vague("cells of the result are read by the edit")
                if any(self.meet(fs, p, q) for q in mine[:n]):
                    raise Vague("cells of the result are read after they were written")
                v = {k: c for k, c in p.val.items() if k not in own}
                for k, c in own.items():
                    for b, m in base.items():
                        v[b] = v.get(b, 0) + c * m
                p.val = v
            elif own and inplace:
                if any(k[1] != ("rel", ZERO) and fn != "osl_relation_swap_constraints" for k in own) or any(self.meet(fs, p, q) for q in mine[:n] if q.line != p.line):
                    raise Vague("cells are read after they were written")
            p.val = self.resolve(p.val)
        rs = lambda w: None if w is None else tuple(self.resolve(x) for x in w) if isinstance(w, tuple) else self.resolve(w)
        pos = lambda xs: {y for x in xs for y in subterms(x) if y[0] == "call" and y[1] == "position"}
        theirs, ours = {y for p in mine for y in pos(p.r)}, {y for g in segs for y in pos(g[:2])}
        for x in theirs:
            for y in ours:
                d = add(x[2][0], y[2][0], -1)
                if x[2][1] == y[2][1] and d[0] == "int" and d != ZERO and len(theirs) == len(ours) == 1:
                    rep.bad(fn, [p.line for p in mine if pos(p.r)][0], "layout", f"rows are inserted at {show(M, x[2][0], self.names)} instead of {show(M, y[2][0], self.names)}", key=f"{fn}:position")
                    return
        segs = [g[:4] + (rs(g[4]),) + g[5:] for g in segs]
        if inplace or base == {(o, ("rel", ZERO), ("rel", ZERO)): 1}:
            # cells outside the documented rectangles keep their value
            for p in mine:
                if not self.covered(fs, p, segs):
                    if all(self.apart(fs, p, g) for g in segs) or all(self.clear(b) for b in p.r + p.c):
                        rep.bad(fn, p.line, "layout", f"cells [{self.box(p)}] are changed, they should keep their values", key=f"{fn}:outside")
                        return
                    rep.undec(fn, "layout", f"line {p.line}: cells [{self.box(p)}] against the documented ones")
                    return
        elif base is not None:
            # all the rest holds the base value
            mine.insert(0, "base")
        for g in segs:
            self.segment(fn, fs, g, mine, base, line)

    def box(self, p):
        return ", ".join(f"{show(self.M, a, self.names)}..{show(self.M, b, self.names)}" for a, b in (p.r, p.c))

    def inside(self, fs, p, g):
        return self.le(fs, g[0], p.r[0]) and self.le(fs, p.r[1], g[1]) and self.le(fs, g[2], p.c[0]) and self.le(fs, p.c[1], g[3])

    def covered(self, fs, p, segs):
        """the piece lies within the documented rectangles, put side by side"""
        if any(self.inside(fs, p, g) for g in segs):
            return True
        for d, e in ((0, 2), (2, 0)):
            lo, hi = (p.r, p.c)[d // 2]
            a, b = (p.r, p.c)[e // 2]
            gs = [g for g in segs if self.le(fs, g[e], a) and self.le(fs, b, g[e + 1])]
            cur = lo
            for _ in gs:
                nx = [g for g in gs if self.le(fs, g[d], cur) and not self.le(fs, g[d + 1], cur)]
                if not nx:
                    break
                cur = nx[0][d + 1]
                if self.le(fs, hi, cur):
                    return True
        return False

    def apart(self, fs, p, g):
        """some cell of the piece is certainly outside the rectangle (when the piece is not empty)"""
        return any(self.le(fs, add(lo, ONE), a) or self.le(fs, add(b, ONE), hi) for lo, hi, a, b in ((p.r[0], p.r[1], g[0], g[1]), (p.c[0], p.c[1], g[2], g[3])))

    def meet(self, fs, p, q):
        """the rectangles may have cells in common"""
        return not any(self.le(fs, a[1], b[0]) or self.le(fs, b[1], a[0]) or self.differ(fs, a, b) for a, b in ((p.r, q.r), (p.c, q.c)))

    def differ(self, fs, a, b):
        """single rows that are known to be different ones"""
        if a[1] != add(a[0], ONE) or b[1] != add(b[0], ONE):
            return False
        l = atom_eq(a[0], b[0])
        return self.st(fs).known((l[0], not l[1]))

    def same_value(self, fs, a, b):
        """True / False (positively different) / None"""
        if isinstance(b, tuple):
            r = [self.same_value(fs, a, x) for x in b]
            return True if True in r else None if None in r else False
        if a is None or b is None:
            return True
        if a == b:
            return True
        left = dict(b)
        vague = False
        for k, n in a.items():
            hit = None
            for k2, n2 in left.items():
                if n == n2 and len(k) == len(k2) and self.same_source(fs, k, k2):
                    hit = k2
                    break
            if hit is None:
                return False if all(self.clearkey(x) for x in list(a) + list(b)) else None
            del left[hit]
        return not left or (False if all(self.clearkey(x) for x in left) else None)

    def free(self, p, g):
        """the bounds of the piece are free parameters of the rectangle"""
        pos = lambda xs: {y for x in xs for y in subterms(x) if y[0] == "call"}
        return pos(p.r + p.c) <= pos(g[:4])

    def clearkey(self, k):
        return all(self.clear(x) if isinstance(x, tuple) and x and x[0] in ("arg", "ld", "lin", "int") else True for y in k for x in ((y[1],) if isinstance(y, tuple) and y and y[0] in ("rel", "abs") else (y,))) \
            and (len(k) != 3 or k[0][0] == "arg" or k[0] in FIXED)

    def same_source(self, fs, k, k2):
        for x, y in zip(k, k2):
            if x == y:
                continue
            if isinstance(x, tuple) and isinstance(y, tuple) and x and y and x[0] == y[0] and x[0] in ("rel", "abs"):
                if self.eq(fs, x[1], y[1]):
                    continue
                return False
            if isinstance(x, tuple) and x[0] in ("arg", "lin", "int", "ld") and self.eq(fs, x, y) and x not in self.kind:
                continue
            return False
        return True

    def segment(self, fn, fs, g, mine, base, line):
        """the documented rectangle is tiled by pieces that put the documented value there"""
        M, rep = self.M, self.rep
        r0, r1, c0, c1, want = g[:5]
        txt = f"cells [{show(M, r0, self.names)}..{show(M, r1, self.names)}, {show(M, c0, self.names)}..{show(M, c1, self.names)}]"
        if isinstance(want, tuple) and not any(self.meet(fs, p, Piece(None, (r0, r1), (c0, c1), None, 0)) for p in mine if p != "base"):
            return
        if want is None or self.le(fs, r1, r0) or self.le(fs, c1, c0):
            return
        ps = [p for p in mine if p != "base"]
        hasbase = "base" in mine
        # pieces that may touch the rectangle
        here = Piece(None, (r0, r1), (c0, c1), None, 0)
        touch = [p for p in ps if self.meet(fs, p, here)]
        if len(g) == 6:
            return self.diagonal(fn, fs, g, touch, base if hasbase else None, line, txt)
        if any(p.diag and p.diag[0] == "off" for p in touch) and hasbase and base == {}:
            touch = [p for p in touch if not p.diag or p.diag[0] != "off" or p.val]
        if any(p.diag for p in touch):
            raise Vague("a diagonal")
        if not touch:
            # nothing written there: the initial value stays
            if hasbase and self.same_value(fs, base, want):
                rep.ok(fn, "layout", f"{txt}: initial value")
            elif hasbase and self.same_value(fs, base, want) is False:
                rep.bad(fn, line, "layout", f"{txt} are not written", key=f"{fn}:{self.word(want)}")
            elif not hasbase and base is not None:
                rep.bad(fn, line, "layout", f"{txt} are not written", key=f"{fn}:{self.word(want)}")
            else:
                rep.undec(fn, "layout", f"{txt}: nothing written")
            return
        for dim, (lo, hi), (olo, ohi) in (("r", (r0, r1), (c0, c1)), ("c", (c0, c1), (r0, r1))):
            od = "c" if dim == "r" else "r"
            full = [p for p in touch if self.le(fs, getattr(p, od)[0], olo) and self.le(fs, ohi, getattr(p, od)[1])]
            if len(full) != len(touch):
                # positively short in the other dimension?
                continue
            cur, ok, used = lo, True, []
            for _ in range(len(full) + 1):
                if self.le(fs, hi, cur):
                    break
                nxt = [p for p in full if p not in used and self.le(fs, getattr(p, dim)[0], cur)]
                if not nxt:
                    break
                p = nxt[-1]
                used.append(p)
                sv = self.same_value(fs, p.val, want)
                if sv is False and not any(self.meet(fs, p, q) for q in ps[ps.index(p) + 1:]) and self.free(p, g):
                    rep.bad(fn, p.line, "layout", f"{txt} receive {self.tell(p.val)} instead of {self.tell(want)}", key=f"{fn}:{self.word(want)}:value")
                    return
                if not sv:
                    rep.undec(fn, "layout", f"{txt} at line {p.line}: {self.tell(p.val)} against {self.tell(want)}")
                    return
                cur = getattr(p, dim)[1]
            if self.le(fs, hi, cur):
                rep.ok(fn, "layout", txt)
                return
            # a gap from cur on
            rest = [p for p in full if p not in used]
            if not rest and self.clear(cur) and self.clear(hi) and not (hasbase and self.same_value(fs, base, want)) and (hasbase or base is not None):
                rep.bad(fn, max(p.line for p in touch), "layout", f"{txt} are not all written: the part from {show(M, cur, self.names)} on is left out", key=f"{fn}:{self.word(want)}:gap")
                return
            if all(self.le(fs, add(cur, ONE), getattr(p, dim)[0]) for p in rest) and self.le(fs, add(cur, ONE), hi):
                if hasbase and self.same_value(fs, base, want):
                    rep.ok(fn, "layout", f"{txt}: partly the initial value")
                    return
                if not hasbase and base is None:
                    break
                l = max((p.line for p in touch), default=line)
                rep.bad(fn, l, "layout", f"{txt} are not all written: the part from {show(M, cur, self.names)} on is left out", key=f"{fn}:{self.word(want)}:gap")
                return
            nearest = [p for p in rest if self.le(fs, add(cur, ONE), getattr(p, dim)[0])]
            if nearest and len(nearest) == len(rest) and self.clear(cur):
                # a first part is left out whenever the rectangle is not empty
                if not (hasbase and self.same_value(fs, base, want)):
                    l = min(p.line for p in nearest)
                    rep.bad(fn, l, "layout", f"{txt} are not all written: {show(M, cur, self.names)} is left out", key=f"{fn}:{self.word(want)}:gap")
                    return
            rep.undec(fn, "layout", f"{txt}: cannot follow the part from {show(M, cur, self.names)} on")
            return
        for dim, (lo, hi) in (("r", (r0, r1)), ("c", (c0, c1))):
            for p in touch:
                a, b = getattr(p, dim)
                if self.le(fs, add(b, ONE), hi) and len(touch) == 1 and not (hasbase and self.same_value(fs, base, want)):
                    rep.bad(fn, p.line, "layout", f"{txt}: only those up to {show(M, b, self.names)} are written", key=f"{fn}:{self.word(want)}:short")
                    return
                if self.le(fs, add(lo, ONE), a) and len(touch) == 1 and not (hasbase and self.same_value(fs, base, want)):
                    rep.bad(fn, p.line, "layout", f"{txt}: only those from {show(M, a, self.names)} on are written", key=f"{fn}:{self.word(want)}:short")
                    return
        rep.undec(fn, "layout", f"{txt}: cannot be put together from what is written")

    def diagonal(self, fn, fs, g, touch, base, line, txt):
        """new rows: one value along a diagonal, the initial value elsewhere"""
        M, rep = self.M, self.rep
        r0, r1, c0, c1, want, (shift, val) = g
        if base != want:
            raise Vague("what the other cells of the diagonal hold")
        ds = [p for p in touch if p.diag and p.diag[0] == "diag"]
        rest = [p for p in touch if p not in ds and p.val != want]
        if rest:
            if all(self.inside(fs, p, g) for p in rest):
                rep.bad(fn, rest[0].line, "layout", f"{txt} receive {self.tell(rest[0].val)}", key=f"{fn}:diagonal:other")
                return
            raise Vague("the new rows")
        if not ds:
            rep.bad(fn, line, "layout", f"{txt}: the diagonal is not written", key=f"{fn}:diagonal")
            return
        if len(ds) > 1:
            raise Vague("several diagonals")
        p = ds[0]
        for bad, what in ((not self.eq(fs, p.diag[1], shift), f"the diagonal runs at column = row + {show(M, p.diag[1], self.names)} instead of row + {show(M, shift, self.names)}"),
                          (self.same_value(fs, p.val, val) is not True, f"the diagonal holds {self.tell(p.val)} instead of {self.tell(val)}"),
                          (not self.eq(fs, p.r[0], r0), f"the diagonal starts in row {show(M, p.r[0], self.names)} instead of {show(M, r0, self.names)}"),
                          (not self.eq(fs, p.r[1], r1), f"the diagonal ends before row {show(M, p.r[1], self.names)} instead of {show(M, r1, self.names)}")):
            if bad:
                rep.bad(fn, p.line, "layout", what, key=f"{fn}:diagonal:{what.split()[2]}")
                return
        rep.ok(fn, "layout", txt + ": diagonal")

    # ------------------------------------------------------------------ functions that treat every part of a union
    def parts(self, fn, spec, copied):
        """each completed round of the walk over the parts makes one new relation"""
        M, rep = self.M, self.rep
        nx = fidx(M, R, "next")
        n = 0
        done = set()
        for s, v, line in self.res.rets:
            for x in s.ev:
                if x[0] != "loop":
                    continue
                sm = self.E.summaries[x[2]]
                ts = [t for k, t in sm.phis.items() if {strip_ep(y) for y in sm.steps.get(k, ()) if y is not None} == {("ld", ("fld", t, S + R, nx), 0)} and strip_ep(sm.inits[k]) == ("arg", 0)]
                if len(ts) != 1 or id(sm) in done:
                    continue
                done.add(id(sm))
                for m, f, ev, env in sm.backs:
                    FIXED.clear()
                    FIXED.update(t for t in sm.phis.values())
                    try:
                        n += self.part(fn, ts[0], f, ev, sm.line, spec, copied)
                    finally:
                        FIXED.clear()
        if not n:
            raise AnalysisBroken(f"{fn}: no round making a relation found")

    def part(self, fn, t, facts, ev, line, spec, copied):
        M, rep = self.M, self.rep
        fs = frozenset((strip_ep(a) if a[0] not in ("true", "false") else a, p) for a, p in facts.items())
        self.kind = {t: R}
        self.made, self.base, self.copied, self.touched, self.built = {}, {}, {}, set(), {}
        self.objects(ev)
        new = [o for o in self.made if o[0] in ("ret", "call", "alloc") and self.kind[o] == R and o not in self.copied]
        if len(new) != 1:
            rep.undec(fn, self.rule, f"line {line}: {len(new)} relations made in one round")
            return 1
        o = new[0]
        d = lambda ob, ty, f: ("ld", F(M, ob, ty, f), 0)
        rows, cols, counts, segs = spec(t, d, self.st(fs).known)
        last = {}
        for x in ev:
            if x[0] == "store":
                last[strip_ep(x[1])] = (strip_ep(x[2]), x[3])
            elif x[0] == "call" and x[1].split("@")[0] in ("osl_relation_set_attributes", "osl_relation_set_attributes_one"):
                for f, w in zip(("nb_output_dims", "nb_input_dims", "nb_local_dims", "nb_parameters"), x[2][1:]):
                    last[F(M, strip_ep(x[2][0]), R, f)] = (strip_ep(w), x[4])
            elif x[0] == "call" and x[1].split("@")[0] == "osl_relation_set_type":
                last[F(M, strip_ep(x[2][0]), R, "type")] = (strip_ep(x[2][1]), x[4])
        for f, w in dict(nb_rows=rows, nb_columns=cols, precision=d(t, R, "precision"), **counts).items():
            if f in ("nb_rows", "nb_columns", "precision"):
                g, l = self.made[o][f], line
                if F(M, o, R, f) in last:
                    rep.undec(fn, "sizes", f"{f} is changed after the relation was made")
                    continue
            else:
                g, l = last.get(F(M, o, R, f), (MONE, line))
            if any(self.eq(fs, g, z) for z in (w if isinstance(w, list) else [w])):
                rep.ok(fn, "sizes" if f in ("nb_rows", "nb_columns") else "kept", f"{f} of the new part")
            elif self.clear(g) or g == MONE:
                w = w[0] if isinstance(w, list) else w
                rep.bad(fn, l, "sizes", f"{f} of the new part is {show(M, g, self.names)} instead of {show(M, w, self.names)}", key=f"{fn}:{f}")
            else:
                rep.undec(fn, "sizes", f"{f} of the new part is {show(M, g, self.names)}")
        try:
            self.layout_of(fn, ev, fs, o, o, segs, line, R)
        except Vague as e:
            rep.undec(fn, "layout", f"line {line}: {e}")
        return 1

    def extend(self, t, d, known):
        dim = ("arg", 1)
        out = d(t, R, "nb_output_dims")
        off = add(dim, out, -1)
        n, m = d(t, R, "nb_rows"), d(t, R, "nb_columns")
        o1 = add(out, ONE)
        e = add(o1, off)
        cell = lambda dc: {(t, ("rel", ZERO), ("rel", dc)): 1}
        segs = [(ZERO, n, ZERO, o1, cell(ZERO)), (ZERO, n, o1, e, {}), (ZERO, n, e, add(m, off), cell(scale(off, -1))),
                (n, add(n, off), ZERO, add(m, off), {}, (add(o1, n, -1), {(): -1}))]
        c = {f: d(t, R, f) for f in ("type", "nb_input_dims", "nb_local_dims", "nb_parameters")}
        c["nb_output_dims"] = dim
        return add(n, off), add(m, off), c, segs

    def nconstraints(self, t, d, known):
        k = ("arg", 1)
        n, m = d(t, R, "nb_rows"), d(t, R, "nb_columns")
        rows = n if known(atom_eq(k, MONE)) else k
        return rows, m, {f: d(t, R, f) for f in ("type", "nb_output_dims", "nb_input_dims", "nb_local_dims", "nb_parameters")}, \
            [(ZERO, rows, ZERO, m, {(t, ("rel", ZERO), ("rel", ZERO)): 1})]

    def word(self, v):
        return "any" if v is None or isinstance(v, tuple) else "zero" if not v else "+".join(sorted(show(self.M, k[0], self.names) if len(k) == 3 else str(k[0]) if k else str(n) for k, n in v.items()))

    def tell(self, v):
        if v is None:
            return "anything"
        if isinstance(v, tuple):
            return " or ".join(self.tell(x) for x in v)
        if not v:
            return "0"
        out = []
        for k, n in v.items():
            sgn = "" if n == 1 else f"{n} * "
            if k == ():
                out.append(str(n))
            elif k[0] == "scalar":
                out.append(sgn + show(self.M, k[1], self.names))
            elif k[0] == "times":
                out.append(sgn + show(self.M, k[1], self.names) + " * " + show(self.M, k[2], self.names))
            else:
                w = lambda x, z: show(self.M, x[1], self.names) if x[0] == "abs" else z if x[1] == ZERO else f"{z} + ({show(self.M, x[1], self.names)})"
                out.append(f"{sgn}{show(self.M, k[0], self.names)}[{w(k[1], 'row')}][{w(k[2], 'column')}]")
        return " + ".join(out)

    def run(self):
        M = self.M
        for fn in sorted(EDITS) + list(BUILD) + list(TAGS):
            if fn not in M.funcs:
                raise AnalysisBroken(f"{fn} not found")
            if self.study(fn):
                for s, v, line in self.res.rets:
                    self.path(fn, s, v, line)
        for fn, spec in (("osl_relation_extend_output", self.extend), ("osl_relation_clone_nconstraints", self.nconstraints)):
            if self.study(fn):
                self.parts(fn, spec, None)


class Only:
    """the part of the report that belongs to one property"""
    def __init__(self, rep, rules):
        self.rep, self.rules = rep, rules

    def ok(self, fn, rule, *a, **k):
        if rule in self.rules:
            self.rep.ok(fn, rule, *a, **k)

    def bad(self, fn, line, rule, *a, **k):
        if rule in self.rules:
            self.rep.bad(fn, line, rule, *a, **k)

    def undec(self, fn, rule, *a, **k):
        if rule in self.rules:
            self.rep.undec(fn, rule, *a, **k)


def run(M, rep):
    e = Edits(M, Only(rep, ("sizes", "kept", "matrix")))
    e.rule = "sizes"
    e.run()


def run_layout(M, rep):
    Edits(M, Only(rep, ("layout",))).run()
