"""C07 and C09: every access to a matrix or vector cell uses the precision recorded in the object that owns the cell, and touches only
cells that exist; edits with bad positions, shapes or precisions are refused before anything is changed.

Every public function outside int.c that (itself or through its non-public helpers) handles cells is analysed on every path; at each
osl_int_* call the owner of every cell operand is read off its address (object -> m -> row -> column, object -> v -> entry)."""
from ..engine import Engine, Incomplete, NULL, ZERO, atom_eq, atom_le0, add, scale, lin, subterms, State
from ..ir import AnalysisBroken
from ..modref import ModRef
from .common import *

ONE = ("int", 1)
DIM = {"relation": ("nb_rows", "nb_columns"), "vector": ("size",)}
SHAPE = {"relation": ("precision", "nb_rows", "nb_columns", "m"), "vector": ("precision", "size", "v")}


# ---------------------------------------------------------------------------------------------------- linear facts
def hyps(facts):
    """linear consequences h <= 0 of the facts"""
    out = []
    ne = []
    for a, p in facts:
        if a[0] == "le0":
            out.append(a[1] if p else add(scale(a[1], -1), ONE))
        elif a[0] == "eq0":
            if p:
                out += [a[1], scale(a[1], -1)]
            else:
                ne.append(a[1])
        elif a[0] == "peq" and p and a[2] != NULL:
            e = add(a[1], a[2], -1)
            out += [e, scale(e, -1)]
        elif a[0] == "peq" and a[2] == NULL:
            # a number compared with zero
            if p:
                out += [a[1], scale(a[1], -1)]
            else:
                ne.append(a[1])
    return out, ne


def prove(H, e, depth=5, seen=None):
    """e <= 0 from the hypotheses h <= 0 (elimination of one variable at a time)"""
    c, d = lin(e)
    if not d:
        return c <= 0
    if depth == 0:
        return False
    x = sorted(d, key=repr)[0]
    k = d[x]
    for n, h in enumerate(H):
        hc, hd = lin(h)
        q = hd.get(x)
        if not q or (q > 0) != (k > 0) or k % q:
            continue
        if prove(H[:n] + H[n + 1:], add(e, scale(h, k // q), -1), depth - 1):
            return True
    return False


class CEngine(Engine):
    """opaque calls have the effect on shapes and precisions that the operation is documented to have"""
    cells = None

    def opaque_call(self, frame, i, s, name, args):
        r = super().opaque_call(frame, i, s, name, args)
        out = r if r is not None else [s]
        return [x for x in out if self.cells.effect(self, x, name, args, i) is not False]


    def exec(self, frame, i, s):
        if i.op in ("add", "mul", "shl") and self.cells.ours:
            ts = [self.val(o, s, frame["args"]) for o in i.ops]
            for a, b in (ts, ts[::-1]):
                if a[0] == "arg" and a != b and not (b[0] == "int" and b[1] <= 0):
                    self.cells.sums.setdefault((i.line, a), set()).add(frozenset(s.facts.items()))
        return super().exec(frame, i, s)


class Cells:
    def __init__(self, M, rep):
        self.M, self.rep = M, rep
        check_model(M)
        self.mr = ModRef(M)
        self.n = 0
        self.alone = set()
        self.prims = {n for n, F_ in M.funcs.items() if not F_.decl and n.split("@")[0] not in M.public and n.split("@")[0] in M.ptypes and
                      "union.osl_int" in M.ptypes[n.split("@")[0]][1:] and "int" in M.ptypes[n.split("@")[0]][1:]}
        self.shapers = self.find_shapers()

    def find_shapers(self):
        """functions that may change the shape, precision or matrix of an existing object"""
        M = self.M
        want = {(S + t, fidx(M, t, f)) for t in SHAPE for f in SHAPE[t]}
        direct, calls = set(), {}
        for n, F_ in M.funcs.items():
            if F_.decl:
                continue
            by = {i.n: i for i in F_.insts}
            calls[n] = {i.callee.v for i in F_.insts if i.op == "call" and i.callee.k == "func"}
            for i in F_.insts:
                if i.op == "store" and i.ops[1].k == "inst" and i.ops[1].v.op == "gep":
                    g = i.ops[1].v
                    ix = [o.v for o in g.ops[1:] if o.k == "int"]
                    if ix and (g.sty, ix[-1]) in want:
                        direct.add(n)
        out = set(direct)
        while True:
            more = {n for n, c in calls.items() if n not in out and c & out}
            if not more:
                return out
            out |= more

    # ------------------------------------------------------------------ vocabulary
    def get(self, E, s, o, t, f):
        return E.load(s, F(self.M, o, t, f))

    def old(self, k, t, f):
        return ("ld", F(self.M, ("arg", k), t, f), 0)

    def put(self, s, o, t, f, v):
        s.mem[F(self.M, o, t, f)] = v

    def havoc(self, E, s, o, t, i, fields_=None):
        """the object has been given another shape: nothing is known about it any more"""
        for f in SHAPE[t] if fields_ is None else fields_:
            a = F(self.M, o, t, f)
            self.n += 1
            s.mem[a] = ("ld", a, 1000 + i.line)

    def effect(self, E, s, name, args, i):
        M = self.M
        pub_ = name.split("@")[0]
        ret = s.env.get(i.n)
        g = lambda o, t, f: self.get(E, s, o, t, f)
        R = "relation"
        pend = []
        for k, o, txt in self.guards(pub_, lambda a, t, f: g(args[a], t, f), args):
            pend.append((k, o))
        done = True
        if pub_ == "osl_relation_set_precision":
            self.put(s, args[1], R, "precision", args[0])
        elif pub_ == "osl_relation_set_same_precision":
            v = ("call", "common_precision", (args[0], args[1]), i.line, "cur")
            for a in args:
                self.put(s, a, R, "precision", v)
        elif pub_ in ("osl_relation_clone", "osl_relation_nclone"):
            for f in ("precision", "nb_rows", "nb_columns"):
                self.put(s, ret, R, f, g(args[0], R, f))
        elif pub_ == "osl_relation_clone_nconstraints":
            for f in ("precision", "nb_columns"):
                self.put(s, ret, R, f, g(args[0], R, f))
        elif pub_ == "osl_relation_from_vector":
            self.put(s, ret, R, "precision", g(args[0], "vector", "precision"))
            self.put(s, ret, R, "nb_rows", ONE)
            self.put(s, ret, R, "nb_columns", g(args[0], "vector", "size"))
        elif pub_ == "osl_relation_concat_constraints":
            self.put(s, ret, R, "precision", g(args[0], R, "precision"))
            self.put(s, ret, R, "nb_columns", g(args[0], R, "nb_columns"))
        elif pub_ in ("osl_vector_add", "osl_vector_sub", "osl_vector_add_scalar", "osl_vector_mul_scalar", "osl_vector_clone"):
            for f in ("precision", "size"):
                self.put(s, ret, "vector", f, g(args[0], "vector", f))
        elif pub_ in EDITS:
            # the in-place editions of a relation: rows/columns change, the precision does not
            self.havoc(E, s, args[0], R, i, EDITS[pub_])
        else:
            done = False
        for k, o in pend:
            l = atom_eq(o, ZERO) if k == "eq" else atom_le0(o)
            if not s.assume(l):
                return False
        if done:
            return True
        if name in self.shapers and pub_ in M.ptypes:
            for k, t in enumerate(M.ptypes[pub_][1:]):
                t = t.replace("*", "")
                if t in (S + "relation", S + "vector") and k < len(args) and any((k, d) in self.mr.W[name] for d in (0, 1)):
                    self.havoc(E, s, args[k], t[len(S):], i)
        return True

    def guards(self, fn, d, a):
        """what the operation requires: ('eq'|'le', e, text) with e == 0 / e <= 0; d(argument, type, field) is the value of the field"""
        R, V = "relation", "vector"
        eq = lambda x, y, txt: ("eq", add(x, y, -1), txt)
        le = lambda x, y, txt: ("le", add(x, y, -1), txt)
        lt = lambda x, y, txt: ("le", add(add(x, y, -1), ONE), txt)
        if fn in ("osl_relation_replace_vector", "osl_relation_add_vector", "osl_relation_sub_vector"):
            return [eq(d(0, R, "precision"), d(1, V, "precision"), "equal precisions"),
                    eq(d(0, R, "nb_columns"), d(1, V, "size"), "vector size equal to the number of columns"),
                    le(ZERO, a[2], "row at least 0"), lt(a[2], d(0, R, "nb_rows"), "row below the number of rows")]
        if fn == "osl_relation_insert_vector":
            return [eq(d(0, R, "precision"), d(1, V, "precision"), "equal precisions"),
                    eq(d(0, R, "nb_columns"), d(1, V, "size"), "vector size equal to the number of columns"),
                    le(("int", -1), a[2], "row at least -1"), le(a[2], d(0, R, "nb_rows"), "row at most the number of rows")]
        if fn == "osl_relation_concat_vector":
            return [eq(d(0, R, "precision"), d(1, V, "precision"), "equal precisions"),
                    eq(d(0, R, "nb_columns"), d(1, V, "size"), "vector size equal to the number of columns")]
        if fn == "osl_relation_insert_blank_row":
            return [le(("int", -1), a[1], "row at least -1"), le(a[1], d(0, R, "nb_rows"), "row at most the number of rows")]
        if fn == "osl_relation_insert_blank_column":
            return [le(ZERO, a[1], "column at least 0"), le(a[1], d(0, R, "nb_columns"), "column at most the number of columns")]
        if fn == "osl_relation_replace_constraints":
            return [eq(d(0, R, "precision"), d(1, R, "precision"), "equal precisions"), eq(d(0, R, "nb_columns"), d(1, R, "nb_columns"), "equal numbers of columns"),
                    le(ZERO, a[2], "row at least 0"), le(add(a[2], d(1, R, "nb_rows")), d(0, R, "nb_rows"), "the last replaced row inside the relation")]
        if fn == "osl_relation_insert_constraints":
            return [eq(d(0, R, "precision"), d(1, R, "precision"), "equal precisions"), eq(d(0, R, "nb_columns"), d(1, R, "nb_columns"), "equal numbers of columns"),
                    le(("int", -1), a[2], "row at least -1"), le(a[2], d(0, R, "nb_rows"), "row at most the number of rows")]
        if fn == "osl_relation_swap_constraints":
            return [x for k in (1, 2) for x in (le(ZERO, a[k], f"row {k} at least 0"), lt(a[k], d(0, R, "nb_rows"), f"row {k} below the number of rows"))]
        if fn == "osl_relation_remove_row":
            return [le(ZERO, a[1], "row at least 0"), lt(a[1], d(0, R, "nb_rows"), "row below the number of rows")]
        if fn == "osl_relation_remove_column":
            return [le(ZERO, a[1], "column at least 0"), lt(a[1], d(0, R, "nb_columns"), "column below the number of columns")]
        if fn == "osl_relation_insert_columns":
            return [eq(d(0, R, "precision"), d(1, R, "precision"), "equal precisions"), eq(d(0, R, "nb_rows"), d(1, R, "nb_rows"), "equal numbers of rows"),
                    le(ZERO, a[2], "column at least 0"), le(a[2], d(0, R, "nb_columns"), "column at most the number of columns")]
        if fn == "osl_relation_concat_constraints":
            return [eq(d(0, R, "precision"), d(1, R, "precision"), "equal precisions"), eq(d(0, R, "nb_columns"), d(1, R, "nb_columns"), "equal numbers of columns")]
        if fn in ("osl_vector_add", "osl_vector_sub"):
            return [eq(d(0, V, "precision"), d(1, V, "precision"), "equal precisions"), eq(d(0, V, "size"), d(1, V, "size"), "equal sizes")]
        if fn in ("osl_vector_tag_inequality", "osl_vector_tag_equality", "osl_vector_add_scalar"):
            return [le(ONE, d(0, V, "size"), "at least one entry")]
        return []

    # ------------------------------------------------------------------ cells
    def cell(self, a):
        """(owner, type, [indices]) of a cell address, or None"""
        M = self.M
        mi, vi = fidx(M, "relation", "m"), fidx(M, "vector", "v")

        def split(x):
            return (x[1], x[3]) if x[0] == "idx" else (x, ZERO)
        b, j = split(a)
        if b[0] == "ld" and b[1][0] == "fld" and b[1][2] == S + "vector" and b[1][3] == vi:
            return b[1][1], "vector", [j]
        if b[0] == "ld":
            r, i = split(b[1])
            if r[0] == "ld" and r[1][0] == "fld" and r[1][2] == S + "relation" and r[1][3] == mi:
                return r[1][1], "relation", [i, j]
        return None

    def has(self, fn):
        """the function handles cells, itself or through non-public helpers"""
        memo = self.__dict__.setdefault("_has", {})
        if fn in memo:
            return memo[fn]
        memo[fn] = False
        F_ = self.M.funcs.get(fn)
        if F_ is None or F_.decl:
            return False
        for i in F_.insts:
            if i.op == "call" and i.callee.k == "func":
                c = i.callee.v
                if c.startswith("osl_int_") or c.split("@")[0] not in self.M.public and self.has(c):
                    memo[fn] = True
        return memo[fn]

    def handles(self):
        M = self.M
        return [n for n, F_ in sorted(M.funcs.items()) if not F_.decl and n.split("@")[0] in M.public and not n.startswith("osl_int_") and self.has(n)]

    def rest(self):
        """helpers of functions that could not be followed as a whole"""
        todo, out = set(self.alone) | {c for n in self.alone for c in self.below(n)}, []
        return sorted(n for n in todo if n in self.M.funcs and not self.M.funcs[n].decl and n.split("@")[0] not in self.M.public and self.has(n) and n not in self.prims)

    def below(self, fn):
        out, todo = set(), [fn]
        while todo:
            F_ = self.M.funcs.get(todo.pop())
            if F_ is None or F_.decl or F_.name.split("@")[0] in self.M.public:
                continue
            for i in F_.insts:
                if i.op == "call" and i.callee.k == "func" and i.callee.v not in out:
                    out.add(i.callee.v)
                    todo.append(i.callee.v)
        return out

    def analyse(self, fn):
        M = self.M
        public = lambda n: n.split("@")[0] in M.public and n != fn
        # a function too large to follow with all its helpers is followed with those that handle cells
        for opaque, steps in ((public, 40000 if fn not in EDITED else 200000), (lambda n: public(n) or n in self.prims or n in M.funcs and not M.funcs[n].decl and not self.has(n), 120000),
                              (lambda n: public(n) or n in M.funcs and not M.funcs[n].decl and n != fn, 400000)):
            E = CEngine(M, opaque=opaque, track=lambda n: False, max_states=8000, models=models(M), max_steps=steps)
            E.cells = self
            E.keep_facts = steps != 400000
            self.E, self.fn, self.acc, self.writes = E, fn, {}, {}
            self.met, self.sums = set(), {}
            self.names = [p.id for p in M.funcs[fn].params]
            self.ours = fn in EDITED
            E.call_hook = self.on_call
            E.store_hook = self.on_store
            try:
                self.exact = E.keep_facts
                self.res = E.analyse(fn)
                if steps == 400000:
                    self.alone |= self.met
                return True
            except Incomplete as e:
                why = str(e)
        self.rep.undec(fn, self.rule, why)
        return False

    def operands(self, name, args):
        """(precision, [(cell address, written?)]) of an osl_int_* call"""
        ts = self.M.ptypes.get(name.split("@")[0])
        if not ts or "union.osl_int" not in "".join(ts[1:]):
            return None
        prec, cells = None, []
        for k, t in enumerate(ts[1:]):
            if t == "int" and prec is None:
                prec = args[k]
            elif t == "union.osl_int*":
                cells.append((args[k], True))
            elif t == "union.osl_int":
                v = args[k]
                if v[0] in ("ld", "uninit"):
                    cells.append((v[1], False))
                elif v[0] == "clob":
                    cells.append((v[1], False))
                elif v[0] == "arg":
                    cells.append((v, False))
                else:
                    cells.append((None, False))
        return prec, cells

    def on_call(self, E, frame, i, s, name, args):
        fn = self.fn
        self.met.add(name)
        if name.startswith("osl_int_") or name in self.prims and E.opaque(name):
            op = self.operands(name, args)
            if op is None:
                return
            prec, cells = op
            rec = []
            for a, w in cells:
                c = self.cell(a) if a is not None else None
                if c is None:
                    rec.append((a, w, None))
                    continue
                o, t, ix = c
                rec.append((a, w, (o, t, tuple(ix), s.mem.get(self.ghost(o, t)) or self.get(E, s, o, t, "precision"), tuple(self.get(E, s, o, t, f) for f in DIM[t]))))
                if w and self.ours and self.written(name) and o[0] == "arg":
                    self.writes[(i.line, "a cell of the operand is changed")] = self.writes.get((i.line, "a cell of the operand is changed"), ()) + (frozenset(s.facts.items()),)
            self.acc.setdefault((i.line, frame["F"].name, name, prec, tuple(rec)), set()).add(frozenset(s.facts.items()))
        elif self.ours and name in self.M.funcs and not self.M.funcs[name].decl:
            for k, a in enumerate(args):
                if a[0] == "arg" and any((k, d) in self.mr.W.get(name, {}) for d in (0, 1)) and name not in EDITED:
                    key = (i.line, f"the operand is changed by {name}")
                    self.writes[key] = self.writes.get(key, ()) + (frozenset(s.facts.items()),)

    def written(self, name):
        return not name.endswith(("_zero", "_one", "_mone", "_pos", "_neg"))

    def ghost(self, o, t):
        """the precision the cells of an object still have after another one was recorded in it"""
        return ("idx", F(self.M, o, t, "precision"), "cells", ONE)

    def on_store(self, E, frame, i, s, a, v):
        if a[0] == "fld" and a[2] in (S + "relation", S + "vector") and self.M.fields[a[2]][a[3]][0] == "precision" and a[1][0] not in ("alloc", "alloca"):
            g = self.ghost(a[1], a[2][len(S):])
            if g not in s.mem:
                s.mem[g] = self.get(E, s, a[1], a[2][len(S):], "precision")
        if self.ours and a[0] == "fld" and a[1][0] == "arg" and a[2] in (S + "relation", S + "vector"):
            key = (i.line, "a field of the operand is changed")
            self.writes[key] = self.writes.get(key, ()) + (frozenset(s.facts.items()),)

    # ------------------------------------------------------------------ facts about loop variables and sizes
    def with_bounds(self, facts, terms):
        """hypotheses from the facts, the loop variables and the fact that sizes are not negative"""
        H, ne = hyps(facts)
        its, lds = set(), set()
        for t in list(terms) + H:
            for x in subterms(t):
                if x[0] in ("it", "itp"):
                    its.add(x)
                elif x[0] == "ld" and x[1][0] == "fld" and x[1][2] in (S + "relation", S + "vector") and \
                        self.M.fields[x[1][2]][x[1][3]][0] in ("nb_rows", "nb_columns", "size"):
                    lds.add(x)
        todo, dealt = list(its), set()
        while todo:
            x = todo.pop()
            if x in dealt:
                continue
            dealt.add(x)
            los = [l for l in self.loops_of(x) if not self.other(l[4], facts)] or self.loops_of(x)
            if not los:
                continue
            inits = {l[0] for l in los}
            if all(l[1] for l in los):
                if len(inits) == 1:
                    lo = next(iter(inits))
                elif all(z[0] == "int" for z in inits):
                    lo = min(inits, key=lambda z: z[1])
                else:
                    # entered in several ways: each in turn (see holds)
                    zs = sorted(inits, key=repr)
                    self.choices[x] = len(zs)
                    lo = zs[self.pick.get(x, 0) % len(zs)]
                if lo is not None:
                    H.append(add(lo, x, -1))
                    for y in subterms(lo):
                        if y[0] in ("it", "itp"):
                            todo.append(y)
                        elif y[0] == "ld":
                            lds.add(y) if y[1][0] == "fld" and y[1][2] in (S + "relation", S + "vector") and self.M.fields[y[1][2]][y[1][3]][0] in ("nb_rows", "nb_columns", "size") else None
            if all(l[2] for l in los) and len(inits) == 1:
                H.append(add(x, next(iter(inits)), -1))
        for x in lds:
            H.append(scale(x, -1))
        # counted up to a limit by a test for inequality
        for e in ne:
            for x in lin(e)[1]:
                ls = self.loops_of(x) if x[0] == "it" else []
                if ls and all(l[3] == {ONE} for l in ls):
                    z = scale(e, lin(e)[1][x])
                    if lin(z)[1].get(x) == 1 and all(prove(H, add(z, add(l[0], x, -1)), 3) for l in ls):
                        H.append(z)
        # x <= b and x != b give x < b
        for _ in range(2):
            for e in ne:
                for z in (e, scale(e, -1)):
                    if add(z, ONE) not in H and prove(H, z, 3):
                        H.append(add(z, ONE))
        return H

    def loops_of(self, x):
        """what the loops know about a loop variable: [(initial value, never decreases, never increases, steps, conditions)]"""
        mp = self.__dict__.get("_itmap")
        if mp is None or mp[0] is not self.E:
            mp = self._itmap = (self.E, {})
            for sm in self.E.summaries:
                # conditions that do not change while the loop runs
                cond = [{a: p for a, p in f.items() if not any(y[0] in ("it", "itp", "itm") for y in subterms(a))} for m, f, ev, env in sm.backs]
                for n, t in sm.phis.items():
                    ds = {add(y, t, -1) for y in sm.steps.get(n, ()) if y is not None}
                    e = (sm.inits[n], all(d[0] == "int" and d[1] >= 0 for d in ds), all(d[0] == "int" and d[1] <= 0 for d in ds), ds, cond)
                    if e not in mp[1].setdefault(t, []):
                        mp[1][t].append(e)
        return mp[1].get(x, [])

    def other(self, sm, facts):
        """the loop was entered under conditions that contradict the facts"""
        d = dict(facts)
        return bool(sm) and all(any(d.get(a, p) != p for a, p in f.items()) for f in sm)

    def holds(self, facts, kind, e):
        key = (facts, kind, e)
        memo = self.__dict__.setdefault("_memo", {})
        if memo.get("E") is not self.E:
            memo.clear()
            memo["E"] = self.E
        if key not in memo:
            memo[key] = self.holds1(facts, kind, e)
        return memo[key]

    def holds1(self, facts, kind, e):
        if kind == "eq" and e == ZERO:
            return True
        self.pick, self.choices = {}, {}
        todo, seen = [{}], []
        while todo:
            self.pick, self.choices = todo.pop(), {}
            if self.pick in seen:
                continue
            seen.append(self.pick)
            H = self.with_bounds(facts, [e])
            if not (prove(H, e) and (kind != "eq" or prove(H, scale(e, -1)))):
                return False
            for x, n in self.choices.items():
                if x not in self.pick and len(seen) < 16:
                    todo += [dict(self.pick, **{}) | {x: k} for k in range(n)]
        return True

    def plain(self, e, args, fss):
        """made of loop variables and sizes only (and of the positions an edition is given)"""
        top = lin(e)[1]
        if not args and not any(x[0] == "it" for x in top):
            return False
        size = lambda x: x[0] == "bin" and x[1] == "mul" and all(size(y) for y in x[2:]) or x[0] == "ld" and x[1][0] == "fld" and x[1][2] in (S + "relation", S + "vector") and \
            self.M.fields[x[1][2]][x[1][3]][0] in ("nb_rows", "nb_columns", "size")
        for x in top:
            if x[0] == "it":
                # a plain counter: one step, by a constant, controlled by sizes only
                ls = self.loops_of(x)
                st = {d for l in ls for d in l[3]}
                if len(st) != 1 or next(iter(st))[0] != "int":
                    return False
                rel = [lin(l[0])[1] for l in ls] + [lin(a[1])[1] for fs in fss for a, p in fs if a[0] in ("le0", "eq0") and x in lin(a[1])[1]]
                if any(not (size(y) or y[0] == "it" or args and y[0] == "arg") for m in rel for y in m):
                    return False
            elif x[0] == "arg":
                if not args:
                    return False
            elif not size(x):
                return False
        return True


EDITS = {"osl_relation_insert_vector": ("nb_rows", "m"), "osl_relation_insert_blank_row": ("nb_rows", "m"), "osl_relation_insert_blank_column": ("nb_columns", "m"),
         "osl_relation_insert_constraints": ("nb_rows", "m"), "osl_relation_remove_row": ("nb_rows", "m"), "osl_relation_remove_column": ("nb_columns", "m"),
         "osl_relation_insert_columns": ("nb_columns", "m"), "osl_relation_replace_vector": (), "osl_relation_add_vector": (), "osl_relation_sub_vector": (),
         "osl_relation_replace_constraints": (), "osl_relation_swap_constraints": ()}
EDITED = sorted(EDITS) + ["osl_relation_concat_vector", "osl_relation_concat_constraints", "osl_vector_add", "osl_vector_sub", "osl_vector_tag_inequality",
                          "osl_vector_tag_equality", "osl_vector_add_scalar"]


class Precision(Cells):
    rule = "cell-precision"

    def run(self):
        M, rep = self.M, self.rep
        fns = self.handles()
        if len(fns) < 20:
            raise AnalysisBroken(f"only {len(fns)} functions handling cells found")
        for fn in fns:
            if self.analyse(fn):
                self.check(fn)
        for fn in self.rest():
            if self.analyse(fn):
                self.check(fn)
        for fn in sorted(self.prims):
            if self.analyse(fn):
                self.check(fn, M.ptypes[fn.split("@")[0]].index("int") - 1)

    def same(self, facts, a, b):
        if a == b:
            return True
        f = State()
        f.facts = dict(facts)
        if f.known(atom_eq(a, b)):
            return True
        e = add(a, b, -1)
        return self.holds(facts, "eq", e)

    def check(self, fn, prim=None):
        M, rep = self.M, self.rep
        temps = {}
        for (line, g, name, prec, rec), fss in sorted(self.acc.items(), key=lambda x: (x[0][0], x[0][2], repr(x[0]))):
            for a, w, c in rec:
                if c is None:
                    self.loose(fn, line, g, name, prec, a, fss, temps)
                    continue
                o, t, ix, own, dims = c
                want = prec
                if all(self.same(fs, prec, own) for fs in fss):
                    rep.ok(fn, "cell-precision", f"{name} at line {line}: cell of {show(M, o, self.names)}")
                else:
                    rep.bad(g.split("@")[0] if g in M.funcs else fn, line, "cell-precision",
                            f"{name} handles a cell of {show(M, o, self.names)} with the precision {show(M, prec, self.names)}, not the one recorded in it",
                            key=f"{fn}:{name}:{show(M, o, self.names)}:{show(M, prec, self.names)}")
        for k, us in sorted(temps.items(), key=repr):
            ps = {p for p, _, _ in us}
            if prim is not None and k[0] == "arg" and ps != {("arg", prim)}:
                p, fs, line = [u for u in us if u[0] != ("arg", prim)][0]
                rep.bad(fn, line, "cell-precision", f"the value handed in is used with the precision {show(M, p, self.names)} instead of the one handed in with it", key=f"{fn}:value")
            elif len(ps) == 1:
                rep.ok(fn, "cell-precision", f"temporary value used with one precision ({len(us)} uses)")
                continue
            base, facts, l0 = sorted(us, key=lambda u: u[2])[0]
            for p, fs, line in sorted(us, key=lambda u: u[2]):
                if not self.same(fs, p, base):
                    rep.bad(fn, line, "cell-precision", f"a temporary value made with the precision {show(M, base, self.names)} is used with {show(M, p, self.names)}",
                            key=f"{fn}:temp:{show(M, p, self.names)}")
                    break
            else:
                rep.ok(fn, "cell-precision", f"temporary value used with equal precisions ({len(us)} uses)")
        self.stored(fn)

    def loose(self, fn, line, g, name, prec, a, fss, temps):
        """a value that is not a cell: a temporary, or a matrix under construction"""
        if a is None:
            self.rep.undec(fn, "cell-precision", f"{name} at line {line}: where the value comes from")
            return
        r = self.E.objroot(a)
        if r[0] in ("alloca", "arg"):
            for fs in fss:
                temps.setdefault(r, set()).add((prec, fs, line))
            return
        if r[0] == "alloc":
            # cells of a block allocated here: the owner is the structure the block ends up in
            for s, v, l in self.res.rets:
                own = None
                rt = self.M.ptypes[fn.split("@")[0]][0] if fn.split("@")[0] in self.M.ptypes else ""
                if v is not None and v[0] == "alloc" and rt in (S + "relation*", S + "vector*"):
                    own = s.mem.get(F(self.M, v, rt[len(S):-1], "precision"))
                for k, x in s.mem.items():
                    if k[0] == "fld" and k[2] in (S + "relation", S + "vector") and k[1][0] == "alloc" and \
                            (x == r or self.E.objroot(x)[:3] == r[:3] or x[0] == "alloc" and any(self.E.objroot(z)[:3] == r[:3] for kk, z in s.mem.items() if self.E.objroot(kk) == x)):
                        if self.M.fields[k[2]][k[3]][0] in ("m", "v"):
                            own = s.mem.get(F(self.M, k[1], k[2][len(S):], "precision"))
                if own is None:
                    continue
                if all(self.same(fs, prec, own) for fs in fss):
                    self.rep.ok(fn, "cell-precision", f"{name} at line {line}: new cells in the recorded precision")
                else:
                    self.rep.bad(fn, line, "cell-precision", f"new cells are made with the precision {show(self.M, prec, self.names)}, the object records {show(self.M, own, self.names)}",
                                 key=f"{fn}:new")
            return
        self.rep.undec(fn, "cell-precision", f"{name} at line {line}: owner of {show(self.M, a, self.names)}")

    def stored(self, fn):
        """the recorded precision changes only together with the cells; a matrix moves only between objects of one precision"""
        M, rep = self.M, self.rep
        pi = {S + t: fidx(M, t, "precision") for t in SHAPE}
        mi = {S + "relation": fidx(M, "relation", "m"), S + "vector": fidx(M, "vector", "v")}
        for s, v, line in self.res.rets:
            fs = frozenset(s.facts.items())
            for a, x in s.mem.items():
                if a[0] != "fld" or a[2] not in mi:
                    continue
                o = a[1]
                if a[3] == mi[a[2]] and x[0] == "ld" and x[1][0] == "fld" and x[1][2] == a[2] and x[1][3] == a[3] and x[1][1] != o:
                    t = a[2][len(S):]
                    p, q = self.get(self.E, s, o, t, "precision"), self.get(self.E, s, x[1][1], t, "precision")
                    if self.same(fs, p, q):
                        rep.ok(fn, "matrix-precision", f"{show(M, o, self.names)} takes over a matrix of its own precision")
                    else:
                        rep.bad(fn, line, "matrix-precision", f"{show(M, o, self.names)} takes over a matrix whose cells have another precision ({show(M, q, self.names)})",
                                key=f"{fn}:matrix:{show(M, o, self.names)}")


def run(M, rep):
    Precision(M, rep).run()
    Retag(M, rep).run()


class Retag(Cells):
    """a store to the precision field of an object whose cells exist converts the cells as well"""
    rule = "retag"

    def run(self):
        M, rep = self.M, self.rep
        pi = {S + t: fidx(M, t, "precision") for t in SHAPE}
        users = set()
        for n, F_ in sorted(M.funcs.items()):
            if F_.decl:
                continue
            for i in F_.insts:
                if i.op == "store" and i.ops[1].k == "inst" and i.ops[1].v.op == "gep":
                    g = i.ops[1].v
                    ix = [o.v for o in g.ops[1:] if o.k == "int"]
                    if g.sty in pi and ix and ix[-1] == pi[g.sty]:
                        users.add(n)
        if not users:
            raise AnalysisBroken("no function records a precision")
        # helpers are judged in the public functions that use them
        callers = {}
        for n, F_ in M.funcs.items():
            for i in F_.insts:
                if i.op == "call" and i.callee.k == "func":
                    callers.setdefault(i.callee.v, set()).add(n)
        todo, seen, tops = sorted(users), set(), set()
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            if n.split("@")[0] in M.public:
                tops.add(n)
            else:
                todo += sorted(callers.get(n, ()))
        for fn in sorted(tops):
            self.hits = []
            if not self.analyse(fn):
                continue
            conv = {strip_ep(self.cell(a)[0]) for k in self.acc if k[2] == "osl_int_set_precision" for a, w, c in k[4] if c for _ in (0,) if self.cell(a)}
            for line, o, cur, v in self.hits:
                if o[0] == "alloc" or o[0] == "alloca":
                    rep.ok(fn, "retag", f"line {line}: new object")
                elif v == cur:
                    rep.ok(fn, "retag", f"line {line}: unchanged")
                elif strip_ep(o) in conv:
                    rep.ok(fn, "retag", f"line {line}: together with the cells")
                else:
                    rep.bad(fn, line, "retag", f"the precision recorded in {show(M, o, self.names)} is changed, its cells are not converted", key=f"{fn}:retag:{show(M, o, self.names)}")

    def on_store(self, E, frame, i, s, a, v):
        if a[0] == "fld" and a[2] in (S + "relation", S + "vector") and self.M.fields[a[2]][a[3]][0] == "precision" and hasattr(self, "hits"):
            self.hits.append((i.line, a[1], self.get(E, s, a[1], a[2][len(S):], "precision"), v))
        super().on_store(E, frame, i, s, a, v)


class Guards(Cells):
    rule = "range"

    def run(self):
        M, rep = self.M, self.rep
        for fn in self.handles():
            if fn in EDITED:
                continue
            if self.analyse(fn) and self.exact:
                self.ranges(fn)
        for fn in EDITED:
            if fn not in M.funcs:
                raise AnalysisBroken(f"{fn} not found")
            if self.analyse(fn):
                self.ranges(fn)
                self.refusals(fn)

    def ranges(self, fn):
        M, rep = self.M, self.rep
        for (line, g, name, prec, rec), fss in sorted(self.acc.items(), key=lambda x: (x[0][0], x[0][2], repr(x[0]))):
            for a, w, c in rec:
                if c is None:
                    continue
                o, t, ix, own, dims = c
                if t == "relation" and ix[0] == ZERO and self.flat(ix[1], dims, fss):
                    rep.ok(fn, "range", f"{name} at line {line}: all cells of the first row block")
                    continue
                for what, x, n in zip(("row", "column") if t == "relation" else ("entry",), ix, dims):
                    for e, side in ((scale(x, -1), "below 0"), (add(add(x, n, -1), ONE), f"at or beyond {show(M, n, self.names)}")):
                        if all(self.holds(fs, "le", e) for fs in fss):
                            rep.ok(fn, "range", f"{name} at line {line}: {what} not {side}")
                        elif self.plain(e, fn in EDITED or fn == "osl_relation_clone_nconstraints", fss):
                            rep.bad(fn, line, "range", f"{what} {show(M, x, self.names)} of {show(M, o, self.names)} may be {side}: no such cell",
                                    key=f"{fn}:{what}:{show(M, o, self.names)}:{side[:5]}")
                        elif fn in EDITED:
                            rep.undec(fn, "range", f"{name} at line {line}: {what} {show(M, x, self.names)} not {side}")

    def flat(self, j, dims, fss):
        prods = {("bin", "mul") + p for p in ((dims[0], dims[1]), (dims[1], dims[0]))}
        return all(any(self.holds(fs, "le", add(add(j, p, -1), ONE)) for p in prods) and self.holds(fs, "le", scale(j, -1)) for fs in fss)

    def refusals(self, fn):
        M, rep = self.M, self.rep
        F_ = M.funcs[fn]
        args = [("arg", k) for k in range(F_.nparams)]
        req = self.guards(fn, self.old, args)
        if not req:
            if fn not in ():
                raise AnalysisBroken(f"no requirements for {fn}")
        ptr = [("arg", k) for k, t in enumerate(M.ptypes[fn][1:]) if t.startswith(S)]
        for s, v, line in self.res.rets:
            f = s.facts
            if any(s.known(atom_eq(p, NULL)) for p in ptr):
                continue
            if fn == "osl_relation_swap_constraints" and s.known(atom_eq(("arg", 1), ("arg", 2))):
                continue
            fs = frozenset(f.items())
            for k, e, txt in req:
                if self.holds(fs, k, e):
                    rep.ok(fn, "refused", f"accepted only with {txt}")
                else:
                    rep.bad(fn, line, "refused", f"operands are accepted without {txt} being established", key=f"{fn}:{txt}")
        # a position is added to something only once it is known not to be too large, or the sum may wrap
        dims = [("ld", F(M, ("arg", k), t[len(S):].rstrip("*"), f), 0) for k, t in enumerate(M.ptypes[fn][1:]) if t in (S + "relation*", S + "vector*")
                for f in DIM[t[len(S):-1]]]
        for (line, a), fss in sorted(self.sums.items()):
            for fs in fss:
                if any(self.holds(fs, "le", add(a, d, -1)) for d in dims):
                    rep.ok(fn, "wrap", f"line {line}: {show(M, a, self.names)} is bounded before it is added")
                else:
                    rep.bad(fn, line, "wrap", f"{show(M, a, self.names)} takes part in a sum before it is known to be in range: the sum may wrap and pass the check", key=f"{fn}:wrap:{a[1]}")
        for (line, what), fss in sorted(self.writes.items()):
            for fs in fss:
                st = State()
                st.facts = dict(fs)
                if any(st.known(atom_eq(p, NULL)) for p in ptr):
                    continue
                for k, e, txt in req:
                    if self.holds(fs, k, e):
                        rep.ok(fn, "before-change", f"line {line}: {txt} established before")
                    else:
                        rep.bad(fn, line, "before-change", f"{what} before {txt} is established", key=f"{fn}:{line}:{txt}")


def run_guards(M, rep):
    Guards(M, rep).run()
