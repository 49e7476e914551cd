"""Text and the buffers it is collected in.  A forward dataflow over each function bounds the length of the text held by every
character buffer (linear forms over constants and strlen terms) and knows the capacity each was obtained with; every write is
then an obligation "capacity - need >= 0", discharged from the forms and from the comparisons that dominate the write."""
import re
from .ir import AnalysisBroken, Val

CASTS = ("bitcast", "sext", "zext", "trunc", "freeze", "ptrtoint", "inttoptr")
CHARWRITERS = {"sprintf", "snprintf", "vsprintf", "vsnprintf", "strcat", "strncat", "strcpy", "strncpy", "fgets", "memcpy", "memmove", "memset"}
QUIET = {"vsnprintf", "snprintf", "malloc", "calloc", "realloc", "free", "strlen", "memcpy", "memmove", "memset", "strcmp", "strncmp", "strcpy", "strncpy", "strcat", "strncat", "sprintf", "snprintf", "fprintf", "printf", "isspace", "__ctype_b_loc",
         "exit", "strdup", "osl_util_strdup"}
NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sle": "sgt", "sgt": "sle", "sge": "slt", "ult": "uge", "ule": "ugt", "ugt": "ule", "uge": "ult"}


SIZES = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "ptr": 8, "double": 8, "float": 4}


class Lin:
    """constant + sum of coefficient * atom"""
    __slots__ = ("c", "t")

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = {k: v for k, v in dict(t).items() if v}

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        t = dict(self.t)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) + v
        return Lin(self.c + o.c, t)

    def __sub__(self, o):
        return self + (o * -1 if isinstance(o, Lin) else -o)

    def __mul__(self, n):
        return Lin(self.c * n, {k: v * n for k, v in self.t.items()})

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __hash__(self):
        return hash((self.c, frozenset(self.t.items())))

    def __repr__(self):
        return " + ".join([str(self.c)] + [f"{v}*{k}" for k, v in self.t.items()])

    def const(self):
        return not self.t


def join(a, b):
    """upper bound of both; None: no bound"""
    if a is None or b is None:
        return None
    if isinstance(a, int) or isinstance(b, int):
        return 0
    t = dict(a.t)
    for k, v in b.t.items():
        t[k] = max(t.get(k, 0), v)
    return Lin(max(a.c, b.c), t)


def formats(s):
    """pieces of a format: literal text or (conversion, width, precision)"""
    out, pos = [], 0
    for m in re.finditer(r"%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|L|q|Z)?([a-zA-Z%])", s):
        if m.start() > pos:
            out.append(s[pos:m.start()])
        out.append((m.group(5), m.group(2), m.group(3), m.group(4) or ""))
        pos = m.end()
    if pos < len(s):
        out.append(s[pos:])
    return out


def apart(a, b):
    """different fields of records"""
    return a[0] == b[0] == "fld" and a[2] is not None and b[2] is not None and "struct" in a[2] and "struct" in b[2] and (a[2], a[3]) != (b[2], b[3]) and all(isinstance(x, int) for x in a[3] + b[3]) and len(a[3]) == len(b[3]) == 2


def root(k):
    while k[0] in ("fld", "ld"):
        k = k[1]
    return k


def alike(a, b):
    return a.keys() == b.keys() and all(v == b[k] or k[0] == "av" and v.k == b[k].k and v.v == b[k].v for k, v in a.items())


class Fn:
    """one function: forms of values, facts of blocks, the dataflow"""

    def __init__(self, B, F):
        self.B, self.F, self.M = B, F, B.M
        self.made = {}
        self.same = {}      # loads: an earlier value known to be in the place
        self.order = F.rpo()
        self.idx = {b: k for k, b in enumerate(self.order)}

    # ------------------------------------------------------------------ values
    def strip(self, v):
        while v.k == "inst" and v.v.op in ("bitcast", "freeze"):
            v = v.v.ops[0]
        return v

    def key(self, v, st):
        """name of a pointer to text"""
        v = self.strip(v)
        if v.k == "arg":
            return ("a", v.v)
        if v.k == "str":
            return ("s", str(v.v))
        if v.k == "global":
            return ("g", str(v.v))
        if v.k != "inst":
            return ("o", repr(v.v))
        i = v.v
        if i.op == "load":
            p = self.strip(i.ops[0])
            if p.k == "inst" and p.v.op == "alloca":
                return st.get(("cell", p.v.n), ("v", i.n)) if isinstance(st.get(("cell", p.v.n)), tuple) else ("v", i.n)
            return ("ld", self.key(p, st))
        if i.op == "gep":
            ix = [o.v if o.k == "int" else ("x",) + tuple([self.lin(o, st)]) for o in i.ops[1:]]
            if all(x == 0 for x in ix) and not ("struct" in (i.sty or "") and len(ix) == 2):
                return self.key(i.ops[0], st)
            return ("fld", self.key(i.ops[0], st), i.sty, tuple(ix))
        return ("v", i.n)

    def lin(self, v, st):
        if v.k == "int":
            return Lin(v.v)
        if v.k in ("null", "undef"):
            return Lin(0)
        if v.k == "arg":
            return Lin(0, {("ia", v.v): 1})
        if v.k != "inst":
            return Lin(0, {("o", repr(v.v)): 1})
        i = v.v
        if i.op in CASTS:
            return self.lin(i.ops[0], st)
        if i.op == "gep" and i.sty == "i8" and len(i.ops) == 2:
            return self.lin(i.ops[0], st) + self.lin(i.ops[1], st)
        if i.op in ("add", "sub"):
            a, b = self.lin(i.ops[0], st), self.lin(i.ops[1], st)
            return a + b if i.op == "add" else a - b
        if i.op == "mul":
            a, b = self.lin(i.ops[0], st), self.lin(i.ops[1], st)
            if b.const():
                return a * b.c
            if a.const():
                return b * a.c
        if i.op in ("udiv", "sdiv", "lshr", "ashr"):
            a, b = self.lin(i.ops[0], st), self.lin(i.ops[1], st)
            if a.const() and b.const() and a.c >= 0 and b.c > 0:
                return Lin(a.c // b.c if i.op.endswith("div") else a.c >> b.c)
        if i.op == "shl" and i.ops[1].k == "int":
            return self.lin(i.ops[0], st) * (1 << i.ops[1].v)
        if i.op == "call" and i.callee.k == "func" and i.callee.v == "strlen":
            t = i.ops[0]
            if self.strip(t).k == "str":
                return Lin(len(self.B.text(self.strip(t))))
            return Lin(0, {("len", self.key(t, st)): 1})
        if i.op == "load":
            p = self.strip(i.ops[0])
            if p.k == "inst" and p.v.op == "alloca":
                x = st.get(("num", p.v.n))
                if x is not None:
                    return x
            r = self.same.get(i.n)
            if r is not None and not (r.k == "inst" and r.v is i):
                return self.lin(r, st)
        return Lin(0, {("v", i.n): 1})

    def place(self, v, st, d=0):
        """(buffer, offset) of a pointer to characters, or None"""
        v = self.strip(v)
        if d > 12:
            return None
        if v.k == "arg":
            return (("a", v.v), Lin(0))
        if v.k != "inst":
            return None
        i = v.v
        if i.op == "alloca":
            return (("b", i.n), Lin(0)) if i.sty == "i8" or re.match(r"\[\d+ x i8\]", i.sty) else None
        if i.op == "call":
            k = self.B.within.get(i.callee.v) if i.callee.k == "func" else None
            if k is not None and k < len(i.ops):
                r = self.place(i.ops[k], st, d + 1)
                return None if r is None else (r[0], r[1] + Lin(0, {("size", ("in", i.n)): 1}))
            return (("b", i.n), Lin(0))
        if i.op == "gep":
            r = self.place(i.ops[0], st, d + 1)
            if r is None:
                return None
            if i.sty in SIZES and len(i.ops) == 2:
                return r[0], r[1] + self.lin(i.ops[1], st) * SIZES[i.sty]
            if re.match(r"\[\d+ x i8\]", i.sty or "") and len(i.ops) == 3 and i.ops[1].k == "int" and i.ops[1].v == 0:
                return r[0], r[1] + self.lin(i.ops[2], st)
            return None
        if i.op == "load":
            p = self.strip(i.ops[0])
            if p.k == "inst" and p.v.op == "alloca":
                x = st.get(("cell", p.v.n))
                if isinstance(x, tuple) and x[0] == "b":
                    return x, st.get(("off", p.v.n), Lin(0))
                return None
            x = st.get(("slot", self.key(v, st)))
            if x is None:
                r = self.same.get(i.n)
                if r is not None and r.k == "inst" and r.v is not i and r.v.op in ("call", "phi", "load"):
                    return self.place(r, st, d + 1)
            return (x, Lin(0)) if x is not None else None
        if i.op == "phi":
            if d:
                return (("p", i.n), Lin(0))
            return (("p", i.n), Lin(0))
        if i.op == "select":
            return None
        return None

    def cap(self, b, st):
        """bytes of a buffer"""
        if b[0] == "b":
            i = self.F.insts[b[1]]
            if i.op == "alloca":
                m = re.match(r"\[(\d+) x i8\]", i.sty)
                return Lin(int(m.group(1))) if m else self.lin(i.ops[0], st) if i.ops else None
            c = i.callee.v if i.callee.k == "func" else None
            if c == "malloc":
                return self.made.get(i.n)
            if c == "calloc":
                return self.made.get(i.n)
            if c == "realloc":
                return self.made.get(i.n)
            if c in ("strdup", "osl_util_strdup"):
                return self.made.get(i.n)
            r = self.B.answer.get(c)
            return Lin(r) if r is not None else None
        if b[0] == "p":
            i = self.F.insts[b[1]]
            rs = [self.place(x, st, 1) for x, _ in i.incoming if not x.k == "null"]
            cs = [self.cap(r[0], st) if r is not None and r[0] != b and r[1] == Lin(0) and r[0][0] != "p" else None if r is None or r[0] != b or r[1] != Lin(0) else "self" for r in rs]
            cs = [c for c in cs if c != "self"]
            if cs and all(c is not None for c in cs) and all(c == cs[0] for c in cs):
                return cs[0]
            if cs and all(c is not None and c.const() for c in cs):
                return Lin(min(c.c for c in cs))
            # a size kept along with it
            for j in i.block.insts:
                if j.op == "phi" and j is not i and j.ty in ("i32", "i64"):
                    ok = bool(i.incoming)
                    for (x, p), (y, q) in zip(i.incoming, j.incoming):
                        r = self.place(x, st, 1)
                        c = None if r is None or r[1] != Lin(0) else Lin(0, {("v", j.n): 1}) if r[0] == b else self.cap(r[0], st) if r[0][0] != "p" else self.pair(r[0], y, b, j, st)
                        if c is None or c != self.lin(y, st):
                            ok = False
                    if ok:
                        return Lin(0, {("v", j.n): 1})
            return None
        return None

    def pair(self, b2, y, b, j, st):
        """a second joint of the same two values: buffer and size come together there too"""
        i2 = self.F.insts[b2[1]]
        if y.k != "inst" or y.v.op != "phi" or y.v.block is not i2.block:
            return None
        for (x, p), (z, q) in zip(i2.incoming, y.v.incoming):
            r = self.place(x, st, 1)
            if r is None or r[1] != Lin(0):
                return None
            c = Lin(0, {("v", j.n): 1}) if r[0] == b else self.cap(r[0], st) if r[0][0] != "p" else None
            if c is None or c != self.lin(z, st):
                return None
        return self.lin(y, st)

    # ------------------------------------------------------------------ facts
    def facts(self, b, st, steady=True):
        """linear forms known to be >= 0 at the start of the block, from the branches that dominate it"""
        out = self.steady(b, st)[:] if steady else []
        if steady:
            out += [l for h, l in self.reached(st).items() if self.F.dominates(h, b)]
        idom = self.F.idom()
        while True:
            ps = [p for p in b.pred if p in idom]
            if len(ps) == 1:
                self.edge(ps[0], b, st, out)
            elif ps:
                # entered from several branches
                common = None
                for p in ps:
                    o = []
                    self.edge(p, b, st, o)
                    common = o if common is None else [x for x in common if x in o]
                out += common or []
            d = idom.get(b)
            if d is None or d is b:
                break
            b = d
        return out

    def edge(self, p, b, st, out):
        t = p.insts[-1]
        if t.op == "br" and len(t.succ) == 2 and t.ops and t.succ[0] is not t.succ[1]:
            self.cond(t.ops[0], t.succ[0] is b, st, out)

    def cond(self, v, taken, st, out, d=0):
        if v.k != "inst":
            return
        i = v.v
        if i.op == "icmp":
            pred = i.pred if taken else NEG[i.pred]
            o = i.ops[0]
            while o.k == "inst" and o.v.op in ("zext", "sext"):
                o = o.v.ops[0]
            if o.k == "inst" and o.v.op == "icmp" and i.ops[1].k in ("int", "null") and i.ops[1].v == 0:
                self.cond(o, pred == "ne", st, out)
                return
            a, b = self.lin(i.ops[0], st), self.lin(i.ops[1], st)
            if pred in ("slt", "ult"):
                out.append(b - a - 1)
            elif pred in ("sle", "ule"):
                out.append(b - a)
            elif pred in ("sgt", "ugt"):
                out.append(a - b - 1)
            elif pred in ("sge", "uge"):
                out.append(a - b)
            elif pred == "eq":
                out += [a - b, b - a]
            else:
                out.append(("ne", a - b))
        elif i.op == "phi" and d < 4:
            # a && b, a || b
            rest = [(x, q) for x, q in i.incoming if not (x.k == "int" and (x.v != 0) != taken)]
            common = None
            for x, q in rest:
                o = []
                t = q.insts[-1]
                self.edge(q, i.block, st, o)
                self.cond(x, taken, st, o, d + 1)
                b = q
                while len(b.pred) == 1 and not self.F.dominates(b, i.block) and b is not i.block:
                    self.edge(b.pred[0], b, st, o)
                    b = b.pred[0]
                common = o if common is None else [y for y in common if y in o]
            out += common or []
        elif i.op == "xor":
            self.cond(i.ops[0], not taken, st, out)
        elif i.op in ("select",):
            # a && b, a || b
            c, x, y = i.ops
            if taken and y.k == "int" and y.v == 0:
                self.cond(c, True, st, out)
                self.cond(x, True, st, out)
            elif not taken and x.k == "int" and x.v in (1, -1):
                self.cond(c, False, st, out)
                self.cond(y, False, st, out)

    # ------------------------------------------------------------------ loops
    def drift(self, v, phi, seen=()):
        """(lowest, highest) difference of a value to the joint it comes from; an end that is None is open"""
        while v.k == "inst" and v.v.op in CASTS:
            v = v.v.ops[0]
        if v.k != "inst":
            return None
        i = v.v
        if i is phi:
            return (0, 0)
        if i.op in ("add", "sub") and i.ops[1].k == "int" or i.op == "gep" and i.sty == "i8" and len(i.ops) == 2 and i.ops[1].k == "int":
            r = self.drift(i.ops[0], phi, seen)
            c = i.ops[1].v if i.op != "sub" else -i.ops[1].v
            return None if r is None else (None if r[0] is None else r[0] + c, None if r[1] is None else r[1] + c)
        if i.op == "select":
            a, b = self.drift(i.ops[1], phi, seen), self.drift(i.ops[2], phi, seen)
            return self.union(a, b)
        if i.op == "phi":
            if i in seen:
                return None
            out, back = "none", []
            for x, q in i.incoming:
                if self.F.dominates(i.block, q):
                    back.append(x)
                    continue
                r = self.drift(x, phi, seen + (i,))
                if r is None:
                    return None
                out = r if out == "none" else self.union(out, r)
            if out == "none":
                return None
            for x in back:
                r = self.drift(x, i, seen)
                if r is None:
                    return None
                out = (out[0] if r[0] is not None and r[0] >= 0 else None, out[1] if r[1] is not None and r[1] <= 0 else None)
            return out
        return None

    @staticmethod
    def union(a, b):
        if a is None or b is None:
            return None
        return (None if a[0] is None or b[0] is None else min(a[0], b[0]), None if a[1] is None or b[1] is None else max(a[1], b[1]))

    def pairdrift(self, x, p, y, q):
        while x.k == "inst" and x.v.op in CASTS:
            x = x.v.ops[0]
        while y.k == "inst" and y.v.op in CASTS:
            y = y.v.ops[0]
        if x.k == "inst" and y.k == "inst" and x.v.op == "phi" and y.v.op == "phi" and x.v.block is y.v.block and x.v is not p and y.v is not q and \
                not any(self.F.dominates(x.v.block, e) for _, e in x.v.incoming):
            out = "none"
            ys = {e: w for w, e in y.v.incoming}
            for w, e in x.v.incoming:
                r = self.pairdrift(w, p, ys[e], q)
                out = r if out == "none" else self.union(out, r)
            return out
        a, b = self.drift(x, p), self.drift(y, q)
        if a is None or b is None:
            return None
        return (None if a[0] is None or b[1] is None else a[0] - b[1], None if a[1] is None or b[0] is None else a[1] - b[0])

    def steady(self, b, st):
        """what holds of the counters of the loops around and before a block"""
        if not hasattr(self, "_steady"):
            self._steady = {}
            for h in self.F.loops():
                ps = [j for j in h.insts if j.op == "phi" and (j.ty in ("i32", "i64", "ptr"))]
                out = []
                ok = []
                for j in ps:
                    ins = [(x, q) for x, q in j.incoming if not self.F.dominates(h, q)]
                    bk = [(x, q) for x, q in j.incoming if self.F.dominates(h, q)]
                    if len(ins) == 1 and bk:
                        ok.append((j, ins[0][0], bk))
                for j, x0, bk in ok:
                    d = (0, 0)
                    for x, q in bk:
                        d = self.union(d, self.drift(x, j))
                    if d is None:
                        continue
                    l = Lin(0, {("v", j.n): 1})
                    if d[0] is not None and d[0] >= 0:
                        out.append((l, x0, None, None))
                    if d[1] is not None and d[1] <= 0:
                        out.append((l * -1, x0, None, -1))
                for n, (j, x0, bk) in enumerate(ok):
                    for k, y0, bk2 in ok[n + 1:]:
                        d = (0, 0)
                        ys = {q: y for y, q in bk2}
                        for x, q in bk:
                            d = self.union(d, self.pairdrift(x, j, ys[q], k))
                        if d is None:
                            continue
                        l = Lin(0, {("v", j.n): 1, ("v", k.n): -1})
                        if d[1] is not None and d[1] <= 0:
                            out.append((l * -1, x0, y0, -1))
                        if d[0] is not None and d[0] >= 0:
                            out.append((l, x0, y0, None))
                self._steady[h] = out
        res = []
        for h, out in self._steady.items():
            if self.F.dominates(h, b):
                for l, x0, y0, neg in out:
                    base = self.lin(x0, st) - (self.lin(y0, st) if y0 is not None else Lin(0))
                    res.append(l + base if neg else l - base)
        return res

    @staticmethod
    def positive(l):
        return l.c >= 0 and all(v > 0 and k[0] in ("len", "size") for k, v in l.t.items())

    def implied(self, goal, fs):
        """does goal >= 0 follow from the forms fs >= 0?"""
        if self.positive(goal):
            return True
        cs = {goal * -1 - 1}
        rel = set(goal.t)
        fs = list(dict.fromkeys(fs))
        used = set()
        for _ in range(4):
            for f in fs:
                if f not in used and set(f.t) & rel:
                    used.add(f)
            new = set().union(*[set(f.t) for f in used]) if used else set()
            if new <= rel:
                break
            rel |= new
        cs |= used
        for a in rel:
            if a[0] in ("len", "size"):
                cs.add(Lin(0, {a: 1}))
        if len(cs) > 40:
            cs = set(sorted(cs, key=lambda l: len(set(l.t) - set(goal.t)))[:40]) | {goal * -1 - 1}
        while True:
            if any(c.const() and c.c < 0 for c in cs):
                return True
            cs = {c for c in cs if not c.const()}
            atoms = set().union(*[set(c.t) for c in cs]) if cs else set()
            if not atoms:
                return False
            best = min(atoms, key=lambda a: (sum(1 for c in cs if c.t.get(a, 0) > 0) * sum(1 for c in cs if c.t.get(a, 0) < 0), repr(a)))
            up = [c for c in cs if c.t.get(best, 0) > 0]
            dn = [c for c in cs if c.t.get(best, 0) < 0]
            rest = {c for c in cs if best not in c.t}
            if len(up) * len(dn) > 400:
                return False
            for u in up:
                for w in dn:
                    n = u * -w.t[best] + w * u.t[best]
                    if n.t and max(abs(v) for v in n.t.values()) > 4096:
                        continue
                    rest.add(n)
            if len(rest) > 300:
                return False
            cs = rest

    def prove(self, goal, b, st, hyps=(), d=0, edge=(), sure=True):
        """True, a negative constant: what is missing where the bound is tight, or None"""
        if goal.const():
            return True if goal.c >= 0 else goal.c if sure else None
        raw = self.facts(b, st)
        fs = [x for x in raw if isinstance(x, Lin)]
        fs += self.inside(set(goal.t).union(*[set(f.t) for f in fs]) if fs else set(goal.t), st)
        fs += self.counts(set(goal.t).union(*[set(f.t) for f in fs]) if fs else set(goal.t))
        fs += self.joined(set(goal.t).union(*[set(f.t) for f in fs]) if fs else set(goal.t), st)
        for x in raw:
            if not isinstance(x, Lin) and d < 2:
                for l in (x[1], x[1] * -1):
                    if self.implied(l, fs + list(hyps)):
                        fs.append(l - 1)
                        break
        if self.implied(goal, fs + list(hyps)):
            return True
        tight = [(goal - f).c for f in [x for x in self.facts(b, st, False) + list(edge) if isinstance(x, Lin)] if (goal - f).const() and set(f.t) == set(goal.t)]
        best = max([c for c in tight if c < 0], default=None)
        if d < 3:
            for k in sorted(goal.t, key=repr):
                if k[0] != "v" or self.F.insts[k[1]].op != "phi":
                    continue
                h = self.F.insts[k[1]].block
                phis = {("v", j.n): j for j in h.insts if j.op == "phi"}
                worst, ok, open_ = None, True, False
                for n, (_, p) in enumerate(self.F.insts[k[1]].incoming):
                    g = Lin(goal.c)
                    for a, c in goal.t.items():
                        g = g + (self.lin(next(v for v, q in phis[a].incoming if q is p), st) * c if a in phis else Lin(0, {a: c}))
                    back = self.F.dominates(h, p)
                    eh = []
                    self.edge(p, h, st, eh)
                    eh = [x for x in eh if isinstance(x, Lin)]
                    r = self.prove(g, p, st, tuple(hyps) + ((goal,) if back else ()) + tuple(eh), d + 1, tuple(eh), d == 0 and not any(self.F.dominates(h, q) for _, q in self.F.insts[k[1]].incoming))
                    if r is not True:
                        ok = False
                        if r is None:
                            open_ = True
                        else:
                            worst = r if worst is None else min(worst, r)
                if ok:
                    return True
                if worst is not None and not open_ and best is None:
                    best = worst
        return best

    def counts(self, atoms):
        """the counts an object records (not those of relations, which may be undefined) are not negative"""
        out = []
        for a in atoms:
            if a[0] != "v":
                continue
            i = self.F.insts[a[1]]
            if i.op != "load":
                continue
            t = self.strip(i.ops[0])
            if t.k == "inst" and t.v.op == "gep" and (t.v.sty or "").startswith("struct.osl_") and "relation" not in t.v.sty and len(t.v.ops) == 3 and t.v.ops[2].k == "int":
                fs = self.B.M.fields.get(t.v.sty) or []
                if t.v.ops[2].v < len(fs) and fs[t.v.ops[2].v][0].startswith(("nb_", "count")):
                    out.append(Lin(0, {a: 1}))
        return out

    def joined(self, atoms, st):
        """a value that is one of several that differ by constants"""
        out = []
        for a in atoms:
            if a[0] != "v" or self.F.insts[a[1]].op != "phi":
                continue
            i = self.F.insts[a[1]]
            if any(self.F.dominates(i.block, q) for _, q in i.incoming):
                continue
            ls = [self.lin(x, st) for x, _ in i.incoming]
            ds = [l - ls[0] for l in ls]
            if all(x.const() for x in ds):
                l = Lin(0, {a: 1})
                out += [l - ls[0] - min(x.c for x in ds), ls[0] + max(x.c for x in ds) - l]
        return out

    def reached(self, st):
        """a counter that goes up by one until it equals a limit it starts below"""
        if hasattr(self, "_reached"):
            return self._reached
        self._reached = {}
        for h, body in self.F.loops().items():
            t = h.insts[-1]
            if t.op != "br" or len(t.succ) != 2 or not t.ops or t.ops[0].k != "inst" or t.ops[0].v.op != "icmp" or t.ops[0].v.pred not in ("eq", "ne"):
                continue
            for p, q in (t.ops[0].v.ops, t.ops[0].v.ops[::-1]):
                if p.k != "inst" or p.v.op != "phi" or p.v.block is not h or q.k == "inst" and q.v.block in body or q.k not in ("inst", "arg", "int"):
                    continue
                ins = [(x, e) for x, e in p.v.incoming if not self.F.dominates(h, e)]
                bk = [x for x, e in p.v.incoming if self.F.dominates(h, e)]
                if len(ins) != 1 or not bk or any(self.drift(x, p.v) != (1, 1) for x in bk):
                    continue
                x, e = ins[0]
                if self.prove(self.lin(q, st) - self.lin(x, st), e, st) is True:
                    self._reached[h] = self.lin(q, st) - Lin(0, {("v", p.v.n): 1})
        return self._reached

    def inside(self, atoms, st):
        """a text ends inside the buffer that holds it"""
        out = []
        for a in atoms:
            if a[0] == "len" and a[1][0] == "v":
                i = self.F.insts[a[1][1]]
                b = ("b" if i.op in ("alloca", "call") else "p", i.n)
                if i.op not in ("alloca", "call", "phi"):
                    continue
                r = self.place(Val("inst", i, "ptr"), st)
                if r is None:
                    continue
                c = self.cap(r[0], st)
                if c is not None:
                    out.append(c - 1 - r[1] - Lin(0, {a: 1}))
                n = st.get(("len", r[0]))
                if isinstance(n, Lin) and r[1] == Lin(0):
                    out.append(n - Lin(0, {a: 1}))
        return out

    def unbounded(self, goal, b, st):
        """does something that nothing limits (a text, a counter of characters) count against the goal?"""
        neg = [k for k, c in goal.t.items() if c < 0]
        pos = {k for k, c in goal.t.items() if c > 0}
        seen = set()
        for f in self.facts(b, st):
            l = f[1] if isinstance(f, tuple) else f
            seen |= set(l.t)
        for k in neg:
            if k[0] == "len" and k not in seen and not (k[1][0] == "v" and ("len", ("b", k[1][1])) in seen) and not (pos & seen):
                return k
            if k[0] == "v" and self.F.insts[k[1]].op == "phi" and self.bychars(self.F.insts[k[1]], st):
                return k
        return None

    def last(self, goal, b, st):
        """what is missing the last time a loop that counts up to its limit comes here"""
        for a, c in goal.t.items():
            if c >= 0 or a[0] != "v" or self.F.insts[a[1]].op != "phi":
                continue
            phi = self.F.insts[a[1]]
            h = phi.block
            body = self.F.loops().get(h)
            t = h.insts[-1]
            dead = self.dead()
            if body is None or b not in body or t.op != "br" or len(t.succ) != 2 or t.succ[0] is t.succ[1]:
                continue
            inn = [x for x in t.succ if x in body]
            if len(inn) != 1 or any(x not in body and x not in dead for y in body if y is not h for x in y.insts[-1].succ or ()):
                continue
            bk = [(x, q) for x, q in phi.incoming if self.F.dominates(h, q)]
            if not bk or any(self.drift(x, phi) != (1, 1) for x, q in bk):
                continue
            fs = []
            self.edge(h, inn[0], st, fs)
            fs = [x for x in fs if isinstance(x, Lin)]
            if h in self.reached(st):
                fs.append(self.reached(st)[h] - 1)
            fs = [x for x in fs if x.t.get(a) == -1]
            if len(fs) != 1:
                continue
            f = fs[0]
            near = [x[1] if isinstance(x, tuple) else x for x in self.facts(b, st, False) if x != f]
            if any(not self.F.dominates(b, q) for x, q in bk) and any(a in x.t for x in near):
                continue
            if any(k != a and (k[0] != "v" or self.F.insts[k[1]].block in body) for k in f.t):
                continue
            r = goal - f * -c
            first = [self.lin(x, st) for x, q in phi.incoming if not self.F.dominates(h, q)]
            if r.const() and r.c < 0 or len(first) == 1 and first[0].const() and self.prove(r * -1 - 1, h, st, (f + Lin(0, {a: 1}) - first[0],)) is True:
                return f"{r * -1} too few in the end"
            if r.const():
                continue
            cs = self.counts(set(r.t))
            if r.c <= 0 and len(cs) == len(r.t) and all(x < 0 for x in r.t.values()):
                others = set().union(*[set(x.t) for x in near] or [set()])
                if not others & set(r.t):
                    return f"{r * -1} too few in the end"
        return None

    def dead(self):
        """blocks from which the function does not return"""
        if not hasattr(self, "_dead"):
            live = {b for b in self.F.blocks if b.insts and b.insts[-1].op == "ret"}
            work = list(live)
            while work:
                for q in work.pop().pred:
                    if q not in live:
                        live.add(q)
                        work.append(q)
            self._dead = {b for b in self.F.blocks if b not in live}
        return self._dead

    def arg(self, n, seen=()):
        """may a value be (a part of) what a parameter points to?"""
        i = self.F.insts[n]
        if i.op == "phi":
            return i.n not in seen and any(x.k == "arg" or x.k == "inst" and self.arg(x.v.n, seen + (i.n,)) for x, _ in i.incoming)
        if i.op == "load":
            r = self.same.get(n)
            return r is None or r.k != "inst" or r.v is i or i.n in seen or self.arg(r.v.n, seen + (i.n,))
        return not (i.op == "call" and i.callee.k == "func" and (i.callee.v in ("malloc", "calloc", "realloc") or i.callee.v in self.B.fresh))

    def bychars(self, phi, st):
        """a counter of a loop that only characters end"""
        h = phi.block
        body = self.F.loops().get(h)
        if body is None:
            return False
        d = (0, 0)
        for x, q in phi.incoming:
            if self.F.dominates(h, q):
                d = self.union(d, self.drift(x, phi))
        if d is None or d[1] is not None and d[1] <= 0:
            return False
        chars = False
        for b in body:
            for i in b.insts:
                if i.op not in ("icmp", "switch"):
                    continue
                if i.op == "icmp" and "null" in (i.ops[0].k, i.ops[1].k):
                    continue
                ls = [self.lin(o, st).t for o in i.ops[:2 if i.op == "icmp" else 1]]
                if len(ls) == 2 and any(("v", phi.n) in x and any(a[0] == "v" and not self.textual(a, st) and self.F.insts[a[1]].block not in body for a in y) for x, y in (ls, ls[::-1])):
                    return False
                for o in ls:
                    for a in o:
                        if a == ("v", phi.n) or self.textual(a, st):
                            chars = True
                            continue
                        if a[0] == "len":
                            chars = True
                            continue
                        if a[0] != "v":
                            return False
                        j = self.F.insts[a[1]]
                        if j.op == "load" and j.ty == "i8":
                            chars = True
                        elif j.op in ("load", "call", "and", "icmp", "phi") and (j.op != "phi" or j.ty == "i1"):
                            if j.op == "load" and j.ty in ("i32", "i64"):
                                return False
                        else:
                            return False
        return chars

    def textual(self, a, st, d=0):
        """the length of a text, or nothing"""
        if a[0] == "len":
            return True
        if a[0] != "v" or d > 2:
            return False
        i = self.F.insts[a[1]]
        if i.op != "phi" or any(self.F.dominates(i.block, q) for _, q in i.incoming):
            return False
        ls = [self.lin(x, st) for x, _ in i.incoming]
        return any(l.t for l in ls) and all(l.c == 0 and all(self.textual(b, st, d + 1) for b in l.t) for l in ls)

    # ------------------------------------------------------------------ dataflow
    def run(self):
        self.solve(None)
        heads = self.F.loops()
        self.solve({h: {k for k in self.into.get(h, ()) if k[0] == "av"} for h in heads})
        for b in self.order:
            if b not in self.into:
                continue
            st = dict(self.into[b])
            for i in b.insts:
                self.step(i, st, self.B)
            if b not in self.dead() and (not b.succ or any(x in heads for x in b.succ)):
                self.B.grown(self, b, st)
        return self

    def solve(self, keep):
        F = self.F
        start = {}
        self.into = {self.order[0]: start}
        visits = {}
        heads = self.F.loops()
        work = [self.order[0]]
        while work:
            work.sort(key=lambda b: -self.idx[b])
            b = work.pop()
            st = dict(self.into[b])
            visits[b] = visits.get(b, 0) + 1
            for i in b.insts:
                self.step(i, st, None)
            for s in b.succ:
                old = self.into.get(s)
                if s in heads:
                    st = {k: v for k, v in st.items() if k[0] != "av" or not (v.k == "inst" and v.v.block in heads[s]) and (keep is None or k in keep.get(s, ()))}
                if old is not None:
                    st, old = self.matched(st, old), self.matched(old, st)
                new = st if old is None else self.merge(old, st, visits.get(s, 0) > 2)
                if old is None or not alike(new, self.into[s]):
                    self.into[s] = dict(new)
                    if s not in work:
                        work.append(s)

    def matched(self, st, o):
        """a buffer known to have its recorded size counts as one paired with that size"""
        for k, m in [x for x in o.items() if x[0][0] == "paired" and x[0] not in st]:
            c, h = st.get(("cell", k[1])), st.get(("num", m))
            if isinstance(c, tuple) and c[0] == "b" and h is not None and st.get(("off", k[1]), Lin(0)) == Lin(0):
                cap = self.cap(c, st)
                if cap is not None and self.positive(cap - h):
                    st = dict(st)
                    st[k] = m
                elif cap is not None and (cap - h).const():
                    st = dict(st)
                    st[("mis", k[1])] = h.c - cap.c if h.const() and cap.const() else str((h - cap).c)
        return st

    def spared(self, key, i, to, entry, ty=None, st=()):
        """a place that a store (to the place "to") or a call certainly leaves alone"""
        if entry is not None and key[0] == "fld" and "struct" in (key[2] or ""):
            return True
        if to is not None and apart(to, key):
            return True
        if entry is not None and key[0] == "fld" and st and st.get(("slot", key[1]), ("b", entry)) != ("b", entry):
            return True
        if i.op == "call" and i.callee.k == "func" and key[0] == "fld" and "struct" in (key[2] or "") and ty is not None and len(key[3]) == 2:
            t = self.B.touches.get(i.callee.v)
            if t is not None and "all" not in t and (key[2], key[3][1]) not in t and ("*", ty) not in t:
                r = root(key)
                if all(self.F.insts[o.v.n].op == "alloca" if o.k == "inst" else o.k == "arg" and r[0] == "v" and not self.arg(r[1]) for o in [self.strip(i.ops[x[1]]) for x in t if x[0] == "p" and x[2] == ty]):
                    return True
        base = key[1] if key[0] == "fld" else key
        if base[0] == "v" and self.private(base[1]):
            if i.op == "call":
                return True
            return to is not None and (to[1] if to[0] == "fld" else to) != base
        if to is not None:
            tb = to[1] if to[0] == "fld" else to
            if tb[0] == "v" and self.private(tb[1]) and tb != base:
                return True
            if entry is not None and root(key)[0] == "a" and self.kept(entry):
                return True
        return False

    def kept(self, n):
        """a buffer stored nowhere but in objects made here"""
        if not hasattr(self, "_kept"):
            self._kept = {}
        if n not in self._kept:
            ok = True
            for i in self.F.insts:
                if i.op == "store" and i.ops[0].k == "inst" and i.ops[0].v.n == n:
                    d = self.strip(i.ops[1])
                    while d.k == "inst" and d.v.op in ("gep", "load", "bitcast"):
                        d = self.strip(d.v.ops[0])
                    ok = ok and d.k == "inst" and (self.private(d.v.n) or d.v.op == "call" and d.v.callee.k == "func" and d.v.callee.v in ("malloc", "calloc", "realloc"))
            self._kept[n] = ok
        return self._kept[n]

    def private(self, n):
        """an object made here, whose address stays here"""
        if not hasattr(self, "_priv"):
            self._priv = {}
            uses = {}
            for i in self.F.insts:
                for k, o in enumerate([x for x, _ in i.incoming] if i.op == "phi" else i.ops):
                    if o.k == "inst":
                        uses.setdefault(o.v.n, []).append((i, k))
            for i in self.F.insts:
                if i.op == "call" and i.callee.k == "func" and (i.callee.v in ("malloc", "calloc") or i.callee.v in self.B.fresh):
                    work, ok = [i], True
                    while work and ok:
                        x = work.pop()
                        for u, k in uses.get(x.n, ()):
                            if u.op == "gep" and k == 0 or u.op == "bitcast":
                                work.append(u)
                            elif not (u.op in ("load", "icmp") or u.op == "ret" or u.op == "store" and k == 1 or u.op == "phi" and all(w.op in ("ret", "icmp") for w, _ in uses.get(u.n, ()))):
                                ok = False
                    self._priv[i.n] = ok
        return self._priv.get(n, False)

    def fresh(self, v, st):
        """an entry of an array made here: no field of anything else"""
        v = self.strip(v)
        p = self.place(v, st) if v.k == "inst" and (v.v.op == "gep" and v.v.sty in ("i32", "i64", "ptr") and len(v.v.ops) == 2 or v.v.op == "load") else None
        if p is not None and p[0][0] == "b" and self.F.insts[p[0][1]].op == "call":
            return p[0][1]
        return None

    @staticmethod
    def merge(a, b, widen):
        out = {k: v for x in (a, b) for k, v in x.items() if k[0] == "mis"}
        for k, v in a.items():
            if k not in b:
                continue
            w = b[k]
            if v == w or k[0] == "av" and v.k == w.k and v.v == w.v:
                out[k] = v
            elif k[0] == "len":
                j = join(v, w)
                if widen and j != v:
                    j = None
                out[k] = j
        return out

    def setlen(self, st, p, new):
        """the text in the buffer now ends at offset + new at the latest"""
        if p is None:
            return
        b, off = p
        if isinstance(new, Lin) and off != Lin(0):
            new = new + off
        st[("len", b)] = new

    def held(self, v, st, d=0):
        """bound of the length of a text; atoms stand for texts of any length"""
        v = self.strip(v)
        if v.k == "str":
            return Lin(len(self.B.text(v)))
        if v.k == "inst" and v.v.op == "select":
            return join(self.held(v.v.ops[1], st), self.held(v.v.ops[2], st))
        if v.k == "inst" and v.v.op == "phi":
            p = self.place(v, st)
            if ("len", p[0]) in st and p[1] == Lin(0):
                return st[("len", p[0])]
            xs = [x for x, _ in v.v.incoming]
            if d < 6 and not any(self.F.dominates(v.v.block, q) for _, q in v.v.incoming):
                hs = [self.held(x, st, d + 1) for x in xs]
                if all(h is not None and h.const() for h in hs):
                    return Lin(max(h.c for h in hs))
                if any(h is not None and any(a[0] == "o" for a in h.t) for h in hs):
                    return Lin(0, {("o", v.v.n): 1})
        if v.k == "inst" and v.v.op == "load":
            t = self.strip(v.v.ops[0])
            while t.k == "inst" and t.v.op in ("gep", "bitcast"):
                t = self.strip(t.v.ops[0])
            if t.k == "global":
                def texts(x):
                    return sum([texts(y) for y in x], []) if isinstance(x, (list, tuple)) else [x]
                xs = texts(self.B.M.gdata.get(f"{self.F.src}:{t.v}") or [])
                xs = [x for x in xs if x.k == "str"]
                return Lin(max(len(self.B.text(x)) for x in xs)) if xs else Lin(0, {("o", v.v.n): 1})
            if t.k == "inst" and t.v.op == "alloca" and t is not self.strip(v.v.ops[0]):
                return Lin(0, {("o", v.v.n): 1})
        p = self.place(v, st)
        if p is None or p[0][0] == "p":
            bs = self.bases(v, st, set())
            if bs and None not in bs and ("a", "?") not in bs:
                cs = [self.cap(x, st) for x in bs]
                if all(c is not None and c.const() for c in cs):
                    return Lin(max(c.c for c in cs) - 1)
        if p is not None:
            c = self.cap(p[0], st)
            n = st.get(("len", p[0]), 0)
            if isinstance(n, Lin):
                n = n - p[1]
                return n
            if c is not None and p[0][0] == "b" and self.F.insts[p[0][1]].op == "call" and self.F.insts[p[0][1]].callee.v in ("strdup", "osl_util_strdup"):
                return c - 1
            if c is not None and c.const():
                return c - 1
        return Lin(0, {("len", self.key(v, st)): 1})

    def bases(self, v, st, seen):
        """the buffers a pointer may point into"""
        v = self.strip(v)
        if v.k == "null":
            return set()
        if v.k != "inst":
            return {None}
        i = v.v
        if i.n in seen:
            return set()
        seen.add(i.n)
        if i.op == "phi":
            return set().union(*[self.bases(x, st, seen) for x, _ in i.incoming])
        if i.op == "gep":
            if i.sty == "i8" or re.match(r"\[\d+ x i8\]", i.sty or ""):
                return self.bases(i.ops[0], st, seen)
            return {None}
        if i.op == "call":
            k = self.B.within.get(i.callee.v) if i.callee.k == "func" else None
            return self.bases(i.ops[k], st, seen) if k is not None else {("b", i.n)}
        if i.op == "alloca":
            return {("b", i.n)}
        return {None}

    def step(self, i, st, rep):
        if i.op == "load" and i.ty in ("ptr", "i32", "i64"):
            k = ("av", self.key(i.ops[0], st))
            self.same[i.n] = st.setdefault(k, Val("inst", i, i.ty))
            return
        if i.op == "store" and i.ops[0].ty != "i8" or i.op == "call" and not (i.callee.k == "func" and (i.callee.v in self.B.silent or i.callee.v in QUIET or i.callee.v.startswith("llvm."))):
            to = self.key(i.ops[1], st) if i.op == "store" else None
            ty = "ptr" if to is not None and i.ops[0].k == "null" else i.ops[0].ty if to is not None else None
            entry = self.fresh(i.ops[1], st) if i.op == "store" else None
            for x in [x for x in st if x[0] == "av"]:
                if self.spared(x[1], i, to, entry, st[x].ty, st) or to is not None and ty is not None and st[x].ty not in (ty, None):
                    continue
                del st[x]
            if i.op == "call" and i.callee.k == "func":
                for (t, k), v in self.B.fresh.get(i.callee.v, {}).items():
                    st[("av", ("fld", ("v", i.n), t, (0, k)))] = v
            if i.op == "store" and i.ops[0].k in ("inst", "arg", "int"):
                st[("av", self.key(i.ops[1], st))] = i.ops[0]
        if i.op == "store":
            val, dst = i.ops
            d = self.strip(dst)
            if d.k == "inst" and d.v.op == "alloca":
                n = d.v.n
                for k in ("cell", "off", "num", "paired", "mis"):
                    st.pop((k, n), None)
                for k in [k for k, v in st.items() if k[0] == "paired" and v == n]:
                    del st[k]
                    st.pop(("mis", k[1]), None)
                if val.ty == "ptr" or val.k == "null":
                    p = self.place(val, st)
                    if p is not None and p[0][0] == "b":
                        st[("cell", n)] = p[0]
                        st[("off", n)] = p[1]
                    elif val.k not in ("null",):
                        st[("cell", n)] = self.key(val, st)
                elif val.ty in ("i32", "i64"):
                    x = self.lin(val, st)
                    st[("num", n)] = x
                if not (d.v.sty == "i8" and val.ty == "i8"):
                    return
            vty = "ptr" if val.k == "null" else val.ty
            if vty in SIZES and vty != "i8" and d.k == "inst" and (d.v.op == "gep" and d.v.sty == vty and len(d.v.ops) == 2 or d.v.op == "load") and rep is not None:
                p = self.place(dst, st)
                if p is not None and p[0][0] != "a" and self.cap(p[0], st) is not None:
                    rep.write(self, i, p, Lin(SIZES[vty]), st, "an entry is stored")
                else:
                    rep.beyond(self, i, d, st)
            if vty == "ptr" and not (d.k == "inst" and d.v.op == "alloca"):
                p = self.place(val, st)
                to, entry = self.key(d, st), self.fresh(d, st)
                k = ("slot", ("ld", to))
                for x in [x for x in st if x[0] == "slot"]:
                    if not self.spared(x[1][1], i, to, entry):
                        del st[x]
                if p is not None and p[0][0] == "b" and p[1] == Lin(0):
                    st[k] = p[0]
            if val.ty == "i8":
                p = self.place(dst, st)
                if p is not None:
                    if rep is not None:
                        rep.write(self, i, p, Lin(1), st, "a character is stored")
                    if val.k == "int" and val.v == 0:
                        st[("len", p[0])] = p[1]
                    elif ("len", p[0]) in st:
                        st[("len", p[0])] = 0      # not known
            return
        if i.op != "call":
            return
        name = i.callee.v if i.callee.k == "func" else None
        if name == "malloc":
            self.made[i.n] = self.lin(i.ops[0], st)
        elif name == "calloc":
            a, b = self.lin(i.ops[0], st), self.lin(i.ops[1], st)
            self.made[i.n] = b * a.c if a.const() else a * b.c if b.const() else None
            st[("len", ("b", i.n))] = Lin(0)
        elif name == "realloc":
            self.made[i.n] = self.lin(i.ops[1], st)
            p = self.place(i.ops[0], st)
            if p is not None and ("len", p[0]) in st:
                st[("len", ("b", i.n))] = st[("len", p[0])]
        elif name in ("strdup", "osl_util_strdup"):
            h = self.held(i.ops[0], st)
            self.made[i.n] = None if h is None else h + 1
            st[("len", ("b", i.n))] = h
        elif name is not None and name.startswith("llvm.memset") or name == "memset":
            p = self.place(i.ops[0], st)
            if p is not None:
                n = self.lin(i.ops[2], st)
                if rep is not None:
                    rep.write(self, i, p, n, st, "memory is filled")
                if i.ops[1].k == "int" and i.ops[1].v == 0:
                    st[("len", p[0])] = p[1]
        elif name is not None and name.startswith(("llvm.memcpy", "llvm.memmove")) or name in ("memcpy", "memmove"):
            p = self.place(i.ops[0], st)
            if p is not None and self.cap(p[0], st) is not None:
                n = self.lin(i.ops[2], st)
                src = self.strip(i.ops[1])
                if rep is not None:
                    rep.write(self, i, p, n, st, "memory is copied")
                st[("len", p[0])] = n - 1 + p[1] if src.k in ("str", "global") else 0
        elif name in ("sprintf", "snprintf"):
            p = self.place(i.ops[0], st)
            f = i.ops[2 if name == "snprintf" else 1]
            n = self.formatted(f, i.ops[3 if name == "snprintf" else 2:], st)
            if name == "snprintf":
                m = self.lin(i.ops[1], st)
                if rep is not None:
                    rep.write(self, i, p, m, st, "text is formatted", size=True)
                if n is None or not self.positive(m - 1 - n):
                    n = m - 1
            elif rep is not None:
                rep.write(self, i, p, None if n is None else n + 1, st, "text is formatted")
            self.setlen(st, p, n)
        elif name == "vsnprintf":
            p = self.place(i.ops[0], st)
            m = self.lin(i.ops[1], st)
            if rep is not None:
                if p is not None and p[0][0] != "a" and self.cap(p[0], st) is not None:
                    rep.write(self, i, p, m, st, "text is formatted", size=True)
                elif i.ops[0].k != "null":
                    rep.room(self, i, m, st)
            if p is not None:
                st[("len", p[0])] = 0
        elif name in ("strcpy", "strncpy"):
            p = self.place(i.ops[0], st)
            if name == "strcpy":
                n = self.held(i.ops[1], st)
                if rep is not None:
                    rep.write(self, i, p, None if n is None else n + 1, st, "text is copied")
                self.setlen(st, p, n)
            else:
                m = self.lin(i.ops[2], st)
                if rep is not None:
                    rep.write(self, i, p, m, st, "text is copied", size=True)
                if p is not None:
                    st[("len", p[0])] = 0
        elif name in ("strcat", "strncat"):
            p = self.place(i.ops[0], st)
            n = self.held(i.ops[1], st)
            if name == "strncat":
                m = self.lin(i.ops[2], st)
                n = m if n is None or not self.positive(m - n) else n
            if p is not None and p[0][0] != "a":
                old = st.get(("len", p[0]), 0)
                if old == 0:
                    old = Lin(0, {("len", ("v", p[0][1])): 1})
                tot = None if old is None or n is None else old + n
                if rep is not None:
                    rep.write(self, i, (p[0], Lin(0)), None if tot is None else tot + 1, st, "text is appended")
                st[("len", p[0])] = tot
            elif rep is not None:
                rep.append(self, i, st)
        elif name == "fgets":
            p = self.place(i.ops[0], st)
            m = self.lin(i.ops[1], st)
            if rep is not None:
                rep.write(self, i, p, m, st, "a line is read", size=True)
            self.setlen(st, p, m - 1)
        elif name in ("__isoc99_sscanf", "sscanf", "__isoc99_fscanf", "fscanf"):
            if self.strip(i.ops[1]).k == "str":
                k = 2
                src = self.held(i.ops[0], st) if "sscanf" in name else None
                for x in formats(self.B.text(self.strip(i.ops[1]))):
                    if isinstance(x, str) or x[0] == "%":
                        continue
                    if x[1] == "*":
                        continue
                    if x[0] in ("s", "c"):
                        n = Lin(int(x[1])) if x[1] else src
                        p = self.place(i.ops[k], st)
                        if rep is not None and p is not None:
                            rep.write(self, i, p, None if n is None else n + (1 if x[0] == "s" else 0), st, "a word is read")
                        self.setlen(st, p, n)
                    else:
                        a = self.strip(i.ops[k])
                        if a.k == "inst" and a.v.op == "alloca":
                            st.pop(("num", a.v.n), None)
                    k += 1
        else:
            self.other(i, name, st, rep)

    def other(self, i, name, st, rep):
        defined = name in self.B.need
        for k, m in self.B.pairs.get(name, ()):
            a, b = self.strip(i.ops[k]), self.strip(i.ops[m])
            if rep is not None:
                rep.pair(self, i, name, a, b, st)
        if name is not None and name.startswith("llvm."):
            return
        for k, a in enumerate(i.ops):
            a = self.strip(a)
            if a.ty != "ptr" and a.k != "inst":
                continue
            if a.k == "inst" and a.v.op == "alloca":
                n = a.v.n
                if ("cell", n) in st or ("num", n) in st:
                    for x in ("cell", "off", "num", "paired"):
                        st.pop((x, n), None)
            p = self.place(a, st) if a.k in ("inst", "arg") and a.ty == "ptr" else None
            if p is not None:
                if defined and (k in self.B.need[name]) and rep is not None:
                    rep.write(self, i, p, self.given(self.B.need[name][k], i, st), st, f"{name} writes")
                if ("len", p[0]) in st and (not defined or k in self.B.writes.get(name, ())):
                    st[("len", p[0])] = self.B.longest.get((name, k), 0)
                elif defined and k in self.B.writes.get(name, ()):
                    st[("len", p[0])] = self.B.longest.get((name, k), 0)
        for x in [x for x in st if x[0] == "slot"]:
            if name not in self.B.silent and not self.spared(x[1][1], i, None, None, "ptr"):
                del st[x]
        for k, m in self.B.pairs.get(name, ()):
            a, b = self.strip(i.ops[k]), self.strip(i.ops[m])
            if a.k == "inst" and b.k == "inst" and a.v.op == "alloca" and b.v.op == "alloca":
                st[("paired", a.v.n)] = b.v.n

    def given(self, need, i, st):
        """what a callee writes, in terms of what it is given here"""
        if need is None:
            return None
        out = Lin(need.c)
        for a, c in need.t.items():
            if a[0] == "ia":
                x = self.lin(i.ops[a[1]], st)
            elif a[0] == "len" and a[1][0] == "a":
                x = self.held(i.ops[a[1][1]], st)
            else:
                x = None
            if x is None:
                return None
            out = out + x * c
        return out

    def formatted(self, f, args, st):
        f = self.strip(f)
        if f.k != "str":
            return None
        n, k = Lin(0), 0
        for x in formats(self.B.text(f)):
            if isinstance(x, str):
                n = n + len(x.encode())
                continue
            conv, width, prec, mod = x
            if conv == "%":
                n = n + 1
                continue
            w = 0
            if width == "*":
                w = self.lin(args[k], st)
                k += 1
                if not w.const():
                    return None
                w = abs(w.c)
            elif width:
                w = int(width)
            if prec == "*":
                pr = self.lin(args[k], st)
                k += 1
                prec = str(pr.c) if pr.const() else None
            if k >= len(args):
                return None
            if conv == "s":
                h = self.held(args[k], st)
                if prec is not None:
                    h = Lin(int(prec)) if h is None or not (h.const() and h.c < int(prec)) else h
                if h is None:
                    return None
                if w:
                    h = Lin(max(w, h.c), h.t)
                n = n + h
            elif conv in "di":
                n = n + max(w, 20 if mod in ("l", "ll", "z", "j", "q", "t") else 11, int(prec or 0) + 1)
            elif conv in "uxXo":
                n = n + max(w, 22 if mod in ("l", "ll", "z", "j", "q", "t") else 11, int(prec or 0) + 2)
            elif conv == "c":
                n = n + max(w, 1)
            elif conv == "p":
                n = n + max(w, 20)
            else:
                n = n + max(w, 400)
            k += 1
        return n
