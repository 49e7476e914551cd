"""Ownership typestate: what happens to one object on every path of a function.

An object is born at a call that hands it out (a memory request, a function of the library that returns something it
obtained, an out parameter filled), as a parameter, or as a pointer read from a structure.  Its typestate is followed along
the control-flow graph in the style of property simulation: states that agree on the typestate and on the names by which the
object is known (SSA values, local cells, fields) are merged, their branch facts intersected; states that differ are kept
apart.  Functions are summarised bottom-up by the outcomes for each parameter (kept, released, stored, returned), for the
content of pointer parameters, and by whether the result is an object that the caller has to release."""
from .ir import AnalysisBroken
from .modref import ModRef
from .engine import NORETURN
from .rules.common import FIELDS, S

REQUEST = {"malloc", "calloc", "realloc", "strdup", "__strdup", "strndup", "reallocarray", "aligned_alloc"}
RESAME = {"strcpy": 0, "strcat": 0, "strncpy": 0, "strncat": 0, "memcpy": 0, "memmove": 0, "memset": 0, "fgets": 0}
INNER = {"strchr": 0, "strrchr": 0, "strstr": 0, "strpbrk": 0, "memchr": 0, "strtok": 0}
SCAN = {"__isoc99_sscanf", "sscanf", "__isoc99_fscanf", "fscanf", "__gmp_sscanf"}
INT_INIT = {"osl_int_init", "osl_int_init_set", "osl_int_init_set_si", "osl_int_init_set_long", "osl_int_init_set_long_long"}
INT_CLEAR = {"osl_int_clear"}
CELL = "union.osl_int"
PRODUCED = ("ret", "out", "list", "field")
INF = float("inf")
CASTS = ("bitcast", "sext", "zext", "ptrtoint", "inttoptr", "freeze")


_MENTIONS = {}


def mentions(t):
    """the instructions a term speaks about"""
    got = _MENTIONS.get(t)
    if got is None:
        out = set()
        if t[:1] in (("v",), ("eq",)) and len(t) == 2:
            out.add(t[1])
        for y in t:
            if isinstance(y, tuple):
                out |= mentions(y)
        got = _MENTIONS[t] = frozenset(out)
    return got


class Sum:
    """what a function does to what it is given"""
    __slots__ = ("param", "content", "out", "fresh", "nulls", "none", "fields", "pops", "may")

    def __init__(self, n):
        self.param = [frozenset("K")] * n
        self.content = {}
        self.out = frozenset()
        self.fresh = False
        self.fields = frozenset()  # fields of the result that hold something it owns, always
        self.none = False        # answers nothing, always
        self.may = frozenset()   # fields that may hold something it owns
        self.pops = False        # answers what it took out of the variable it is given
        self.nulls = None        # paths that may answer nothing: for each, the parameters known missing on it (None: not computed)

    def key(self):
        return (tuple(self.param), tuple(sorted(self.content.items())), self.out, self.fresh, self.nulls, self.none, self.fields, self.pops, self.may)


class Owner:
    def __init__(self, M, mr=None):
        self.M = M
        self.mr = mr or ModRef(M)
        self.noret = self.stoppers()
        self.sum = {}
        self.info = {}
        self.done = {}
        names = [n for n, F in M.funcs.items() if not F.decl]
        for n in names:
            self.sum[n] = Sum(M.funcs[n].nparams)
        calls = {n: {t for i in M.funcs[n].insts if i.op == "call" for t in self.mr.targets(i)} for n in names}
        self.calls = calls
        callers = {}
        for n in names:
            for t in calls[n]:
                callers.setdefault(t, set()).add(n)
        order = self.postorder(names, calls)
        work, rounds = list(order), {}
        while work:
            n = work.pop(0)
            rounds[n] = rounds.get(n, 0) + 1
            if rounds[n] > 12:
                raise AnalysisBroken(f"ownership summaries do not stabilise at {n}")
            k = self.sum[n].key()
            self.summarise(n)
            if self.sum[n].key() != k:
                pos = {x: p for p, x in enumerate(order)}
                for c in sorted(callers.get(n, ()), key=lambda x: pos[x]):
                    if c not in work:
                        work.append(c)

    inside = None

    def postorder(self, names, calls):
        order, seen = [], set()
        for n0 in sorted(names):
            if n0 in seen:
                continue
            seen.add(n0)
            st = [(n0, iter(sorted(calls[n0])))]
            while st:
                x, it = st[-1]
                for y in it:
                    if y in calls and y not in seen:
                        seen.add(y)
                        st.append((y, iter(sorted(calls[y]))))
                        break
                else:
                    order.append(x)
                    st.pop()
        return order

    def stoppers(self):
        from .rules.allocfail import stoppers
        return stoppers(self.M, self.mr.targets)

    # ------------------------------------------------------------------ per function facts
    def fninfo(self, n):
        if n not in self.info:
            self.info[n] = FnInfo(self, self.M.funcs[n])
        return self.info[n]

    # ------------------------------------------------------------------ summaries
    def summarise(self, n):
        self.inside = {}
        F = self.M.funcs[n]
        s = self.sum[n]
        new = Sum(F.nparams)
        pt = self.M.ptypes.get(n) or []
        for k in range(F.nparams):
            ty = pt[k + 1] if k + 1 < len(pt) else "?"
            if F.params[k].ty != "ptr" or ty == "union.osl_int*" and n.startswith("osl_int_") and n != "osl_int_free":
                continue
            sim = Sim(self, F, ("param", k)).run()
            new.param[k] = frozenset(sim.outcomes) or frozenset("K")
            if ty.endswith("**"):
                sim = Sim(self, F, ("content", k)).run()
                new.content[k] = frozenset(sim.outcomes) or frozenset("K")
                new.pops = new.pops or sim.popped and not sim.other
        out, named, held, may = set(), {}, set(), set()
        self.done[n] = []
        for b in self.births(F):
            sim = Sim(self, F, b).run()
            self.done[n].append((b, sim))
            if not sim.without:
                held |= sim.cells
            may |= sim.cells
            for v in sim.returned:
                named.setdefault(v, set()).add(b)
            out |= sim.outs
        new.out = frozenset(out)
        apart = not any(sim.left & {"E", "O"} for _, sim in self.done[n])
        new.fresh = new.pops or self.is_fresh(F, named, apart)
        if new.fresh:
            new.fields = frozenset(held)
            new.may = frozenset(p for p in may if any(self.owns(t, p) for t in FIELDS))
            new.nulls = Sim(self, F, ("nothing", None)).run().nullpaths
            new.nulls = frozenset(new.nulls)
        rets = [b.insts[-1] for b in F.blocks if b.insts and b.insts[-1].op == "ret"]
        new.none = bool(rets) and all(r.ops and r.ops[0].k == "null" for r in rets)
        self.sum[n] = new

    def is_fresh(self, F, named, apart):
        if not named:
            return False
        rets = [b.insts[-1] for b in F.blocks if b.insts and b.insts[-1].op == "ret" and b.insts[-1].ops]
        seen, work, some = set(), [r.ops[0] for r in rets], False
        while work:
            v = work.pop()
            if v.k in ("null", "int"):
                continue
            if v.k != "inst":
                return False
            if v.v.n in seen:
                continue
            seen.add(v.v.n)
            if v.v.n in named:
                some = True
                if v.v.op not in ("phi", "select"):
                    continue
            if v.v.op == "phi":
                work += [x for x, _ in v.v.incoming]
            elif v.v.op == "select":
                work += v.v.ops[1:]
            elif v.v.op in CASTS:
                work.append(v.v.ops[0])
            elif v.v.op == "load" and v.v.ty == "ptr" and apart and v.v.n not in named and self.part(v.v.ops[0]):
                work.append(v.v.ops[0].v.ops[0])       # a part of it
            elif v.v.n not in named:
                return False
        return some

    def part(self, v):
        """the address of a field that owns what it points to"""
        if v.k != "inst" or v.v.op != "gep" or len(v.v.ops) != 3:
            return False
        t, ix = v.v.sty, v.v.ops[2]
        fs = self.M.fields.get(t, [])
        if not t or not t.startswith(S) or ix.k != "int" or ix.v >= len(fs) or t[len(S):] not in FIELDS:
            return False
        return FIELDS[t[len(S):]].get(fs[ix.v][0], "skip") not in ("val", "borrow", "skip")

    def owns(self, t, path, other=()):
        if len(path) != 1 or path[0][0] != S + t:
            return False
        ix = path[0][1]
        fs = self.M.fields.get(S + t, [])
        if ix[0] != "i" or ix[1] >= len(fs):
            return False
        k = FIELDS[t].get(fs[ix[1]][0], "skip")
        return k not in ("val", "borrow", "skip") + other

    def captured(self, i, k):
        """may what argument k holds be kept or answered by the call?"""
        for t in self.mr.targets(i):
            if any(r != "fresh" and r[0] == k and r[1] >= 1 for c in self.mr.C.get(t, {}).values() for r in c):
                return True
            if t in self.mr.R and any(r != "fresh" and r[0] == k and r[1] >= 1 for r in self.mr.R[t][0] | self.mr.R[t][1]):
                return True
        return False

    def births(self, F):
        """calls that hand out something this function has to care for"""
        for i in F.insts:
            if i.op != "call":
                continue
            if self.hands_out(i):
                yield ("ret", i)
                ts = self.mr.targets(i)
                if len(ts) == 1 and ts[0] in self.sum:
                    for p in sorted(self.sum[ts[0]].fields):
                        yield ("field", i, p)
                    for p in sorted(self.sum[ts[0]].may - self.sum[ts[0]].fields):
                        yield ("field", i, p, "may")
            for k in self.fills(i):
                yield ("out", i, k)
            for k, j in self.takes(i):
                yield ("list", i, k, j)

    def hands_out(self, i):
        ts = self.mr.targets(i)
        return bool(ts) and all(t in REQUEST or t in self.sum and (self.sum[t].fresh or self.sum[t].none) for t in ts) and any(t in REQUEST or self.sum[t].fresh for t in ts)

    def fills(self, i):
        ts = self.mr.targets(i)
        if len(ts) != 1 or ts[0] not in self.sum:
            return []
        if ts[0] in INT_INIT:
            return [1] if len(i.ops) > 1 and i.ops[1].k == "inst" and i.ops[1].v.op == "alloca" and i.ops[1].v.sty == CELL else []
        return sorted(self.sum[ts[0]].out)

    def takes(self, i):
        """(k, j): the call makes the object given as argument j part of the list whose head argument k points to"""
        ts = self.mr.targets(i)
        if len(ts) != 1 or ts[0] not in self.sum:
            return
        pt = self.M.ptypes.get(ts[0]) or []
        for k, c in self.mr.C.get(ts[0], {}).items():
            if k < len(i.ops) and k + 1 < len(pt) and pt[k + 1].endswith("**") and i.ops[k].k == "inst" and i.ops[k].v.op == "alloca":
                for j, d in sorted(x for x in c if x != "fresh"):
                    if j != k and d == 0 and j < len(i.ops) and j + 1 < len(pt) and pt[j + 1] == pt[k + 1][:-1] and "E" in self.sum[ts[0]].param[j]:
                        yield k, j

    def guts(self, i, k):
        """may the call release what argument k holds (and leave the argument itself)?"""
        return not self.mr.targets(i) or any(t in self.sum and self.releases_inside(t, k) for t in self.mr.targets(i))

    def releases_inside(self, t, k):
        key = (t, k)
        if key not in self.inside:
            self.inside[key] = False
            F = self.M.funcs[t]
            for i in F.insts:
                if i.op != "call":
                    continue
                for j, a in enumerate(i.ops):
                    d = self.depth(a, k, set())
                    if d and ("F" in self.effect(i, j) or "E" in self.effect(i, j)) or d is not None and self.guts(i, j):
                        self.inside[key] = True
                        break
        return self.inside[key]

    def depth(self, v, k, seen):
        """is the value reached from parameter k, and through a pointer read?"""
        if v.k == "arg":
            return False if v.v == k else None
        if v.k != "inst" or v.v.n in seen:
            return None
        i = v.v
        seen.add(i.n)
        if i.op in CASTS or i.op == "gep":
            return self.depth(i.ops[0], k, seen)
        if i.op == "load":
            return None if self.depth(i.ops[0], k, seen) is None else True
        vs = [x for x, _ in i.incoming] if i.op == "phi" else i.ops[1:] if i.op == "select" else []
        ds = [self.depth(x, k, seen) for x in vs]
        return True if True in ds else False if False in ds else None

    # what a call does to an object passed as argument k
    def effect(self, i, k):
        out = set()
        for t in self.mr.targets(i):
            if t == "free" or t in ("realloc", "reallocarray"):
                out.add("F" if k == 0 else "K")
            elif t in RESAME:
                out |= {"K", "R"} if k == RESAME[t] else {"K"}
            elif t in INNER:
                out |= {"K", "I"} if k == INNER[t] else {"K"}
            elif t in self.sum:
                out |= self.sum[t].param[k] if k < len(self.sum[t].param) else {"K"}
            else:
                out.add("K")
        if not self.mr.targets(i):
            out.add("E")
        return out

    def content_effect(self, i, k):
        out = set()
        for t in self.mr.targets(i):
            if t in INT_CLEAR and k == 1:
                out.add("F")
            elif t in self.sum and k in self.sum[t].content:
                out |= self.sum[t].content[k]
            elif t in self.sum and self.sum[t].param[k:k + 1] and "E" in self.sum[t].param[k]:
                out.add("E")
            else:
                out.add("K")
        if not self.mr.targets(i):
            out.add("E")
        return out

    def writes(self, i, k, top=False):
        """may the call change memory reached from argument k (None: any)?"""
        for t in self.mr.targets(i):
            if t in self.mr.W:
                for (p, d) in self.mr.W[t]:
                    if (k is None or p == k) and not (top and d):
                        return True
            elif t in SCAN and (k is None or k >= 1):
                return True
            elif t in ("llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64", "llvm.memset.p0.i64", "memcpy", "memmove", "memset") and (k is None or k == 0):
                return True
        return not self.mr.targets(i)

    def given(self, i, missing):
        """does the call certainly answer something (a request that is refused stops the program or is C10's)?"""
        for t in self.mr.targets(i):
            if t in REQUEST:
                continue
            if t not in self.sum or self.sum[t].nulls is None:
                return False
            for ps in self.sum[t].nulls:
                if not any(missing(k) is False for k in ps):
                    return False
        return True

    def deep(self, i):
        """the structure type whose nodes the call releases with all they own, and the argument"""
        ts = self.mr.targets(i)
        for t in ts:
            if t.startswith("osl_") and t.endswith("_free") and t[4:-5] in FIELDS:
                return t[4:-5]
        return None


class FnInfo:
    def __init__(self, O, F):
        self.F = F
        self.inloop = set()
        for h, body in F.loops().items():
            self.inloop |= {b for b in body}
        # local cells whose address goes nowhere but into accesses and calls
        self.esc = set()
        for i in F.insts:
            for j, o in enumerate(i.ops):
                if o.k == "inst":
                    b = o.v
                    while b.op == "gep" and b.ops[0].k == "inst":
                        b = b.ops[0].v
                    if b.op == "alloca" and (i.op == "store" and j == 0 or i.op in ("phi", "select", "ptrtoint", "ret")):
                        self.esc.add(b.n)
        self.liveness()
        # roots from which elements are read and handed on (released in a loop, moved elsewhere)
        self.spread = set()
        use = {}
        for i in F.insts:
            ops = [v for v, _ in i.incoming] if i.op == "phi" else i.ops
            for o in ops:
                if o.k == "inst":
                    use.setdefault(o.v.n, []).append(i)
        self.use = use

    def liveness(self):
        """SSA values whose own name is still used behind the entry of a block"""
        F = self.F
        gen, kill = {}, {}
        for b in F.blocks:
            g, k = set(), set()
            for i in b.insts:
                if i.op != "phi":
                    for o in list(i.ops) + ([i.callee] if i.callee is not None else []):
                        if o is not None and o.k == "inst" and o.v.n not in k:
                            g.add(o.v.n)
                k.add(i.n)
            gen[b], kill[b] = g, k
        live = {b: set() for b in F.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(F.rpo()):
                out = set()
                for s in b.succ:
                    out |= live[s]
                    for i in s.insts:
                        if i.op != "phi":
                            break
                        out -= {i.n}
                    for i in s.insts:
                        if i.op != "phi":
                            break
                        for v, p in i.incoming:
                            if p is b and v.k == "inst":
                                out.add(v.v.n)
                new = gen[b] | out - kill[b]
                if new != live[b]:
                    live[b] = new
                    ch = True
        self.live = live

    def handed(self, root, path=None):
        """is anything read from this block (from this field of it) passed to a call or stored?"""
        F = self.F
        for i in F.insts:
            if i.op != "load" or i.ty != "ptr":
                continue
            b = i.ops[0]
            if path is not None:
                g = b.v if b.k == "inst" and b.v.op == "gep" else None
                if g is None and path[0][1][1] != 0 or g is not None and g.sty == path[0][0] and len(g.ops) == 3 and g.ops[2].k == "int" and g.ops[2].v != path[0][1][1]:
                    continue           # another field
            while b.k == "inst" and b.v.op in ("gep", "bitcast"):
                b = b.v.ops[0]
            if path is not None and b.k == "inst" and b.v.op == "load":
                x = b.v.ops[0]
                while x.k == "inst" and x.v.op in ("gep", "bitcast"):
                    x = x.v.ops[0]
                if x.k == "inst" and x.v.n == root:
                    continue           # something held by what it holds
            if b.k == "inst" and self.same(b.v, root):
                for u in self.use.get(i.n, ()):
                    if u.op in ("call", "store", "phi", "ret"):
                        return True
        return False

    def same(self, v, root, seen=None):
        if v.n == root:
            return True
        seen = seen or set()
        if v.n in seen:
            return False
        seen.add(v.n)
        if v.op == "phi":
            return any(x.k == "inst" and self.same(x.v, root, seen) for x, _ in v.incoming)
        if v.op == "load":
            return True          # through memory: not followed
        return False


class Sim:
    LIMIT = 400

    def __init__(self, O, F, birth, report=None):
        self.O, self.F, self.birth, self.report = O, F, birth, report
        self.info = O.fninfo(F.name)
        self.outcomes, self.returned, self.outs = set(), set(), set()
        self.found = {}
        self.aka = set()
        self.cells, self.without = set(), False
        self.left = set()
        self.popped, self.other = False, False

    # ------------------------------------------------------------------ names of values
    def canon(self, f, v, d=0):
        if v.k == "int":
            return ("i", v.v)
        if v.k in ("null", "undef"):
            return ("i", 0)
        if v.k == "arg":
            return ("a", v.v)
        if v.k == "inst":
            e = f.get(("eq", v.v.n))
            if e is not None:
                return e
            i = v.v
            if i.op in CASTS:
                return self.canon(f, i.ops[0], d + 1)
            if i.op == "gep":
                r, p = self.addr(f, v)
                return ("p", r, p) if p else r
            return ("v", i.n)
        if v.k in ("global", "func", "str"):
            return (v.k[0] + "k", str(v.v))
        if v.k == "cexpr":
            return ("x", repr(v.v))
        return ("o", repr(v.v))

    def addr(self, f, v):
        """(root, path) of an address"""
        if v.k == "inst" and v.v.op == "gep":
            i = v.v
            r, p = self.addr(f, i.ops[0])
            ix = i.ops[1:]
            first = self.canon(f, ix[0])
            if first != ("i", 0):
                p = self.step(p, ("[]", i.sty, first))
            for o in ix[1:]:
                c = self.canon(f, o)
                p = p + ((i.sty, c),) if i.sty.startswith(("struct.", "union.", "%")) else self.step(p, ("[]", i.sty, c)) if c != ("i", 0) else p
            return r, p
        c = self.canon(f, v)
        if c[0] == "p":
            return c[1], c[2]
        return c, ()

    @staticmethod
    def step(p, e):
        return p + (e,)

    # ------------------------------------------------------------------ run
    def run(self):
        F = self.F
        kind = self.birth[0]
        self.ptrs = [k for k in range(F.nparams) if F.params[k].ty == "ptr"]
        self.nullpaths = set()
        start = ("N", frozenset(), ())
        f0 = {}
        if kind == "param":
            start = ("B", frozenset([("a", self.birth[1])]), ())
            f0 = {}
        elif kind == "content":
            f0 = {("iv", ("a", self.birth[1])): (-INF, INF, frozenset([0]))}
            start = ("B", frozenset([("c", ("a", self.birth[1]), ())]), self.mode(f0))
        self.at = {F.blocks[0]: {start: f0}}
        work = [(F.blocks[0], start)]
        queued = set(work)
        n = 0
        order = {b: k for k, b in enumerate(F.rpo())}
        while work:
            n += 1
            if n > 8000:
                self.note("undecided", None, None, "too many states")
                break
            work.sort(key=lambda w: order[w[0]], reverse=True)
            b, k = work.pop()
            queued.discard((b, k))
            for nb, nk, nf in self.block(b, k, dict(self.at[b][k])):
                cur = self.at.setdefault(nb, {})
                if nk in cur:
                    old = cur[nk]
                    m = self.merge(old, nf)
                    if m == old:
                        continue
                    cur[nk] = m
                else:
                    if len(cur) > self.LIMIT:
                        self.note("undecided", None, None, "too many states")
                        continue
                    cur[nk] = nf
                if (nb, nk) not in queued:
                    queued.add((nb, nk))
                    work.append((nb, nk))
        return self

    @staticmethod
    def merge(a, b):
        out = {}
        for k, v in a.items():
            w = b.get(k)
            if w is None:
                continue
            if v == w:
                out[k] = v
            elif k[0] == "iv":
                lo, hi = min(v[0], w[0]), max(v[1], w[1])
                ne = v[2] & w[2]
                if lo < v[0]:
                    lo = -INF
                if hi > v[1]:
                    hi = INF
                if (lo, hi) != (-INF, INF) or ne:
                    out[k] = (lo, hi, ne)
            elif k[0] == "rel":
                r = v | w
                if len(r) < 3:
                    out[k] = r
        return out

    def note(self, what, line, rline, msg):
        self.found.setdefault((what, line), (rline, msg))

    # ------------------------------------------------------------------ facts
    @staticmethod
    def kill(f, n, st):
        """instruction n is executed again: what was known about its former value is gone"""
        for k in [k for k, v in f.items() if n in mentions(k) or isinstance(v, tuple) and n in mentions(v)]:
            del f[k]

    def isobj(self, al, c):
        return c in al

    def inner(self, f, al, c):
        """a pointer into the object"""
        return c[0] == "p" and c[1] in al

    # ------------------------------------------------------------------ one block
    def block(self, b, key, f):
        """yields (successor, key, facts)"""
        pend = [(0, key, f)]
        out = []
        while pend:
            pos, (st, al, _), f = pend.pop()
            dead = False
            al = set(al)
            while pos < len(b.insts):
                i = b.insts[pos]
                pos += 1
                if i.op == "phi":
                    continue          # done on the edge
                if b in self.info.inloop and i.op not in ("store", "br", "switch", "ret", "unreachable"):
                    self.kill(f, i.n, st)
                    al = {x for x in al if not self.names(x, i.n)}
                if i.op == "call":
                    r = self.call(i, st, al, f)
                    if r is None:
                        dead = True
                        break
                    (st, al), more = r[0], r[1:]
                    for st2, al2 in more:
                        pend.append((pos, (st2, frozenset(al2), ()), dict(f)))
                elif i.op == "load":
                    st, al = self.load(i, st, al, f)
                elif i.op == "store":
                    st, al = self.store(i, st, al, f)
                elif i.op == "ret":
                    self.ret(i, st, al, f)
                    dead = True
                    break
                elif i.op == "unreachable":
                    dead = True
                    break
                elif i.op == "select":
                    for o in i.ops[1:]:
                        c = self.canon(f, o)
                        if c in al:
                            al.add(("v", i.n))
                elif i.op in ("add", "sub", "mul"):
                    c = self.fold(f, i)
                    if c is not None:
                        f[("eq", i.n)] = c
                elif i.op in ("icmp",):
                    t = self.truth(f, st, al, ("inst", i))
                    if t is not None:
                        f[("eq", i.n)] = ("i", int(t))
            if dead:
                continue
            t = b.insts[-1]
            if t.op == "br" and len(t.succ) == 2 and t.ops:
                for taken, nb in ((True, t.succ[0]), (False, t.succ[1])):
                    nf = dict(f)
                    self.also = set()
                    if self.assume(nf, st, al, t.ops[0], taken):
                        out.append(self.edge(b, nb, st, al | self.also, nf))
            elif t.op == "switch":
                c = self.canon(f, t.ops[0])
                vals = [v for v, _ in t.cases if v is not None]
                for v, nb in t.cases:
                    nf = dict(f)
                    if v is None:
                        ok = True
                        for w in vals:
                            ok = ok and self.cmp(nf, "ne", c, ("i", w))
                    else:
                        ok = self.cmp(nf, "eq", c, ("i", v))
                    if ok:
                        out.append(self.edge(b, nb, st, al, nf))
            else:
                for nb in b.succ:
                    out.append(self.edge(b, nb, st, al, dict(f)))
        return out

    @staticmethod
    def names(x, n):
        return n in mentions(x)

    def edge(self, b, nb, st, al, f):
        new = []
        for i in nb.insts:
            if i.op != "phi":
                break
            v = next(v for v, p in i.incoming if p is b)
            c = self.canon(f, v)
            new.append((i, c, c in al or c[0] == "p" and c[1] in al and ("in",)))
        old = al = set(al)
        if nb in self.info.inloop:
            for i, c, o in new:
                self.kill(f, i.n, st)
                al = {x for x in al if not self.names(x, i.n)}
        ids = {("v", i.n) for i, _, _ in new}
        for i, c, o in new:
            if o is True:
                al.add(("v", i.n))
            elif o:
                al.add(("p", ("v", i.n)))
            if ("p", c) in al:
                al.add(("p", ("v", i.n)))
            iv = f.get(("iv", c))
            if c[0] == "i":
                iv = (c[1], c[1], frozenset())
            elif c[0] == "p" or c in old or ("given", c) in f or c[0] == "v" and self.F.insts[c[1]].op == "alloca":
                iv = (-INF, INF, frozenset([0]))
            if iv is not None:
                f[("iv", ("v", i.n))] = iv
            if (self.root(c), "r") in old:
                al.add((("v", i.n), "r"))
            if ("c", c, ()) in old:
                al.add(("c", ("v", i.n), ()))
            if c[0] == "i" or not any(self.names(c, x[1]) for x in ids) and c[0] in ("v", "a", "gk"):
                if not (c in al):
                    f[("eq", i.n)] = c
        self.aka |= {x[1] for x in al if x[0] == "v"} if st == "L" or st[0] == "H" else set()
        phis = {i.n for i, _, _ in new}
        live = self.info.live[nb] | phis
        for k, v in f.items():
            if k[0] == "cell" or k[0] == "eq" and k[1] in live:
                v = v[1] if v[0] == "p" else v
                if v[0] == "v":
                    live.add(v[1])
        keep = set()
        for x in al:
            r = x[1] if x[0] in ("p", "c", "d", "s") else x[0] if x[1] == "r" else x
            if r[0] == "v" and r[1] not in live and not (self.F.insts[r[1]].op == "alloca"):
                continue
            keep.add(x)
        return nb, (st, frozenset(keep), self.mode(f)), f

    @staticmethod
    def root(c):
        return c[1] if c[0] == "p" else c

    def mode(self, f):
        """what is known about the parameters: states that differ in it are kept apart"""
        out = []
        for k in self.ptrs:
            v = f.get(("iv", ("a", k)))
            if v is not None:
                if v[0] == v[1] == 0:
                    out.append((k, True))
                elif 0 in v[2] or v[0] > 0 or v[1] < 0:
                    out.append((k, False))
        return tuple(out)

    def fold(self, f, i):
        a, c = self.canon(f, i.ops[0]), self.canon(f, i.ops[1])
        if a[0] == "i" and c[0] == "i":
            return ("i", a[1] + c[1] if i.op == "add" else a[1] - c[1] if i.op == "sub" else a[1] * c[1])
        return None

    # ------------------------------------------------------------------ conditions
    def truth(self, f, st, al, v):
        i = v[1]
        a, c = self.canon(f, i.ops[0]), self.canon(f, i.ops[1])
        return self.known(f, st, al, i.pred, a, c)

    def known(self, f, st, al, pred, a, c):
        if a[0] == "i" and c[0] == "i":
            x, y = a[1], c[1]
            return {"eq": x == y, "ne": x != y}.get(pred, None) if pred in ("eq", "ne") else \
                {"slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y, "ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y}[pred] if x >= 0 and y >= 0 or pred[0] == "s" else None
        if pred in ("eq", "ne"):
            if a == c:
                return pred == "eq"
            oa = a in al or a[0] == "p"
            oc = c in al or c[0] == "p"
            if oa and c == ("i", 0) or oc and a == ("i", 0):
                return pred == "ne"
            if a in al and c in al:
                return pred == "eq"
            if st == "L" and (a in al and c[0] in ("a", "gk") or c in al and a[0] in ("a", "gk")):
                return pred == "ne"
            for x, y in ((a, c), (c, a)):
                if y == ("i", 0) and (x[0] == "p" or x[0] == "v" and ("given", x) in f):
                    return pred == "ne"
        g = dict(f)
        if not self.cmp(g, pred, a, c):
            return False
        g = dict(f)
        if not self.cmp(g, self.NEG[pred], a, c):
            return True
        return None

    NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
    SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}
    REL = {"eq": "=", "ne": "<>", "slt": "<", "sle": "<=", "sgt": ">", "sge": ">="}

    def cmp(self, f, pred, a, c):
        """add the fact; False when it contradicts what is known"""
        if a[0] == "i" and c[0] == "i":
            t = self.known({}, None, (), pred, a, c)
            return t is not False
        if a[0] == "i":
            a, c, pred = c, a, self.SWAP[pred]
        if c[0] == "i":
            n = c[1]
            lo, hi, ne = f.get(("iv", a), (-INF, INF, frozenset()))
            if pred == "eq":
                lo, hi = max(lo, n), min(hi, n)
            elif pred == "ne":
                ne = ne | {n}
            elif pred == "slt":
                hi = min(hi, n - 1)
            elif pred == "sle":
                hi = min(hi, n)
            elif pred == "sgt":
                lo = max(lo, n + 1)
            elif pred == "sge":
                lo = max(lo, n)
            elif pred == "ugt" and n == 0:
                ne = ne | {0}
            elif pred in ("ule",) and n == 0 or pred == "ult" and n == 1:
                lo, hi = max(lo, 0), min(hi, 0)
            while lo in ne:
                lo += 1
            while hi in ne:
                hi -= 1
            if lo > hi:
                return False
            f[("iv", a)] = (lo, hi, ne)
            return True
        if pred[0] == "u":
            k = ("rel", "u", *sorted((a, c), key=repr))
            pred = "s" + pred[1:]
        else:
            k = ("rel", "s", *sorted((a, c), key=repr))
        if k[2] != a:
            pred = self.SWAP[pred]
        r = f.get(k, frozenset("<=>")) & frozenset(self.REL[pred])
        if a == c:
            r = r & frozenset("=")
        if not r:
            return False
        f[k] = r
        return True

    def assume(self, f, st, al, cond, taken):
        if cond.k == "int":
            return bool(cond.v) == taken
        c = self.canon(f, cond)
        if c[0] == "i":
            return bool(c[1] & 1) == taken
        if cond.k == "inst":
            i = cond.v
            if i.op == "icmp":
                pred = i.pred if taken else self.NEG[i.pred]
                a, b = self.canon(f, i.ops[0]), self.canon(f, i.ops[1])
                # a truth value compared with a constant
                if self.known(f, st, al, pred, a, b) is False:
                    return False
                # a condition kept in a variable
                o = i.ops[0]
                while o.k == "inst" and o.v.op in CASTS:
                    o = o.v.ops[0]
                if o.k == "inst" and o.v.op == "icmp" and b == ("i", 0) and pred in ("eq", "ne"):
                    return self.assume(f, st, al, o, pred == "ne")
                if pred == "eq" and self.birth[0] == "load" and st == "B" and i.ops[0].ty == "ptr" and (a in al) != (b in al):
                    self.also = {a, b}
                return self.cmp(f, pred, a, b)
            if i.op == "xor" and i.ops[1].k == "int":
                return self.assume(f, st, al, i.ops[0], not taken)
            if i.op in ("trunc",) + CASTS:
                return self.assume(f, st, al, i.ops[0], taken)
            if i.op == "phi":
                f[("eq", i.n)] = ("i", int(taken))
        return True

    # ------------------------------------------------------------------ memory
    def forget(self, f, st, al, r, p, ty, exact=None):
        """a store to (r, p): cells that may be the same are forgotten; returns (status, aliases)"""
        for k in [k for k in f if k[0] == "cell" and self.may(k[1], k[2], k[3], r, p, ty)]:
            del f[k]
        keep, lost = set(), False
        for x in al:
            if self.birth[0] == "content" and x == ("c", ("a", self.birth[1]), ()) and x[1] != r and r[0] != "a":
                keep.add(x)          # the caller's variable is reached through the parameter only
                continue
            if x[0] == "d" and x[1] == r and x[2] == p:
                continue
            if x[0] == "s" and self.may(x[1], x[2], "ptr", r, p, ty):
                continue
            if x[0] == "c" and ("p", r) not in al and (r, "r") not in al and self.may(x[1], x[2], "ptr", r, p, ty):
                if not (x[1] == r and x[2] == p):
                    lost = True
                continue
            keep.add(x)
        if lost and st in ("L", "B"):
            st = "E"
        return st, keep

    def local(self, r):
        return r[0] == "v" and self.F.insts[r[1]].op == "alloca"

    def may(self, r1, p1, t1, r2, p2, t2):
        if t1 != t2:
            return False
        if r1 != r2:
            if self.local(r1) and r1[1] not in self.info.esc or self.local(r2) and r2[1] not in self.info.esc:
                return False
            if r1[0] == "gk" and r2[0] == "gk":
                return False
            if r1[0] == "a" and self.made(r2) or r2[0] == "a" and self.made(r1):
                return False         # it did not exist yet when the parameter was passed
            if p1 and p2:
                a, b = p1[-1], p2[-1]
                if a[0] != "[]" and b[0] != "[]" and a != b:
                    return False
                if (a[0] == "[]") != (b[0] == "[]"):
                    return False
            elif bool(p1) != bool(p2):
                q = (p1 or p2)[-1]
                if q[0] != "[]":
                    return False
            return True
        for a, b in zip(p1, p2):
            if a == b:
                continue
            if a[0] != "[]" and b[0] != "[]":
                return False
            if a[0] == "[]" and b[0] == "[]" and a[2][0] == "i" and b[2][0] == "i":
                return False
            return True
        if len(p1) != len(p2):
            rest = p1[len(p2):] or p2[len(p1):]
            return any(e[0] == "[]" for e in rest) and not any(e[0] != "[]" for e in rest)
        return True

    def touch(self, i, st, al, v, f, how):
        """the object is used"""
        if st != "F":
            return
        c = self.canon(f, v)
        if c in al or c[0] == "p" and c[1] in al or ("p", c) in al or c[0] == "p" and ("p", c[1]) in al:
            self.note("used", i.line, self.freed_at(f), how)

    def freed_at(self, f):
        return f.get(("at", "free"), (None, None))[1]

    def load(self, i, st, al, f):
        r, p = self.addr(f, i.ops[0])
        self.touch(i, st, al, i.ops[0], f, "read through")
        self.there(f, r)
        cell = ("c", r, p)
        if ("d", r, p) in al:
            al.add(("p", ("v", i.n)))
        born = self.birth[0] == "load" and self.birth[1] is i
        if cell in al and self.birth[-1] == "may" and st[0] == "H":
            st = "E"                   # looked at: what it decides is not followed
        if cell in al:
            al.add(("v", i.n))
        else:
            k = ("cell", r, p, i.ty)
            if k in f:
                if f[k] in al:
                    al.add(("v", i.n))
                f[("eq", i.n)] = f[k]
            else:
                f[k] = ("v", i.n)
        if self.birth[0] == "content" and i.ty == "ptr" and cell not in al and (r in al or ("p", r) in al or (r, "r") in al):
            al |= {(("v", i.n), "r"), (f.get(("eq", i.n), ("v", i.n)), "r")}
        if born and st in ("N", "M"):
            st = "B"
            al |= {("v", i.n), cell}
            f.pop(("eq", i.n), None)
        return st, al

    def there(self, f, r):
        """an address accessed is not missing"""
        if r[0] == "a" or r[0] == "v" and self.F.insts[r[1]].op != "alloca":
            lo, hi, ne = f.get(("iv", r), (-INF, INF, frozenset()))
            if lo <= 0 <= hi and 0 not in ne:
                f[("iv", r)] = (lo, hi, ne | {0})

    def store(self, i, st, al, f):
        val, dst = i.ops[0], i.ops[1]
        r, p = self.addr(f, dst)
        self.touch(i, st, al, dst, f, "written through")
        c = self.canon(f, val)
        ty = val.ty if val.ty else "ptr"
        self.there(f, r)
        gone = ("c", r, p) in al
        st, al = self.forget(f, st, al, r, p, ty)
        if ty == "ptr" and (c in al):
            if st in ("L", "B") or st[0] == "H":
                if self.local(r):
                    al.add(("c", r, p))
                    if r[1] in self.info.esc:
                        st = "E"
                elif self.fresh_root(r):
                    al.add(("c", r, p))
                    st = "H" + str(r[1])
                elif self.birth[0] == "content" and r == ("a", self.birth[1]) and p == ():
                    al.add(("c", r, p))
                elif r[0] == "a" and p == () and self.birth[0] in PRODUCED:
                    al.add(("c", r, p))
                    st = "O%d" % r[1]
                else:
                    st = "E"
                    if self.birth[0] == "field" and ("c", ("v", self.birth[1].n), self.birth[2]) in al and self.outside(r):
                        al.add(("s", r, p))        # and still held by what it came with
            elif st == "F":
                al.add(("c", r, p))
            elif st == "E" and self.birth[0] == "field" and ("c", ("v", self.birth[1].n), self.birth[2]) in al and self.outside(r):
                al.add(("s", r, p))
        elif ty == "ptr" and (c[0] == "p" and (c[1] in al or ("p", c[1]) in al) or ("p", c) in al) and st in ("L", "B"):
            if self.local(r) and r[1] not in self.info.esc or r == ("a", self.birth[1]) and p == () and self.birth[0] == "content":
                al.add(("d", r, p))        # a cursor
            else:
                st = "E"
        elif gone and st == "B" and self.birth[0] == "load" and any(self.owned(t, p, ("link",)) for t in FIELDS) and self.outside(r):
            st = "L"                   # taken out of the structure that owned it
        elif gone and st[0] == "H" and st == "H%s" % r[1] and not any(x[0] == "c" and x[1] == r for x in al):
            st = "B" if self.birth[0] == "load" else "L"       # its place is taken by something else
        if c[0] in ("i", "a", "v", "gk", "sk", "fk"):
            f[("cell", r, p, ty)] = c
        return st, al

    def made(self, r):
        if r[0] != "v" or self.F.insts[r[1]].op != "call":
            return False
        ts = self.O.mr.targets(self.F.insts[r[1]])
        return bool(ts) and all(t in REQUEST or t in self.O.sum and self.O.sum[t].fresh and not self.O.sum[t].pops for t in ts)

    def fresh_root(self, r):
        return r[0] == "v" and self.F.insts[r[1]].op == "call" and self.O.hands_out(self.F.insts[r[1]])

    # ------------------------------------------------------------------ calls
    def call(self, i, st, al, f):
        """None: does not return; otherwise list of (status, aliases)"""
        O = self.O
        ts = O.mr.targets(i)
        if ts and all(t in O.noret for t in ts):
            return None
        extra = []
        name = ts[0] if ts else "?"
        if self.birth[0] == "list" and self.birth[1] is i:
            was = f.get(("cell", self.canon(f, i.ops[self.birth[2]]), (), "ptr"))
        cs = [self.canon(f, a) for a in i.ops]
        st0 = st
        result_alias = False
        if name.startswith("llvm.lifetime") or name.startswith("llvm.stack"):
            return [(st, al)]
        # the object itself
        for k, (a, c) in enumerate(zip(i.ops, cs)):
            if c in al:
                ef = O.effect(i, k)
                if st == "F":
                    if ef == {"F"}:
                        self.note("twice", i.line, self.freed_at(f), name)
                    else:
                        self.note("used", i.line, self.freed_at(f), "passed to " + name)
                elif ef == {"F"}:
                    st = "F"
                    f[("at", "free")] = ("line", i.line)
                    self.freed = True
                elif "R" in ef and ef <= {"R", "K"}:
                    result_alias = True
                elif ef == {"K"}:
                    pass
                elif ef == {"K", "I"}:
                    result_alias = "in"
                elif st not in ("N", "M"):
                    st = "E"
            elif st == "F" and (c[0] == "p" and c[1] in al or ("p", c) in al):
                self.note("used", i.line, self.freed_at(f), "passed to " + name)
            elif (c[0] == "p" and c[1] in al or ("p", c) in al) and st in ("L", "B"):
                if "E" in O.effect(i, k):
                    st = "E"
                elif {"R", "I"} & O.effect(i, k):
                    result_alias = result_alias or "in"
        # kept, and still held by something that goes
        for x in [x for x in al if x[0] == "s"] if st == "E" else ():
            h = ("v", self.birth[1].n)
            k = cs.index(h) if h in cs else None
            if k is not None and ("c", h, self.birth[2]) in al and O.deep(i) and O.effect(i, k) == {"F"} and self.owned(O.deep(i), self.birth[2]):
                self.note("shared", i.line, i.line, name)
            elif O.writes(i, None):
                al = al - {x}
        if st == "E" and self.birth[0] == "field":
            h = ("v", self.birth[1].n)
            if any(c == h or c[0] == "p" and c[1] == h for k, c in enumerate(cs) if O.writes(i, k) or O.effect(i, k) != {"K"}):
                al = al - {("c", h, self.birth[2])}
        # what it is held in
        if st == st0 and st not in ("N", "M", "E"):
            for k, c in enumerate(cs):
                r, p = (c[1], c[2]) if c[0] == "p" else (c, ())
                cells = [x for x in al if x[0] == "c" and x[1] == r and x[2][:len(p)] == p]
                if not cells:
                    continue
                exact = [x for x in cells if x[2] == p]
                ptrarg = i.ops[k]
                if exact and self.is_cell(i, k, r):
                    ef = O.content_effect(i, k)
                    fill = k in O.fills(i)
                    if "F" in ef and fill and ef <= {"K", "F"}:
                        # given another place, the old names are stale
                        old = {x for x in al if x not in exact}
                        if st in ("L", "B") or st[0] in "HO":
                            if old or self.birth[0] == "content":
                                extra.append(("F", old))
                            al = set(exact)
                    elif ef == {"F"}:
                        if st == "F":
                            self.note("twice", i.line, self.freed_at(f), name)
                        st = "F"
                        f[("at", "free")] = ("line", i.line)
                        if name not in INT_CLEAR:
                            al = {x for x in al if x not in exact}
                    elif ef == {"K"}:
                        if fill:
                            al = {x for x in al if x not in exact}
                        elif O.writes(i, k):
                            al |= {("d", x[1], x[2]) for x in exact}
                    elif st in ("L", "B"):
                        st = "E"
                elif not exact or not self.is_cell(i, k, r):
                    whole = O.effect(i, k)
                    if whole != {"F"} and not self.local(r) and O.captured(i, k) and (st in ("L", "B") or st[0] == "H"):
                        st = "E"
                        continue
                    t = O.deep(i)
                    if whole == {"F"} and p == () and t:
                        for x in cells:
                            if self.owned(t, x[2]):
                                if st == "F":
                                    pass
                                elif st != "E":
                                    st = "F"
                                    f[("at", "free")] = ("line", i.line)
                        al = {x for x in al if x not in cells}
                    elif whole == {"F"} and p == ():
                        al = {x for x in al if x not in cells}
                        if st.startswith("H") and st == "H" + str(r[1]):
                            plain = len(cells) == 1 and len(cells[0][2]) == 1 and cells[0][2][0][0].startswith("struct") and cells[0][2][0][1][0] == "i"
                            st = "E" if not all(x in REQUEST or x == "free" for x in ts) or self.info.handed(r[1], cells[0][2] if plain else None) else "L" if self.birth[0] in PRODUCED else "B"
                    elif O.writes(i, k, self.birth[0] == "field" and p == () and all(len(x[2]) == 1 for x in cells) and not O.guts(i, k)) and not self.local(r):
                        if st in ("L", "B") and whole != {"K"}:
                            st = "E"
                        al = {x for x in al if x not in cells}
                        if st == "L" or st == "B":
                            st = "E"
        # memory known
        if O.writes(i, None):
            if any(t in O.mr.W for t in ts) or not ts:
                for k in [k for k in f if k[0] == "cell" and not (self.local(k[1]) and k[1][1] not in self.info.esc)]:
                    del f[k]
                if st in ("L", "B"):
                    for x in [x for x in al if x[0] == "c" and not self.local(x[1]) and not self.passed(x[1], cs)]:
                        # held elsewhere: another function may have replaced it
                        pass
            for k2, c in enumerate(cs):
                r, p = (c[1], c[2]) if c[0] == "p" else (c, ())
                if self.local(r) and O.writes(i, k2):
                    for k in [k for k in f if k[0] == "cell" and k[1] == r]:
                        del f[k]
        # results
        if O.hands_out(i) and O.given(i, lambda k: self.missing(f, st, al, cs[k]) if k < len(cs) else None):
            f[("given", ("v", i.n))] = True
        b = self.birth
        if b[0] == "ret" and b[1] is i and st in ("N", "M"):
            st2, al2 = "L", {("v", i.n)}
            extra.append(("M", set()))
            return [(st2, al2)] + extra
        if b[0] == "field" and b[1] is i and st in ("N", "M"):
            return [("H%d" % i.n, {("c", ("v", i.n), b[2])}), ("M", set())] + extra
        if b[0] == "out" and b[1] is i and st in ("N", "M"):
            c = cs[b[2]]
            r, p = (c[1], c[2]) if c[0] == "p" else (c, ())
            if self.local(r) and r[1] not in self.info.esc:
                extra.append(("M", set()))
                return [("L", {("c", r, p)})] + extra
            if c[0] == "a":
                extra.append(("M", set()))
                return [("O%d" % c[1], {("c", c, ())})] + extra
        if b[0] == "list" and b[1] is i and st in ("N", "M"):
            r = cs[b[2]]
            if self.local(r) and r[1] not in self.info.esc and was == ("i", 0) and self.fresh_root(cs[b[3]]):
                return [("L", {("c", r, ())}), ("M", set())] + extra
        if result_alias is True:
            al.add(("v", i.n))
        elif result_alias:
            al.add(("p", ("v", i.n)))
        return [(st, al)] + extra

    def missing(self, f, st, al, c):
        if c[0] == "i":
            return c[1] == 0
        t = self.known(f, st, al, "eq", c, ("i", 0))
        return t

    def passed(self, r, cs):
        return any(c == r or c[0] == "p" and c[1] == r for c in cs)

    def is_cell(self, i, k, r):
        """does argument k point to a cell holding the object (rather than to a structure)?"""
        ts = self.O.mr.targets(i)
        if any(t in INT_CLEAR or t in INT_INIT for t in ts) and k == 1:
            return True
        for t in ts:
            pt = self.O.M.ptypes.get(t)
            if pt and k + 1 < len(pt):
                return pt[k + 1].endswith("**")
        return self.local(r)

    def outside(self, r):
        """does the structure belong to somebody else: reached from the parameters only?"""
        work, seen = [r], set()
        while work:
            r = work.pop()
            if r[0] == "a" or r in seen:
                continue
            seen.add(r)
            if r[0] != "v":
                return False
            i = self.F.insts[r[1]]
            if i.op == "phi":
                vs = [x for x, _ in i.incoming]
            elif i.op == "select":
                vs = i.ops[1:]
            elif i.op in CASTS + ("gep", "load"):
                vs = i.ops[:1]
            else:
                return False
            for v in vs:
                if v.k == "inst":
                    work.append(("v", v.v.n))
                elif v.k not in ("arg", "null"):
                    return False
        return True

    def owned(self, t, path, other=()):
        return self.O.owns(t, path, other)

    # ------------------------------------------------------------------ leaving
    def ret(self, i, st, al, f):
        c = self.canon(f, i.ops[0]) if i.ops else None
        back = c is not None and c in al
        kind = self.birth[0]
        if kind == "nothing":
            self.answer(f, i.ops[0] if i.ops else None, i.block)
            return
        if kind in ("param", "content"):
            if st == "B":
                self.outcomes.add("R" if back else "K")
                now = f.get(("cell", ("a", self.birth[1]), (), "ptr"))
                if back and now is not None and now not in al and kind == "content":
                    self.popped = True
                elif c is None or c != ("i", 0):
                    self.other = True
            elif st == "F":
                self.outcomes.add("F")
                if back:
                    self.note("returned", i.line, self.freed_at(f), "returned")
            elif st not in ("N", "M"):
                self.outcomes.add("E")
            return
        self.left.add(st[0])
        if st == "F":
            if back:
                self.note("returned", i.line, self.freed_at(f), "returned")
            return
        if kind == "load":
            if st == "L" and not back:
                self.note("leak", self.birth[1].line, i.line, "")
            return
        if st == "N" and c is not None and c != ("i", 0):
            self.without = True
        if c is not None and st == "H%s" % c[1]:
            self.cells |= {x[2] for x in al if x[0] == "c" and x[1] == c and len(x[2]) == 1 and x[2][0][0] != "[]"}
        if st == "L":
            if back or c is not None and ("p", c) in al:
                if back:
                    self.returned |= self.aka | {x[1] for x in al if x[0] == "v"}
                return
            self.note("leak", self.birth[1].line, i.line, "")
        elif st.startswith("H"):
            if back:
                self.returned |= self.aka | {x[1] for x in al if x[0] == "v"}
        elif st.startswith("O"):
            if ("c", ("a", int(st[1:])), ()) in al:
                self.outs.add(int(st[1:]))
        elif st == "E" and back:
            pass



    def answer(self, f, v, b, seen=()):
        """paths on which nothing is returned, with the parameters known missing on them"""
        if v is None:
            return
        c = self.canon(f, v)
        if c[0] == "i" and c[1] != 0 or c[0] in ("p", "sk", "fk", "gk") or ("given", c) in f:
            return
        gone = frozenset(k for k in self.ptrs if f.get(("iv", ("a", k)), (1, 0, 0))[:2] == (0, 0))
        self.nullpaths.add(gone)
