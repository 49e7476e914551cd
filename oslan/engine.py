"""Path-sensitive access-path dataflow (abstract interpretation with trace partitioning, no solver).

A function is analysed from its entry with symbolic arguments.  Abstract values are terms over access
paths (argument roots, loads of fields/elements, fresh objects, uninterpreted calls, linear expressions).
States carry: SSA environment, known memory cells, branch facts and the ordered list of tracked events.
States that agree on everything but facts are merged at join points (facts intersected).
A loop is summarised by a fixpoint over generic iterations: induction values are symbolic, "mode" values (flags,
list heads/tails) are enumerated until no new combination appears, then widened.  What every completed
iteration establishes (facts, events) becomes a universal summary attached to the states leaving the loop.
Helpers without a contract are analysed in place, so extracting or merging helpers does not change results."""
from .ir import AnalysisBroken

INT, NULL = "int", ("null",)
ZERO = ("int", 0)


def mk_int(n):
    return ("int", n)


# --------------------------------------------------------------------------------- linear arithmetic
def lin(t):
    if t[0] == "int":
        return t[1], {}
    if t[0] == "null":
        return 0, {}
    if t[0] == "lin":
        return t[1], dict(t[2])
    return 0, {t: 1}


def unlin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return ("int", c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return ("lin", c, tuple(sorted(d.items(), key=lambda kv: repr(kv[0]))))


def add(a, b, s=1):
    c1, d1 = lin(a)
    c2, d2 = lin(b)
    d = dict(d1)
    for k, v in d2.items():
        d[k] = d.get(k, 0) + s * v
    return unlin(c1 + s * c2, d)


def scale(a, n):
    c, d = lin(a)
    return unlin(c * n, {k: v * n for k, v in d.items()})


def is_ptrish(t):
    return t[0] in ("null", "fld", "idx", "alloc", "alloca", "str", "fn", "glob")


BOOLOPS = ("atom", "not")


def atom_eq(a, b):
    """literal (atom, polarity) for a == b"""
    # booleans materialised as ints: (lit) compared with constant
    for x, y in ((a, b), (b, a)):
        if x[0] == "lit" and y[0] in ("int", "null"):
            v = y[1] if y[0] == "int" else 0
            if v == 0:
                return (x[1], not x[2])
            if v == 1:
                return (x[1], x[2])
            return (("false",), True)
    if a == b:
        return (("true",), True)
    if a[0] in ("int", "null") and b[0] in ("int", "null"):
        return (("true",), (a[1] if a[0] == "int" else 0) == (b[1] if b[0] == "int" else 0))
    if (a[0] == "idx" or b[0] == "idx") and pbase(a) == pbase(b) and a != NULL and b != NULL:
        return atom_eq(poff(a), poff(b))
    if is_ptrish(a) or is_ptrish(b):
        if nonnull(a) and b == NULL or nonnull(b) and a == NULL:
            return (("false",), True)
        x, y = sorted((a, b), key=repr)
        if a == NULL or a == ZERO:
            x, y = b, NULL
        elif b == NULL or b == ZERO:
            x, y = a, NULL
        return (("peq", x, y), True)
    d = add(a, b, -1)
    if d[0] == "int":
        return (("true",), d[1] == 0)
    if d[0] == "lin":
        # sign-normalise
        if d[2][0][1] < 0:
            d = scale(d, -1)
    # x == 0 on a plain term: same atom as null test
    if d[0] != "lin":
        return (("peq", d, NULL), True)
    return (("eq0", d), True)


def pbase(t):
    return t[1] if t[0] == "idx" else t


def poff(t):
    return t[3] if t[0] == "idx" else ZERO


def atom_le0(d):
    """literal for d <= 0"""
    if d[0] == "int":
        return (("true",), d[1] <= 0)
    c, m = lin(d)
    neg = {k: -v for k, v in m.items()}
    # canonical sign: choose the representation whose first coefficient is positive
    k0 = sorted(m, key=repr)[0]
    if m[k0] > 0:
        return (("le0", d), True)
    # d<=0  <=>  not(-d <= -1) <=> not(-d+1 <= 0)
    return (("le0", unlin(-c + 1, neg)), False)


def nonnull(t):
    return t[0] in ("fld", "alloc", "alloca", "str", "fn", "glob") or (t[0] == "idx")


def lit_of(t):
    """truth literal of a term used as condition"""
    if t[0] == "lit":
        return (t[1], t[2])
    if t[0] == "int":
        return (("true",), t[1] != 0)
    a, p = atom_eq(t, ZERO)
    return (a, not p)


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            st.extend(y for y in x if isinstance(y, tuple))


def contains(t, x):
    return any(s == x for s in subterms(t))


def subst(t, f):
    """rewrite bottom-up; f(term) -> term or None"""
    if not isinstance(t, tuple):
        return t
    n = tuple(subst(x, f) if isinstance(x, tuple) else x for x in t)
    r = f(n) if n and isinstance(n[0], str) else None
    return n if r is None else r


def relin(t):
    """rebuild linear expressions after a substitution"""
    def f(x):
        if x[0] == "lin":
            r = ("int", x[1])
            for k, c in x[2]:
                r = add(r, scale(k, c))
            return r
        if x[0] == "idx" and x[3] == ZERO:
            return x[1]
        if x[0] == "lit":
            a, p = reatom(x[1])
            return ("lit", a, p == x[2])
        return None

    def go(t):
        if not isinstance(t, tuple):
            return t
        if t and t[0] == "lin":
            t = ("lin", t[1], tuple((go(k), c) for k, c in t[2]))
        else:
            t = tuple(go(x) if isinstance(x, tuple) else x for x in t)
        r = f(t) if t and isinstance(t[0], str) else None
        return t if r is None else r
    return go(t)


def reatom(a):
    """canonical literal of an atom whose terms were substituted"""
    if a[0] == "peq":
        return atom_eq(relin(a[1]), relin(a[2]))
    if a[0] == "eq0":
        return atom_eq(relin(a[1]), ZERO)
    if a[0] == "le0":
        return atom_le0(relin(a[1]))
    return a, True


class State:
    __slots__ = ("env", "mem", "facts", "ev", "ep", "path", "zeroed", "hx")

    def __init__(self):
        self.hx = False     # left the innermost loop from its (effect-free) header
        self.env, self.mem, self.facts, self.ev, self.ep, self.zeroed = {}, {}, {}, (), {}, frozenset()

    def copy(self):
        s = State()
        s.zeroed = self.zeroed
        s.env, s.mem, s.facts, s.ev, s.ep = dict(self.env), dict(self.mem), dict(self.facts), self.ev, self.ep
        return s

    # -- facts
    def decide(self, a):
        """truth of an atom under the facts: True/False/None"""
        if a[0] == "true":
            return True
        if a[0] == "false":
            return False
        v = self.facts.get(a)
        if v is not None:
            return v
        if a[0] == "peq":
            x, y = a[1], a[2]
            if x == y:
                return True
            if y == NULL:
                if nonnull(x):
                    return False
                # x known equal to some integer?
                for f, p in self.facts.items():
                    if f[0] == "eq0" and p:
                        c, m = lin(f[1])
                        if len(m) == 1 and x in m and c != 0:
                            return False
                r = self._by_bounds(a)
                return self._by_partner(x) if r is None else r
            return None
        if a[0] in ("le0", "eq0"):
            return self._by_bounds(a)
        return None

    def _by_partner(self, x):
        """NULL-ness of x from a pointer it is known to equal, or to differ from"""
        for f, p in self.facts.items():
            if f[0] == "peq" and f[2] != NULL:
                z, y = f[1], f[2]
            elif f[0] == "eq0" and f[1][0] == "lin" and f[1][1] == 0 and len(f[1][2]) == 2 and f[1][2][0][1] + f[1][2][1][1] == 0:
                z, y = f[1][2][0][0], f[1][2][1][0]
            else:
                continue
            if x == y:
                z, y = y, z
            elif x != z:
                continue
            v = self.facts.get(("peq", y, NULL))
            if p and nonnull(y):
                v = False
            if v is True:
                return p
            if v is False and p:
                return False
        return None

    def _by_bounds(self, a):
        """interval reasoning on one variable part: facts with the same linear part"""
        if a[0] == "peq":
            d = a[1]
            want_eq = True
        else:
            d = a[1]
            want_eq = a[0] == "eq0"
        c, m = lin(d)
        if not m:
            return None
        key = tuple(sorted(m.items(), key=lambda kv: repr(kv[0])))
        nkey = tuple((k, -v) for k, v in key)
        lo, hi, ne = None, None, set()     # bounds of sum(m)
        for f, p in self.facts.items():
            if f[0] == "peq" and f[2] == NULL:
                fc, fm = 0, {f[1]: 1}
            elif f[0] in ("le0", "eq0"):
                fc, fm = lin(f[1])
            else:
                continue
            if len(fm) != len(m):
                continue
            fk = tuple(sorted(fm.items(), key=lambda kv: repr(kv[0])))
            if fk == key:
                sg = 1
            elif fk == nkey:
                sg = -1
            else:
                continue
            if f[0] in ("eq0", "peq"):
                v = -fc * sg
                if p:
                    lo = v if lo is None else max(lo, v)
                    hi = v if hi is None else min(hi, v)
                else:
                    ne.add(v)
            else:
                # p: sg*S + fc <= 0 ; not p: sg*S + fc >= 1
                if (p and sg == 1) or (not p and sg == -1):
                    v = (-fc) if p else (fc - 1)
                    hi = v if hi is None else min(hi, v)
                else:
                    v = fc if p else (1 - fc)
                    lo = v if lo is None else max(lo, v)
        ch = True
        while ch:
            ch = False
            if lo is not None and lo in ne:
                lo += 1
                ch = True
            if hi is not None and hi in ne:
                hi -= 1
                ch = True
        if lo is not None and hi is not None and lo > hi:
            return None
        v = -c
        if want_eq:
            if v in ne or (lo is not None and v < lo) or (hi is not None and v > hi):
                return False
            if lo is not None and lo == hi == v:
                return True
            return None
        # S + c <= 0 <=> S <= -c
        if hi is not None and hi <= -c:
            return True
        if lo is not None and lo > -c:
            return False
        return None

    def assume(self, lit):
        a, p = lit
        d = self.decide(a)
        if d is not None:
            return d == p
        self.facts[a] = p
        return True

    def known(self, lit):
        d = self.decide(lit[0])
        return d is not None and d == lit[1]


class Incomplete(Exception):
    pass


class LoopSummary:
    """What the analysis learnt about one execution of a loop."""
    __slots__ = ("key", "phis", "steps", "inits", "backs", "common", "events", "fn", "line", "modes", "hdr", "derived", "trans", "backmodes", "cells")

    def __repr__(self):
        return f"Loop({self.fn.name}:{self.line})"


class Result:
    def __init__(self):
        self.rets = []      # (state, term, line)
        self.aborts = []    # (state, inst)


PURE_LIBC = {"strlen", "strcmp", "strncmp", "isspace", "isdigit", "__ctype_b_loc", "atoi", "strchr", "strstr", "toupper", "tolower", "strtol",
             "__gmpz_cmp", "__gmpz_cmp_si", "__gmpz_cmp_ui", "__gmpz_get_si", "__gmpz_sgn", "memcmp", "__gmpz_divisible_p", "strrchr", "labs", "llabs", "abs", "strcspn", "strspn"}
NORETURN = {"exit", "abort", "__assert_fail", "_exit", "__assert_fail_base"}
# libc functions that write through the given argument positions (anything else libc: reads only)
LIBC_WRITES = {"sprintf": (0,), "snprintf": (0,), "vsnprintf": (0,), "strcpy": (0,), "strncpy": (0,), "strcat": (0,), "strncat": (0,), "memcpy": (0,),
               "memmove": (0,), "memset": (0,), "fgets": (0,), "llvm.memcpy.p0.p0.i64": (0,), "llvm.memset.p0.i64": (0,),
               "llvm.memmove.p0.p0.i64": (0,), "llvm.va_start": (0,), "llvm.va_end": (0,), "llvm.va_copy": (0,), "strtok": (0,),
               "__isoc99_sscanf": tuple(range(2, 12)), "__isoc99_fscanf": tuple(range(2, 12)), "sscanf": tuple(range(2, 12)), "fscanf": tuple(range(2, 12)),
               "__isoc23_sscanf": tuple(range(2, 12)), "__isoc23_fscanf": tuple(range(2, 12)),
               "strtol": (1,), "strtoll": (1,), "getline": (0, 1), "__isoc23_strtol": (1,), "__isoc23_strtoll": (1,), "free": (), "qsort": (0,)}
for _n in ("init", "clear", "add", "sub", "mul", "set", "set_si", "set_ui", "neg", "abs", "add_ui", "sub_ui", "mul_si", "mul_ui", "divexact", "fdiv_q", "cdiv_q",
           "fdiv_r", "tdiv_q", "tdiv_r", "gcd", "lcm", "addmul", "submul", "set_str", "init_set", "init_set_si", "init_set_str", "fdiv_q_ui", "cdiv_r", "mod", "init_set_ui"):
    LIBC_WRITES["__gmpz_" + _n] = (0,)
LIBC_WRITES["__gmpz_swap"] = (0, 1)
ALLOCS = {"malloc", "calloc", "realloc", "strdup", "__strdup", "reallocarray", "strndup", "__strndup"}


class Engine:
    def __init__(self, M, opaque=lambda name: False, pure=lambda name: False, track=None, models=None, depth=6, max_states=48,
                 assume_alloc=True, modsum=None, max_steps=60000, precond=None, record_loads=False):
        self.M = M
        self.opaque = opaque
        self.pure = pure
        self.track = track          # callee name -> bool: record call event
        self.models = models or {}
        self.depth = depth
        self.max_states = max_states
        self.assume_alloc = assume_alloc
        self.modsum = modsum
        self.steps = 0
        self.max_steps = max_steps
        self.live_cache = {}
        self.inlined = set()
        self.funcs_seen = set()
        self.back_hook = None       # (loop summary, state) at every completed generic iteration
        self.loopstack = []
        self.quiet = 0
        self.keep_facts = False     # do not merge states that differ in facts only
        self.store_hook = None
        self.load_hook = None
        self.call_hook = None
        self.summaries = []
        self.carried = set()        # fields read through values carried over from an earlier loop iteration

    # ------------------------------------------------------------------ entry
    def analyse(self, fname, state=None, args=None):
        F = self.M.funcs.get(fname)
        if F is None or F.decl:
            raise AnalysisBroken("function %s not found" % fname)
        st = state or State()
        if args is None:
            args = [("arg", i) for i in range(F.nparams)]
        self.res = Result()
        self.steps = 0
        self.stack = []
        self.loopstack = []
        self.summaries = []
        self.entry = fname
        rets = self.run_func(F, args, st, ())
        self.res.rets = rets
        return self.res

    # ------------------------------------------------------------------ helpers
    def live(self, F):
        lv = self.live_cache.get(F)
        if lv is not None:
            return lv
        use, dfn = {}, {}
        for b in F.blocks:
            u, d = set(), set()
            for i in b.insts:
                if i.op != "phi":
                    for o in i.ops:
                        if o.k == "inst" and o.v.n not in d:
                            u.add(o.v.n)
                    if i.op == "call" and i.callee.k == "inst" and i.callee.v.n not in d:
                        u.add(i.callee.v.n)
                d.add(i.n)
            use[b], dfn[b] = u, d
        livein = {b: set() for b in F.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(F.rpo()):
                out = set()
                for s in b.succ:
                    out |= livein[s]
                    for i in s.insts:
                        if i.op == "phi":
                            for v, p in i.incoming:
                                if p is b and v.k == "inst":
                                    out.add(v.v.n)
                        else:
                            break
                new = use[b] | (out - dfn[b])
                new |= {i.n for i in b.insts if i.op == "phi"}   # phis are assigned on the edge
                if new != livein[b]:
                    livein[b] = new
                    ch = True
        self.live_cache[F] = livein
        return livein

    def val(self, v, st, args):
        k = v.k
        if k == "inst":
            try:
                return st.env[v.v.n]
            except KeyError:
                return ("undefv", v.v.n)
        if k == "arg":
            return args[v.v]
        if k == "int":
            return ("int", v.v)
        if k == "null":
            return NULL
        if k == "str":
            return ("str", v.v)
        if k == "func":
            return ("fn", v.v)
        if k == "global":
            return ("glob", v.v)
        if k == "undef":
            return ("undef",)
        if k == "cexpr":
            kind, sty, ops = v.v
            if kind == "gep":
                return self.gep(sty, [self.val(o, st, args) for o in ops])
            return self.val(ops[0], st, args)
        return ("other", str(v.v))

    def gep(self, sty, ops):
        base = ops[0]
        idx = ops[1:]
        t = base
        if idx:
            first = idx[0]
            if first != ZERO and first != NULL:
                t = self.mk_idx(t, sty, first)
            ty = sty
            for ix in idx[1:]:
                if ty.startswith("["):
                    inner = ty[ty.index(" x ") + 3:-1]
                    if ix != ZERO:
                        t = self.mk_idx(t, inner, ix)
                    ty = inner
                else:
                    n = ix[1] if ix[0] == "int" else -1
                    if ty.startswith("union."):
                        ty = "?"
                        continue
                    fl = self.M.fields.get(ty)
                    t = ("fld", t, ty, n)
                    ty = self.field_llty(ty, n)
        return t

    def field_llty(self, sty, n):
        fl = self.M.fields.get(sty)
        if fl and 0 <= n < len(fl):
            ft = fl[n][1]
            if ft.startswith(("struct.", "union.")) and not ft.endswith("*"):
                return ft
        return "?"

    def mk_idx(self, base, ety, ix):
        if base[0] == "idx" and base[2] == ety:
            ix = add(base[3], ix)
            base = base[1]
            if ix == ZERO:
                return base
        return ("idx", base, ety, ix)

    @staticmethod
    def root(t):
        while True:
            if t[0] in ("fld", "idx"):
                t = t[1]
            elif t[0] == "ld":
                t = t[1]
            else:
                return t

    @staticmethod
    def objroot(t):
        """object an address lies in (no load crossing)"""
        while t[0] in ("fld", "idx"):
            t = t[1]
        return t

    def klass(self, a):
        if a[0] == "fld":
            return (a[2], a[3])
        if a[0] == "idx":
            return ("elem", a[2])
        return ("deref",)

    def load(self, st, addr, inst=None):
        if addr[0] == "fld" and addr[1][0] in ("it", "itp", "ret", "alloc", "itm") and (addr[1][0] in ("it", "itp", "itm") or addr[1][4] != "cur"):
            self.carried.add((addr[2], addr[3]))
        v = st.mem.get(addr)
        if v is not None:
            return v
        # union whose single cell is loaded through its own address, etc.: exact match only
        o = self.objroot(addr)
        if o[0] == "alloc" and (o[2] == "calloc" or o in st.zeroed):
            return ZERO
        if o[0] == "alloc" and o[2] in ("malloc", "realloc", "reallocarray"):
            return ("uninit", addr)
        if o[0] == "alloca":
            return ("uninit", addr)
        if o[0] == "glob":
            pass
        return ("ld", addr, st.ep.get(self.klass(addr), 0))

    def store(self, st, addr, val, inst=None):
        # kill imprecise neighbours: same base, other (unknown) index
        if addr[0] == "idx":
            for k in list(st.mem):
                if k != addr and k[0] == "idx" and k[1] == addr[1]:
                    d = add(k[3], addr[3], -1)
                    if d[0] != "int":
                        del st.mem[k]
                elif k != addr and k == addr[1] and addr[3][0] != "int":
                    # element zero stored under the plain base
                    if not self.is_object(k):
                        del st.mem[k]
        elif any(k[0] == "idx" and k[1] == addr for k in st.mem):
            for k in list(st.mem):
                if k[0] == "idx" and k[1] == addr and k[3][0] != "int":
                    del st.mem[k]
        st.mem[addr] = val

    def is_object(self, k):
        return False

    # ------------------------------------------------------------------ functions
    def run_func(self, F, args, st, ctx):
        """-> [(state, retval, line)]"""
        self.funcs_seen.add(F.name)
        self.stack.append(F.name)
        saved = st.env
        st.env = {}
        rets = []
        frame = dict(F=F, args=args, rets=rets, ctx=ctx)
        entry = F.blocks[0]
        self.run_region(frame, set(F.rpo()), entry, [st], None)
        self.stack.pop()
        out = []
        for s, v, line in rets:
            s.env = dict(saved)
            out.append((s, v, line))
        # merge identical
        return self.merge_rets(out)

    def merge_rets(self, rets):
        by = {}
        for s, v, line in rets:
            k = (v, s.ev, frozenset(s.mem.items()), frozenset(s.facts.items()) if self.keep_facts else None)
            if k in by:
                o = by[k][0]
                o.facts = {a: p for a, p in o.facts.items() if s.facts.get(a) == p}
            else:
                by[k] = (s, v, line)
        return list(by.values())

    def merge(self, F, b, states):
        if len(states) <= 1:
            return states
        live = self.live(F)[b]
        by = {}
        for s in states:
            s.env = {n: v for n, v in s.env.items() if n in live}
            k = (s.ev, frozenset(s.env.items()), frozenset(s.mem.items()), frozenset(s.ep.items()), frozenset(s.facts.items()) if self.keep_facts else None)
            o = by.get(k)
            if o is None:
                by[k] = s
            else:
                o.facts = {a: p for a, p in o.facts.items() if s.facts.get(a) == p}
        r = list(by.values())
        if len(r) > self.max_states:
            raise Incomplete(f"more than {self.max_states} states at {F.name}:{b.name}")
        return r

    def run_region(self, frame, region, entry, states, header):
        """Process the acyclic condensation of `region` from `entry`.
        Returns (exits {(target): [states]} , backs [states])."""
        F = frame["F"]
        rpo = {b: i for i, b in enumerate(F.rpo())}
        loops = F.loops()
        pending = {entry: list(states)}
        exits, backs = {}, []
        while pending:
            b = min(pending, key=lambda x: rpo[x])
            sts = pending.pop(b)
            sts = self.merge(F, b, sts)
            if b in loops and b is not header and loops[b] <= region:
                ex = self.run_loop(frame, b, loops[b], sts)
                for (tgt), ss in ex.items():
                    if tgt is header:
                        backs.extend(ss)
                    elif tgt in region:
                        pending.setdefault(tgt, []).extend(ss)
                    else:
                        exits.setdefault(tgt, []).extend(ss)
                continue
            for s in sts:
                for tgt, ns in self.exec_block(frame, b, s):
                    if tgt is header and header is not None:
                        backs.append(ns)
                    elif tgt in region:
                        pending.setdefault(tgt, []).append(ns)
                    else:
                        exits.setdefault(tgt, []).append(ns)
        return exits, backs

    def edge(self, frame, st, p, b):
        """evaluate phis of b for edge p->b"""
        vals = {}
        for i in b.insts:
            if i.op != "phi":
                break
            for v, pb in i.incoming:
                if pb is p:
                    vals[i.n] = self.val(v, st, frame["args"])
                    break
        st.env.update(vals)
        return st

    def exec_block(self, frame, b, st):
        work = [st]
        F = frame["F"]
        args = frame["args"]
        res = []
        for i in b.insts:
            self.steps += 1
            if self.steps > self.max_steps:
                raise Incomplete("step budget exhausted in " + F.name)
            op = i.op
            if op == "phi":
                continue
            if op in ("br", "switch", "ret", "unreachable"):
                for s in work:
                    if op == "ret":
                        v = self.val(i.ops[0], s, args) if i.ops else None
                        frame["rets"].append((s, v, i.line))
                    elif op == "unreachable":
                        self.res.aborts.append((s, i))
                    elif op == "br":
                        if len(i.succ) == 1:
                            res.append((i.succ[0], self.edge(frame, s, b, i.succ[0])))
                        elif i.succ[0] is i.succ[1]:
                            res.append((i.succ[0], self.edge(frame, s, b, i.succ[0])))
                        else:
                            a, p = lit_of(self.val(i.ops[0], s, args))
                            d = s.decide(a)
                            if d is not None:
                                t = i.succ[0] if d == p else i.succ[1]
                                res.append((t, self.edge(frame, s, b, t)))
                            else:
                                s2 = s.copy()
                                s.facts[a] = p
                                s2.facts[a] = not p
                                self.on_branch(frame, i, a, s, s2)
                                res.append((i.succ[0], self.edge(frame, s, b, i.succ[0])))
                                res.append((i.succ[1], self.edge(frame, s2, b, i.succ[1])))
                    else:
                        v = self.val(i.ops[0], s, args)
                        for cv, tgt in i.cases:
                            if cv is None:
                                continue
                            a, p = atom_eq(v, ("int", cv))
                            d = s.decide(a)
                            if d is None:
                                s2 = s.copy()
                                s2.facts[a] = p
                                s.facts[a] = not p
                                res.append((tgt, self.edge(frame, s2, b, tgt)))
                            elif d == p:
                                res.append((tgt, self.edge(frame, s, b, tgt)))
                                s = None
                                break
                        if s is not None:
                            tgt = [t for c, t in i.cases if c is None][0]
                            res.append((tgt, self.edge(frame, s, b, tgt)))
                return res
            nw = []
            for s in work:
                nw.extend(self.exec(frame, i, s))
            work = nw
            if not work:
                return res
        return res

    def on_branch(self, frame, inst, atom, s1, s2):
        pass

    # ------------------------------------------------------------------ instructions
    def site(self, frame, i):
        return (frame["F"].name, i.n) + tuple(frame["ctx"])

    def exec(self, frame, i, s):
        args = frame["args"]
        op = i.op
        if op == "load":
            a = self.val(i.ops[0], s, args)
            if self.load_hook:
                self.load_hook(self, frame, i, s, a)
            s.env[i.n] = self.load(s, a, i)
            return [s]
        if op == "store":
            v = self.val(i.ops[0], s, args)
            a = self.val(i.ops[1], s, args)
            if self.store_hook:
                self.store_hook(self, frame, i, s, a, v)
            self.store(s, a, v, i)
            if self.track_store(a, s):
                s.ev = s.ev + (("store", a, v, i.line),)
            return [s]
        if op == "gep":
            s.env[i.n] = self.gep(i.sty, [self.val(o, s, args) for o in i.ops])
            return [s]
        if op == "icmp":
            a, b = self.val(i.ops[0], s, args), self.val(i.ops[1], s, args)
            if a[0] == "lit" and b[0] == "lit":
                # two conditions compared with each other: tell the cases apart
                out = []
                for pol in (True, False):
                    c = s.copy()
                    if c.assume((a[1], a[2] == pol)):
                        c.env[i.n] = self.icmp(i.pred, ("int", int(pol)), b)
                        out.append(c)
                return out
            s.env[i.n] = self.icmp(i.pred, a, b)
            return [s]
        if op in ("sext", "zext", "bitcast", "ptrtoint", "inttoptr", "freeze"):
            s.env[i.n] = self.val(i.ops[0], s, args)
            return [s]
        if op == "trunc":
            v = self.val(i.ops[0], s, args)
            s.env[i.n] = v
            return [s]
        if op in ("add", "sub"):
            a, b = self.val(i.ops[0], s, args), self.val(i.ops[1], s, args)
            a, b = self.deb(a), self.deb(b)
            s.env[i.n] = add(a, b, 1 if op == "add" else -1)
            return [s]
        if op == "mul":
            a, b = self.deb(self.val(i.ops[0], s, args)), self.deb(self.val(i.ops[1], s, args))
            if a[0] == "int":
                s.env[i.n] = scale(b, a[1])
            elif b[0] == "int":
                s.env[i.n] = scale(a, b[1])
            else:
                x, y = sorted((a, b), key=repr)
                s.env[i.n] = ("bin", "mul", x, y)
            return [s]
        if op == "xor" and i.ty == "i1":
            a, b = self.val(i.ops[0], s, args), self.val(i.ops[1], s, args)
            if b == ("int", -1) or b == ("int", 1):
                at, p = lit_of(a)
                s.env[i.n] = ("lit", at, not p)
                return [s]
            if a[0] == "lit" and b[0] == "lit":
                out = []
                for pol in (True, False):
                    c = s.copy()
                    if c.assume((a[1], a[2] == pol)):
                        c.env[i.n] = ("lit", b[1], b[2] != pol)
                        out.append(c)
                return out
        if op == "alloca":
            s.env[i.n] = ("alloca", self.site(frame, i), i.sty)
            return [s]
        if op == "select":
            c = self.val(i.ops[0], s, args)
            a, p = lit_of(c)
            d = s.decide(a)
            if d is not None:
                s.env[i.n] = self.val(i.ops[1] if d == p else i.ops[2], s, args)
                return [s]
            s2 = s.copy()
            s.facts[a] = p
            s2.facts[a] = not p
            s.env[i.n] = self.val(i.ops[1], s, args)
            s2.env[i.n] = self.val(i.ops[2], s2, args)
            return [s, s2]
        if op == "call":
            return self.call(frame, i, s)
        ops = tuple(self.val(o, s, args) for o in i.ops)
        s.env[i.n] = ("bin", op) + ops
        if op in ("and", "or", "xor") and len(ops) == 2:
            s.env[i.n] = ("bin", op) + tuple(sorted(ops, key=repr))
        return [s]

    def deb(self, t):
        return t

    def track_store(self, addr, s):
        return False

    def icmp(self, pred, a, b):
        if pred in ("eq", "ne"):
            at, p = atom_eq(a, b)
            return ("lit", at, p if pred == "eq" else not p)
        if pred[0] in "su":
            # sizes are taken to be below 2^63: unsigned and signed comparisons coincide
            if (a[0] == "idx" or b[0] == "idx") and pbase(a) == pbase(b):
                a, b = poff(a), poff(b)
            d = add(a, b, -1)
            pred = "s" + pred[1:]
            if pred == "sle":
                l = atom_le0(d)
            elif pred == "slt":
                l = atom_le0(add(d, ("int", 1)))
            elif pred == "sge":
                l = atom_le0(scale(d, -1))
            else:
                l = atom_le0(add(scale(d, -1), ("int", 1)))
            return ("lit", l[0], l[1])
    # ------------------------------------------------------------------ calls
    def call(self, frame, i, s):
        args = [self.val(o, s, frame["args"]) for o in i.ops]
        c = self.val(i.callee, s, frame["args"])
        if c[0] == "fn":
            name = c[1]
        elif c[0] == "ld" and c[1][0] == "fld":
            fl = self.M.fields.get(c[1][2])
            name = "*" + (fl[c[1][3]][0] if fl else "?")
            args = [c] + args
        else:
            name = "*?"
            args = [c] + args
        if self.call_hook:
            self.call_hook(self, frame, i, s, name, args)
        m = self.models.get(name)
        if m is not None:
            r = m(self, frame, i, s, args)
            if r is not None:
                return r
        if name in NORETURN:
            self.res.aborts.append((s, i))
            return []
        if name in ALLOCS:
            t = ("alloc", self.site(frame, i), name, tuple(args), "cur", tuple(self.loopstack))
            s.env[i.n] = t
            if not self.assume_alloc:
                pass
            if self.track is None or self.track(name):
                s.ev = s.ev + (("call", name, tuple(args), t, i.line),)
            return [s]
        if name.startswith(("llvm.memcpy", "llvm.memmove")) or name in ("memcpy", "memmove"):
            self.copy_obj(s, args[0], args[1], i)
            if self.track is None or self.track("memcpy"):
                s.ev = s.ev + (("call", "memcpy", tuple(args[:3]), args[0], i.line),)
            s.env[i.n] = args[0]
            return [s]
        if (name.startswith("llvm.memset") or name == "memset") and args[1] == ZERO:
            for a in list(s.mem):
                if self.under(a, args[0]):
                    del s.mem[a]
            sty = self.struct_of(args[0], s)
            if sty:
                self.zero_obj(s, args[0], sty)
            elif args[0][0] == "alloc":
                s.zeroed = s.zeroed | {args[0]}
            s.env[i.n] = args[0]
            if not name.startswith("llvm.") and (self.track is None or self.track(name)):
                s.ev = s.ev + (("call", name, tuple(args), args[0], i.line),)
            return [s]
        F = self.M.funcs.get(name)
        if name.startswith("llvm."):
            if name.startswith("llvm.dbg") or name.startswith("llvm.lifetime"):
                return [s]
        can_inline = (F is not None and not F.decl and not self.opaque(name) and name not in self.stack and len(self.stack) < self.depth)
        if can_inline:
            self.inlined.add(name)
            rets = self.run_func(F, args, s, (i.n, frame["F"].name) + tuple(frame["ctx"]))
            out = []
            for st, v, _ in rets:
                if v is not None:
                    st.env[i.n] = v
                out.append(st)
            return out
        return self.opaque_call(frame, i, s, name, args)

    def copy_obj(self, s, dst, src, i):
        """structure copy: known cells of src become known cells of dst; the rest stays symbolic"""
        def rebase(a):
            if a == src:
                return dst
            if a[0] in ("fld", "idx"):
                b = rebase(a[1])
                return None if b is None else (a[0], b) + a[2:]
            return None
        for a in list(s.mem):
            if a != dst and rebase(("fld", a, "", 0)) is None and self.objroot(a) == self.objroot(dst) and self.under(a, dst):
                del s.mem[a]
        for a, v in list(s.mem.items()):
            if self.under(a, src):
                s.mem[rebase(a)] = v
        sty = self.struct_of(src, s) or self.struct_of(dst, s)
        if sty:
            for n, (fn, ft) in enumerate(self.M.fields[sty]):
                fa, fd = ("fld", src, sty, n), ("fld", dst, sty, n)
                if fa not in s.mem and not (ft.startswith("struct.") and not ft.endswith("*")):
                    s.mem[fd] = self.load(s, fa)

    def zero_obj(self, s, a, sty):
        for n, (fn, ft) in enumerate(self.M.fields[sty]):
            fa = ("fld", a, sty, n)
            if ft.startswith("struct.") and not ft.endswith("*"):
                if ft in self.M.fields:
                    self.zero_obj(s, fa, ft)
            else:
                s.mem[fa] = NULL if ft.endswith("*") else ZERO

    @staticmethod
    def under(a, base):
        while True:
            if a == base:
                return True
            if a[0] in ("fld", "idx"):
                a = a[1]
            else:
                return False

    def struct_of(self, a, s):
        if a[0] == "fld":
            fl = self.M.fields.get(a[2])
            if fl and fl[a[3]][1].startswith("struct.") and not fl[a[3]][1].endswith("*"):
                return fl[a[3]][1]
        if a[0] == "alloca" and a[2].startswith("struct."):
            return a[2]
        ty = None
        if a[0] == "arg":
            pt = self.M.ptypes.get(self.entry)
            if pt and a[1] + 1 < len(pt):
                ty = pt[a[1] + 1]
        elif a[0] == "ld" and a[1][0] == "fld":
            fl = self.M.fields.get(a[1][2])
            if fl and 0 <= a[1][3] < len(fl):
                ty = fl[a[1][3]][1]
        elif a[0] in ("ret", "call"):
            pt = self.M.ptypes.get(a[1])
            if pt:
                ty = pt[0]
        if ty and ty.endswith("*") and ty[:-1] in self.M.fields:
            return ty[:-1]
        return None

    def opaque_call(self, frame, i, s, name, args):
        pure = name in PURE_LIBC or self.pure(name)
        if pure:
            t = ("call", name, tuple(args))
        else:
            t = ("ret", name, tuple(args), self.site(frame, i), "cur", tuple(self.loopstack))
        s.env[i.n] = t
        if not pure:
            self.clobber(s, name, args)
        if self.track is None or self.track(name):
            s.ev = s.ev + (("call", name, tuple(args), t, i.line),)
        return [s]

    def clobber(self, s, name, args):
        """forget memory the callee may write"""
        W = None
        if self.modsum is not None and name in self.modsum:
            W = self.modsum[name]       # set of (arg index, class or None)
        elif name in LIBC_WRITES:
            W = {(k, None) for k in LIBC_WRITES[name]}
        elif name.startswith("*"):
            W = set()
        else:
            W = set()
        if not W:
            return
        for (k, cls) in W:
            if k >= len(args):
                continue
            a = args[k]
            ro = self.root(a)
            for m in list(s.mem):
                if self.root(m) == ro and (cls is None or self.klass(m) == cls or self.klass(m)[0] in ("deref",)):
                    if cls is None:
                        # libc-style: only the object itself
                        if self.objroot(m) == self.objroot(a):
                            s.mem[m] = ("clob", m, name)
                    else:
                        del s.mem[m]
            if cls is not None:
                s.ep = dict(s.ep)
                s.ep[cls] = s.ep.get(cls, 0) + 1

    # ------------------------------------------------------------------ loops
    def run_loop(self, frame, hdr, body, states):
        """Fixpoint over modes. Returns {target: [states]}"""
        F = frame["F"]
        phis = [i for i in hdr.insts if i.op == "phi"]
        key = ("L", F.name, hdr.i) + tuple(frame["ctx"])
        out = {}
        for st0 in states:
            for tgt, ss in self.run_loop1(frame, hdr, body, st0, phis, key).items():
                out.setdefault(tgt, []).extend(ss)
        return out

    def written_cells(self, frame, body, st):
        return None

    def run_loop1(self, frame, hdr, body, st0, phis, key):
        F = frame["F"]
        inits = {p.n: st0.env.get(p.n, ("undefv", p.n)) for p in phis}
        it = {p.n: ("it", key, p.n) for p in phis}
        mem0 = dict(st0.mem)
        derived, dcells = {}, {}

        def run(modes, memv, marks=()):
            """one generic iteration; modes: phi.n -> term (others symbolic); memv: cells overriding"""
            s = st0.copy()
            for p in phis:
                s.env[p.n] = modes.get(p.n, derived.get(p.n, it[p.n]))
            s.mem = dict(memv)
            for n, isnull in marks:
                if isnull:
                    s.env[n] = NULL
                    s.facts[("peq", it[n], NULL)] = True
                else:
                    s.assume((("peq", it[n], NULL), False))
            # events inside the iteration are collected separately
            s.ev = ()
            self.loopstack.append(key)
            nret = len(frame["rets"])
            ex, backs = self.run_region(frame, body, hdr, [s], hdr)
            rets = frame["rets"][nret:]
            del frame["rets"][nret:]
            self.loopstack.pop()
            return ex, backs, rets

        # --- round A: everything symbolic, to classify phis and modified memory
        # memory: forget cells that the body may write; discovered iteratively
        volatile = set()
        outer = self.carried
        carried = self.carried = set()
        for _ in range(6):
            memA = {k: v for k, v in mem0.items() if k not in volatile}
            for k in volatile:
                memA[k] = dcells.get(k, ("itm", key, k))
            sv = (self.res.aborts[:], self.summaries[:])
            self.quiet += 1
            exA, backsA, retsA = run({}, memA)
            self.quiet -= 1
            changed = set()
            for b in backsA:
                for k, v in b.mem.items():
                    if k in memA:
                        if v != memA[k] and k not in volatile:
                            changed.add(k)
                for k in memA:
                    if k not in b.mem and k not in volatile:
                        changed.add(k)
            self.res.aborts, self.summaries = sv
            if not changed:
                break
            volatile |= changed
        self.induction(key, phis, inits, it, backsA, volatile, mem0, derived, dcells)
        if derived or dcells:
            memA = {k: v for k, v in mem0.items() if k not in volatile}
            for k in volatile:
                memA[k] = dcells.get(k, ("itm", key, k))
            sv = (self.res.aborts[:], self.summaries[:])
            self.quiet += 1
            exA, backsA, retsA = run({}, memA)
            self.quiet -= 1
            self.res.aborts, self.summaries = sv
        # classify phis
        modephis, steps = [], {}
        for p in phis:
            bv = {b.env.get(p.n) for b in backsA}
            steps[p.n] = bv
            if p.n in derived:
                steps[p.n] = set()
                continue
            if self.is_mode(p, inits[p.n], bv, it, key):
                modephis.append(p.n)
        # volatile cells whose back values are constants/allocs are modes too
        modecells = []
        if -1 in it:
            steps[-1] = {add(it[-1], ("int", 1))}
        for k in volatile:
            if k in dcells:
                continue
            bv = {b.mem.get(k) for b in backsA}
            if k in mem0 and self.is_mode(None, mem0[k], bv, {None: ("itm", key, k)}, key):
                modecells.append(k)
        modes_seen, todo, allex, allbacks, allrets = {}, [], {}, [], []

        def step_of(v, me):
            return v is not None and v != me and add(v, me, -1)[0] != "int"

        iters = [p.n for p in phis if p.ty == "ptr" and p.n not in modephis and p.n not in derived]

        def mode_of(envv, memv, marks=(), cells=()):
            return (tuple((n, envv[n]) for n in modephis), tuple((k, memv.get(k)) for k in modecells), marks, cells)

        def marks_of(b):
            """what is known about the next iteration's list positions: NULL / not NULL"""
            out = []
            for n in iters:
                v = b.env.get(n)
                if v is None:
                    continue
                d = b.decide(atom_eq(v, NULL)[0])
                if d is not None:
                    out.append((n, d))
            return tuple(out)

        def cells_of(b, nm):
            """constant cells of the fresh objects the modes refer to"""
            objs = set()
            for n in modephis:
                v = b.env.get(n)
                if v is not None and v[0] in ("alloc", "ret") and key in v[5]:
                    objs.add(v)
            out = []
            for a, v in b.mem.items():
                if a[0] == "fld" and a[1] in objs and v[0] in ("null", "int") and (a[2], a[3]) in carried:
                    out.append((self.age(a, key, nm), v))
            return tuple(sorted(out, key=repr))
        usemodes = bool(modephis or modecells)
        if not usemodes and self.keep_facts and backsA:
            # conditions carried around the loop (e.g. a flag that accumulates differences): tell the entry apart
            usemodes = any(p.ty != "ptr" and p.n not in derived and p.n not in modephis and any(step_of(b.env.get(p.n), it[p.n]) for b in backsA) for p in phis)
            usemodes = usemodes or any(all(b.env.get(n) is not None and b.decide(atom_eq(b.env[n], NULL)[0]) is not None for b in backsA) for n in iters)
        im = []
        for n in iters:
            d = st0.decide(atom_eq(inits[n], NULL)[0])
            if d is not None:
                im.append((n, d))
        m0 = mode_of({n: inits[n] for n in modephis}, mem0, tuple(im) if modephis or not modecells else ()) + ("first",)
        todo.append(m0)
        modes_seen[m0] = 0
        if not usemodes:
            todo = [((), (), (), ())]
            modes_seen = {((), (), (), ()): 0}
        trans = set()
        backmodes = []
        while todo:
            m = todo.pop(0)
            memM = {k: v for k, v in mem0.items() if k not in volatile}
            for k in volatile:
                memM[k] = dcells.get(k, ("itm", key, k))
            for k, v in m[1]:
                if v is not None:
                    memM[k] = v
            for k, v in m[3]:
                memM[k] = v
            ex, backs, rets = run(dict(m[0]), memM, m[2])
            idx = modes_seen[m]
            for ss in ex.values():
                for s in ss:
                    s.hx = not s.ev and s.mem == memM     # nothing happened in the last, partial iteration
            if len(m) > 4:
                # before the first iteration the induction values are the initial ones
                fm = {it[n]: v for n, v in inits.items()}
                fm.update({("itm", key, k): mem0[k] for k in volatile if k in mem0})
                for tgt, ss in ex.items():
                    ss[:] = [s for s in ss if self.rewrite(s, fm)]
                rets = [r for r in rets if self.rewrite(r[0], fm)]
            for tgt, ss in ex.items():
                allex.setdefault(tgt, []).extend((m, s) for s in ss)
            allrets.extend((idx, r) for r in rets)
            for b in backs:
                allbacks.append((m, b))
                backmodes.append((idx, 0))
                if self.back_hook and not self.quiet:
                    self.back_hook(self, frame, hdr, key, m, b, inits, it, idx)
                if not usemodes:
                    continue
                first = len(m) > 4
                nm = mode_of({n: self.age(b.env.get(n), key, first) for n in modephis}, {k: self.age(b.mem.get(k), key, first) for k in modecells}, marks_of(b), cells_of(b, first))
                if nm not in modes_seen:
                    if len(modes_seen) > 12:
                        # widen: everything symbolic
                        nm = ((), (), (), ())
                        if nm in modes_seen:
                            trans.add((idx, modes_seen[nm]))
                            backmodes[-1] = (idx, modes_seen[nm])
                            continue
                    modes_seen[nm] = len(modes_seen)
                    todo.append(nm)
                trans.add((idx, modes_seen[nm]))
                backmodes[-1] = (idx, modes_seen[nm])
        self.carried = outer | carried
        # --- universal summary
        common = None
        for m, b in allbacks:
            new = {a: p for a, p in b.facts.items() if st0.facts.get(a) != p}
            common = new if common is None else {a: p for a, p in common.items() if new.get(a) == p}
        sm = LoopSummary()
        sm.key, sm.fn, sm.line, sm.hdr = key, F, min([i.line for i in hdr.insts if i.line] or [0]), hdr
        sm.inits, sm.steps, sm.phis, sm.derived, sm.trans = inits, steps, it, derived, trans
        sm.backmodes = backmodes
        sm.cells = {k: {v for v in [mem0.get(k)] + [b.mem.get(k) for m, b in allbacks] if v is not None and v != ("itm", key, k)} for k in volatile}
        for m, b in allbacks:
            for k, v in b.mem.items():
                if k not in mem0:
                    sm.cells.setdefault(k, set()).add(v)
        sm.common = common or {}
        sm.modes = list(modes_seen)
        sm.backs = [(m, b.facts, b.ev, {n: b.env.get(n) for n in it}) for m, b in allbacks]
        evs = None
        for m, b in allbacks:
            e = [x for x in b.ev]
            if evs is None:
                evs = e
            else:
                evs = [x for x in evs if x in e]
        sm.events = evs or []
        self.summaries.append(sm)
        # --- outgoing states
        out = {}
        guards = []
        if self.keep_facts:
            for n, t in it.items():
                if t[0] == "it" and t[2] != -1 and n not in derived and allbacks:
                    for c in {inits[n], ZERO}:
                        if c[0] == "int":
                            a, p = atom_eq(t, c)
                            if all(b.facts.get(a) == p for m, b in allbacks):
                                guards.append((t, a, p, n, c))
        for tgt, ss in allex.items():
            for m, s in ss:
                if guards and not all(s.assume(atom_eq(inits[n], c)) for t, a, p, n, c in guards if s.facts.get(a) == p):
                    continue
                if self.keep_loop(sm):
                    xf = frozenset((a, p) for a, p in s.facts.items() if st0.facts.get(a) != p)
                    s.ev = st0.ev + (("loop", key, len(self.summaries) - 1, xf, s.hx, modes_seen[m]),) + s.ev
                else:
                    s.ev = st0.ev + s.ev
                out.setdefault(tgt, []).append(self.leave(s, key, frame))
        for mi, (s, v, line) in allrets:
            xf = frozenset((a, p) for a, p in s.facts.items() if st0.facts.get(a) != p)
            s.ev = st0.ev + ((("loop", key, len(self.summaries) - 1, xf, False, mi),) if self.keep_loop(sm) else ()) + s.ev
            frame["rets"].append((s, v, line))
        return out

    def rewrite(self, s, fm):
        """substitute loop-carried symbols by known values in facts, memory and environment; False if contradictory"""
        f = lambda x: fm.get(x) if x[0] in ("it", "itm") else None

        def sub(x):
            return relin(subst(x, f))
        facts = s.facts
        s.facts = {}
        for a, p in facts.items():
            s.facts[a] = p
        for a, p in facts.items():
            if any(y in fm for y in subterms(a)):
                na, np = reatom(subst(a, f))
                if not s.assume((na, np == p)):
                    return False
        s.mem = {sub(k): sub(v) for k, v in s.mem.items()}
        s.env = {k: sub(v) for k, v in s.env.items()}
        return True

    def induction(self, key, phis, inits, it, backs, volatile, mem0, derived, dcells):
        """express every variable advancing by a constant through one primary counter of the loop"""
        if not backs:
            return

        def step(me, vals):
            r = None
            for v in vals:
                if v is None:
                    return None
                if v[0] == "idx" and v[1] == me and v[3][0] == "int":
                    c = (v[2], v[3][1])
                else:
                    d = add(v, me, -1)
                    if d[0] != "int" or d[1] == 0:
                        return None
                    c = (None, d[1])
                if r is not None and r != c:
                    return None
                r = c
            return r
        st = {}
        for p in phis:
            c = step(it[p.n], [b.env.get(p.n) for b in backs])
            if c and inits[p.n][0] != "undefv":
                st[p.n] = c
        cs = {}
        for k in volatile:
            if k in mem0 and mem0[k][0] != "uninit":
                c = step(("itm", key, k), [b.mem.get(k) for b in backs])
                if c:
                    cs[k] = c
        prim = next((p.n for p in phis if p.n in st and st[p.n][0] is None), None)
        if prim is None:
            if not st and not cs:
                return
            prim = -1
            it[-1], inits[-1] = ("it", key, -1), ZERO
            d, base = 1, it[-1]
        else:
            d = st[prim][1]
            base = add(it[prim], inits[prim], -1)

        def expr(c, init):
            if c[1] % d:
                return None
            off = scale(base, c[1] // d)
            if c[0] is None:
                return add(init, off)
            return self.mk_idx(init, c[0], off)
        for n, c in st.items():
            if n != prim:
                e = expr(c, inits[n])
                if e is not None:
                    derived[n] = e
        for k, c in cs.items():
            e = expr(c, mem0[k])
            if e is not None:
                dcells[k] = e

    def keep_loop(self, sm):
        return True

    def leave(self, s, key, frame):
        return s

    def is_mode(self, p, init, backvals, it, key):
        """flag/head/tail-like value: starts as a constant or fixed term and is replaced by constants, fresh
        objects, itself or addresses inside fresh objects"""
        me = it[p.n] if p is not None else it[None]
        if not backvals:
            return False
        if init[0] == "ret" and all(v is not None and v[0] == "ld" and v[1][0] == "fld" and v[1][1] == me for v in backvals):
            return False            # a plain walk along the list some function returned
        ok = False
        for v in backvals:
            if v == me:
                continue
            if v is None:
                return False
            if v[0] == "alloc" and v[2] in ("realloc", "reallocarray"):
                return False
            if v[0] in ("int", "null", "alloc", "str") or (v[0] == "ret" and v[4] == "cur"):
                ok = True
                continue
            if v[0] in ("fld",) and self.objroot(v)[0] in ("alloc", "ret"):
                ok = True
                continue
            if v[0] == "it" and v[1] == key:
                ok = True
                continue
            if v[0] == "ld" and (init[0] in ("alloc", "ret") or (init == NULL and any(x is not None and x[0] in ("alloc", "ret") for x in backvals))) and self.root(v) == me:
                ok = True
                continue
            return False
        return ok or backvals == {me}

    def age(self, t, key, first):
        """objects created in the first iteration become 'head', in the iteration just finished 'prev', older ones 'old'"""
        if t is None:
            return None
        if t[0] == "it" and t[1] == key:
            return ("itp", key, t[2], "head" if first else "prev")
        if t[0] == "itp" and t[1] == key:
            return t if t[3] == "head" else t[:3] + ("old",)
        if t[0] == "fld":
            return (t[0], self.age(t[1], key, first)) + t[2:]

        def f(x):
            if x[0] in ("alloc", "ret") and key in x[5]:
                return x[:4] + ({"cur": "head" if first else "prev", "head": "head"}.get(x[4], "old"),) + x[5:]
            return None
        return subst(t, f)
