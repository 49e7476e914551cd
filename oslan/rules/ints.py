"""C05 / C06: the integer primitives.

Every primitive is analysed once per precision (the precision argument a constant), all helpers in place; the multi-precision library is
modelled by its documented effect on the value of a number, so that the three precisions produce values in the same language
(polynomials over the operands, truncated quotients and remainders, gcd).  Every returning path is then judged in a finite
partition of the operands (signs, divisibility, equality), by interval arithmetic refined with the facts of the path."""
from ..engine import Engine, Incomplete, lin, unlin, add, scale, lit_of, subterms, ZERO, NORETURN
from ..ir import AnalysisBroken
from .common import *

SP, DP, MP = 32, 64, 0
NAMES = {SP: "32-bit", DP: "64-bit", MP: "multi-precision"}
LMIN, LMAX, IMIN, IMAX = -2 ** 63, 2 ** 63 - 1, -2 ** 31, 2 ** 31 - 1
INF = float("inf")


def A(k):
    return ("arg", k)


def at(k):
    return ("ld", A(k), 0)


def op(o, *a):
    return ("bin", o) + a


def neg(x):
    return scale(x, -1)


def mul(x, y):
    if x[0] == "int":
        return scale(y, x[1])
    if y[0] == "int":
        return scale(x, y[1])
    return ("bin", "mul") + tuple(sorted((x, y), key=repr))


# name -> (position of the precision, kind, ...); the operands are the arguments, by position
SPEC = {
    "init": dict(p=0, out={1: lambda a: ZERO}, fresh={1}),
    "malloc": dict(p=0, ret_obj=ZERO),
    "assign": dict(p=0, out={1: lambda a: a(2)}),
    "set_si": dict(p=0, out={1: lambda a: a(2)}, args={2: 32}),
    "set_long": dict(p=0, out={1: lambda a: a(2)}, args={2: 64}),
    "set_long_long": dict(p=0, out={1: lambda a: a(2)}, args={2: 64}, guard=True),
    "get_si": dict(p=0, ret=lambda a: a(1), guard=True, width=32),
    "get_long": dict(p=0, ret=lambda a: a(1), guard=True, width=64),
    "get_long_long": dict(p=0, ret=lambda a: a(1), guard=True, width=64),
    "get_d": dict(p=0, ret=lambda a: op("sitofp", a(1))),
    "init_set": dict(p=0, out={1: lambda a: a(2)}, fresh={1}),
    "init_set_si": dict(p=0, out={1: lambda a: a(2)}, fresh={1}, args={2: 32}),
    "init_set_long": dict(p=0, out={1: lambda a: a(2)}, fresh={1}, args={2: 64}),
    "init_set_long_long": dict(p=0, out={1: lambda a: a(2)}, fresh={1}, args={2: 64}, guard=True),
    "swap": dict(p=0, out={1: lambda a: at(2), 2: lambda a: at(1)}, swap=True),
    "clear": dict(p=0, clear=1),
    "free": dict(p=0, clear=1, release=True),
    "increment": dict(p=0, out={1: lambda a: add(a(2), ("int", 1))}, guard=True),
    "decrement": dict(p=0, out={1: lambda a: add(a(2), ("int", -1))}, guard=True),
    "add": dict(p=0, out={1: lambda a: add(a(2), a(3))}, guard=True),
    "add_si": dict(p=0, out={1: lambda a: add(a(2), a(3))}, guard=True, args={3: 32}),
    "sub": dict(p=0, out={1: lambda a: add(a(2), a(3), -1)}, guard=True),
    "mul": dict(p=0, out={1: lambda a: mul(a(2), a(3))}, guard=True),
    "mul_si": dict(p=0, out={1: lambda a: mul(a(2), a(3))}, guard=True, args={3: 32}),
    "div_exact": dict(p=0, out={1: lambda a: op("sdiv", a(2), a(3))}, div=(2, 3), exact=True),
    "floor_div_q": dict(p=0, out={1: lambda a: op("fdiv", a(2), a(3))}, div=(2, 3)),
    "floor_div_r": dict(p=0, out={1: lambda a: op("frem", a(2), a(3))}, div=(2, 3)),
    "floor_div_q_r": dict(p=0, out={1: lambda a: op("fdiv", a(3), a(4)), 2: lambda a: op("frem", a(3), a(4))}, div=(3, 4)),
    "mod": dict(p=0, out={1: lambda a: op("emod", a(2), a(3))}, div=(2, 3)),
    "gcd": dict(p=0, out={1: lambda a: op("abs", op("gcd", a(2), a(3)))}, sgn=[op("gcd", A(2), A(3))]),
    "lcm": dict(p=0, out={1: lambda a: op("lcm", a(2), a(3))}, sgn=[A(2), A(3), op("gcd", A(2), A(3))]),
    "oppose": dict(p=0, out={1: lambda a: neg(a(2))}, guard=True),
    "abs": dict(p=0, out={1: lambda a: op("abs", a(2))}, sgn=[A(2)], guard=True),
    "eq": dict(p=0, test=lambda d: d == 0, diff=(1, 2)),
    "ne": dict(p=0, test=lambda d: d != 0, diff=(1, 2)),
    "lt": dict(p=0, test=lambda d: d < 0, diff=(1, 2)),
    "le": dict(p=0, test=lambda d: d <= 0, diff=(1, 2)),
    "gt": dict(p=0, test=lambda d: d > 0, diff=(1, 2)),
    "ge": dict(p=0, test=lambda d: d >= 0, diff=(1, 2)),
    "pos": dict(p=0, test=lambda d: d > 0, diff=(1, 0)),
    "neg": dict(p=0, test=lambda d: d < 0, diff=(1, 0)),
    "zero": dict(p=0, test=lambda d: d == 0, diff=(1, 0)),
    "one": dict(p=0, test=lambda d: d == 0, diff=(1, 1)),
    "mone": dict(p=0, test=lambda d: d == 0, diff=(1, -1)),
    "divisible": dict(p=0, div=(1, 2), divisible=True),
    "set_precision": dict(p=0, convert=True),
    "print": dict(p=1, text=True),
    "sprint": dict(p=1, text=True),
    "sprint_txt": dict(p=1, text=True),
    "sscanf": dict(p=1, scan=2),
    "sread": dict(p=1, scan=2),
    "size_in_base_2": dict(p=0, size=2),
    "size_in_base_10": dict(p=0, size=10),
    "is_precision_supported": dict(p=0, supported=True),
}
DIVIDING = ("div_exact", "floor_div_q", "floor_div_r", "floor_div_q_r", "mod", "divisible", "gcd")
UNARY_DIFF = {"pos", "neg", "zero", "one", "mone"}


# --------------------------------------------------------------------------------- the analysed program
class IntEngine(Engine):
    def __init__(self, M, prec, **kw):
        super().__init__(M, models=gmp_models(), max_states=4000, depth=12, track=lambda n: True, **kw)
        self.keep_facts = True
        self.prec = prec
        self.problems = []
        self.blocks = set()

    def exec(self, frame, i, s):
        if i.op == "load" and i.ops[0].k == "inst" and i.ops[0].v.op == "gep" and i.ops[0].v.sty == "struct.__mpz_struct":
            a = self.val(i.ops[0], s, frame["args"])
            if a[0] == "fld" and a[3] == 1:
                s.env[i.n] = self.num(s, a[1], i)      # only its sign is meaningful, which is the sign of the number
                return [s]
        if i.op in ("add", "sub", "mul", "sdiv", "srem") and i.ty in ("i32", "i64"):
            a, b = (self.val(o, s, frame["args"]) for o in i.ops)
            s.ev = s.ev + (("arith", i.op, a, b, int(i.ty[1:]), i.line, frozenset(s.facts.items())),)
        if i.op == "trunc" and i.ty in ("i32", "i16", "i8"):
            v = self.val(i.ops[0], s, frame["args"])
            s.env[i.n] = v if v[0] == "lit" else op("trunc" + i.ty[1:], v)
            s.ev = s.ev + (("arith", "trunc", v, None, int(i.ty[1:]), i.line, frozenset(s.facts.items())),)
            return [s]
        if i.op == "zext" and i.ops[0].ty in ("i32", "i16", "i8"):
            v = self.val(i.ops[0], s, frame["args"])
            s.env[i.n] = v if v[0] in ("lit", "int") else op("zext", v)
            return [s]
        if i.op == "extractvalue":
            v = self.val(i.ops[0], s, frame["args"])
            if v[0] == "pair":
                s.env[i.n] = v[1 + i.cases[0]]
                return [s]
        return super().exec(frame, i, s)

    # ---- numbers of the multi-precision library: the value at address p
    def num(self, s, p, i):
        c = ("fld", p, "mpz", 0)
        v = s.mem.get(c)
        if v is not None:
            return v
        if p[0] in ("alloc", "alloca", "uninit"):
            self.problems.append((i.line, "a number is used before it is initialised"))
            return op("unset", p)
        for k in s.mem:
            if k[0] == "fld" and k[2] == "mpz" and k[1][0] not in ("alloc", "alloca"):
                return op("stale", p)        # the result may be the same number as this operand
        return p

    def put(self, s, p, v, i, init=False):
        c = ("fld", p, "mpz", 0)
        if init:
            if p[0] not in ("alloc", "alloca"):
                self.problems.append((i.line, "a number is initialised in memory not obtained for it"))
            elif c in s.mem:
                self.problems.append((i.line, "a number is initialised twice"))
        elif p[0] in ("alloc", "alloca", "uninit") and c not in s.mem:
            self.problems.append((i.line, "a number is written before it is initialised"))
        s.mem[c] = v


def gmp_models():
    m = {}

    def d(name, f):
        m["__gmpz_" + name] = f

    def setter(f, n, init=False):
        def g(E, fr, i, s, a):
            vs = [E.num(s, x, i) if k else None for k, x in enumerate(a)] if n else None
            E.put(s, a[0], f(*vs[1:]) if n else f(*a[1:]), i, init)
            return [s]
        return g

    def mixed(f):
        def g(E, fr, i, s, a):
            E.put(s, a[0], f(E.num(s, a[1], i), a[2]), i)
            return [s]
        return g

    d("init", lambda E, fr, i, s, a: (E.put(s, a[0], ZERO, i, True), [s])[1])
    d("init2", lambda E, fr, i, s, a: (E.put(s, a[0], ZERO, i, True), [s])[1])
    d("init_set", setter(lambda x: x, True, True))
    d("set", setter(lambda x: x, True))
    for k in ("si", "ui"):
        d("init_set_" + k, setter(lambda x: x, False, True))
        d("set_" + k, setter(lambda x: x, False))
        d("add_" + k, mixed(add))
        d("sub_" + k, mixed(lambda x, y: add(x, y, -1)))
        d("mul_" + k, mixed(mul))
    d("add", setter(add, True))
    d("sub", setter(lambda x, y: add(x, y, -1), True))
    d("mul", setter(mul, True))
    d("neg", setter(neg, True))
    d("abs", setter(lambda x: op("abs", x), True))
    for n, o in (("divexact", "sdiv"), ("tdiv_q", "sdiv"), ("tdiv_r", "srem"), ("fdiv_q", "fdiv"), ("fdiv_r", "frem"), ("mod", "emod"),
                 ("cdiv_q", "cdiv"), ("cdiv_r", "crem")):
        d(n, setter(lambda x, y, o=o: op(o, x, y), True))
    d("gcd", setter(lambda x, y: op("abs", op("gcd", x, y)), True))
    d("lcm", setter(lambda x, y: op("lcm", x, y), True))

    def qr(o1, o2):
        def g(E, fr, i, s, a):
            x, y = E.num(s, a[2], i), E.num(s, a[3], i)
            E.put(s, a[0], op(o1, x, y), i)
            E.put(s, a[1], op(o2, x, y), i)
            return [s]
        return g
    d("fdiv_qr", qr("fdiv", "frem"))
    d("tdiv_qr", qr("sdiv", "srem"))

    def swap(E, fr, i, s, a):
        x, y = E.num(s, a[0], i), E.num(s, a[1], i)
        E.put(s, a[0], y, i)
        E.put(s, a[1], x, i)
        return [s]
    d("swap", swap)

    def getter(f):
        def g(E, fr, i, s, a):
            s.env[i.n] = f(E.num(s, a[0], i), *a[1:])
            return [s]
        return g
    # only the sign of a comparison is defined: the difference has it
    d("cmp", lambda E, fr, i, s, a: (s.env.__setitem__(i.n, add(E.num(s, a[0], i), E.num(s, a[1], i), -1)), [s])[1])
    for k in ("si", "ui"):
        d("cmp_" + k, getter(lambda x, y: add(x, y, -1)))
    d("cmpabs", lambda E, fr, i, s, a: (s.env.__setitem__(i.n, add(op("abs", E.num(s, a[0], i)), op("abs", E.num(s, a[1], i)), -1)), [s])[1])
    d("cmpabs_ui", getter(lambda x, y: add(op("abs", x), y, -1)))
    d("get_si", getter(lambda x: op("getsi", x)))
    d("get_ui", getter(lambda x: op("getui", x)))
    d("get_d", getter(lambda x: op("sitofp", x)))
    d("sizeinbase", getter(lambda x, b: op("size", x, b)))

    def divisible(E, fr, i, s, a):
        s.env[i.n] = ("lit", ("peq", op("srem", E.num(s, a[0], i), E.num(s, a[1], i)), NULL), True)
        return [s]
    d("divisible_p", divisible)

    def fits(lo, hi):
        def g(E, fr, i, s, a):
            x = E.num(s, a[0], i)
            out = []
            for k, r in ((0, 1), (1, 0), (2, 0)):
                c = s.copy()
                up, dn = E.icmp("sle", x, ("int", hi)), E.icmp("sge", x, ("int", lo))
                good = {0: lambda: c.assume((up[1], up[2])) and c.assume((dn[1], dn[2])), 1: lambda: c.assume((up[1], not up[2])), 2: lambda: c.assume((dn[1], not dn[2]))}[k]()
                if good:
                    c.env[i.n] = ("int", r)
                    out.append(c)
            return out
        return g
    d("fits_sint_p", fits(IMIN, IMAX))
    d("fits_slong_p", fits(LMIN, LMAX))

    def clear(E, fr, i, s, a):
        E.num(s, a[0], i)
        s.mem.pop(("fld", a[0], "mpz", 0), None)
        s.ev = s.ev + (("cleared", a[0]),)
        return [s]
    d("clear", clear)

    def get_str(E, fr, i, s, a):
        t = ("alloc", E.site(fr, i), "malloc", (op("digits", E.num(s, a[2], i), a[1]),), "cur", ())
        s.env[i.n] = a[0] if a[0] not in (NULL, ZERO) else t
        s.mem[("fld", s.env[i.n], "text", 0)] = op("digits", E.num(s, a[2], i), a[1])
        return [s]
    d("get_str", get_str)

    # absolute values and checked arithmetic of the compiler
    def abs_(E, fr, i, s, a):
        s.env[i.n] = op("abs", a[0])
        s.ev = s.ev + (("arith", "abs", a[0], None, int(i.ty[1:]), i.line, frozenset(s.facts.items())),)
        return [s]
    for n in ("llvm.abs.i64", "llvm.abs.i32", "labs", "llabs", "abs"):
        m[n] = abs_

    def checked(f):
        def g(E, fr, i, s, a):
            r = f(a[0], a[1])
            w = 32 if i.callee.v.endswith("i32") else 64
            lo, hi = -2 ** (w - 1), 2 ** (w - 1) - 1
            out = []
            for k in (0, 1, 2):
                c = s.copy()
                up, dn = E.icmp("sle", r, ("int", hi)), E.icmp("sge", r, ("int", lo))
                if {0: lambda: c.assume((up[1], up[2])) and c.assume((dn[1], dn[2])), 1: lambda: c.assume((up[1], not up[2])), 2: lambda: c.assume((dn[1], not dn[2]))}[k]():
                    c.env[i.n] = ("pair", r if k == 0 else op("wrapped", r), ("int", 1 if k else 0))
                    out.append(c)
            return out
        return g
    for w in ("i32", "i64"):
        for n, f in (("add", add), ("sub", lambda x, y: add(x, y, -1)), ("mul", mul)):
            m[f"llvm.s{n}.with.overflow.{w}"] = checked(f)
    return m


# --------------------------------------------------------------------------------- intervals under the facts of a path
class View:
    """one class of operands on one path: intervals"""
    def __init__(self, prec, widths, facts, given=None, guess=None):
        self.prec, self.widths = prec, widths
        self.given = given or {}            # term -> interval of this class
        self.facts = list(facts)
        self.depth = 0
        self.subst = False                  # operands known to be constants are replaced in values
        self.rem0 = set()                   # (a, b) with a % b == 0

    def base(self, t):
        if t in self.given:
            lo, hi = self.given[t]
            if t[0] == "bin" and t[1] == "sdiv":
                a, b = self.quotient(t[2], t[3])
                lo, hi = max(lo, a), min(hi, b)
            return lo, hi
        k = t[0]
        if k == "int":
            return (t[1], t[1])
        if k == "null":
            return (0, 0)
        if k == "arg":
            w = self.widths.get(t[1])
            if w:
                return (-2 ** (w - 1), 2 ** (w - 1) - 1)
            return (-INF, INF) if self.prec == MP else (LMIN, LMAX)
        if k == "lit":
            v = self.truth(t[1])
            return (0, 1) if v is None else (int(v == t[2]),) * 2
        if k == "bin":
            o = t[1]
            if o.startswith("trunc"):
                w = int(o[5:])
                lo, hi = self.iv(t[2])
                return (lo, hi) if lo >= -2 ** (w - 1) and hi < 2 ** (w - 1) else (-2 ** (w - 1), 2 ** (w - 1) - 1)
            if o == "abs":
                lo, hi = self.iv(t[2])
                return (lo, hi) if lo >= 0 else (-hi, -lo) if hi <= 0 else (0, max(-lo, hi))
            if o == "mul":
                return self.product(t[2], t[3])
            if o == "sdiv":
                return self.quotient(t[2], t[3])
            if o == "fdiv":
                lo, hi = self.quotient(t[2], t[3])
                return (lo - 1, hi) if lo < 0 or hi <= 0 else (lo, hi)
            if o == "srem":
                lo, hi = self.iv(t[2])
                return (min(lo, 0), max(hi, 0))
            if o == "xor":
                (al, ah), (bl, bh) = self.iv(t[2]), self.iv(t[3])
                if al >= 0 and bl >= 0 or ah < 0 and bh < 0:
                    return (0, INF)
                if al >= 0 and bh < 0 or bl >= 0 and ah < 0:
                    return (-INF, -1)
            if o == "getsi":
                lo, hi = self.iv(t[2])
                return (lo, hi) if lo >= LMIN and hi <= LMAX else (LMIN, LMAX)
            if o == "gcd":
                u = self.unsign(t)[1]
                if u in self.given:
                    return self.given[u]
        return (-INF, INF) if self.prec == MP else (LMIN, LMAX)

    def quotient(self, x, y):
        xl, xh = self.iv(x)
        yl, yh = self.iv(y)
        m = max(abs(xl), abs(xh))
        if yl == yh and abs(yl) == 1:
            return (xl, xh) if yl == 1 else (-xh, -xl)
        d = 1
        if self.given.get(op("srem", x, y), (0, 0)) != (0, 0):
            d = 2                                # there is a remainder: the divisor is not a unit
        if m != INF:
            xl, xh, m = -(-xl // d), xh // d, m // d
        if yl >= 1:
            return (min(xl, 0), max(xh, 0))
        if yh <= -1:
            return (min(-xh, 0), max(-xl, 0))
        return (-m, m)

    def relations(self, x):
        """[(relation, constant K, divisor y)]  x <= K / y  or  x >= K / y (truncated quotient)"""
        out = []
        for (a, p) in self.facts:
            if a[0] != "le0":
                continue
            c, m = lin(a[1])
            if len(m) != 2 or x not in m or abs(m[x]) != 1:
                continue
            q = next(k for k in m if k != x)
            if m[q] != -m[x] or q[0] != "bin" or q[1] != "sdiv" or q[2][0] != "int":
                continue
            # p: m[x]*(x - q) + c <= 0 ; not p: >= 1
            sg = m[x]
            if p:
                r, c2 = ("<=", -c) if sg == 1 else (">=", c)
            else:
                r, c2 = (">=", 1 - c) if sg == 1 else ("<=", c - 1)
            out.append((r, c2, q[2][1], q[3]))       # x r K/y + c2
        return out

    def product(self, x, y):
        (xl, xh), (yl, yh) = self.iv(x), self.iv(y)
        ps = [a * b if a and b else 0 for a in (xl, xh) for b in (yl, yh)]
        lo, hi = min(ps), max(ps)
        for u, v in ((x, y), (y, x)):
            if u[0] == "bin" and u[1] == "sdiv" and u[3] == v:
                a, b = self.iv(u[2])           # between zero and the dividend
                lo, hi = max(lo, min(a, 0)), min(hi, max(b, 0))
            (vl, vh) = self.iv(v)
            (ul, uh) = self.iv(u)
            for r, c, K, w in self.relations(u):
                if w != v:
                    continue
                if vl >= 1:
                    if r == "<=" and c <= 0 and K >= 0 and ul >= 0:
                        hi = min(hi, K)
                    if r == ">=" and c >= 0 and K <= 0 and uh <= 0:
                        lo = max(lo, K)
                    if r == ">=" and c >= 1 and K >= 0:
                        lo = max(lo, K + 1)
                    if r == "<=" and c <= -1 and K <= 0:
                        hi = min(hi, K - 1)
                if vh <= -1:
                    if r == ">=" and c >= 0 and K >= 0 and uh <= 0:
                        hi = min(hi, K)
                    if r == "<=" and c <= 0 and K <= 0 and ul >= 0:
                        lo = max(lo, K)
                    if r == "<=" and c <= -1 and K >= 0:
                        lo = max(lo, K + 1)
                    if r == ">=" and c >= 1 and K <= 0:
                        hi = min(hi, K - 1)
        return (lo, hi)

    def iv(self, t):
        """interval of a term: its own, the sum of its parts, the facts with the same linear part"""
        if self.depth > 6:
            return (-INF, INF)
        self.depth += 1
        try:
            c, m = lin(t)
            if not m:
                return (c, c)
            if len(m) == 1:
                (k, n), = m.items()
                lo, hi = self.base(k)
                lo, hi = (lo * n, hi * n) if n > 0 else (hi * n, lo * n)
            else:
                lo = hi = 0
                for k, n in m.items():
                    a, b = self.iv(k)
                    lo, hi = lo + (a * n if n > 0 else b * n), hi + (b * n if n > 0 else a * n)
                for f, (a, b) in self.given.items():
                    fc, fm = lin(f)
                    if fm == m:
                        lo, hi = max(lo, a - fc), min(hi, b - fc)
                    elif fm == {k: -n for k, n in m.items()}:
                        lo, hi = max(lo, fc - b), min(hi, fc - a)
            ne = set()
            for a, p in self.facts:
                if a[0] == "peq" and a[2] == NULL:
                    fc, fm = lin(a[1])
                elif a[0] in ("le0", "eq0"):
                    fc, fm = lin(a[1])
                else:
                    continue
                if len(fm) != len(m):
                    continue
                sg = 1 if fm == m else -1 if all(fm.get(k) == -n for k, n in m.items()) else 0
                if not sg:
                    continue
                if a[0] == "le0":
                    # p: sg*S + fc <= 0
                    if p:
                        lo, hi = (lo, min(hi, -fc)) if sg == 1 else (max(lo, fc), hi)
                    else:
                        lo, hi = (max(lo, 1 - fc), hi) if sg == 1 else (lo, min(hi, fc - 1))
                elif p:
                    lo, hi = max(lo, -fc * sg), min(hi, -fc * sg)
                else:
                    ne.add(-fc * sg)
            while lo in ne:
                lo += 1
            while hi in ne:
                hi -= 1
            return (lo + c, hi + c)
        finally:
            self.depth -= 1

    def truth(self, a):
        r = self.truth1(a)
        if r is None and a[0] in ("le0", "eq0", "peq") and self.depth == 0 and any(u[0] == "bin" and u[1] == "mul" for u in subterms(a)):
            t = self.canon(add(a[1], a[2], -1) if a[0] == "peq" and a[2] != NULL else a[1])
            r = self.truth1(("le0", t) if a[0] == "le0" else ("eq0", t))
        return r

    def truth1(self, a):
        if a[0] in ("true", "false"):
            return a[0] == "true"
        if a[0] == "le0":
            lo, hi = self.iv(a[1])
            return True if hi <= 0 else False if lo > 0 else None
        if a[0] == "peq" and a[2] == NULL:
            lo, hi = self.iv(a[1])
        elif a[0] == "eq0":
            lo, hi = self.iv(a[1])
        elif a[0] == "peq":
            lo, hi = self.iv(add(a[1], a[2], -1))
        else:
            return None
        return True if lo == hi == 0 else False if lo > 0 or hi < 0 else None

    def feasible(self):
        """False when some fact contradicts the class; the facts that stay open"""
        open_ = []
        for a, p in self.facts:
            keep, self.facts = self.facts, [f for f in self.facts if f[0] != a]
            v = self.truth(a)
            self.facts = keep
            if v is None:
                open_.append((a, p))
            elif v != p:
                return False, []
        for t, g in self.given.items():
            lo, hi = self.iv(t)
            if lo > hi:
                return False, []
            if t[0] == "bin" and t[1] in ("srem", "sdiv") and self.iv(t[3]) in ((1, 1), (-1, -1)):
                if t[1] == "srem" and g != (0, 0) or t[1] == "sdiv" and g == (0, 0) and self.given.get(t[2]) != (0, 0):
                    return False, []
        # several facts about the same quantity
        for a, p in self.facts:
            if a[0] in ("le0", "eq0", "peq"):
                lo, hi = self.iv(a[1])
                if lo > hi:
                    return False, []
        return True, open_

    # ---- values as polynomials
    def poly(self, t):
        c, m = lin(t)
        r = {(): c} if c else {}
        for k, n in m.items():
            r = padd(r, self.term(k), n)
        return self.reduce(r)

    def sign(self, t):
        lo, hi = self.iv(t)
        return 1 if lo >= 0 else -1 if hi <= 0 else 0

    def unsign(self, t):
        """(sign, term): the sign pulled out of a term"""
        if t[0] == "bin" and t[1] == "abs":
            s = self.sign(t[2])
            if s:
                k, u = self.unsign(t[2])
                return s * k, u
        c, m = lin(t)
        if c == 0 and m and all(v < 0 for v in m.values()):
            return -1, neg(t)
        if t[0] == "int" and t[1] < 0:
            return -1, ("int", -t[1])
        if t[0] == "bin" and t[1] == "gcd":
            x, y = sorted((self.unsign(t[2])[1], self.unsign(t[3])[1]), key=repr)
            while x[0] == "bin" and x[1] == "abs":
                x = x[2]
            while y[0] == "bin" and y[1] == "abs":
                y = y[2]
            return 1, op("gcd", *sorted((x, y), key=repr))
        return 1, t

    def term(self, k):
        one = lambda t: {(t,): 1}
        lo, hi = self.given.get(k, (0, 1))
        if self.subst and k[0] == "arg" and lo != hi:
            lo, hi = self.iv(k)
        if lo == hi:
            return {(): lo} if lo else {}
        if k[0] != "bin":
            return one(k)
        o = k[1]
        if o == "mul":
            return pmul(self.poly(k[2]), self.poly(k[3]))
        if o == "abs":
            s = self.sign(k[2])
            return pscale(self.poly(k[2]), s) if s else one(op("abs", self.canon(k[2])))
        if o.startswith("trunc"):
            w = int(o[5:])
            lo, hi = self.iv(k[2])
            if lo >= -2 ** (w - 1) and hi < 2 ** (w - 1):
                return self.poly(k[2])
            return one(k)
        if o == "getsi":
            lo, hi = self.iv(k[2])
            return self.poly(k[2]) if lo >= LMIN and hi <= LMAX else one(k)
        if o == "zext":
            return self.poly(k[2]) if self.iv(k[2])[0] >= 0 else one(k)
        if o in ("sdiv", "srem", "fdiv", "frem", "emod", "cdiv", "crem"):
            s1, x = self.unsign(self.canon(k[2]))
            s2, y = self.unsign(self.canon(k[3]))
            if x == ZERO:
                return {}
            if y == ("int", 1):
                return pscale(self.poly(x), s1 * s2) if o in ("sdiv", "fdiv", "cdiv") else {}
            if o == "sdiv":
                return pscale(self.q(x, y), s1 * s2)
            if o == "srem":
                return pscale(self.r(x, y), s1)
            x, y = self.canon(k[2]), self.canon(k[3])
            if (self.sign(x), self.sign(y)) == (0, 0) or not self.decided(x, y):
                return one(op(o, x, y))
            ex = self.exact(x, y)
            same = self.sign(x) == self.sign(y)
            q, r = self.poly(op("sdiv", x, y)), self.poly(op("srem", x, y))
            if o == "fdiv":
                return q if ex or same else padd(q, {(): 1}, -1)
            if o == "frem":
                return r if ex or same else padd(r, self.poly(y))
            if o == "emod":
                return r if ex or self.sign(x) > 0 else padd(r, self.poly(op("abs", y)))
            return one(op(o, x, y))
        if o == "gcd":
            s, t = self.unsign(k)
            if t in self.given and self.given[t][0] == self.given[t][1]:
                return {(): self.given[t][0]} if self.given[t][0] else {}
            return {(t,): s}
        if o == "lcm":
            s, g = self.unsign(op("gcd", k[2], k[3]))
            if g in self.given and self.given[g] == (0, 0):
                return {}
            return self.poly(mul(op("sdiv", op("abs", k[2]), op("abs", g)), op("abs", k[3])))
        return one(("bin", o) + tuple(self.canon(x) if isinstance(x, tuple) else x for x in k[2:]))

    def decided(self, x, y):
        return op("srem", x, y) in self.given

    def exact(self, x, y):
        return self.given.get(op("srem", x, y)) == (0, 0)

    def q(self, x, y):
        t = op("sdiv", x, y)
        return {} if self.given.get(t) == (0, 0) else {(t,): 1}

    def r(self, x, y):
        t = op("srem", x, y)
        if self.given.get(t) == (0, 0):
            return {}
        if self.given.get(op("sdiv", x, y)) == (0, 0):
            return self.poly(x)
        return {(t,): 1}

    def canon(self, t):
        return frompoly(self.poly(t))

    def reduce(self, p):
        """(a / b) * b  =  a - a % b"""
        out = {}
        for mono, n in p.items():
            hit = None
            for t in mono:
                if t[0] == "bin" and t[1] == "sdiv" and t[3] in [u for u in mono if u is not t]:
                    hit = t
                    break
            if hit is None or hit[3][0] == "bin" and hit[3][1] == "gcd":
                out = padd(out, {mono: n})
                continue
            rest = list(mono)
            rest.remove(hit)
            rest.remove(hit[3])
            rep = padd(self.poly(hit[2]), self.r(hit[2], hit[3]), -1)
            out = padd(out, pmul({tuple(rest): n}, rep))
        return out


def padd(a, b, n=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + n * v
        if not r[k]:
            del r[k]
    return r


def pscale(a, n):
    return {k: v * n for k, v in a.items() if v * n}


def pmul(a, b):
    r = {}
    for k, v in a.items():
        for l, w in b.items():
            r = padd(r, {tuple(sorted(k + l, key=repr)): v * w})
    return r


def frompoly(p):
    r = ("int", 0)
    for mono, n in sorted(p.items(), key=repr):
        if not mono:
            r = add(r, ("int", n))
        else:
            t = mono[0]
            for u in mono[1:]:
                t = mul(t, u)
            r = add(r, scale(t, n))
    return r


KNOWN_OPS = {"mul", "sdiv", "srem", "abs", "trunc32", "trunc16", "trunc8", "getsi", "zext", "fdiv", "frem", "emod", "cdiv", "crem", "gcd", "lcm", "sitofp",
             "unset", "stale", "size", "digits", "and", "or", "xor", "shl", "ashr", "lshr", "wrapped"}


def understood(t):
    for s in [t] if not isinstance(t, tuple) else subterms(t):
        if s[0] in ("ret", "call", "it", "itp", "itm", "pair") or s[0] == "bin" and s[1] not in KNOWN_OPS:
            return False
    return True


# --------------------------------------------------------------------------------- Euclid
def euclid(M):
    """functions of two integers that return their greatest common divisor up to its sign, as the recursion shows"""
    good, badly = {}, {}
    for n, F_ in sorted(M.funcs.items()):
        if F_.decl or F_.nparams != 2 or any(i.op in ("store", "load") for i in F_.insts):
            continue
        calls = [i for i in F_.insts if i.op == "call" and i.callee.k == "func"]
        rec = [i for i in calls if i.callee.v == n]
        if len(rec) != 1 or len(calls) != 1:
            continue
        E = IntEngine(M, SP)
        res = E.analyse(n)
        fine = bool(res.rets)
        why = None
        for s, v, l in res.rets:
            b0 = s.decide(("peq", A(1), NULL))
            a0 = s.decide(("peq", A(0), NULL))
            if v == A(0) and b0 is True or v == A(1) and a0 is True:
                continue
            if v[0] in ("ret", "call") and v[1] == n:
                x = tuple(v[2])
                if any(s.decide(("eq0", add(A(k), ("int", -u)))) is True and set(x) == {A(k), ZERO} for k in (0, 1) for u in (1, -1)):
                    continue
                if b0 is False and set(x) == {A(1), op("srem", A(0), A(1))} or a0 is False and set(x) == {A(0), op("srem", A(1), A(0))} or x == (A(1), A(0)) and False:
                    continue
            fine, why = False, (l, show(M, v))
        (good if fine else badly)[n] = why
    return good, badly


# --------------------------------------------------------------------------------- classes of operands
POS, NEG, NIL = (1, INF), (-INF, -1), (0, 0)


def clip(iv, lo, hi):
    return (max(iv[0], lo), min(iv[1], hi))


def classes(spec, prec, mp):
    """[{term: interval}]"""
    lo, hi = (-INF, INF) if prec == MP else (LMIN, LMAX)
    sg = [clip(POS, lo, hi), clip(NEG, lo, hi), NIL]
    if "div" in spec:
        a, b = (A(k) for k in spec["div"])
        out = []
        for sa in (1, -1, 0):
            for sb in (1, -1):
                for rz in (True, False):
                    for tz in (True, False):
                        if sa == 0 and not (rz and tz) or sa and rz and tz or spec.get("exact") and not rz:
                            continue
                        g = {a: sg[{1: 0, -1: 1, 0: 2}[sa]], b: sg[0 if sb > 0 else 1]}
                        t, r = op("sdiv", a, b), op("srem", a, b)
                        g[t] = NIL if tz else POS if sa * sb > 0 else NEG
                        g[r] = NIL if rz else sg[0 if sa > 0 else 1]
                        out.append(g)
        return out
    if "diff" in spec:
        a, b = spec["diff"]
        d = add(A(a), A(b), -1) if spec["binary"] else add(A(a), ("int", b), -1)
        out = []
        for k in (-1, 0, 1):
            c, m = lin(d)
            iv = {-1: (-INF, -1), 0: (0, 0), 1: (1, INF)}[k]
            if len(m) == 1:
                out.append(({A(a): clip((iv[0] - c, iv[1] - c), lo, hi)}, k))
            else:
                out.append(({d: iv}, k))
        return out
    ts = spec.get("sgn")
    if ts is None:
        ts = [A(k) for k in (2, 3)] if spec.get("two") else []
    out = [{}]
    for t in ts:
        out = [dict(g, **{}) | {t: v} for g in out for v in sg]
    # the gcd is zero exactly when both are
    g_ = [t for t in ts if t[0] == "bin" and t[1] == "gcd"]
    if g_ and len(ts) == 3:
        out = [g for g in out if (g[g_[0]] == NIL) == (g[ts[0]] == NIL and g[ts[1]] == NIL)]
    return out


class Ints:
    def __init__(self, M, rep):
        self.M, self.rep = M, rep
        self.good, self.badly = euclid(M)
        self.cache = {}

    def paths(self, fn, prec, spec):
        k = (fn, prec)
        if k in self.cache:
            return self.cache[k]
        F_ = self.M.funcs.get(fn)
        if F_ is None or F_.decl:
            raise AnalysisBroken(f"{fn} not found")
        E = IntEngine(self.M, prec)
        for n in self.good:
            E.models[n] = lambda E_, fr, i, s, a: (s.env.__setitem__(i.n, op("gcd", a[0], a[1])), [s])[1]
        args = [A(i) for i in range(F_.nparams)]
        if prec is not None:
            args[spec["p"]] = ("int", prec)
        try:
            res = E.analyse(fn, args=args)
        except Incomplete as e:
            res = None
        self.cache[k] = (E, res)
        return self.cache[k]

    # ------------------------------------------------------------------ C05
    def dispatch(self):
        for name, spec in SPEC.items():
            fn = "osl_int_" + name
            for prec in (SP, DP, MP):
                self.one(fn, name, dict(spec, binary=name not in UNARY_DIFF), prec)
            self.refused(fn, name, spec)

    def refused(self, fn, name, spec):
        E, res = self.paths(fn, None, spec)
        if res is None:
            return self.rep.undec(fn, "int-precision", "too many paths")
        p = A(spec["p"])
        for s, v, l in res.rets:
            st = s.copy()
            if any(st.decide(("eq0", add(p, ("int", -k)))) is True for k in (SP, DP)) or st.decide(("peq", p, NULL)) is True:
                continue
            if spec.get("supported"):
                if v == ZERO:
                    continue
                return self.rep.bad(fn, l, "int-precision", f"a precision other than 32, 64 or 0 is said to be supported", key=f"{fn}:other")
            if spec.get("convert") and (st.decide(("eq0", add(A(0), A(1), -1))) is True or st.decide(("eq0", add(A(1), A(0), -1))) is True or st.decide(("peq", A(2), NULL)) is True):
                continue
            return self.rep.bad(fn, l, "int-precision", f"an unknown precision is not refused", key=f"{fn}:other")
        self.rep.ok(fn, "int-precision", "any other precision is refused")

    def one(self, fn, name, spec, prec):
        rep = self.rep
        E, res = self.paths(fn, prec, spec)
        P = NAMES[prec]
        if res is None:
            return rep.undec(fn, "int-value", f"{P}: too many paths")
        key = f"{fn}:{prec}"
        if not res.rets and not (spec.get("text") or False):
            return rep.bad(fn, 0, "int-value", f"{P}: never returns", key=key + ":never")
        for l, w in E.problems:
            rep.bad(fn, l, "int-storage", f"{P}: {w}", key=key + ":storage")
        widths = dict(spec.get("args", {}))
        if spec.get("supported"):
            for s, v, l in res.rets:
                if v != ("int", 1):
                    return rep.bad(fn, l, "int-value", f"{P} is said not to be supported", key=key)
            return rep.ok(fn, "int-value", P)
        if spec.get("text"):
            return self.text(fn, spec, prec, res, key)
        if spec.get("scan"):
            return self.scan(fn, spec, prec, res, key)
        if "size" in spec:
            return self.size(fn, spec, prec, E, res, key)
        if "clear" in spec:
            return self.clear(fn, spec, prec, res, key)
        if spec.get("convert"):
            return self.convert(fn, spec, prec)
        for s, v, l in res.rets:
            if not self.judge(fn, spec, prec, s, v, l, widths, key):
                return
        rep.ok(fn, "int-value", f"{P}: {len(res.rets)} paths")

    def operand(self, prec):
        return A

    def pointer(self, s, k):
        return s.mem.get(A(k), at(k))

    def result(self, s, k, prec, fresh, swap=False):
        """(value, problem)"""
        if prec != MP:
            return s.mem.get(A(k), at(k)), None
        p = self.pointer(s, k)
        c = s.mem.get(("fld", p, "mpz", 0))
        if fresh:
            if p[0] != "alloc":
                return None, "the number is given no storage of its own"
        elif p != at(k) and not (swap and p in (at(1), at(2))):
            return None, "the number gives up its own storage"
        return (p if c is None else c), None

    def judge(self, fn, spec, prec, s, v, l, widths, key):
        rep, P = self.rep, NAMES[prec]
        outs = spec.get("out", {})
        facts = list(s.facts.items())
        # written places
        legal = {A(k) for k in outs}
        for a in s.mem:
            r = Engine.root(a)
            if r[0] == "arg" and a not in legal and not (a[0] == "fld" and a[2] == "mpz" and any(a[1] == at(k) for k in outs)):
                rep.bad(fn, l, "int-writes", f"{P}: writes {show(self.M, a)}, which is not its result", key=key + ":writes")
                return False
        todo = []
        for k, f in outs.items():
            val, bad = self.result(s, k, prec, k in spec.get("fresh", ()), spec.get("swap"))
            if bad:
                rep.bad(fn, l, "int-storage", f"{P}: {bad}", key=key + ":storage")
                return False
            todo.append((val, f(self.operand(prec)), f"result {k}"))
        if "ret" in spec:
            todo.append((v, spec["ret"](A), "the value given back"))
        if "ret_obj" in spec:
            if v[0] != "alloc":
                rep.bad(fn, l, "int-value", f"{P}: gives back {show(self.M, v)}", key=key)
                return False
            val = s.mem.get(v)
            if prec == MP:
                val = s.mem.get(("fld", val, "mpz", 0)) if val is not None else None
            todo.append((val, spec["ret_obj"], "the new number"))
        if "diff" in spec or spec.get("divisible"):
            for cl in classes(spec, prec, False):
                g, d = cl if isinstance(cl, tuple) else (cl, None)
                W = View(prec, widths, facts, g)
                feas, open_ = W.feasible()
                if not feas:
                    continue
                want = spec["test"](d) if d is not None else g[op("srem", A(spec["div"][0]), A(spec["div"][1]))] == NIL
                got = (v[1] != 0) if v[0] == "int" else self.tr(W, v)
                lossy = got is None and not open_ and any(u[0] == "bin" and u[1] in ("trunc32", "trunc16", "trunc8", "getsi", "zext", "srem", "abs") for u in subterms(v))
                if lossy and understood(v):
                    rep.bad(fn, l, "int-value", f"{P}: the answer is {show(self.M, v)}, which does not depend on the operands as it should", key=key)
                    return False
                if got is None or got != want and not all(understood(a) for a, _ in open_):
                    rep.undec(fn, "int-value", f"{P}: line {l}: outcome {show(self.M, v)} not decided")
                    return False
                if got != want:
                    rep.bad(fn, l, "int-value", f"{P}: answers {'yes' if got else 'no'} when {self.describe(g)}", key=key)
                    return False
            return True
        spec2 = dict(spec)
        for val, want, what in todo:
            if val is None:
                rep.bad(fn, l, "int-value", f"{P}: {what} is not set", key=key)
                return False
            for g in classes(spec2, prec, False):
                W = View(prec, widths, facts, g)
                feas, open_ = W.feasible()
                if not feas:
                    continue
                x, y = W.poly(val), W.poly(want)
                if x == y:
                    continue
                W.subst = True
                if W.poly(val) == W.poly(want):
                    continue
                W.subst = False
                if self.same_lcm(W, fn, x, want):
                    continue
                if not understood(val) or any(not understood(a) for a, _ in open_):
                    rep.undec(fn, "int-value", f"{P}: line {l}: {what} is {show(self.M, frompoly(x))}, not understood")
                    return False
                rep.bad(fn, l, "int-value", f"{P}: {what} is {show(self.M, frompoly(x))} instead of {show(self.M, frompoly(y))}" + (f" when {self.describe(g)}" if g else ""), key=key)
                return False
        return True

    def same_lcm(self, W, fn, x, want):
        if want[0] != "bin" or want[1] != "lcm":
            return False
        return x == W.poly(op("lcm", want[3], want[2])) or x == W.poly(op("sdiv", mul(op("abs", want[2]), op("abs", want[3])), op("abs", op("gcd", want[2], want[3]))))

    def tr(self, W, v):
        if v[0] == "lit":
            t = W.truth(v[1])
            return None if t is None else t == v[2]
        lo, hi = W.iv(v)
        return False if lo == hi == 0 else True if lo > 0 or hi < 0 else None

    def describe(self, g):
        def one(t, iv):
            return show(self.M, t) + (" == 0" if iv == (0, 0) else " > 0" if iv[0] >= 1 else " < 0" if iv[1] <= -1 else "")
        return " and ".join(one(t, iv) for t, iv in g.items())

    # ------------------------------------------------------------------ text, storage, sizes
    def value_of(self, prec, k):
        return A(k)

    def text(self, fn, spec, prec, res, key):
        rep, P = self.rep, NAMES[prec]
        want = {SP: ("ld", "li"), DP: ("lld", "lli", "ld"), MP: ("s",)}[prec]
        vk = 2
        for s, v, l in res.rets:
            good, seen = False, None
            for e in s.ev:
                if e[0] == "call" and e[1] in ("sprintf", "fprintf", "snprintf", "gmp_sprintf", "gmp_fprintf", "__gmp_sprintf", "__gmp_fprintf"):
                    a = e[2]
                    f = next((x for x in a if x[0] == "str"), None)
                    if f is None:
                        continue
                    conv = f[1].split("%")[-1].lstrip("0123456789-+ ") if "%" in f[1] else ""
                    arg = a[-1]
                    seen = e
                    if prec == MP and arg[0] == "alloc":
                        arg = s.mem.get(("fld", arg, "text", 0), arg) if arg[3] == () or arg[3][0][0] != "bin" else arg[3][0]
                        if conv.rstrip() == "s" and arg == op("digits", A(vk), ("int", 10)):
                            good = True
                    elif prec == MP and arg == A(vk) and conv.rstrip() in ("Zd", "lZd"):
                        good = True
                    elif prec != MP and arg == A(vk) and conv.rstrip() in want:
                        good = True
                    elif conv == "s" and arg[0] == "alloca":
                        continue
            if not good:
                if seen is None:
                    rep.undec(fn, "int-text", f"{P}: no formatted output understood")
                else:
                    rep.bad(fn, seen[4], "int-text", f"{P}: prints {', '.join(show(self.M, x) for x in seen[2][1:])}", key=key)
                return
        rep.ok(fn, "int-text", f"{P}: the value, in base ten")

    def scan(self, fn, spec, prec, res, key):
        rep, P = self.rep, NAMES[prec]
        dst = spec["scan"]
        for s, v, l in res.rets:
            es = [e for e in s.ev if e[0] == "call" and "scanf" in e[1]]
            if not es:
                return rep.undec(fn, "int-text", f"{P}: no formatted input understood")
            for e in es:
                f = next((x for x in e[2] if x[0] == "str"), None)
                conv = f[1].lstrip("%") if f else "?"
                want = {SP: ("ld", "li"), DP: ("lld", "lli", "ld"), MP: ("Zd", "lZd")}[prec]
                place = A(dst) if prec != MP else at(dst)
                cs = [c for c in conv.replace("%n", "").split("%") if c]
                if not any(c.strip() in want for c in cs) or place not in e[2]:
                    return rep.bad(fn, e[4], "int-text", f"{P}: reads {show(self.M, f) if f else '?'} into {', '.join(show(self.M, x) for x in e[2][2:])}", key=key)
        rep.ok(fn, "int-text", f"{P}: reads into the number")

    def clear(self, fn, spec, prec, res, key):
        rep, P = self.rep, NAMES[prec]
        k = spec["clear"]
        for s, v, l in res.rets:
            freed = [e[2][0] for e in s.ev if e[0] == "call" and e[1] == "free"]
            cleared = [e[1] for e in s.ev if e[0] == "cleared"]
            want = ([at(k)] if prec == MP else []) + ([A(k)] if spec.get("release") else [])
            if sorted(map(repr, freed)) != sorted(map(repr, want)) or cleared != ([at(k)] if prec == MP else []):
                return rep.bad(fn, l, "int-storage", f"{P}: releases {', '.join(show(self.M, x) for x in freed) or 'nothing'} and clears {', '.join(show(self.M, x) for x in cleared) or 'nothing'}", key=key)
            if prec == MP:
                order = [e[0] == "cleared" for e in s.ev if e[0] == "cleared" or e[0] == "call" and e[1] == "free"]
                if order[0] is not True:
                    return rep.bad(fn, l, "int-storage", f"{P}: the number is cleared after its storage was released", key=key + ":order")
        rep.ok(fn, "int-storage", P)

    def size(self, fn, spec, prec, E, res, key):
        rep, P, b = self.rep, NAMES[prec], spec["size"]
        if prec == MP:
            for s, v, l in res.rets:
                if v != op("size", A(1), ("int", b)):
                    return rep.bad(fn, l, "int-value", f"{P}: gives {show(self.M, v)}", key=key)
            return rep.ok(fn, "int-value", P)
        for sm in E.summaries:
            for n in sm.phis:
                for st in sm.steps.get(n, ()):
                    if st is not None and st[0] == "bin" and st[1] in ("ashr", "lshr", "sdiv", "udiv") and st[3][0] == "int":
                        d = st[3][1] if "div" in st[1] else 2 ** st[3][1]
                        if d != b:
                            return rep.bad(fn, sm.line, "int-value", f"{P}: counts digits in base {d} instead of {b}", key=key)
                        return rep.ok(fn, "int-value", P)
        rep.undec(fn, "int-value", f"{P}: digit loop not understood")

    def convert(self, fn, spec, prec):
        """set_precision: every pair of precisions"""
        rep = self.rep
        for new in (SP, DP, MP):
            key = f"{fn}:{prec}:{new}"
            E = IntEngine(self.M, prec)
            res = E.analyse(fn, args=[("int", prec), ("int", new), A(2)])
            bad = False
            for s, v, l in res.rets:
                if s.decide(("peq", A(2), NULL)) is True:
                    continue
                W = View(prec, {}, list(s.facts.items()))
                cur = s.mem.get(A(2), at(2))
                freed = [e[2][0] for e in s.ev if e[0] == "call" and e[1] == "free"]
                if new == MP and prec != MP:
                    if cur[0] != "alloc" or ("fld", cur, "mpz", 0) not in s.mem:
                        bad = (l, "the number is given no storage of its own")
                        break
                    cur = s.mem[("fld", cur, "mpz", 0)]
                if prec == MP and new != MP and freed != [at(2)]:
                    bad = (l, "the old storage is not released")
                    break
                if W.poly(cur) != W.poly(at(2)):
                    bad = (l, f"the value becomes {show(self.M, cur)}")
                    break
            for l, w in E.problems:
                bad = (l, w)
            if bad:
                rep.bad(fn, bad[0], "int-value", f"{NAMES[prec]} to {NAMES[new]}: {bad[1]}", key=key)
            else:
                rep.ok(fn, "int-value", f"{NAMES[prec]} to {NAMES[new]}")

    # ------------------------------------------------------------------ C06
    def overflow(self):
        for n in self.good:
            res = IntEngine(self.M, SP).analyse(n)
            self.judge_overflow(n, "greatest common divisor", res, [{}], SP, {}, None, None, n)
        for name, spec in SPEC.items():
            if not spec.get("guard") and name not in DIVIDING:
                continue
            for prec in (SP, DP, MP):
                self.guarded("osl_int_" + name, dict(spec), prec)
        for a in (SP, DP, MP):
            for b in (SP, DP, MP):
                if a != b:
                    self.guarded_convert(a, b)

    def partition(self, spec, prec):
        ks = [k for k in (1, 2, 3) if k not in spec.get("out", {})]
        lo, hi = (-INF, INF) if prec == MP else (LMIN, LMAX)
        F_ = spec["nparams"]
        gs = [{}]
        for k in ks:
            if k < F_:
                w = spec.get("args", {}).get(k)
                l, h = (-2 ** (w - 1), 2 ** (w - 1) - 1) if w else (lo, hi)
                gs = [g | {A(k): v} for g in gs for v in (clip(POS, l, h), clip(NEG, l, h), NIL)]
        return gs

    def guarded(self, fn, spec, prec):
        rep, P = self.rep, NAMES[prec]
        E, res = self.paths(fn, prec, spec)
        if res is None:
            return rep.undec(fn, "int-overflow", f"{P}: too many paths")
        spec["nparams"] = self.M.funcs[fn].nparams
        widths = dict(spec.get("args", {}))
        want = spec["out"][1](A) if "out" in spec else spec["ret"](A) if "ret" in spec else None
        width = spec.get("width", 64)
        key = f"{fn}:{prec}"
        gs = self.partition(spec, prec) if spec.get("guard") else classes(spec, prec, prec == MP)
        self.judge_overflow(fn, P, res, gs, prec, widths, want, None if prec == MP and "out" in spec or want is None else width, key, fn[8:] in DIVIDING and fn != "osl_int_gcd")

    def judge_overflow(self, fn, P, res, gs, prec, widths, want, width, key, traps=False):
        """traps: only the quotients (a remainder may be adjusted through wrapped intermediate values)"""
        rep = self.rep
        for ev, l in [(s.ev, l) for s, v, l in res.rets] + [(s.ev, i.line) for s, i in res.aborts]:
            for e in ev:
                if e[0] != "arith" or traps and e[1] not in ("sdiv", "srem"):
                    continue
                _, o, a, b, w, line, facts = e
                lo, hi = -2 ** (w - 1), 2 ** (w - 1) - 1
                for g in gs:
                    W = View(prec, widths, facts, g)
                    if not W.feasible()[0]:
                        continue
                    if o in ("sdiv", "srem"):
                        (al, ah), (bl, bh) = W.iv(a), W.iv(b)
                        if al <= lo and bl <= -1 <= bh and self.single(W, b, -1):
                            rep.bad(fn, line, "int-overflow", f"{P}: the quotient of {show(self.M, a)} and {show(self.M, b)} may not be representable", key=key + ":arith")
                            return
                        continue
                    t = {"add": lambda: add(a, b), "sub": lambda: add(a, b, -1), "mul": lambda: mul(a, b), "trunc": lambda: a, "abs": lambda: op("abs", a)}[o]()
                    if not understood(t):
                        rep.undec(fn, "int-overflow", f"{P}: line {line}: {show(self.M, t)} not understood")
                        return
                    x, y = W.iv(t)
                    if x < lo or y > hi:
                        what = {"trunc": "the narrowing of", "abs": "the absolute value", "add": "the sum", "sub": "the difference", "mul": "the product"}[o]
                        rep.bad(fn, line, "int-overflow", f"{P}: {what} {show(self.M, t)} may not be representable" + (f" ({self.describe(g)})" if g else ""), key=key + ":arith")
                        return
        for s, v, l in res.rets:
            for e in s.ev:
                pass
            if width is None:
                continue
            # a value taken out of a big number
            for t in ([v] if v is not None else []) + list(s.mem.values()):
                for u in subterms(t):
                    if u[0] == "bin" and u[1] == "getsi":
                        W = View(prec, widths, s.facts.items())
                        x, y = W.iv(u[2])
                        if x < LMIN or y > LMAX:
                            rep.bad(fn, l, "int-overflow", f"{P}: a number that does not fit is truncated", key=key + ":getsi")
                            return
        for s, i in res.aborts:
            if width is None:
                if not any(View(prec, widths, s.facts.items(), g).feasible()[0] for g in gs):
                    continue
                rep.bad(fn, i.line, "int-overflow", f"{P}: stops although every result is representable", key=key + ":abort")
                return
            for g in gs:
                W = View(prec, widths, s.facts.items(), g)
                if not W.feasible()[0]:
                    continue
                if not understood(want):
                    continue
                x, y = W.iv(want)
                lo, hi = -2 ** (width - 1), 2 ** (width - 1) - 1
                if not (x > hi or y < lo):
                    rep.bad(fn, i.line, "int-overflow", f"{P}: stops although the result {show(self.M, want)} may be representable" + (f" ({self.describe(g)})" if g else ""), key=key + ":abort")
                    return
        rep.ok(fn, "int-overflow", f"{P}: {sum(1 for s, _, _ in res.rets for e in s.ev if e[0] == 'arith')} operations, {len(res.aborts)} stops")

    def single(self, W, t, v):
        """may the term take the value v under the facts"""
        W2 = View(W.prec, W.widths, W.facts, dict(W.given))
        W2.given[t] = (v, v)
        return W2.feasible()[0]

    def guarded_convert(self, a, b):
        fn = "osl_int_set_precision"
        E = IntEngine(self.M, a)
        res = E.analyse(fn, args=[("int", a), ("int", b), A(2)])
        key = f"{fn}:{a}:{b}"
        self.judge_overflow(fn, f"{NAMES[a]} to {NAMES[b]}", res, [{}], a, {}, at(2), 64, key)


def run(M, rep):
    check_model(M)
    I = Ints(M, rep)
    for n, why in I.badly.items():
        if why:
            rep.bad(n, why[0], "int-gcd", f"the recursion does not compute the greatest common divisor: {why[1]}", key=n)
    for n in I.good:
        rep.ok(n, "int-gcd", "Euclid's recursion")
    I.dispatch()


def run_overflow(M, rep):
    check_model(M)
    I = Ints(M, rep)
    I.overflow()
