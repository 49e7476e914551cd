"""C16: a number or a word the reader expects and does not find is noticed on the spot.

For every call that may fail to read (formatted input, conversions, tokens, lines, text up to a mark), the code behind the call
is evaluated by conditional constant propagation with its result assumed to be a failing one (end of input, nothing matched, each
partial number of items).  On the feasible continuations nothing may access memory through a missing text, none may end normally
except by giving the failure back (the obligation moves to the callers), and no item that was not read may be loaded."""
from ..engine import NORETURN
from ..ir import AnalysisBroken
from ..modref import ModRef
from ..nullness import Nullness, NULL, NN, BOT
from .allocfail import stoppers
from .common import *

BLIND = {"atoi", "atol", "atoll", "atof"}
ENDPTR = {"strtol", "strtoll", "strtoul", "strtoull", "strtod", "strtof", "strtoimax"}
TOKENS = {"strtok", "strtok_r", "strsep"}
LINES = {"fgets", "gets"}
STATUS = {"__gmpz_set_str": -1, "__gmpz_init_set_str": -1, "__gmpz_inp_str": 0, "getline": -1}


def items(fmt):
    """number of assigned conversions of a scanf format"""
    n, i = 0, 0
    while i < len(fmt):
        if fmt[i] != "%":
            i += 1
            continue
        i += 1
        if i < len(fmt) and fmt[i] == "%":
            i += 1
            continue
        skip = False
        while i < len(fmt) and (fmt[i] in "*hlLjztqZmF" or fmt[i].isdigit()):
            skip |= fmt[i] == "*"
            i += 1
        if i < len(fmt) and fmt[i] == "[":
            i = fmt.index("]", i + 2)
        if i < len(fmt) and fmt[i] != "n" and not skip:
            n += 1
        i += 1
    return n


class Reading:
    def __init__(self, M, rep):
        self.M, self.rep = M, rep
        self.mr = ModRef(M)
        self.N = Nullness(M, self.mr.targets, self.mr)
        self.N.stop = stoppers(M, self.mr.targets)
        self.N.memory = True
        self.done = set()
        self.queue = []

    def readers(self):
        """functions that hand out a text read from an input, or nothing (NULL)"""
        text = lambda t: t.replace("const ", "").replace(" const", "")
        cand = {}
        for n, F in self.M.funcs.items():
            ts = self.M.ptypes.get(n.split("@")[0])
            if F.decl or not ts or text(ts[0]) != "char*":
                continue
            if any("FILE" in t or text(t) == "char**" for t in ts[1:]) and not any("osl_" in t for t in ts[1:]):
                cand[n] = F
        out = set()

        def maybe(o, seen):
            if o.k == "null":
                return True
            if o.k != "inst" or o.v.n in seen:
                return False
            seen.add(o.v.n)
            if o.v.op in ("phi", "select"):
                return any(maybe(v, seen) for v in ([v for v, _ in o.v.incoming] if o.v.op == "phi" else o.v.ops[1:]))
            return o.v.op == "call" and o.v.callee.k == "func" and (o.v.callee.v in out or o.v.callee.v in TOKENS | LINES)
        grown = True
        while grown:
            new = {n for n, F in cand.items() if n not in out and any(i.op == "ret" and i.ops and maybe(i.ops[0], set()) for i in F.insts)}
            out |= new
            grown = bool(new)
        return out

    def texts(self, o, F, d=0):
        """constant strings an operand may be"""
        if o.k == "str":
            return [o.v]
        if o.k == "inst" and o.v.op in ("phi", "select") and d < 4:
            vs = [v for v, _ in o.v.incoming] if o.v.op == "phi" else o.v.ops[1:]
            r = []
            for v in vs:
                t = self.texts(v, F, d + 1)
                if t is None:
                    return None
                r += t
            return r
        return None

    def run(self):
        M, rep = self.M, self.rep
        readers = self.readers()
        n_scan = 0
        for n, F in sorted(M.funcs.items()):
            if F.decl:
                continue
            for i in F.insts:
                if i.op != "call" or i.callee.k != "func":
                    continue
                c = i.callee.v
                if "scanf" in c and not c.startswith("osl_"):
                    n_scan += 1
                    self.scan(n, F, i)
                elif c in BLIND:
                    rep.bad(n, i.line, "read-checked", f"{c} cannot tell a missing or malformed number", key=f"{n}:{c}:{self.nth(F, i)}")
                elif c in ENDPTR:
                    e = i.ops[1]
                    if e.k == "null" or not any(j.op == "load" and j.ops[0].k == e.k == "inst" and j.ops[0].v.n == e.v.n for j in F.insts):
                        rep.bad(n, i.line, "read-checked", f"{c} is not asked whether it found a number", key=f"{n}:{c}:{self.nth(F, i)}")
                    else:
                        rep.ok(n, "read-checked", f"{c} at line {i.line}")
                elif c in TOKENS:
                    self.push(n, i, NULL, True)
                elif c in LINES:
                    self.push(n, i, NULL, "line")
                elif c in STATUS:
                    self.push(n, i, ("int", STATUS[c]), True)
                elif c in readers:
                    self.push(n, i, NULL, "uptoendtag" in c)
        if n_scan < 2:
            raise AnalysisBroken("no formatted input found")
        while self.queue:
            self.missing(*self.queue.pop(0))
        self.words()

    def words(self):
        """a word that is none of the expected ones"""
        M, rep, N = self.M, self.rep, self.N
        for n, F in sorted(M.funcs.items()):
            ts = M.ptypes.get(n.split("@")[0]) or []
            if F.decl or not any("FILE" in t or t.replace("const ", "").replace(" const", "") == "char**" for t in ts[1:]):
                continue
            chains = {}
            for i in F.insts:
                if i.op == "call" and i.callee.k == "func" and i.callee.v in ("strcmp", "strcasecmp"):
                    cs = [o for o in i.ops if o.k == "str"]
                    vs = [o for o in i.ops if o.k != "str"]
                    if len(cs) == len(vs) == 1 and N.akey(vs[0]) is not None:
                        chains.setdefault(N.akey(vs[0]), []).append(i)
            for k, chain in sorted(chains.items(), key=lambda x: x[1][0].n):
                if len({next(o.v for o in i.ops if o.k == "str") for i in chain}) < 2:
                    continue
                first = chain[0]
                N.memo.clear()
                N.word = "@@unexpected@@"
                try:
                    ret, found, _ = self.follow(n, first, ("int", 1))
                finally:
                    N.word = None
                    N.memo.clear()
                if ret is None:
                    rep.ok(n, "read-word", f"word tested from line {first.line} against {len(chain)} words")
                else:
                    rep.bad(n, first.line, "read-word", f"a word that is none of the {len(chain)} expected ones is accepted", key=f"{n}:word:{next(o.v for o in first.ops if o.k == 'str')}")

    def nth(self, F, i):
        same = [j for j in F.insts if j.op == "call" and j.callee.k == i.callee.k and j.callee.v == i.callee.v]
        return next(k for k, j in enumerate(same) if j.n == i.n)

    def push(self, n, i, value, strict):
        if not {(n, i.n, value, x) for x in (strict, True)} & self.done and (strict or (n, i.n, value, "line") not in self.done):
            self.done.add((n, i.n, value, strict))
            self.queue.append((n, i, value, strict))

    def follow(self, n, i, value):
        N = self.N
        N.until, N.trace = (n, i.n), set()
        try:
            ret, found = N.after(n, i, value)
            return ret, found, N.trace
        finally:
            N.until = N.trace = None

    def missing(self, n, i, value, strict):
        """strict: ending normally is a violation (unless the failure is given back)"""
        M, rep = self.M, self.rep
        F = M.funcs[n]
        what = i.callee.v if i.callee.k == "func" else "operation"
        ret, found, _ = self.follow(n, i, value)
        key = f"{n}:{what}:{self.nth(F, i)}"
        given = "nothing" if value == NULL else value[1]
        if found:
            k, w = found[0]
            leaf = k[-2:]
            rep.bad(n, i.line, "read-missing", f"when {what} gives {given}: {w} at {leaf[0]}:{leaf[1]}", key=key + ":use")
            return
        if ret is None:
            rep.ok(n, "read-missing", f"{what} at line {i.line}: reported")
            return
        void = (M.ptypes.get(n.split("@")[0]) or ["?"])[0] == "void"
        if ret == NULL or ret[0] == "int" and not void:
            rep.ok(n, "read-missing", f"{what} at line {i.line}: given back")
            if ret == NULL or strict:
                self.callers(n, ret, strict)
            return
        if strict:
            rep.bad(n, i.line, "read-missing", f"when {what} gives {given} the reader goes on and ends normally", key=key + ":go")
        else:
            rep.ok(n, "read-missing", f"{what} at line {i.line}: does not need it")

    def callers(self, n, ret, strict):
        if strict == "line" and (self.M.ptypes.get(n.split("@")[0]) or ["?"])[0].replace("const ", "") != "char*":
            strict = False       # a missing line is then a missing optional thing
        for m, G in sorted(self.M.funcs.items()):
            if not G.decl:
                for j in G.insts:
                    if j.op == "call" and n in self.mr.targets(j):
                        self.push(m, j, ret, strict)

    # ------------------------------------------------------------------ formatted input
    def scan(self, n, F, i):
        M, rep = self.M, self.rep
        fi = 0 if i.callee.v in ("scanf", "__isoc99_scanf") else 1
        fs = self.texts(i.ops[fi], F)
        what = i.callee.v
        key = f"{n}:{what}:{self.nth(F, i)}"
        if not fs:
            return rep.undec(n, "read-checked", f"line {i.line}: the format is not a constant")
        k = max(items(f) for f in fs)
        dests = list(i.ops[fi + 1:])
        good = True
        for r in [-1, 0] + list(range(1, k)):
            ret, found, trace = self.follow(n, i, ("int", r))
            how = {-1: "finds the end of the text", 0: "matches nothing"}.get(r, f"reads {r} of {k} items")
            if found:
                kk, w = found[0]
                rep.bad(n, i.line, "read-checked", f"when {what} {how}: {w} at {kk[-2]}:{kk[-1]}", key=key + f":{r}")
                good = False
                break
            # items that were not read
            used = None
            for d in dests[max(r, 0):]:
                if d.k != "inst":
                    continue
                if d.v.op == "alloca" and not any(j.op == "store" and j.ops[1].k == "inst" and j.ops[1].v.n == d.v.n for j in F.insts):
                    used = next((j for j in F.insts if (n, j.n) in trace and j.op == "load" and j.ops[0].k == "inst" and j.ops[0].v.n == d.v.n), used)
            if used is not None:
                rep.bad(n, i.line, "read-checked", f"when {what} {how}, an item that was not read is used at line {used.line}", key=key + f":{r}")
                good = False
                break
            if ret is None:
                continue
            outside = [d for d in dests[max(r, 0):] if d.k != "inst" or d.v.op != "alloca"]
            if r > 0 and not outside:
                continue
            void = (M.ptypes.get(n.split("@")[0]) or ["?"])[0] == "void"
            if ret == NULL or ret[0] == "int" and not void:
                self.callers(n, ret, True)
                continue
            rep.bad(n, i.line, "read-checked", f"when {what} {how} the reader goes on and ends normally", key=key + f":{r}")
            good = False
            break
        if good:
            rep.ok(n, "read-checked", f"{what} at line {i.line}: {k} items, every other outcome reported")


def run(M, rep):
    check_model(M)
    Reading(M, rep).run()
