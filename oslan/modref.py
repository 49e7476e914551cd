"""Mod/ref analysis: which memory reachable from its parameters may a function write or release?  Flow-insensitive
provenance inside a function, context-sensitive summaries across calls, calls through a descriptor slot joined over every
function bound to that slot."""
from .ir import AnalysisBroken
from .rules.common import FIELDS, S

# external functions: indices of the pointer arguments whose pointee is written; '+n': all from n on
WRITES = {"free": (0,), "realloc": (0,), "sprintf": (0,), "snprintf": (0,), "vsnprintf": (0,), "strcpy": (0,), "strncpy": (0,), "strcat": (0,), "strncat": (0,),
          "memcpy": (0,), "memmove": (0,), "memset": (0,), "llvm.memset.p0.i64": (0,), "llvm.memcpy.p0.p0.i64": (0,), "llvm.memmove.p0.p0.i64": (0,), "strtok": (0,), "fgets": (0,),
          "__isoc99_sscanf": "+2", "sscanf": "+2", "__isoc99_fscanf": "+2", "__gmp_sscanf": "+2", "qsort": (0,), "strtol": (1,), "strtoll": (1,), "strtok_r": (0, 2)}
NONE = {"fprintf", "printf", "strcmp", "strncmp", "strlen", "exit", "abort", "malloc", "calloc", "strdup", "__strdup", "getenv", "feof", "fgetc", "fputs", "fputc", "putchar", "puts", "atoi",
        "__ctype_b_loc", "fwrite", "strchr", "strrchr", "strstr", "memcmp", "isspace", "isdigit", "isalpha", "isalnum", "tolower", "toupper", "atol", "strcasecmp", "strndup", "fflush",
        "perror", "strpbrk", "strspn", "strcspn", "labs", "abs", "llabs", "ungetc", "vfprintf", "assert", "__assert_fail", "strnlen", "memchr", "__xpg_basename"}
GMP_READ = {"cmp", "cmp_si", "cmp_ui", "get_str", "get_si", "get_ui", "get_d", "fits_sint_p", "fits_slong_p", "divisible_p", "sizeinbase", "sgn", "cmpabs", "fits_uint_p", "divisible_ui_p",
            "cmp_d", "cmpabs_ui", "fits_sshort_p", "congruent_p", "even_p", "odd_p"}
GMP_TWO = {"fdiv_qr", "swap", "tdiv_qr", "cdiv_qr"}
ALLOC = {"malloc", "calloc", "realloc", "strdup", "__strdup", "strndup", "reallocarray"}
PASS = {"realloc": 0, "strcpy": 0, "strcat": 0, "strncpy": 0, "strchr": 0, "strrchr": 0, "strstr": 0, "memcpy": 0, "memmove": 0, "strpbrk": 0, "fgets": 0, "memset": 0, "strtok": 0}


class ModRef:
    def __init__(self, M):
        self.M = M
        self.W = {}           # fn -> {(param, depth): (line, callee|None, what)}
        self.R = {}           # fn -> (roots returned, content of the fresh part)
        self.RS = {}          # fn -> roots certainly returned on some path
        self.C = {}           # fn -> {param: set of captured roots}
        self._inert = {}
        self.slots = self.slot_targets()
        self.unknown = set()
        for n, F in M.funcs.items():
            if not F.decl:
                self.W[n], self.R[n], self.C[n] = {}, (frozenset(), frozenset()), {}
        names = [n for n, F in M.funcs.items() if not F.decl]
        calls = {n: {t for i in M.funcs[n].insts if i.op == "call" for t in self.targets(i)} for n in names}
        # callees first, then repeat until stable
        order, seen = [], set()

        def visit(n):
            st = [(n, iter(sorted(calls[n])))]
            seen.add(n)
            while st:
                x, it = st[-1]
                for y in it:
                    if y in calls and y not in seen:
                        seen.add(y)
                        st.append((y, iter(sorted(calls[y]))))
                        break
                else:
                    order.append(x)
                    st.pop()
        for n in names:
            if n not in seen:
                visit(n)
        for _ in range(12):
            ch = False
            for n in order:
                ch = self.function(n) or ch
            if not ch:
                break
        else:
            raise AnalysisBroken("mod/ref summaries do not stabilise")

    # ---- calls through descriptor slots
    def slot_targets(self):
        M = self.M
        out = {}
        for n, F in M.funcs.items():
            if F.decl:
                continue
            by = {i.n: i for i in F.insts}
            for i in F.insts:
                if i.op == "store" and i.ops[0].k == "func" and i.ops[1].k == "inst":
                    g = i.ops[1].v
                    if g.op == "gep" and g.sty.startswith("struct."):
                        ix = [o.v for o in g.ops[1:] if o.k == "int"]
                        out.setdefault((g.sty, ix[-1]), set()).add(i.ops[0].v)
        return out

    def targets(self, i):
        """functions a call may reach"""
        c = i.callee
        if c.k == "func":
            return [c.v]
        if c.k == "inst" and c.v.op == "load" and c.v.ops[0].k == "inst" and c.v.ops[0].v.op == "gep":
            g = c.v.ops[0].v
            ix = [o.v for o in g.ops[1:] if o.k == "int"]
            t = self.slots.get((g.sty, ix[-1] if ix else None))
            if t:
                return sorted(t)
        self.unknown.add((i.fn.name, i.line))
        return []

    def inert(self, a):
        """fields whose value never serves to write: operations of a descriptor, references to objects owned by others"""
        if a.k != "inst" or a.v.op != "gep" or not a.v.sty.startswith("struct."):
            return False
        ix = [o.v for o in a.v.ops[1:] if o.k == "int"]
        if len(ix) != 2 or ix[0] != 0:
            return False
        k = (a.v.sty, ix[1])
        if k not in self._inert:
            fs = self.M.fields.get(a.v.sty, [])
            n, ty = fs[ix[1]] if ix[1] < len(fs) else ("?", "?")
            model = FIELDS.get(a.v.sty[len(S):], {}) if a.v.sty.startswith(S) else {}
            self._inert[k] = ty in ("fn*", "fn") or model.get(n) in ("borrow", "skip")
        return self._inert[k]

    # ---- one function
    def function(self, name):
        M = self.M
        F = M.funcs[name]
        pts = {}              # inst n -> set of roots
        con = {}              # ("A", site) -> set of roots ; ("P", i, d) -> captured
        W, cap = self.W[name], self.C[name]
        before = (len(W), (self.R[name], self.RS.get(name)), {k: len(v) for k, v in cap.items()})

        def roots(v):
            if v.k == "inst":
                return pts.get(v.v.n, ())
            if v.k == "arg":
                return {("P", v.v, 0)}
            if v.k in ("global",):
                return {("G", v.id)}
            if v.k == "cexpr":
                out = set()
                for o in v.v[2]:
                    out |= set(roots(o))
                return out
            return ()

        def weak(rs):
            return {("p",) + r[1:] if r[0] == "P" else r for r in rs}

        def deref(rs):
            """what memory holds; provenance that went through memory of our own, or may be that of another path, is weak"""
            out = set()
            for r in rs:
                if r[0] in ("P", "p"):
                    out.add((r[0], r[1], 1))
                    out |= weak(con.get(("P", r[1]), set()))
                else:
                    out |= weak(con.get(r, set()))
            return out

        def closure(rs):
            """everything reachable through at least one load"""
            out, todo = set(), list(deref(rs))
            while todo:
                r = todo.pop()
                if r not in out:
                    out.add(r)
                    todo += list(deref([r]))
            return out

        def write(rs, line, via, what):
            for r in rs:
                if r[0] in ("P", "p"):
                    old = W.get((r[1], r[2]))
                    if old is None or old[3] and r[0] == "P":
                        W[(r[1], r[2])] = (line, via, what, r[0] == "p")

        def store(rs, vs):
            for r in rs:
                k = ("P", r[1]) if r[0] in ("P", "p") else r
                c = con.setdefault(k, set())
                n = len(c)
                c |= set(vs)
                if len(c) != n:
                    nonlocal_ch[0] = True

        before = (dict(W), before[1], before[2])
        nonlocal_ch = [True]
        rounds = 0
        while nonlocal_ch[0]:
            nonlocal_ch[0] = False
            rounds += 1
            if rounds > 60:
                raise AnalysisBroken("mod/ref: no fixpoint in " + name)
            for i in F.insts:
                new = set()
                op = i.op
                if op == "alloca":
                    new = {("A", i.n)}
                elif op in ("gep", "bitcast", "freeze", "inttoptr", "ptrtoint", "select", "phi", "trunc", "sext", "zext", "add", "sub", "insertvalue", "extractvalue"):
                    for o in i.ops:
                        new |= set(roots(o))
                    if op == "select":
                        new -= set(roots(i.ops[0]))
                    if op == "gep":
                        new = set(roots(i.ops[0]))
                    if op in ("phi", "select") and len({r[:2] for r in new}) > 1:
                        new = weak(new)
                elif op == "load":
                    new = deref(roots(i.ops[0]))
                elif op == "store":
                    rs = roots(i.ops[1])
                    write(rs, i.line, None, "assigned")
                    if i.ops[0].ty == "ptr" and not self.inert(i.ops[1]):
                        store(rs, roots(i.ops[0]))
                elif op == "call":
                    new = self.call(name, i, roots, deref, closure, write, store, con, weak)
                elif op == "ret" and i.ops:
                    if i.ops[0].ty == "ptr":
                        rs = set(roots(i.ops[0]))
                        fresh = {r for r in rs if r[0] not in "Pp"}
                        pr = {(r[1], r[2]) for r in rs if r[0] in "Pp"}
                        self.RS[name] = self.RS.get(name, frozenset()) | {(r[1], r[2]) for r in rs if r[0] == "P"}
                        inner = {(r[1], r[2]) for r in closure(fresh) if r[0] in "Pp"}
                        old = self.R[name]
                        self.R[name] = (old[0] | pr | ({"fresh"} if fresh else set()), old[1] | inner)
                if new:
                    c = pts.setdefault(i.n, set())
                    n = len(c)
                    c |= new
                    if len(c) != n:
                        nonlocal_ch[0] = True
        for k, c in con.items():
            if k[0] == "P":
                s = cap.setdefault(k[1], set())
                for r in c | closure(c):
                    s.add((r[1], r[2]) if r[0] in "Pp" else "fresh")
        return before != (dict(W), (self.R[name], self.RS.get(name)), {k: len(v) for k, v in cap.items()})

    def call(self, name, i, roots, deref, closure, write, store, con, weak):
        M = self.M
        out = set()
        for t in self.targets(i):
            G = M.funcs.get(t)
            args = [roots(o) for o in i.ops]
            if G is None or G.decl:
                out |= self.external(t, i, args, write, store)
                continue
            for (p, d), w in list(self.W[t].items()):
                if p < len(args):
                    rs = args[p] if d == 0 else closure(args[p])
                    write(weak(rs) if w[3] else rs, i.line, t, w[2])
            site = ("A", i.n)

            def mapped(prs):
                s = set()
                for r in prs:
                    if r == "fresh":
                        s.add(site)
                    elif r[0] < len(args):
                        s |= set(args[r[0]]) if r[1] == 0 else closure(args[r[0]])
                return s
            rr, inner = self.R[t]
            if "fresh" in rr or any("fresh" in c for c in self.C[t].values()):
                store({site}, {site} | weak(mapped(inner)))
            sure = {r for r in rr if r == "fresh" or r in self.RS.get(t, ())}
            out |= mapped(sure) | weak(mapped(set(rr) - sure))
            for p, c in self.C[t].items():
                if p < len(args) and c:
                    v = mapped(c)
                    store(args[p], v)
                    store(closure(args[p]), v)
        return out

    def external(self, t, i, args, write, store):
        out = set()
        if t in ALLOC:
            out.add(("A", i.n))
            if t.startswith("realloc"):
                store({("A", i.n)}, set())
        if t in PASS and PASS[t] < len(args):
            out |= set(args[PASS[t]])
        ws = WRITES.get(t)
        if t.startswith("__gmpz_"):
            g = t[7:]
            if g in GMP_READ:
                # get_str with a buffer writes it
                ws = (0,) if g == "get_str" else ()
            else:
                ws = (0, 1) if g in GMP_TWO else (0,)
        if ws is None:
            if t in NONE or t.startswith("llvm."):
                return out
            self.unknown.add((t, i.line))
            return out
        ks = range(int(ws[1:]), len(args)) if isinstance(ws, str) else ws
        for k in ks:
            if k < len(args):
                write(args[k], i.line, None, "released" if t == "free" else "reallocated" if t == "realloc" else "written by " + t)
        if t in ("llvm.memcpy.p0.p0.i64", "memcpy", "memmove") and len(args) > 1:
            store(args[0], {r for a in (args[1],) for r in self.inside(a)})
        return out

    def inside(self, rs):
        return {(r[0], r[1], 1) for r in rs if r[0] in "Pp"}

    def chain(self, fn, key, depth=0):
        """the call chain leading to the write"""
        w = self.W[fn].get(key)
        if w is None or w[1] is None or depth > 12:
            return [(fn, w[0] if w else 0)]
        t = w[1]
        for k in sorted(self.W[t], key=lambda k: (k[1] < key[1], k)):
            return [(fn, w[0])] + self.chain(t, k, depth + 1)
        return [(fn, w[0])]
