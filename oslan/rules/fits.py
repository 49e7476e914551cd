"""C15: the text that is read or built never overruns the buffer it is collected in (oslan/bounds.py)."""
from ..bounds import Fn, Lin, join, formats
from ..modref import ModRef, NONE
from ..ir import AnalysisBroken, Val
from .common import *
import re

CAT = "osl_util_safe_strcat"


class Bounds:
    def __init__(self, M):
        self.M = M
        self.need, self.writes, self.longest, self.answer = {}, {}, {}, {}
        self.silent = {"strlen", "strcmp", "strncmp", "isspace", "__ctype_b_loc", "fprintf", "printf", "exit", "abort"}
        self.out = []
        self.cur = None
        self.within = {"fgets": 0, "strcpy": 0, "strcat": 0, "strncpy": 0, "strncat": 0, "memcpy": 0, "strchr": 0, "strrchr": 0, "strstr": 0, "strpbrk": 0, "strtok": 0}
        self.aliases()
        self.fresh = makers(M)
        self.touches = touches(M)
        self.growers = growers(M)
        self.pairs = pairs(M, self.growers)
        for n, F in M.funcs.items():
            if not F.decl:
                self.need[n] = {}
                self.writes[n] = set()

    def aliases(self):
        """functions whose answer points into the text they are given"""
        def root(v, seen):
            while v.k == "inst" and v.v.op in ("gep", "bitcast", "freeze"):
                v = v.v.ops[0]
            if v.k == "null":
                return set()
            if v.k == "arg":
                return {v.v}
            if v.k == "inst" and v.v.op == "phi":
                if v.v.n in seen:
                    return set()
                return set().union(*[root(x, seen | {v.v.n}) for x, _ in v.v.incoming])
            if v.k == "inst" and v.v.op == "call" and v.v.callee.k == "func" and v.v.callee.v in self.within:
                return root(v.v.ops[self.within[v.v.callee.v]], seen)
            return {"?"}
        for n, F in self.M.funcs.items():
            if F.decl or n in self.within:
                continue
            rs = [i.ops[0] for i in F.insts if i.op == "ret" and i.ops and i.ops[0].ty in ("ptr", None)]
            if not rs:
                continue
            r = set().union(*[root(v, frozenset()) for v in rs])
            if len(r) == 1 and "?" not in r:
                self.within[n] = r.pop()

    def text(self, v):
        t = v.v
        return t.decode("utf8", "replace") if isinstance(t, bytes) else t

    # ---------------------------------------------------------------- callbacks
    def say(self, fn, i, verdict, msg, key=""):
        self.out.append((fn.F.name, i.line, verdict, msg, key))

    def write(self, fn, i, p, need, st, what, size=False):
        F = fn.F
        if p is None:
            return self.say(fn, i, "undec", f"{what} somewhere not followed")
        b, off = p
        if b[0] == "a":
            return self.into_param(fn, i, b[1], off, need, st)
        cap = fn.cap(b, st)
        if cap is None and b[0] == "p" and need is not None:
            rs = self.joint(fn, F.insts[b[1]], off + need, st)
            if rs is not None:
                v = "bad" if any(r is not True and r is not None for r in rs) else "undec" if None in rs else "ok"
                return self.say(fn, i, v, f"{what}: {off + need} bytes, {rs}")
        if cap is None and b[0] == "p":
            m = self.mates(fn, F.insts[b[1]], st)
            if m is not None:
                return self.say(fn, i, "bad", f"{what}: the buffer may be smaller than the size kept along with it ({m})")
        if cap is None:
            return self.say(fn, i, "undec", f"{what} into a buffer of unknown size ({b})")
        if need is None:
            return self.say(fn, i, "bad", f"{what}: nothing bounds the text, the buffer has {cap} bytes")
        goal = cap - off - need
        r = fn.prove(goal, i.block, st)
        if r is True:
            return self.say(fn, i, "ok", f"{what}: {off + need} <= {cap}")
        if r is not None:
            return self.say(fn, i, "bad", f"{what}: {off + need} bytes, the buffer has {cap} ({r})")
        u = fn.unbounded(goal, i.block, st) or fn.last(goal, i.block, st) or self.short(fn, goal, i, st)
        self.say(fn, i, "bad" if u else "undec", f"{what}: {off + need} bytes, the buffer has {cap} [{u}]")

    def short(self, fn, goal, i, st):
        """the comparisons made leave exactly one or two bytes too few"""
        if any(isinstance(f, tuple) and set(f[1].t) & set(goal.t) for f in fn.facts(i.block, st)):
            return None
        if any(a[0] not in ("len", "v") or a[0] == "v" and fn.F.insts[a[1]].op != "phi" for a in goal.t):
            return None
        for k in (1, 2):
            if fn.prove(goal + k, i.block, st) is True:
                return f"{k} too few"
        return None

    def mates(self, fn, phi, st):
        """a buffer and the size kept along with it: equal on some ways here, the buffer smaller on others"""
        def leaves(x, y, d=0):
            if d < 4 and x.k == y.k == "inst" and x.v.op == y.v.op == "phi" and x.v.block is y.v.block and x.v is not phi and x.v.block is not phi.block:
                ys = {q: w for w, q in y.v.incoming}
                return sum([leaves(w, ys[q], d + 1) for w, q in x.v.incoming if q in ys], [])
            return [(x, y)]
        for j in phi.block.insts:
            if j.op != "phi" or j is phi or j.ty not in ("i32", "i64"):
                continue
            ys = {q: w for w, q in j.incoming}
            same, less = False, None
            for x, q in phi.incoming:
                for w, y in leaves(x, ys[q]):
                    r = fn.place(w, st)
                    if r is None or r[1] != Lin(0):
                        continue
                    me = r[0] == ("p", phi.n)
                    c = Lin(0, {("v", j.n): 1}) if me else fn.cap(r[0], st) if r[0][0] != "p" else None
                    if c is None:
                        continue
                    df = c - fn.lin(y, st)
                    if df == Lin(0):
                        same = same or not me
                    elif df.c <= 0 and (df.c < 0 or df.t) and (all(a == ("v", j.n) and k < 0 for a, k in df.t.items()) or df.c < 0 and all(a[0] == "len" for a in df.t)):
                        less = less or df
            if same and less is not None:
                return less
        return None

    def joint(self, fn, phi, need, st):
        """the buffer is one of several: each with the sizes that come with it"""
        phis = {("v", j.n): j for j in phi.block.insts if j.op == "phi"}
        out = []
        for x, q in phi.incoming:
            p = fn.place(x, st)
            c = None if p is None else fn.cap(p[0], st)
            if c is None:
                return None
            g = c - p[1]
            n = Lin(need.c)
            for a, k in need.t.items():
                n = n + (fn.lin(next(v for v, e in phis[a].incoming if e is q), st) * k if a in phis else Lin(0, {a: k}))
            eh = []
            fn.edge(q, phi.block, st, eh)
            eh = tuple(y for y in eh if isinstance(y, Lin))
            out.append(fn.prove(g - n, q, st, eh, 0, eh))
        return out

    def beyond(self, fn, i, d, st):
        """an entry at the recorded number of entries of an array that is not made larger on some way here"""
        F = fn.F
        if d.v.op != "gep":
            return
        arr = fn.strip(d.v.ops[0])
        if arr.k != "inst" or arr.v.op != "load":
            return
        obj = fn.strip(arr.v.ops[0])
        if not (obj.k == "inst" and obj.v.op == "gep" and "struct.osl_" in (obj.v.sty or "") and len(obj.v.ops) == 3 and obj.v.ops[2].k == "int"):
            return
        base = fn.key(obj.v.ops[0], st)
        if not (base[0] == "a" or base[0] == "fld"):
            return
        at = fn.lin(d.v.ops[1], st)
        cs = fn.counts(set(at.t))
        if not (len(at.t) == len(cs) == 1 and at.c >= 0 and list(at.t.values()) == [1]):
            return
        num = F.insts[list(at.t)[0][1]]
        n = fn.strip(num.ops[0])
        if fn.key(n.v.ops[0], st) != base or any(j.op == "load" and j is not num and j.ty in ("i32", "i64") and fn.same.get(j.n) is None for j in F.insts):
            return
        field = (obj.v.sty, obj.v.ops[2].v)
        if any(isinstance(f, Lin) and set(f.t) & set(at.t) and len(f.t) > 1 for f in fn.facts(i.block, st)):
            return
        # is the array (or the number) written on every way here?
        def writes(j):
            if j.op == "store":
                x = j.ops[1]
                return x.k == "inst" and x.v.op == "gep" and x.v.sty == field[0] and len(x.v.ops) == 3 and x.v.ops[2].k == "int" and x.v.ops[2].v in (field[1], n.v.ops[2].v)
            if j.op != "call":
                return False
            if j.callee.k != "func":
                return True
            t = self.touches.get(j.callee.v)
            return t is not None and ("all" in t or field in t or ("*", "ptr") in t or any(x[0] == "p" and x[2] == "ptr" for x in t))
        if any(writes(j) for j in i.block.insts[:i.block.insts.index(i)]):
            return
        seen, work = {i.block}, [i.block]
        while work:
            b = work.pop()
            if b is F.blocks[0]:
                return self.say(fn, i, "bad", f"an entry is stored: at the recorded number of entries ({at}) of an array that is not made larger on some way here", f"{F.name}:{field[1]}:beyond")
            for q in b.pred:
                if q not in seen and not any(writes(j) for j in q.insts):
                    seen.add(q)
                    work.append(q)
        self.say(fn, i, "ok", "an entry is stored: at the recorded number of entries, the array is made larger on every way here")

    def into_param(self, fn, i, k, off, need, st):
        n = fn.F.name
        self.writes[n].add(k)
        t = None if need is None else off + need
        if t is not None and any(a[0] not in ("ia",) and not (a[0] == "len" and a[1][0] == "a") for a in t.t):
            t = None
        if t is None:
            if n == CAT:
                return
            if fn.F.internal:
                self.need[n][k] = None
                return self.say(fn, i, "ok", f"parameter {k}: the callers' buffers have to hold a text of any length")
            return self.say(fn, i, "bad", f"nothing bounds the text written to the caller's buffer", f"{n}:{k}")
        if k in self.need[n] and self.need[n][k] is None:
            return
        self.need[n][k] = t if k not in self.need[n] else join(self.need[n][k], t)
        self.say(fn, i, "ok", f"parameter {k}: the callers' buffers are held to {t} bytes")

    def append(self, fn, i, st):
        """the growing buffer: *dst holds *hwm bytes"""
        F = fn.F
        if F.name != CAT:
            a = fn.strip(i.ops[0])
            c = fn.strip(a.v.ops[0]) if a.k == "inst" and a.v.op == "load" else None
            m = st.get(("paired", c.v.n)) if c is not None and c.k == "inst" else None
            if m is not None:
                n = fn.held(i.ops[1], st)
                me = fn.same.get(a.v.n)
                olds = [x for f in fn.facts(i.block, st, False) for x in (f[1] if isinstance(f, tuple) else f).t if x[0] == "len" and x[1][0] == "v" and x[1][1] in fn.same and me is not None and fn.same[x[1][1]].k == me.k and fn.same[x[1][1]].v is me.v]
                old = Lin(0, {olds[0] if olds else ("len", fn.key(a, st)): 1})
                for j in [j for j in F.insts if j.op == "load" and fn.strip(j.ops[0]).k == "inst" and fn.strip(j.ops[0]).v.n == m and F.dominates(j.block, i.block)] if n is not None else []:
                    r = fn.prove(fn.lin(Val("inst", j, j.ty), st) - old - n - 1, i.block, st)
                    if r is not None:
                        return self.say(fn, i, "ok" if r is True else "bad", "the text that is appended fits in the size recorded" if r is True else f"the text that is appended may end after the size recorded ({r})")

                def about(v):
                    v = fn.strip(v)
                    return v.k == "inst" and (v.v in (c.v, F.insts[m]) or v.v.op == "load" and fn.strip(v.v.ops[0]).k == "inst" and fn.strip(v.v.ops[0]).v in (c.v, F.insts[m]))
                used = [f for x in fn.facts(i.block, st) for f in (x[1] if isinstance(x, tuple) else x).t]
                used = [F.insts[f[1]] for f in used if f[0] == "v"] + [F.insts[f[1][1]] for f in used if f[0] == "len" and f[1][0] == "v"]
                if not any(about(Val("inst", u, u.ty)) or u.op in ("call", "phi") and any(about(o) for o in (u.ops if u.op == "call" else [x for x, _ in u.incoming])) for u in used):
                    return self.say(fn, i, "bad", "the text that is appended is not compared with the size of the buffer")
            return self.say(fn, i, "undec", "text is appended somewhere not followed")
        a = fn.strip(i.ops[0])
        n = fn.held(i.ops[1], st)
        if not (a.k == "inst" and a.v.op == "load" and fn.strip(a.v.ops[0]).k == "arg" and fn.strip(a.v.ops[0]).v == 0) or n is None:
            return self.say(fn, i, "undec", "text is appended somewhere not followed")
        old = Lin(0, {("len", fn.key(a, st)): 1})
        rs = []
        now = st.get(("av", ("a", 2)))
        sizes = [now] if now is not None else [Val("inst", j, j.ty) for j in F.insts if j.op == "load" and fn.strip(j.ops[0]).k == "arg" and fn.strip(j.ops[0]).v == 2 and F.dominates(j.block, i.block)]
        for v in sizes:
            rs.append(fn.prove(fn.lin(v, st) - old - n - 1, i.block, st))
        if now is None and True not in rs and len(i.block.pred) > 1:
            # the size differs with the way taken here
            rs = []
            for q in i.block.pred:
                sq = dict(fn.into.get(q, {}))
                for j in q.insts:
                    fn.step(j, sq, None)
                v, eh = sq.get(("av", ("a", 2))), []
                fn.edge(q, i.block, sq, eh)
                eh = tuple(x for x in eh if isinstance(x, Lin))
                r = None if v is None else fn.prove(fn.lin(v, sq) - old - n - 1, q, sq, eh, 0, eh)
                if v is not None and r is None:
                    fs = [f for f in list(fn.facts(q, sq)) + list(eh) if isinstance(f, Lin)]
                    if not any(f.t.get(a, 0) < 0 for f in fs for a in n.t) and not any(a[0] == "v" and F.insts[a[1]].op in ("call", "phi") for f in fs for a in f.t):
                        r = -1
                rs.append(r)
            if all(r is True for r in rs):
                return self.say(fn, i, "ok", "the text fits below the high water mark")
            if None in rs:
                return self.say(fn, i, "undec", "the high water mark is not followed")
            rs = [r for r in rs if r is not True]
        if True in rs:
            return self.say(fn, i, "ok", "the text fits below the high water mark")
        if not rs or any(r is not None for r in rs):
            return self.say(fn, i, "bad", "the text that is appended may end after the high water mark", f"{CAT}:append")
        fs = set().union(set(), *[set((f[1] if isinstance(f, tuple) else f).t) for f in fn.facts(i.block, st)])
        asked = any(a[0] == "v" and F.insts[a[1]].op == "call" and F.insts[a[1]].callee.v in self.need for a in fs)
        self.say(fn, i, "undec" if asked or set(old.t) & fs and set(n.t) <= fs else "bad", "the text that is appended is not compared with the high water mark", f"{CAT}:append")

    def room(self, fn, i, m, st):
        """formatting into a buffer whose size is recorded by the caller: the room told is what is left of it"""
        off, d = Lin(0), fn.strip(i.ops[0])
        while d.k == "inst" and d.v.op == "gep" and d.v.sty == "i8" and len(d.v.ops) == 2:
            off, d = off + fn.lin(d.v.ops[1], st), fn.strip(d.v.ops[0])
        g = self.growers.get(fn.F.name)
        if g is None or not (d.k == "inst" and d.v.op == "load" and fn.strip(d.v.ops[0]).k == "arg" and fn.strip(d.v.ops[0]).v == g[0]):
            return self.say(fn, i, "undec", "text is formatted somewhere not followed")
        sizes = [j for j in fn.F.insts if j.op == "load" and fn.strip(j.ops[0]).k == "arg" and fn.strip(j.ops[0]).v == g[1] and ("v", j.n) in m.t]
        if len(sizes) != 1:
            return self.say(fn, i, "undec", "text is formatted somewhere not followed")
        left = Lin(0, {("v", sizes[0].n): 1}) - off - m
        if fn.prove(left, i.block, st) is True:
            return self.say(fn, i, "ok", "text is formatted: the room left of the recorded size")
        self.say(fn, i, "bad" if left.c <= 0 and all(x < 0 for x in left.t.values()) else "undec", "text is formatted: the room told is more than what is left of the size recorded", f"{fn.F.name}:room")

    def grown(self, fn, b, st):
        """at the end of a round (or of the function) the buffer has the recorded size"""
        g = self.growers.get(fn.F.name)
        if g is None:
            return
        h = st.get(("av", ("a", g[1])))
        c = st.get(("slot", ("ld", ("a", g[0]))))
        if h is None or c is None:
            return
        cap = fn.cap(c, st)
        if cap is None:
            return
        i = b.insts[-1]
        r = fn.prove(cap - fn.lin(h, st), b, st)
        self.say(fn, i, "ok" if r is True else "undec" if r is None else "bad", "the buffer has the size recorded for it" if r is True else f"the buffer is smaller than the size recorded for it ({r})", f"{fn.F.name}:size")

    def pair(self, fn, i, name, a, b, st):
        if not (a.k == "inst" and b.k == "inst" and a.v.op == "alloca" and b.v.op == "alloca"):
            if a.k == "arg" and b.k == "arg":
                return self.say(fn, i, "ok", f"{name}: the caller's buffer and its size")
            return self.say(fn, i, "undec", f"{name}: buffer not followed")
        c, h = st.get(("cell", a.v.n)), st.get(("num", b.v.n))
        if st.get(("paired", a.v.n)) == b.v.n:
            return self.say(fn, i, "ok", f"{name}: the size {name} has recorded")
        cap = fn.cap(c, st) if isinstance(c, tuple) and c[0] == "b" and st.get(("off", a.v.n), Lin(0)) == Lin(0) else None
        if st.get(("mis", a.v.n)):
            return self.say(fn, i, "bad", f"{name} is told that the buffer has the size recorded, it has {st[('mis', a.v.n)]} bytes less")
        if cap is None or h is None:
            return self.say(fn, i, "undec", f"{name}: the size of the buffer is not known here")
        r = fn.prove(cap - h, i.block, st)
        self.say(fn, i, "ok" if r is True else "undec" if r is None else "bad", f"{name} is told that the buffer has {h} bytes, it has {cap}", "")


CHARS = {"strcpy", "strncpy", "strcat", "strncat", "sprintf", "snprintf", "fgets", "free", "fgetc", "ungetc", "fputs", "putchar", "puts", "fputc", "memchr", "memcmp", "strtol", "strtoll", "atoi"}


def touches(M):
    """the fields ("struct", index) a function may store to, ("*", type) for stores elsewhere; "all" where that is not known"""
    out, calls = {}, {}
    for n, F in M.funcs.items():
        if F.decl:
            continue
        s, c = set(), set()
        for i in F.insts:
            if i.op == "store":
                d = i.ops[1]
                while d.k == "inst" and d.v.op == "bitcast":
                    d = d.v.ops[0]
                if d.k == "inst" and d.v.op == "alloca":
                    continue
                ty = "ptr" if i.ops[0].k == "null" else i.ops[0].ty
                if d.k == "inst" and d.v.op == "gep" and "struct" in (d.v.sty or "") and len(d.v.ops) == 3 and d.v.ops[2].k == "int":
                    s.add((d.v.sty, d.v.ops[2].v))
                elif d.k == "arg":
                    s.add(("p", d.v, ty))
                else:
                    s.add(("*", ty))
            elif i.op == "call":
                if i.callee.k != "func":
                    s.add("all")
                elif i.callee.v in M.funcs and not M.funcs[i.callee.v].decl:
                    c.add(i)
                elif i.callee.v.startswith("llvm.memcpy") or i.callee.v in ("memcpy", "memmove", "memset") or i.callee.v.startswith(("llvm.memset", "llvm.memmove")):
                    d = i.ops[0]
                    while d.k == "inst" and d.v.op in ("gep", "bitcast", "phi") and d.v.op != "phi":
                        d = d.v.ops[0]
                    if not (d.k == "inst" and (d.v.op == "alloca" or d.v.op == "call" and d.v.callee.k == "func" and d.v.callee.v in ("malloc", "calloc", "realloc"))):
                        s.add("all")
                elif not (i.callee.v.startswith(("llvm.", "str", "is", "__gmp")) or i.callee.v in NONE or i.callee.v in CHARS or i.callee.v in ("malloc", "calloc", "realloc", "strdup")):
                    if "scanf" in i.callee.v:
                        if not all(o.k == "inst" and o.v.op == "alloca" for o in i.ops[2:]):
                            s |= {("*", "i32"), ("*", "i64")}
                    else:
                        s.add("all")
        out[n], calls[n] = s, c
    ch = True
    while ch:
        ch = False
        for n, c in calls.items():
            t = set(out[n])
            for i in c:
                for x in out[i.callee.v]:
                    if x[0] != "p":
                        t.add(x)
                        continue
                    d = i.ops[x[1]]
                    while d.k == "inst" and d.v.op == "bitcast":
                        d = d.v.ops[0]
                    if not (d.k == "inst" and d.v.op == "alloca"):
                        t.add(("p", d.v, x[2]) if d.k == "arg" else ("*", x[2]))
            if t != out[n]:
                out[n], ch = t, True
    return out


def makers(M):
    """functions that answer a new object nothing else knows: the numbers its fields start with"""
    out = {}
    ch = True
    while ch:
        ch = False
        for n, F in M.funcs.items():
            if F.decl or n in out:
                continue
            rs = [i.ops[0] for i in F.insts if i.op == "ret" and i.ops]
            if not rs or any(r.ty != "ptr" for r in rs):
                continue
            good = True
            for r in rs:
                if not (r.k == "inst" and r.v.op == "call" and r.v.callee.k == "func" and (r.v.callee.v in ("malloc", "calloc") or r.v.callee.v in out)):
                    good = False
                    continue
                for i in F.insts:
                    if i.op == "store" and i.ops[0].k == "inst" and i.ops[0].v is r.v or i.op == "call" and any(o.k == "inst" and o.v is r.v for o in i.ops):
                        good = False
            if good:
                out[n] = {}
                if len(rs) == 1:
                    out[n].update(out.get(rs[0].v.callee.v, {}))
                    for i in F.insts:
                        d = i.ops[1] if i.op == "store" else None
                        if d is not None and d.k == "inst" and d.v.op == "gep" and d.v.ops[0].k == "inst" and d.v.ops[0].v is rs[0].v and len(d.v.ops) == 3 and d.v.ops[2].k == "int":
                            k = (d.v.sty, d.v.ops[2].v)
                            if i.ops[0].k == "int" and k not in out[n]:
                                out[n][k] = i.ops[0]
                            else:
                                out[n][k] = None
                    out[n] = {k: v for k, v in out[n].items() if v is not None}
                ch = True
    return out


def growers(M):
    """functions that write to the buffer *p they are given and grow it, keeping its size in *q"""
    out = {CAT: (0, 2)}

    def load(v):
        while v.k == "inst" and v.v.op == "gep":
            v = v.v.ops[0]
        return v.v.ops[0].v if v.k == "inst" and v.v.op == "load" and v.v.ops[0].k == "arg" else None
    for n, F in M.funcs.items():
        if F.decl or n in out:
            continue
        for i in F.insts:
            if i.op == "call" and i.callee.k == "func" and i.callee.v in ("vsnprintf", "snprintf") and load(i.ops[0]) is not None:
                p = load(i.ops[0])
                m = i.ops[1]
                qs = set()
                work = [m]
                while work:
                    v = work.pop()
                    if v.k == "inst" and v.v.op in ("sub", "add", "zext", "sext"):
                        work += v.v.ops
                    elif load(v) is not None:
                        qs.add(load(v))
                kept = [j for j in F.insts if j.op == "store" and j.ops[1].k == "arg" and j.ops[1].v == p]
                qs = {q for q in qs if any(j.op == "call" and j.callee.k == "func" and j.callee.v == "realloc" for j in F.insts) and any(j.op == "store" and j.ops[1].k == "arg" and j.ops[1].v == q for j in F.insts)}
                if kept and len(qs) == 1:
                    out[n] = (p, qs.pop())
                elif kept and qs:
                    # the size that is compared with, not the place reached
                    for q in sorted(qs):
                        if any(j.op == "call" and j.callee.k == "func" and j.callee.v == "realloc" and any(load(o) == q or o.k == "inst" and any(load(y) == q for y in o.v.ops) for o in j.ops[1:]) for j in F.insts):
                            out[n] = (p, q)
    return out


def pairs(M, start):
    """functions that hand a buffer and its size on to the growing append"""
    out = {n: {g} for n, g in start.items()}
    ch = True
    while ch:
        ch = False
        for n, F in M.funcs.items():
            if F.decl:
                continue
            for i in F.insts:
                if i.op == "call" and i.callee.k == "func" and i.callee.v in out:
                    for k, m in list(out[i.callee.v]):
                        if i.ops[k].k == "arg" and i.ops[m].k == "arg" and (i.ops[k].v, i.ops[m].v) not in out.get(n, ()):
                            out.setdefault(n, set()).add((i.ops[k].v, i.ops[m].v))
                            ch = True
    return out


def analyse(M, names=None):
    B = Bounds(M)
    fns = [n for n, F in M.funcs.items() if not F.decl]
    for rnd in range(3):
        B.out = []
        for n in fns:
            Fn(B, M.funcs[n]).run()
    return B


def rule_of(msg):
    if "entry is stored" in msg:
        return "entry-in-array"
    if msg.startswith(("osl_", "the buffer has the size", "the buffer is smaller", "the text that", "the text fits", "text is appended somewhere")) and " writes" not in msg:
        return "growing-buffer"
    return "bounded-write"


def run(M, rep):
    if CAT not in M.funcs or M.funcs[CAT].decl:
        raise AnalysisBroken(CAT + " vanished")
    B = analyse(M)
    n = {}
    for fn, line, verdict, msg, key in sorted(set(B.out), key=repr):
        rule = rule_of(msg)
        if verdict == "ok":
            k = n[fn, rule] = n.get((fn, rule), 0) + 1
            rep.ok(fn, rule, f"line {line}: {msg[:160]}")
        elif verdict == "undec":
            rep.undec(fn, rule, f"line {line}: {msg[:200]}")
        else:
            rep.bad(fn, line, rule, re.sub(r"\('v', (\d+)\)", r"%\1", msg)[:300], key=key or f"{fn}:{rule}:{line}")
    arguments(M, rep)


def arguments(M, rep):
    """a variable argument list is started before each use and not used twice"""
    def slot(v):
        while v.k == "inst" and v.v.op in ("gep", "bitcast"):
            v = v.v.ops[0]
        return v.v.n if v.k == "inst" and v.v.op == "alloca" else None
    for n, F in M.funcs.items():
        if F.decl:
            continue
        lists = {slot(i.ops[0]) for i in F.insts if i.op == "call" and i.callee.k == "func" and i.callee.v.startswith("llvm.va_")} - {None}
        if not lists:
            continue

        def step(i, st):
            """None: not an operation on a list"""
            if i.op != "call" or i.callee.k != "func":
                return None
            c = i.callee.v
            if c.startswith("llvm.va_start"):
                return slot(i.ops[0]), "started", None
            if c.startswith("llvm.va_end"):
                return slot(i.ops[0]), "ended", None
            if c.startswith("llvm.va_copy"):
                return slot(i.ops[0]), "started", slot(i.ops[1])
            for o in i.ops:
                if o.ty == "ptr" and slot(o) in lists:
                    return slot(o), "used", slot(o)
            return None
        into = {F.blocks[0]: {x: {"ended"} for x in lists}}
        work = [F.blocks[0]]
        while work:
            b = work.pop()
            st = {k: set(v) for k, v in into[b].items()}
            for i in b.insts:
                r = step(i, st)
                if r is not None and r[0] is not None:
                    st[r[0]] = {r[1]}
            for s in b.succ:
                old = into.get(s)
                new = {k: v | (old[k] if old else set()) for k, v in st.items()}
                if new != old:
                    into[s] = new
                    work.append(s)
        for b, st in into.items():
            st = {k: set(v) for k, v in st.items()}
            for i in b.insts:
                r = step(i, st)
                if r is None or r[0] is None:
                    continue
                if r[2] is not None and r[2] in st:
                    late = st[r[2]] - {"started"}
                    if late:
                        rep.bad(n, i.line, "arguments-started", f"the variable arguments are handed to {i.callee.v} after they have been {' or '.join(sorted(late))} on a path to this call", key=f"{n}:arguments")
                    else:
                        rep.ok(n, "arguments-started", f"line {i.line}: {i.callee.v}")
                st[r[0]] = {r[1]}
