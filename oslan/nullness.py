"""Conditional constant propagation of absent (NULL) pointers.

One function is evaluated with some parameters known to be NULL (or, in the second mode, with one pointer field of one
structure type known to be NULL in every structure reached from the parameters).  Values are NULL, an integer, "not NULL"
or unknown; a branch whose condition is decided keeps only its feasible edge; the edges of an undecided NULL test refine the
tested value.  Calls are evaluated in the context of their NULL arguments (memoised), which also gives their result.
What is reported: an instruction that may execute and certainly accesses memory through a NULL pointer."""
from .engine import NORETURN

NULL, NN, BOT = ("null",), ("nn",), ("bot",)
PN = ("pn",)         # (argument) a pointer to a place holding NULL

# library functions that may not be given NULL (argument positions)
NEED = {"strlen": (0,), "strcpy": (0, 1), "strcat": (0, 1), "strcmp": (0, 1), "strncmp": (0, 1), "strncpy": (0, 1), "strncat": (0, 1), "strdup": (0,),
        "strchr": (0,), "strstr": (0, 1), "strrchr": (0,), "atoi": (0,), "atol": (0,), "strtol": (0,), "strtoll": (0,), "sprintf": (0, 1), "fprintf": (0, 1),
        "snprintf": (2,), "__isoc99_sscanf": (0, 1), "__isoc99_fscanf": (0, 1), "fputs": (0, 1), "fputc": (1,), "fgetc": (0,), "fgets": (0, 2), "sscanf": (0, 1), "fscanf": (0, 1), "fclose": (0,), "fflush": (),
        "puts": (0,), "memcpy": (0, 1), "memset": (0,), "memmove": (0, 1), "llvm.memcpy.p0.p0.i64": (0, 1), "llvm.memset.p0.i64": (0,)}


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return a if a == b else BOT


def key(o):
    return o.v.n if o.k == "inst" else ("a", o.v) if o.k == "arg" else None


def contains_load(m, k):
    return isinstance(m, tuple) and (m == ("*", k) or any(contains_load(x, k) for x in m if isinstance(x, tuple)))


def mentions(m, k):
    return m == k or isinstance(m, tuple) and any(mentions(x, k) for x in m if isinstance(x, tuple))


class Nullness:
    FREECHARS = (0, 60, 62)      # end of text, start and end of a tag
    def __init__(self, M, targets, mr=None):
        self.M = M
        self.mr = mr
        self.targets = targets
        self.memo = {}
        self.reads = set()       # (function, absent part) really read
        self.stack = []
        self.word = None         # the word a reader is assumed to find
        self.log = None          # calls and field stores that may execute, with their last known operands
        self.memory = False      # remember what was just stored at an address
        self.stop = frozenset()  # functions that never return
        self.char = None         # the character every text load is assumed to give
        self.until = None        # (function, instruction): a call that is not entered again
        self.trace = None        # instructions that may execute
        self.wrote = {}          # (function, context, absent) -> may it have written anything
        self.edges = {}          # (function, context, absent) -> feasible edges

    def element(self, a):
        v = self.M.gdata.get(a[1])
        for k in a[2]:
            if not isinstance(v, list) or k is None or not 0 <= k < len(v):
                return BOT
            v = v[k]
        if isinstance(v, list) or v is None:
            return BOT
        return ("int", v.v) if v.k == "int" else ("s", v.v) if v.k == "str" else NULL if v.k == "null" else NN

    def table(self, a, ix):
        if any(x[0] != "int" for x in ix) or (not a[2] and ix[0] != ("int", 0)):
            return NN
        ix = [x[1] for x in ix]
        path = a[2]
        if path:
            path = path[:-1] + (path[-1] + ix[0],)
        return ("g", a[1], path + tuple(ix[1:]))

    def compare(self, ts, args):
        """comparison of the word being read with a constant word"""
        if self.word is None or len(ts) != 1 or ts[0] not in ("strcmp", "strncmp", "strcasecmp", "strncasecmp") or len(args) < 2:
            return None
        cs = [a[1] for a in args[:2] if a[0] == "s"]
        if len(cs) != 1 or any(a == NULL for a in args[:2]):
            return None
        a, b = self.word, cs[0]
        if "case" in ts[0]:
            a, b = a.lower(), b.lower()
        if ts[0].startswith("strn"):
            if args[2][0] != "int":
                return None
            a, b = a[:args[2][1]], b[:args[2][1]]
        return 0 if a == b else 1

    # context: tuple of per-parameter abstract values; absent: None or (struct type, field index) assumed NULL everywhere
    def call(self, name, ctx, absent=None):
        """(value returned or None if it never returns, [(function, line, what, chain)])"""
        ck = (name, ctx, absent)
        if ck in self.memo:
            return self.memo[ck]
        if ck in self.stack or len(self.stack) > 24:
            return (BOT, [])
        self.stack.append(ck)
        r = self.run(name, ctx, absent)
        self.stack.pop()
        self.memo[ck] = r
        return r

    def getter(self, i):
        """positions of the arguments the result of a call is reached from, if it is nothing else"""
        if i.op != "call" or self.mr is None or i.callee.k != "func" or i.callee.v not in self.mr.R:
            return ()
        rs, fresh = self.mr.R[i.callee.v]
        if not rs or fresh:
            return ()
        return tuple(sorted({r[0] for r in rs if isinstance(r[0], int) and r[0] < len(i.ops)})) if all(isinstance(r[0], int) for r in rs) else ()

    def derived(self, F):
        """values reached from the parameters by loads and address computations only"""
        memo = F.__dict__.setdefault("_pderived", {})
        if not memo:
            for i in F.insts:
                memo[i.n] = i.op in ("load", "gep", "phi", "bitcast", "select") or self.getter(i)
            ch = True
            while ch:
                ch = False
                for i in F.insts:
                    if not memo[i.n]:
                        continue
                    vs = [v for v, _ in i.incoming] if i.op == "phi" else i.ops[1:] if i.op == "select" else [i.ops[k] for k in self.getter(i)] if i.op == "call" else i.ops[:1]
                    if any(v.k == "inst" and not memo.get(v.v.n, False) or v.k not in ("inst", "arg", "null", "undef") for v in vs):
                        memo[i.n] = False
                        ch = True
        return memo

    def stores(self, F):
        """structure fields this function writes or hands out the address of"""
        st = F.__dict__.get("_fstores")
        if st is None:
            st = F._fstores = set()
            for i in F.insts:
                for k, o in enumerate(i.ops or ()):
                    if o.k == "inst" and o.v.op == "gep" and o.v.sty.startswith("struct.") and not (i.op == "load" and k == 0) and i.op not in ("gep", "icmp"):
                        ix = [x.v for x in o.v.ops[1:] if x.k == "int"]
                        if len(ix) == 2:
                            st.add((o.v.sty, ix[1]))
        return st

    def after(self, name, inst, value=NULL):
        """evaluate what follows one call, its result being known"""
        F = self.M.funcs[name]
        return self.run(name, (BOT,) * F.nparams, None, inst, value)

    # ---- addresses, for values stored and loaded back
    def akey(self, v, d=0, env=None):
        if v.k == "arg":
            return ("a", v.v)
        if v.k in ("global", "null", "int"):
            return (v.k, v.v)
        if v.k != "inst" or d > 8:
            return None
        i = v.v
        if i.op == "gep":
            b = self.akey(i.ops[0], d + 1, env)
            ix = tuple(self.akey(o, d + 1, env) if o.k != "int" else o.v for o in i.ops[1:])
            return ("g", b, i.sty, ix) if b is not None and None not in ix else None
        if i.op == "load":
            b = self.akey(i.ops[0], d + 1, env)
            return ("*", b) if b is not None else None
        if i.op in ("bitcast", "sext", "zext", "trunc"):
            return self.akey(i.ops[0], d + 1, env)
        if i.op in ("add", "sub", "mul", "shl"):
            ks = tuple(self.akey(o, d + 1, env) for o in i.ops)
            return (i.op,) + ks if None not in ks else None
        if i.op == "phi" and env is not None:
            k = env.get(("al", i.n))
            if k is not None and k != BOT:
                return k[0]
        return ("i", i.n)

    @staticmethod
    def sig(k):
        return (k[2], k[3]) if k and k[0] == "g" and k[2].startswith("struct.") else None

    def forget(self, env, k=None):
        """a store at k (None: a call that may write) invalidates what may be the same place"""
        for m in [m for m in env if isinstance(m, tuple) and m[0] == "m"]:
            if k is None or m[1] != k and self.sig(m[1]) == self.sig(k) or contains_load(m[1], k):
                del env[m]

    def bases(self, F, T):
        """{field: {value a structure of type T is reached through: first line}} for the pointer fields loaded in F and not written in F through that value"""
        out, killed = {}, set()
        for i in F.insts:
            for k, o in enumerate(i.ops or ()):
                if o.k == "inst" and o.v.op == "gep" and o.v.sty == T:
                    ix = [x.v for x in o.v.ops[1:] if x.k == "int"]
                    b = key(o.v.ops[0])
                    if len(ix) != 2 or b is None or i.op in ("gep", "icmp"):
                        continue
                    if i.op == "load" and k == 0:
                        if i.ty == "ptr":
                            out.setdefault(ix[1], {}).setdefault(b, i.line)
                    else:
                        killed.add((ix[1], b))
        return {f: {b: l for b, l in d.items() if (f, b) not in killed} for f, d in out.items()}

    def part(self, name, ctx, absent, base):
        """evaluate one function, one field of the structure one of its values points to being absent"""
        r = self.run(name, ctx, None, only=(absent, base))
        return r[1]

    def run(self, name, ctx, absent, start=None, assumed=NULL, only=None):
        M, F = self.M, self.M.funcs[name]
        mem = self.memory or only is not None
        der = self.derived(F) if absent else None
        killed = absent and absent in self.stores(F)
        ctx0 = ctx
        pn = [k for k, c in enumerate(ctx) if c == PN]
        if pn:
            ctx = tuple(NN if c == PN else c for c in ctx)
        first = F.blocks[0]
        if start is not None:
            first = next(b for b in F.blocks if any(i.n == start.n for i in b.insts))
        states = {first: {("m", ("a", k)): NULL for k in pn}}
        edges = {}                       # (from, to) -> state
        work = [first]
        found, ret = {}, None
        rounds, wrote = 0, False
        while work and rounds < 4000:
            rounds += 1
            b = work.pop(0)
            env = dict(states[b])

            def val(v):
                if v.k == "null":
                    return NULL
                if v.k == "int":
                    return ("int", v.v)
                if v.k == "arg":
                    return env.get(("a", v.v), ctx[v.v] if v.v < len(ctx) else BOT)
                if v.k == "inst":
                    return env.get(v.v.n, BOT)
                if v.k == "str":
                    return ("s", v.v)
                if v.k == "global" and f"{F.src}:{v.v}" in M.gdata:
                    return ("g", f"{F.src}:{v.v}", ())
                if v.k == "cexpr" and v.v[0] == "gep" and v.v[2] and v.v[2][0].k == "global" and all(o.k == "int" for o in v.v[2][1:]):
                    return self.table(("g", f"{F.src}:{v.v[2][0].v}", ()), [("int", o.v) for o in v.v[2][1:]])
                if v.k in ("global", "func", "str", "cexpr"):
                    return NN
                return BOT
            dead = False
            todo = b.insts
            if start is not None:
                todo = b.insts[next(k for k, i in enumerate(b.insts) if i.n == start.n) + 1:]
                env = {start.n: assumed}
                start = None
            for i in todo:
                op = i.op
                if self.until == (name, i.n):
                    dead = True
                    break
                if self.trace is not None:
                    self.trace.add((name, i.n))
                if mem and op in ("phi", "call"):
                    for m in [m for m in env if isinstance(m, tuple) and m[0] == "m" and mentions(m[1], ("i", i.n))]:
                        del env[m]
                if op == "phi":
                    r = None
                    for v, p in i.incoming:
                        e = edges.get((p, b))
                        if e is None:
                            continue
                        if v.k == "inst":
                            x = e.get(v.v.n, BOT)
                        elif v.k == "arg":
                            x = e.get(("a", v.v), ctx[v.v] if v.v < len(ctx) else BOT)
                        else:
                            x = val(v)
                        r = join(r, x)
                    env[i.n] = r if r is not None else BOT
                    if self.memory and i.ty == "ptr":
                        ks = {self.akey(v, 0, env) for v, p in i.incoming if edges.get((p, b)) is not None}
                        env[("al", i.n)] = (next(iter(ks)),) if len(ks) == 1 and None not in ks and not mentions(ks, ("i", i.n)) else BOT
                elif op == "load":
                    a = val(i.ops[0])
                    if a == NULL:
                        found[(name, i.line)] = "read through an absent pointer"
                        dead = True
                        break
                    r = BOT
                    if a[0] == "g":
                        r = self.element(a)
                    if mem:
                        r = env.get(("m", self.akey(i.ops[0], 0, None if only else env)), r)
                    if absent and not killed and i.ops[0].k == "inst" and i.ops[0].v.op == "gep" and i.ops[0].v.sty == absent[0]:
                        ix = [o.v for o in i.ops[0].v.ops[1:] if o.k == "int"]
                        if len(ix) == 2 and ix[1] == absent[1] and der.get(i.ops[0].v.n):
                            r = absent[2] if len(absent) > 2 else NULL
                            self.reads.add((name, absent))
                    if only and i.ops[0].k == "inst" and i.ops[0].v.op == "gep" and i.ops[0].v.sty == only[0][0]:
                        ix = [o.v for o in i.ops[0].v.ops[1:] if o.k == "int"]
                        if len(ix) == 2 and ix[1] == only[0][1]:
                            # the other structures have that part
                            r = NULL if key(i.ops[0].v.ops[0]) == only[1] else NN
                    if self.char is not None and i.ty == "i8" and r == BOT:
                        r = ("int", self.char)
                    env[i.n] = r
                elif op == "store":
                    wrote = True
                    if val(i.ops[1]) == NULL:
                        found[(name, i.line)] = "write through an absent pointer"
                        dead = True
                        break
                    if mem:
                        k = self.akey(i.ops[1], 0, None if only else env)
                        if k is None:
                            self.forget(env)
                        else:
                            self.forget(env, k)
                            if val(i.ops[0]) in (NULL, NN):
                                env[("m", k)] = val(i.ops[0])
                            else:
                                env.pop(("m", k), None)
                    if self.char is not None and val(i.ops[0]) == ("int", self.char):
                        self.log[(name, i.n, "char")] = (i.line, i.ops[0].k)
                    if self.log is not None and i.ops[1].k == "inst" and i.ops[1].v.op == "gep":
                        ix = [o.v for o in i.ops[1].v.ops[1:] if o.k == "int"]
                        if len(ix) == 2:
                            self.log[(name, i.n, "store", i.ops[1].v.sty, ix[1], ctx)] = (i.line, val(i.ops[0]))
                elif op == "gep":
                    a = val(i.ops[0])
                    if a[0] == "g":
                        env[i.n] = self.table(a, [val(o) for o in i.ops[1:]])
                        continue
                    env[i.n] = NULL if a == NULL else NN if a == NN or i.sty.startswith("struct.") else BOT
                elif op == "alloca":
                    env[i.n] = NN
                elif op == "icmp":
                    a, c = val(i.ops[0]), val(i.ops[1])
                    env[i.n] = self.icmp(i.pred, a, c)
                    if self.char is not None and i.ops[1].k == "int" and i.ops[1].v in self.FREECHARS and i.pred in ("eq", "ne") and a == ("int", self.char):
                        env[i.n] = BOT       # position dependent: tested before and after the name
                    if env[i.n] == BOT and i.pred == "slt" and a[0] == "int":
                        u = env.get(("ub", key(i.ops[1])))
                        if u is not None and u != BOT and u[1] <= a[1]:
                            env[i.n] = ("int", 0)
                elif op in ("sext", "zext", "trunc", "bitcast", "freeze"):
                    env[i.n] = val(i.ops[0])
                elif op in ("add", "sub", "mul", "and", "or", "xor"):
                    a, c = val(i.ops[0]), val(i.ops[1])
                    r = BOT
                    if a[0] == c[0] == "int":
                        x, y = a[1], c[1]
                        r = ("int", {"add": x + y, "sub": x - y, "mul": x * y, "and": x & y, "or": x | y, "xor": x ^ y}[op])
                        if i.ty == "i1":
                            r = ("int", r[1] & 1)
                    elif op == "and" and ("int", 0) in (a, c):
                        r = ("int", 0)
                    env[i.n] = r
                elif op == "select":
                    c = val(i.ops[0])
                    env[i.n] = join(val(i.ops[1]), val(i.ops[2])) if c[0] != "int" else val(i.ops[1]) if c[1] else val(i.ops[2])
                elif op == "call":
                    args = [val(o) for o in i.ops]
                    r = None
                    ts = self.targets(i)
                    if i.callee.k != "func" and val(i.callee) == NULL:
                        found[(name, i.line)] = "call through an absent operation"
                        dead = True
                        break
                    if not ts:
                        r = BOT
                    if self.log is not None:
                        self.log[(name, i.n, "call", ts[0] if ts else "?", ctx)] = (i.line, tuple(args))
                    x = self.compare(ts, args)
                    if x is not None:
                        env[i.n] = ("int", x)
                        continue
                    env0 = dict(env) if mem else env
                    for t in ts:
                        if t in NORETURN or t in self.stop:
                            continue
                        G = M.funcs.get(t)
                        if mem and (t.startswith("mem") or t.startswith("llvm.mem")):
                            self.forget(env)
                            wrote = True
                        if G is not None and not G.decl:
                            if self.memory and self.log is None:
                                args = [PN if a in (NN, BOT) and o.k in ("inst", "arg") and env0.get(("m", self.akey(o, 0, env))) == NULL else a for a, o in zip(args, i.ops)]
                            cx = tuple(a if self.log is not None or a in (NULL, NN, PN) else BOT for a in args[:G.nparams])
                            if only and NULL not in cx and any(key(o) == only[1] for o in i.ops):
                                # the same structure is looked at elsewhere: what is found there does not count, the result does
                                x, fs = self.call(t, cx, only[0])
                            elif NULL in cx or PN in cx or absent or self.log is not None:
                                # a structure built here is not one of those assumed to lack the part
                                known = absent and not killed and any(o.k == "arg" or o.k == "inst" and der.get(o.v.n) for o in i.ops if o.k in ("arg", "inst") and o.ty == "ptr")
                                x, fs = self.call(t, cx, absent if known else None)
                                for k, w in fs:
                                    found.setdefault((name, i.line) + k, w)
                                if mem and self.wrote.get((t, cx, absent), True):
                                    self.forget(env)
                                    wrote = True
                            else:
                                x = BOT
                                if mem and self.mr.W.get(t):
                                    self.forget(env)
                                    wrote = True
                            if x is not None:
                                r = join(r, x)
                            continue
                        need = NEED.get(t, range(len(args)) if t.startswith("__gmpz_") and "get_str" not in t and "clear" not in t else ())
                        for k in need:
                            if k < len(args) and args[k] == NULL:
                                found[(name, i.line)] = f"{t} is given an absent pointer"
                        r = join(r, NN if t == "getenv" and self.word is not None else BOT)
                    if r is None:
                        dead = True
                        break
                    env[i.n] = r
                elif op == "ret":
                    if i.ops:
                        ret = join(ret, val(i.ops[0]))
                    else:
                        ret = join(ret, BOT)
                    self.last_ret = ret
                elif op in ("br", "switch", "unreachable"):
                    pass
                else:
                    env[i.n] = BOT
            if dead:
                continue
            t = b.insts[-1]
            outs = []
            if t.op == "br":
                if len(t.succ) == 1:
                    outs = [(t.succ[0], env)]
                else:
                    c = val(t.ops[0])
                    if c[0] == "int":
                        outs = [(t.succ[0 if c[1] else 1], env)]
                    else:
                        for k in (0, 1):
                            e = self.refine(env, t.ops[0], k == 0, val)
                            outs.append((t.succ[k], self.learn(b, env, e, t.ops[0]) if only else e))
            elif t.op == "switch":
                c = val(t.ops[0])
                if c[0] == "int" and t.cases is not None:
                    dst = [s for v, s in t.cases if v == c[1]]
                    outs = [(dst[0] if dst else t.cases[-1][1], env)]
                else:
                    outs = [(s, env) for s in b.succ]
            for s, e in outs:
                if e is None:
                    continue
                old = edges.get((b, s))
                new = e if old is None else {k: join(old[k], e[k]) for k in old if k in e}
                if old is not None and new == old:
                    continue
                edges[(b, s)] = new
                m = None
                for p in s.pred:
                    x = edges.get((p, s))
                    if x is not None:
                        m = dict(x) if m is None else {k: join(m[k], x[k]) for k in m if k in x}
                if states.get(s) != m or (s.insts and s.insts[0].op == "phi"):
                    states[s] = m
                    if s not in work:
                        work.append(s)
        self.edges[(name, ctx, absent)] = set(edges)
        self.wrote[(name, ctx0, absent)] = wrote
        return (ret, sorted(found.items()))

    def icmp(self, pred, a, c):
        if pred in ("eq", "ne"):
            e = None
            if NULL in (a, c) and (NN in (a, c) or a[0] in "sg" or c[0] in "sg"):
                e = False
            elif a == c == NULL:
                e = True
            elif a[0] == c[0] == "int":
                e = a[1] == c[1]
            return BOT if e is None else ("int", int(e == (pred == "eq")))
        if a[0] == c[0] == "int":
            x, y = a[1], c[1]
            if pred[0] == "u":
                x, y = x % 2 ** 64, y % 2 ** 64
            return ("int", int({"gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[pred[1:]]))
        return BOT

    def learn(self, b, env, e, cond):
        """what a branch tells about a value just loaded holds for the place it was loaded from"""
        if e is None or e is env or cond.k != "inst" or cond.v.op != "icmp":
            return e
        for o in cond.v.ops:
            if o.k != "inst" or o.v.op != "load" or o.v.n not in [i.n for i in b.insts] or e.get(o.v.n) not in (NULL, NN):
                continue
            p = [i.n for i in b.insts].index(o.v.n)
            if any(i.op in ("store", "call") for i in b.insts[p:]):
                continue
            k = self.akey(o.v.ops[0], 0, None)
            if k is not None:
                e[("m", k)] = e[o.v.n]
        return e

    def refine(self, env, cond, taken, val):
        if cond.k != "inst" or cond.v.op != "icmp":
            if cond.k == "inst" and cond.v.op == "xor" and cond.v.ty == "i1" and cond.v.ops[1].k == "int":
                return self.refine(env, cond.v.ops[0], not taken, val)
            return env
        i = cond.v
        if i.pred not in ("eq", "ne"):
            # the complement of  const < x  bounds x from above
            a = val(i.ops[0])
            if i.pred == "slt" and a[0] == "int" and not taken and key(i.ops[1]) is not None:
                env = dict(env)
                env[("ub", key(i.ops[1]))] = a
            return env
        eq = (i.pred == "eq") == taken
        a, c = val(i.ops[0]), val(i.ops[1])
        env = dict(env)
        for o, x, y in ((i.ops[0], a, c), (i.ops[1], c, a)):
            k = key(o)
            if k is None:
                continue
            if y == NULL and x == BOT:
                env[k] = NULL if eq else NN
            elif (y == NN or y[0] in "sg") and x == BOT and eq:
                env[k] = NN
            elif y[0] == "int" and x == BOT and eq:
                env[k] = y
        return env
