"""C11: the descriptor of every structure type is wired to that type's operations; generics are always handled through
their own descriptor; the default registry is complete."""
import re
from ..engine import Engine, Incomplete, NULL, ZERO, atom_eq, subterms
from ..ir import AnalysisBroken
from .common import *

SLOTS = ["idump", "sprint", "sread", "malloc", "free", "clone", "equal"]
NOT_REGISTERED = {"irregular"}          # documented: excluded from the default registry
OPS = re.compile(r"^osl_([a-z_]+?)_(idump|sprint|sread|malloc|pmalloc|free|clone|equal|dump|print|nclone)$")
# the slot a public operation on generics has to go through
GENERIC_SLOT = {"idump": "idump", "dump": "idump", "sprint": "sprint", "print": "sprint", "sread": "sread", "sread_one": "sread", "read_one": "sread",
                "read": "sread", "free": "free", "remove": "free", "remove_node": "free", "clone": "clone", "nclone": "clone", "equal": "equal"}


def text_of(v, s, E):
    """the constant text a fresh string holds"""
    if v[0] == "str":
        return v[1]
    if v[0] == "alloc" and v[2] in ("strdup", "__strdup") and v[3][0][0] == "str":
        return v[3][0][1]
    if v[0] == "alloc":
        for e in reversed(s.ev):
            if e[0] == "call" and e[1] in ("strcpy", "memcpy", "strncpy", "sprintf") and e[2][0] == v:
                for a in e[2][1:]:
                    if a[0] == "str":
                        return a[1]
    return None


class Iface:
    def __init__(self, M, rep):
        self.M, self.rep = M, rep

    def run(self):
        for t in IFACE_TYPES:
            self.table(t)
        self.unique()
        self.registry()
        self.dispatch()
        self.shell()
        self.lookups()

    # ------------------------------------------------------------------ descriptor tables
    def table(self, t):
        M, rep = self.M, self.rep
        fn = f"osl_{t}_interface"
        F_ = M.funcs.get(fn)
        if F_ is None or F_.decl:
            raise AnalysisBroken(fn + " not found")
        self.uris = getattr(self, "uris", {})
        E = Engine(M, opaque=lambda n: bool(OPS.match(n)) and n != "osl_interface_malloc", track=lambda n: True)
        try:
            res = E.analyse(fn)
        except Incomplete as e:
            rep.undec(fn, "iface-slot", str(e))
            return
        if not res.rets:
            rep.bad(fn, F_.line, "iface-slot", "no path returns a descriptor", key=fn + ":noret")
        for s, v, line in res.rets:
            if v is None or v[0] != "alloc":
                if v == NULL:
                    rep.bad(fn, line, "iface-slot", "a path returns no descriptor", key=fn + ":null")
                else:
                    rep.undec(fn, "iface-slot", "returned descriptor not tracked")
                continue
            u = E.load(s, F(M, v, "interface", "URI"))
            txt = text_of(u, s, E)
            if txt is not None:
                self.uris.setdefault(t, []).append(txt)
                if txt == t:
                    rep.ok(fn, "iface-uri", t)
                else:
                    rep.bad(fn, line, "iface-uri", f"the identifier is '{txt}' instead of '{t}'", key=fn + ":uri")
            elif u == NULL or u[0] == "uninit":
                rep.bad(fn, line, "iface-uri", "the identifier is not set", key=fn + ":uri")
            else:
                rep.undec(fn, "iface-uri", show(M, u))
            for slot in SLOTS:
                w = E.load(s, F(M, v, "interface", slot))
                self.slot(fn, line, t, slot, w)
            nx = E.load(s, F(M, v, "interface", "next"))
            if nx == NULL:
                rep.ok(fn, "iface-slot", "next")
            elif nx[0] == "uninit":
                rep.bad(fn, line, "iface-slot", "the list link of the descriptor is uninitialised", key=fn + ":next")

    def slot(self, fn, line, t, slot, w):
        M, rep = self.M, self.rep
        if w[0] != "fn":
            if w == NULL or w[0] == "uninit":
                rep.bad(fn, line, "iface-slot", f"{slot} is not set", key=f"{fn}:{slot}")
            else:
                rep.undec(fn, "iface-slot", f"{slot} = {show(M, w)}")
            return
        g = w[1]
        if g == f"osl_{t}_{slot}":
            rep.ok(fn, "iface-slot", f"{slot} = {g}")
            return
        m = OPS.match(g)
        if m and g in M.public and (m.group(1) in FIELDS) and (m.group(1) != t or m.group(2) != slot):
            rep.bad(fn, line, "iface-slot", f"{slot} is bound to {g} instead of osl_{t}_{slot}", key=f"{fn}:{slot}")
            return
        r, why = self.wrapper(g, t, slot)
        if r is True:
            rep.ok(fn, "iface-slot", f"{slot} = {g} -> {why}")
        elif r is False:
            rep.bad(fn, line, "iface-slot", f"{slot} is bound to {g}, which {why}", key=f"{fn}:{slot}")
        else:
            rep.undec(fn, "iface-slot", f"{slot} = {g}: {why}")

    def wrapper(self, g, t, slot):
        """g hands over to osl_<t>_<slot>"""
        M = self.M
        F_ = M.funcs.get(g)
        if F_ is None or F_.decl:
            return None, "is not part of the library"
        E = Engine(M, opaque=lambda n: bool(OPS.match(n)), track=lambda n: True)
        try:
            res = E.analyse(g)
        except Incomplete as e:
            return None, str(e)
        good = [f"osl_{t}_{slot}"] + ([f"osl_{t}_pmalloc"] if slot == "malloc" else [])
        dec = True
        for s, v, line in res.rets:
            evs = [e for e in s.ev if e[0] == "call" and OPS.match(e[1])]
            mine = [e for e in evs if e[1] in good]
            other = [e for e in evs if e[1] not in good]
            if len(mine) == 1 and not other:
                e = mine[0]
                if slot == "malloc" and v == e[3] or slot != "malloc" and (v == e[3] or M.ptypes.get(g, ["?"])[0] == "void") and \
                        list(e[2]) == [("arg", i) for i in range(len(e[2]))]:
                    continue
                if slot == "equal" and v[0] == "lit" and e[3] in set(subterms(v)):
                    continue
                return False, f"does not hand its operands and the result of {e[1]} over"
            if not mine and other:
                return False, f"calls {other[0][1]}"
            if not mine and not other and len(res.rets) == 1:
                return False, f"never calls osl_{t}_{slot}"
            dec = None
        return dec, good[0]

    def unique(self):
        seen = {}
        for t, us in sorted(self.uris.items()):
            for u in set(us):
                if u in seen and seen[u] != t:
                    self.rep.bad(f"osl_{t}_interface", 0, "iface-uri", f"identifier '{u}' is already that of {seen[u]}", key=f"{t}:dup")
                else:
                    self.rep.ok(f"osl_{t}_interface", "iface-uri", "unique")
                seen[u] = t

    # ------------------------------------------------------------------ registry
    def registry(self):
        M, rep = self.M, self.rep
        fn = "osl_interface_get_default_registry"
        F_ = M.funcs.get(fn)
        if F_ is None or F_.decl:
            raise AnalysisBroken(fn + " not found")
        ifn = {f"osl_{t}_interface": t for t in IFACE_TYPES}
        E = Engine(M, opaque=lambda n: n in ifn or n == "osl_interface_add", track=lambda n: True, modsum={})
        try:
            res = E.analyse(fn)
        except Incomplete as e:
            rep.undec(fn, "iface-registry", str(e))
            return
        want = set(IFACE_TYPES) - NOT_REGISTERED
        for s, v, line in res.rets:
            got, unknown, made = [], False, {}
            for e in s.ev:
                if e[0] == "loop" and not self.reads_only(e, E):
                    unknown = True
                if e[0] != "call":
                    continue
                if e[1] in ifn:
                    made[e[3]] = ifn[e[1]]
                elif e[1] == "osl_interface_add":
                    if e[2][1] in made:
                        got.append((made[e[2][1]], e[2][0]))
                    else:
                        unknown = True
            lists = {l for _, l in got}
            for t in sorted(want):
                if t in [x for x, _ in got]:
                    rep.ok(fn, "iface-registry", t)
                elif unknown or any(x[0] == "str" and x[1] in self.uris.get(t, ()) or x[0] == "ret" and x[1] == f"osl_{t}_interface"
                                    for a in s.facts for x in subterms(a)):
                    rep.undec(fn, "iface-registry", t)
                else:
                    rep.bad(fn, line, "iface-registry", f"the default registry does not know '{t}'", key=f"{fn}:{t}")
            if len(lists) > 1:
                rep.bad(fn, line, "iface-registry", "descriptors are added to different lists", key=f"{fn}:lists")
            if len({x for x, _ in got}) != len(got):
                rep.bad(fn, line, "iface-registry", "a descriptor is added twice", key=f"{fn}:twice")

    def reads_only(self, e, E):
        """a loop that adds nothing to a registry and builds no descriptor"""
        return not any(x[0] == "call" and (x[1].endswith("_interface") or x[1] == "osl_interface_add" or x[1].endswith("*slot") or x[1] == "*")
                       for _, _, ev, _ in E.summaries[e[2]].backs for x in ev)

    # ------------------------------------------------------------------ dispatch
    def indirect(self):
        """functions that call through a descriptor"""
        out = set()
        for n, F_ in self.M.funcs.items():
            if F_.decl:
                continue
            for i in F_.insts:
                if i.op == "call" and i.callee is not None and i.callee.k == "inst" and i.callee.v.op == "load":
                    out.add(n)
        return out

    def dispatch(self):
        M, rep = self.M, self.rep
        direct = self.indirect()
        if not direct:
            raise AnalysisBroken("no call through a descriptor found")
        # callers of static functions with indirect calls are analysed instead of them
        entries = {n for n in direct if not M.funcs[n].internal}
        for n, F_ in M.funcs.items():
            if F_.decl or F_.internal:
                continue
            if any(i.op == "call" and i.callee is not None and i.callee.k == "func" and i.callee.v in direct and M.funcs[i.callee.v].internal for i in F_.insts):
                entries.add(n)
        for fn in sorted(entries):
            self.disp(fn, direct)
        # every operation on generics goes through the slot of its name
        for n in sorted(entries):
            m = re.match(r"^osl_generic_(\w+)$", n)
            if m and m.group(1) in GENERIC_SLOT and n in M.public:
                pass

    def disp(self, fn, direct):
        M, rep = self.M, self.rep
        seen = []
        IT = S + "interface"
        GT = S + "generic"
        ii, di = fidx(M, "generic", "interface"), fidx(M, "generic", "data")

        def hook(E, frame, i, s, name, args):
            if name.startswith("*"):
                seen.append((name, tuple(args), i.line, frame["F"].name, s.copy(), i.n))
        opq = lambda n: n in M.public and n not in ("osl_generic_malloc", "osl_interface_malloc")
        E = Engine(M, opaque=lambda n: opq(n), track=lambda n: True, pure=lambda n: n in ("osl_interface_lookup", "osl_generic_has_URI", "osl_interface_equal"))
        E.call_hook = hook
        E.track_store = lambda a, s: a[0] == "fld" and a[2] == GT
        stores = []
        E.store_hook = lambda E_, frame, i, s, a, v: stores.append((a, v, i.line))
        try:
            E.analyse(fn)
        except Incomplete as e:
            rep.undec(fn, "iface-dispatch", str(e))
            return
        m = re.match(r"^osl_generic_(\w+)$", fn)
        want = GENERIC_SLOT.get(m.group(1)) if m else None
        for name, args, line, at, s, n in seen:
            slot = name[1:]
            c = args[0]
            if c[0] != "ld" or c[1][0] != "fld" or c[1][2] != IT:
                rep.undec(fn, "iface-dispatch", f"indirect call at line {line}")
                continue
            I = c[1][1]
            if want is not None and slot != want:
                rep.bad(fn, line, "iface-dispatch", f"calls the descriptor's {slot} instead of its {want}", key=f"{fn}:{slot}")
                continue
            if I[0] == "ld" and I[1][0] == "fld" and I[1][2] == GT and I[1][3] == ii:
                G = I[1][1]
                pos = 2 if slot == "idump" else 1
                if slot in ("malloc", "sread"):
                    rep.undec(fn, "iface-dispatch", f"{slot} of an existing generic")
                    continue
                d = args[pos]
                want_d = ("fld", G, GT, di)
                if d[0] == "ld" and d[1] == want_d:
                    rep.ok(fn, "iface-dispatch", f"{slot} gets the generic's own data")
                elif d[0] == "ld" and d[1][0] == "fld" or d == NULL:
                    rep.bad(fn, line, "iface-dispatch", f"{slot} is given {show(M, d)} instead of the data of the generic whose descriptor is used", key=f"{fn}:{slot}:data")
                else:
                    rep.undec(fn, "iface-dispatch", f"{slot} given {show(M, d)}")
                if slot == "equal":
                    d2 = args[2]
                    if d2[0] == "ld" and d2[1][0] == "fld" and d2[1][2] == GT and d2[1][3] == di:
                        G2 = d2[1][1]
                        if G2 == G:
                            rep.bad(fn, line, "iface-dispatch", "equal compares the data with itself", key=f"{fn}:equal:self")
                            continue
                        # the two descriptors were found to be the same
                        okk = False
                        for a, p in s.facts.items():
                            ts = set(subterms(a))
                            i2 = [x for x in ts if x[0] == "ld" and x[1] == ("fld", G2, GT, ii)]
                            i1 = [x for x in ts if x[0] == "ld" and x[1] == ("fld", G, GT, ii)]
                            cs = [x for x in ts if x[0] == "call" and x[1] in ("osl_interface_equal", "strcmp", "osl_generic_has_URI")]
                            if i1 and i2 and cs and (p is False or cs[0][1] == "strcmp"):
                                okk = True
                        if okk:
                            rep.ok(fn, "iface-dispatch", "equal only between generics of the same type")
                        else:
                            rep.bad(fn, line, "iface-dispatch", "equal is called on data of a generic whose descriptor was not compared", key=f"{fn}:equal:type")
                    elif d2[0] == "ld":
                        rep.bad(fn, line, "iface-dispatch", f"equal is given {show(M, d2)} as second operand", key=f"{fn}:equal:data2")
            elif slot == "sread":
                # data read by a descriptor found in the registry is stored with a copy of that descriptor
                r = [(a, v, l) for a, v, l in stores if a[0] == "fld" and a[2] == GT and a[3] == di and (v[0] == "ret" and v[1] == name)]
                if not r:
                    rep.undec(fn, "iface-dispatch", "sread result")
                    continue
                for a, v, l in r:
                    ifs = [w for b, w, _ in stores if b == ("fld", a[1], GT, ii) and w != NULL]
                    if a[1][0] == "ret" and a[1][1] == "osl_generic_shell" and not ifs:
                        ifs = [a[1][2][1]]
                    good = [w for w in ifs if w[0] in ("ret", "call") and w[1] in ("osl_interface_nclone", "osl_interface_clone") and strip_ep(w[2][0]) == strip_ep(I)
                            and (w[1] == "osl_interface_clone" or w[2][1] == ("int", 1))]
                    if good:
                        rep.ok(fn, "iface-dispatch", "data stored with the descriptor that read it")
                        # osl_interface_clone copies the whole rest of the registry
                        if all(w[1] == "osl_interface_clone" for w in good):
                            rep.bad(fn, l, "iface-dispatch", "the generic gets a copy of the whole rest of the registry instead of its own descriptor", key=f"{fn}:sread:all")
                    elif ifs:
                        bad = ifs[0]
                        if bad[0] in ("ret", "call") and bad[1] in ("osl_interface_nclone",) or bad == I:
                            rep.bad(fn, l, "iface-dispatch", f"data read through one descriptor is stored with {show(M, bad)}", key=f"{fn}:sread:iface")
                        else:
                            rep.undec(fn, "iface-dispatch", f"descriptor {show(M, bad)}")
                    else:
                        rep.bad(fn, l, "iface-dispatch", "data is stored without its descriptor", key=f"{fn}:sread:none")
            else:
                rep.undec(fn, "iface-dispatch", f"{slot} of {show(M, I)}")

    # ------------------------------------------------------------------ looked up data
    def lookups(self):
        """data looked up under an identifier is used as the structure of that identifier"""
        M, rep = self.M, self.rep
        for fn, F_ in sorted(M.funcs.items()):
            if F_.decl:
                continue
            uses = {}
            for i in F_.insts:
                for o in list(i.ops) + ([v for v, b in i.incoming] if i.incoming else []):
                    if o.k == "inst":
                        uses.setdefault(o.v.n, []).append(i)
            for c in F_.insts:
                if c.op != "call" or c.callee is None or c.callee.k != "func" or c.callee.v != "osl_generic_lookup" or len(c.ops) < 2:
                    continue
                u = c.ops[1].v if c.ops[1].k == "str" else None
                todo, seen, types = [c.n], set(), []
                while todo:
                    n = todo.pop()
                    if n in seen:
                        continue
                    seen.add(n)
                    for i in uses.get(n, []):
                        if i.op in ("phi", "select", "bitcast", "freeze"):
                            todo.append(i.n)
                        elif i.op == "gep" and i.ops[0].k == "inst" and i.ops[0].v.n == n and i.sty.startswith("struct."):
                            types.append((i.sty, i.line))
                        elif i.op == "call" and i.callee is not None and i.callee.k == "func":
                            pt = M.ptypes.get(i.callee.v, [])
                            for k, o in enumerate(i.ops):
                                if o.k == "inst" and o.v.n == n and 1 + k < len(pt) and pt[1 + k].startswith(S) and pt[1 + k].endswith("*"):
                                    types.append((pt[1 + k][:-1], i.line))
                        elif i.op == "ret":
                            pt = M.ptypes.get(fn, ["?"])[0]
                            if pt.startswith(S) and pt.endswith("*"):
                                types.append((pt[:-1], i.line))
                if u is None:
                    if types:
                        rep.bad(fn, types[0][1], "iface-type", f"data found under an identifier given at run time is used as {types[0][0]}", key=f"{fn}:lookup:var")
                    else:
                        rep.ok(fn, "iface-type", "data passed on untyped")
                    continue
                wrong = [(t, l) for t, l in types if t != S + u]
                if wrong:
                    rep.bad(fn, wrong[0][1], "iface-type", f"data found under '{u}' is used as {wrong[0][0]}", key=f"{fn}:lookup:{u}")
                else:
                    rep.ok(fn, "iface-type", f"'{u}' used as {sorted({t for t, _ in types})}")

    # ------------------------------------------------------------------ shell
    def shell(self):
        M, rep = self.M, self.rep
        fn = "osl_generic_shell"
        E = Engine(M, opaque=lambda n: False)
        res = E.analyse(fn)
        for s, v, line in res.rets:
            if v[0] != "alloc":
                rep.bad(fn, line, "iface-shell", "a path returns no generic", key=fn + ":null")
                continue
            for n, w in (("data", ("arg", 0)), ("interface", ("arg", 1)), ("next", NULL)):
                got = E.load(s, F(M, v, "generic", n))
                if got == w or (w != NULL and s.known(atom_eq(got, w))):
                    rep.ok(fn, "iface-shell", n)
                else:
                    rep.bad(fn, line, "iface-shell", f"{n} of the generic is {show(M, got)}", key=f"{fn}:{n}")


def run(M, rep):
    check_model(M)
    Iface(M, rep).run()


class Only:
    """report filter: keep what concerns the given functions"""
    def __init__(self, rep, fns, rule):
        self.rep, self.fns, self.rule = rep, fns, rule
        self.extra = {}

    def __getattr__(self, n):
        return getattr(self.rep, n)

    def bad(self, func, line, rule, msg, key=None):
        if func in self.fns:
            self.rep.bad(func, line, self.rule, msg, key=(key or f"{func}:{msg}") + ":" + self.rule)

    def ok(self, func, rule, what):
        if func in self.fns:
            self.rep.ok(func, self.rule, f"{rule} {what}")

    def undec(self, func, rule, what):
        if func in self.fns:
            self.rep.undec(func, self.rule, f"{rule} {what}")


def run_descr(M, rep):
    """copying and comparing descriptors takes every field into account"""
    from .clone import CloneCheck
    from .equal import Eq
    c = CloneCheck(M, Only(rep, {"osl_interface_clone", "osl_interface_nclone"}, "iface-clone"))
    for fn in ("osl_interface_clone", "osl_interface_nclone"):
        c.check_fn(fn, "interface")
    e = Eq(M, Only(rep, {"osl_interface_equal"}, "iface-equal"))
    e.only = {"osl_interface_equal"}
    e.run()
