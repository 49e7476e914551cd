"""C14: printing or dumping shows every content field of every node.

Every public function that writes a structure (to a file or a text) is analysed path by path (helpers in place, loops summarised).
On each path, for each node (list walked to its end) and each content field: the field's value, or what it points to, is an
operand of an output operation on the path, or the path itself is conditioned on the field's value (absent part, enumerated value).
Entries of arrays are shown by a loop over exactly the entries that exist.  Text put into a local buffer only counts once the buffer
has been written out."""
from ..engine import add, Engine, Incomplete, NULL, atom_eq, lin, subterms
from ..ir import AnalysisBroken
from .common import *
from .loops import Loops, facts_state

FILEOUT = {"fprintf": 0, "fputs": 1, "fputc": 1, "putc": 1, "vfprintf": 0, "fwrite": 3, "__gmp_fprintf": 0, "mpz_out_str": 0}
APPEND = {"strcat": 0, "strncat": 0, "osl_util_safe_strcat": 0}
COMPOSE = {"sprintf": 0, "snprintf": 0, "strcpy": 0, "strncpy": 0, "memcpy": 0, "memmove": 0, "vsnprintf": 0, "vsprintf": 0, "stpcpy": 0,
           "osl_int_sprint": 0, "osl_int_sprint_txt": 0, "__gmp_sprintf": 0}


def root(a):
    while a[0] in ("fld", "idx"):
        a = a[1]
    return a


def mentions(t, x):
    return any(y == x for y in subterms(t))


def size(M, n, seen=()):
    """basic blocks of a helper with its own helpers in place"""
    F = M.funcs.get(n)
    if F is None or F.decl or n in M.public or n in seen:
        return 0
    memo = M.__dict__.setdefault("_psize", {})
    if n not in memo:
        memo[n] = len(F.blocks) + sum(size(M, i.callee.v, seen + (n,)) for i in F.insts if i.op == "call" and i.callee.k == "func")
    return memo[n]


def plain(t):
    """expressed in the structure's own fields"""
    return all(not isinstance(y, tuple) or not y or not isinstance(y[0], str) or y[0] in ("ld", "fld", "idx", "arg", "int", "lin", "it", "L", "str", "null", "lit", "peq", "le0", "eq0") for y in subterms(t))


def tests(a, v):
    """is the atom a test of exactly this value (not of a part of it)?"""
    return a == ("true", v) or a[0] in ("peq", "eq0", "le0") and (v in a[1:] or a[1][0] == "lin" and any(y[0] == v for y in a[1][2]))


class Printing:
    def __init__(self, M, rep, fn):
        self.M, self.rep, self.fn = M, rep, fn
        self.variadic = {n for n, F in M.funcs.items() if not F.decl and any(i.op == "call" and i.callee.k == "func" and i.callee.v.startswith("llvm.va_start") for i in F.insts)}
        self.dump = "dump" in fn
        E = Engine(M, opaque=lambda n: n != fn and (n in M.public or n in self.variadic or size(M, n) > 120), track=lambda n: True, max_states=8000)
        E.keep_facts = True
        self.E, self.L = E, Loops(E)
        self.res = E.analyse(fn)

    # ---------------------------------------------------------------- what is written
    def output(self, name):
        """does this call write the content of its arguments?"""
        if name in FILEOUT or name in APPEND or name in self.variadic:
            return True
        if name.startswith("*"):
            return "idump" in name
        ts = self.M.ptypes.get(name)
        return bool(name.startswith("osl_") and ts and any("FILE" in t for t in ts[1:]))

    def flatten(self, ev):
        """[('s', terms, event) | ('l', summary, event, [(facts, items)])], texts still in a local buffer"""
        items, pend = [], []
        for x in ev:
            if x[0] == "loop":
                sm = self.L.sm(x)
                if sm is None:
                    continue
                bs = []
                for m, f, e2, env in sm.backs:
                    it, pe = self.flatten(e2)
                    bs.append((f, it, len(m) > 4))
                    pend += pe
                items.append(("l", sm, x, bs))
            elif x[0] == "call":
                name, args = x[1], x[2]
                if name in COMPOSE and root(args[0])[0] == "alloca":
                    src = strip_ep(tuple(args[1:]))
                    used = [p for p in pend if any(mentions(a, p[0]) for a in src)]
                    src += tuple(t for p in used for t in p[1])
                    if args[0][0] == "alloca":
                        pend = [p for p in pend if p[0] != root(args[0])]
                    pend.append((root(args[0]), src, x))
                elif name in COMPOSE or self.output(name):
                    terms = strip_ep(tuple(args))
                    for p in pend:
                        if any(mentions(a, p[0]) for k, a in enumerate(terms) if not (k == 0 and name in COMPOSE)):
                            items.append(("s", p[1], p[2]))
                    items.append(("s", terms, x))
            elif x[0] == "store" and root(x[1])[0] != "alloca":
                items.append(("s", (strip_ep(x[2]),), x))
        # a text composed at a fixed place is overwritten by the next round
        return items, [p for p in pend if p[2][2][0][0] != "alloca"]

    # ---------------------------------------------------------------- is a place shown?
    def decided(self, facts, addr, kind):
        """the path itself tells the value (absent part, tested value)"""
        v = ("ld", strip_ep(addr), 0)
        st = facts_state(facts)
        if st.known(atom_eq(v, NULL)) or self.no_text(st, v):
            return True
        if kind == "when":
            # the part of the value that asks for the field is known to be absent
            return any(any(y == v for y in subterms(a)) and (a[0] in ("eq0", "peq") and p or a[0] == "true" and not p or a[0] == "le0" and self.small(a[1], v, p)) for a, p in st.facts.items())
        if kind != "val":
            return False
        # one value, or the last resort after several values were told apart
        ps = [p for a, p in st.facts.items() if a[0] in ("peq", "eq0") and tests(a, v)]
        return any(ps) or len(ps) > 2

    def small(self, e, v, p):
        """does the fact bound the value from above?"""
        c, d = lin(e)
        return all((k > 0) == p for t, k in d.items() if mentions(t, v))

    def no_text(self, st, v):
        # nothing there: its entries were counted
        for a, p in st.facts.items():
            for y in subterms(a):
                if y[0] in ("ret", "call") and y[1] in COUNTS and y[2] == (v,) and self.nothing(st, y):
                    return True
        # what is to be printed turned out to have no textual form
        for a, p in st.facts.items():
            if a[0] == "peq" and p and NULL in a[1:] and any(x[0] in ("ret", "call") and "print" in x[1] and any(mentions(y, v) for y in x[2]) for x in a[1:] if x[0] in ("ret", "call")):
                return True
        return False

    def shown(self, items, facts, addr, kind, bound=None):
        """True / False / text of a positive problem"""
        if self.decided(facts, addr, kind):
            return True
        v = ("ld", strip_ep(addr), 0)
        bad = None
        for x in items:
            if x[0] == "s":
                for t in x[1]:
                    for y in subterms(t):
                        if y == v or y == strip_ep(addr):
                            return True
            else:
                sm, ev = x[1], x[2]
                bs = [b for b in x[3] if not self.gone(b[0], v)]
                if not bs:
                    continue
                if self.dump and kind.startswith(("val", "arr:val", "arr2:val")) and any(mentions(a, v) for a, p in facts_state(dict(ev[3])).facts.items()) and any(self.touches(it, None) for f, it, _ in bs):
                    return True      # a number of entries, shown by the entries themselves
                rs = [self.shown(it, f, addr, kind, bound) for f, it, _ in bs]
                if all(r is True for r in rs):
                    r = self.covers(sm, ev, bs, v, bound)
                    if r is True:
                        return True
                    bad = bad or r
                bad = bad or next((r for r in rs if isinstance(r, str)), None)
        return bad or False

    def gone(self, facts, v):
        """a round for an entry that is absent"""
        return any(a[0] == "peq" and p and NULL in a[1:] and any(x[0] == "ld" and x[1][0] == "idx" and strip_ep(x[1][1]) == v for x in a[1:]) for a, p in facts_state(facts).facts.items())

    def entries(self, items, v, out):
        for x in items:
            if x[0] == "s":
                for t in x[1]:
                    for y in subterms(t):
                        if y[0] == "idx" and (y[1] == v or self.row(y[1], v)):
                            out.append((y[3], y[1] != v))
            else:
                for f, it, _ in x[3]:
                    self.entries(it, v, out)
        return out

    def columns(self, v, bound):
        """number of entries in a row of a matrix"""
        a = v[1]
        if a[0] == "fld" and a[2] == S + "relation":
            return strip_ep(("ld", F(self.M, a[1], "relation", "nb_columns"), 0))
        return None

    def row(self, t, v):
        return t[0] == "ld" and t[1][0] == "idx" and t[1][1] == v

    def covers(self, sm, ev, bs, v, bound):
        """a loop showing the entries of an array shows all of them"""
        if bound is None:
            return True
        for f, it, _ in bs:
            for ix, cell in self.entries(it, v, []):
                if any(t[0] == "it" and t[1] == sm.key for t in subterms(ix)):
                    b = self.columns(v, bound) if cell else bound
                    if b is not None and self.L.cover(sm, dict(ev[3]), ev[4], ix, b, plain=plain) == "no":
                        return "not every entry is shown"
        return True

    # ---------------------------------------------------------------- one node on one path
    def node(self, T, node, items, facts, skip, where, prefix=""):
        M, rep = self.M, self.rep
        out = []
        st = facts_state(facts)
        if st.known(atom_eq(strip_ep(node), NULL)):
            return out
        if T == "generic" and st.known(atom_eq(strip_ep(("ld", F(M, node, T, "interface"), 0)), NULL)):
            skip = tuple(skip) + ("data",)
        if self.whole(items, T, node):
            return out
        for i, f, kind, ct in fields(M, T):
            if kind in ("skip", "link", "borrow") or prefix + f in skip:
                continue
            addr = ("fld", node, S + T, i)
            if kind.startswith("sub:"):
                out += self.node(kind[4:], addr, items, facts, skip, where, prefix + f + ".")
                continue
            bound = None
            if kind.startswith("arr:"):
                c = kind.split(":")[2]
                if c:
                    bound = strip_ep(("ld", F(M, node, T, c), 0))
            elif kind == "cells":
                bound = strip_ep(("ld", F(M, node, T, "size"), 0))
            elif kind == "matrix":
                bound = strip_ep(("ld", F(M, node, T, "nb_rows"), 0))
            r = self.shown(items, facts, addr, kind, bound)
            if r is False and (self.fn, f) in WHEN and self.decided(facts, F(M, node, T, WHEN[self.fn, f]), "when"):
                r = True
            if r is not True and bound is not None and r is False and self.nothing(st, bound):
                r = True
            out.append((prefix + f, r))
        return out

    def nothing(self, st, bound):
        from ..engine import atom_le0
        return st.known(atom_le0(bound)) or st.known(atom_eq(bound, ("int", 0)))

    def whole(self, items, T, node):
        """handed over as a whole to another function that shows it"""
        n = strip_ep(node)
        for x in items:
            if x[0] != "s":
                continue
            if x[2][0] == "call" and x[2][1].startswith("osl_") and n in x[1]:
                return True
            for t in x[1]:
                for y in subterms(t):
                    if y[0] in ("ret", "call") and y[1].startswith("osl_") and "print" in y[1] and n in y[2]:
                        return True
        return False

    def counted(self, items, st, T, nx, start):
        """the path knows that the nodes were counted and that there are none"""
        for x in items:
            if x[0] == "l" and any(strip_ep(i) == strip_ep(start) for t, i in self.L.walker(x[1], S + T, nx, start)):
                sm = x[1]
                for n, t in sm.phis.items():
                    if sm.inits[n] == ("int", 0) and {strip_ep(y) for y in sm.steps.get(n, ()) if y is not None} == {add(t, ("int", 1))} and st.known(atom_eq(t, ("int", 0))):
                        return True
        return False

    def all_counted(self, sm, ev, T, start):
        """the walk makes as many steps as there are nodes"""
        s0 = strip_ep(start)
        for a, p in facts_state(dict(ev[3])).facts.items():
            for y in subterms(a):
                if y[0] in ("ret", "call") and y[1] in COUNTS and y[2] == (s0,):
                    for n, t in sm.phis.items():
                        if sm.inits[n][0] == "int" and self.L.cover(sm, dict(ev[3]), ev[4], add(t, sm.inits[n], -1), y) == "yes":
                            return True
        return False

    def first_only(self, sm, facts):
        """can this path of the loop body only be taken in the first iteration?"""
        for n, t in sm.phis.items():
            if sm.inits[n][0] != "int":
                continue
            vals = set()
            for m, f, ev, env in sm.backs:
                v = env.get(n)
                if v == t:
                    st = facts_state(f)
                    c = [k for k in (0, 1) if st.known(atom_eq(t, ("int", k)))]
                    v = ("int", c[0]) if c else None
                vals.add(v)
            if vals and all(v is not None and v[0] == "int" for v in vals) and all(facts_state(facts).decide(atom_eq(t, v)[0]) is False for v in vals):
                return True
        return False

    def nodes(self, T, start, ev, facts, skip, line):
        """the list starting at a term: all nodes on this path"""
        M = self.M
        nx = next((i for i, f, k, _ in fields(M, T) if k == "link"), None)
        items, pend = self.flatten(ev)
        st = facts_state(facts)
        if st.known(atom_eq(strip_ep(start), NULL)) or self.no_text(st, strip_ep(start)):
            return [], None
        if nx is None:
            return [(line, self.node(T, start, items, facts, skip, line))], None
        res, seen = [], False
        if self.whole(items, T, start) or self.counted(items, st, T, nx, start):
            return [], None
        for x in items:
            if x[0] != "l":
                continue
            sm = x[1]
            ws = [t for t, init in self.L.walker(sm, S + T, nx, start) if strip_ep(init) == strip_ep(start)]
            if not ws or not any(self.touches(b[1], ws[0]) for b in x[3]):
                continue
            seen = True
            if not self.L.at_end(dict(x[2][3]), ws[0], S + T, nx) and not self.all_counted(sm, x[2], T, start):
                return [], "the walk ends before the end of the list"
            for f, it, once in x[3]:
                r = self.node(T, ws[0], it, f, skip, sm.line)
                if any(v is not True for k, v in r) and (once or self.first_only(sm, f)):
                    before = dict(self.node(T, start, items, facts, skip, sm.line))
                    r = [(k, True if before.get(k) is True else v) for k, v in r]
                res.append((sm.line, r))
        if not seen:
            return [], "only the first node is shown" if self.touches(items, start) else "no node is shown"
        return res, None

    def touches(self, items, node):
        if node is None:
            return any(x[0] == "s" or x[0] == "l" and any(self.touches(it, None) for f, it, _ in x[3]) for x in items)
        n = strip_ep(node)
        return any(x[0] == "s" and any(mentions(t, n) for t in x[1]) or x[0] == "l" and any(self.touches(it, node) for f, it, _ in x[3]) for x in items)


# functions that show a structure, what they leave out on purpose (not part of that format)
def targets(M):
    out = []
    for n in sorted(M.public):
        ts = M.ptypes.get(n)
        if not ts or n not in M.funcs or M.funcs[n].decl or not n.startswith("osl_"):
            continue
        for t in sorted(FIELDS, key=len, reverse=True):
            if n.startswith(f"osl_{t}_") and n[len(t) + 5:] in ("idump", "dump", "sprint", "print", "pprint", "spprint", "spprint_polylib", "pprint_elts", "print_scoplib", "pprint_scoplib", "spprint_scoplib"):
                k = next((k for k, p in enumerate(ts[1:]) if p.replace("const ", "").replace(" const", "") == f"struct.osl_{t}*"), None)
                if k is not None:
                    out.append((n, t, k))
                break
    return out


COUNTS = {"osl_relation_nb_components", "osl_relation_list_count", "osl_strings_size", "osl_statement_number", "osl_generic_count", "osl_loop_count", "osl_symbols_get_nb_symbols", "osl_nb_dependences"}
# only part of that format when another field says so
WHEN = {("osl_loop_sprint", "user"): "directive"}
# a descriptor is shown by its name
SKIP = {"osl_interface_idump": ("idump", "sprint", "sread", "malloc", "free", "clone", "equal"),
        # not part of the format
        "osl_scop_print_scoplib": ("version", "registry"), "osl_statement_pprint_scoplib": ("extension",), "osl_relation_spprint_polylib": ("type",),
        "osl_scop_print": ("version", "registry"), "osl_textual_sprint": ("textual",)}


def run(M, rep):
    check_model(M)
    ts = targets(M)
    if len(ts) < 30:
        raise AnalysisBroken("printing functions not found")
    for n, t, k in ts:
        try:
            P = Printing(M, rep, n)
        except Incomplete:
            rep.undec(n, "shows-fields", "too many paths")
            continue
        if not P.res.rets:
            rep.undec(n, "shows-fields", "no path returns")
            continue
        probs, okf = {}, set()
        for st, v, line in P.res.rets:
            ev = st.ev
            if v is not None and v[0] not in ("null", "int"):
                ev = ev + (("call", "fprintf", (v,), None, line),)
            res, prob = P.nodes(t, ("arg", k), ev, st.facts, SKIP.get(n, ()), line)
            if prob:
                probs.setdefault("list", (line, prob))
            for ln, fs in res:
                for f, r in fs:
                    if r is True:
                        okf.add(f)
                    else:
                        probs.setdefault(f, (ln, r if r else "is not shown on some path"))
        for f, (ln, w) in sorted(probs.items()):
            rep.bad(n, ln, "shows-fields" if f != "list" else "shows-nodes", f"{t}.{f}: {w}" if f != "list" else w, key=f"{n}:{f}")
        for f in sorted(okf - set(probs)):
            rep.ok(n, "shows-fields", f"{t}.{f}")
        if "list" not in probs:
            rep.ok(n, "shows-nodes", f"every node ({len(P.res.rets)} paths)")
