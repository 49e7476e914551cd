"""C13: the reader of a format consumes the fields in the order the printer emits them.

The printer is analysed path by path (helpers in place); the texts it composes are put together symbolically, comments are dropped, and the
rest becomes a sequence of values (which field, which entry, inside which loop).  The reader's paths give a sequence of reading operations,
each attributed to the field its result ends up in.  Both sequences are compared field by field."""
import functools
import re
from ..engine import add, Engine, Incomplete, NULL, atom_eq, contains, lin, subterms
from ..ir import AnalysisBroken
from .common import *
from .loops import Loops, facts_state
from .printing import FILEOUT, APPEND, COMPOSE, COUNTS, root, size

SCANF = {"__isoc99_sscanf": 2, "__isoc99_fscanf": 2, "sscanf": 2, "fscanf": 2, "__isoc23_sscanf": 2, "__isoc23_fscanf": 2}
PAIRS = [(t, f"osl_{t}_sprint", f"osl_{t}_sread") for t in ("coordinates", "arrays", "scatnames", "pluto_unroll", "loop", "annotation", "symbols", "region", "irregular", "body")] + [
    ("dependence", "osl_dependence_sprint", "osl_dependence_psread"), ("relation", "osl_relation_spprint_polylib", "osl_relation_psread_polylib"),
    ("relation", "osl_relation_spprint_polylib", "osl_relation_pread"), ("relation", "osl_relation_spprint", "osl_relation_psread"), ("relation_list", "osl_relation_list_pprint", "osl_relation_list_pread"),
    ("statement", "osl_statement_pprint", "osl_statement_pread"), ("scop", "osl_scop_print", "osl_scop_pread")]
# read here, printed by the caller of the printer
EXTRA = {"osl_relation_pread": {("type",)}}
# what a reading operation allocates from the values read: argument position -> field
MAKES = {"osl_relation_pmalloc": {1: ("nb_rows",), 2: ("nb_columns",)}}
# one reading operation fills several fields, sorted by kind
DISPATCH = {"osl_statement_dispatch": (("domain",), ("scattering",), ("access",))}
CONV = re.compile(r"%[-+ #0]*(\*|\d+)?(\.(\*|\d+))?(hh|h|ll|l|z|j|t|L|q|Z)?([a-zA-Z%])")


@functools.lru_cache(maxsize=None)
def norm(t):
    """forget load epochs and ages of results"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "ld":
        return ("ld", norm(t[1]), 0)
    if t and t[0] in ("ret", "alloc") and len(t) == 6:
        return (t[0],) + tuple(norm(x) if isinstance(x, tuple) else x for x in t[1:4]) + ("x", ())
    return tuple(norm(x) if isinstance(x, tuple) else x for x in t)


class Tok:
    """one value in the text: the field it belongs to (None: none), its kind, the loops around it and the entry"""
    __slots__ = ("path", "kind", "line", "off", "ix", "nest", "val")

    def __init__(self, path, kind, line, off=0, ix=(), val=None):
        self.path, self.kind, self.line, self.off, self.ix, self.val, self.nest = path, kind, line, off, ix, val, ()

    def __repr__(self):
        return f"{'.'.join(self.path) if self.path is not None else '?'}:{self.kind}{'%+d' % self.off if self.off else ''}{self.ix or ''}@{self.line}"


class Side:
    def __init__(self, M, T, fn):
        self.M, self.T, self.fn, self.scanned = M, T, fn, {}
        self.variadic = {n for n, F in M.funcs.items() if not F.decl and any(i.op == "call" and i.callee.k == "func" and i.callee.v.startswith("llvm.va_start") for i in F.insts)}
        E = Engine(M, opaque=self.opaque, track=lambda n: True, max_states=8000)
        E.keep_facts = True
        E.track_store = lambda a, s: True
        for n in SCANF:
            E.models[n] = self.scan
        self.E, self.L = E, Loops(E)
        self.res = E.analyse(fn)
        self.owners = {}

    def opaque(self, n):
        if n == f"osl_{self.T}_pprint_elts" or n == self.fn:
            return False
        return n in DISPATCH or (n in self.M.public or n in self.variadic or size(self.M, n) > 120)

    def scan(self, E, frame, i, s, args):
        """formatted input: item k goes to the k-th address"""
        out = E.opaque_call(frame, i, s, i.callee.v, args)
        if args[1][0] != "str":
            return out
        k = 2
        for m in re.finditer(r"%(\*)?\d*(hh|h|ll|l|z|j|t)?(\[[^]]*\]|[a-zA-Z%])", args[1][1]):
            if m.group(1) or m.group(3) == "%":
                continue
            if k < len(args) and m.group(3) in "diux":
                v = ("ret", "item", (args[0], ("int", k)), E.site(frame, i), "cur", tuple(E.loopstack))
                self.scanned.setdefault(norm(args[k]), set()).add(norm(v))
                for st in out:
                    E.store(st, args[k], v, i)
            k += 1
        return out

    # ---------------------------------------------------------------- access paths
    def path(self, t):
        """(field names from a node of the structure, index terms) of an address or value; None if it is no part of one"""
        names, ixs, first = [], [], None
        while True:
            if t[0] == "ld":
                t = t[1]
            elif t[0] == "idx":
                ixs.append(t[3])
                t = t[1]
            elif t[0] == "fld":
                fl = self.M.fields.get(t[2])
                if fl is None:
                    return None
                names.append(fl[t[3]][0])
                first = t[2]
                t = t[1]
            else:
                break
        o = self.owners.get(t)
        if o is not None and t[0] in ("alloc", "ret", "it", "itm"):
            return o[0] + tuple(n for n in reversed(names) if n != "next" or not o[0]), o[1] + tuple(reversed(ixs))
        if t[0] not in ("arg", "it", "itp", "itm", "ret", "alloc", "call") or first is None:
            return None
        while first != S + self.T and names:
            # parts that are structures of their own are only followed when embedded
            return None
        # walking the list does not change the field
        if len(names) > 1:
            names = [n for n in names if n != "next"]
        return tuple(reversed(names)), tuple(reversed(ixs))

    def off(self, t, part):
        c, d = lin(t)
        return c if set(d) == {part} and d[part] == 1 else 0


def entries(ixs, loops):
    """index terms relative to the loops around: 0 = runs with the innermost loop, 1 = with the next one, ..."""
    out = []
    for x in ixs:
        ks = [y[1] for y in subterms(x) if y[0] in ("it", "itp")]
        d = [k for k, l in enumerate(reversed(loops)) if l in ks]
        out.append(d[0] if d else None)
    return tuple(out)


# ------------------------------------------------------------------------------------------------ printer
class Printer(Side):
    def streams(self):
        """token trees, one per path"""
        out = []
        for st, v, line in self.res.rets:
            if st.known(atom_eq(("arg", self.k()), NULL)):
                continue
            texts = {}
            self.alias = {}
            if v is not None and v[0] in ("ret", "call"):
                texts["result"] = [("str", v, line)]
            self.compose(st.ev, texts)
            best = max(texts.values(), key=self.weight, default=[])
            out.append((self.tokens(best, [False], []), st.facts, line))
        return out

    def k(self):
        ts = self.M.ptypes[self.fn][1:]
        return next((k for k, t in enumerate(ts) if f"struct.osl_{self.T}*" == t.replace("const ", "").replace(" const", "")), 0)

    def weight(self, cs):
        return sum(max([self.weight(b) for b in c[1]] + [0]) + 1 if c[0] == "loop" else 1 for c in cs)

    def compose(self, ev, texts):
        """texts: place -> chunks"""
        for x in ev:
            if x[0] == "loop":
                sm = self.L.sm(x)
                if sm is None or not sm.backs:
                    continue
                per = {}
                for m, f, e2, env in sm.backs:
                    tb = {}
                    self.compose(e2, tb)
                    for k, cs in tb.items():
                        per.setdefault(k, []).append((cs, f))
                for k, bs in per.items():
                    fs = [f for _, f in bs]
                    bs = [cs for cs, _ in bs]
                    grown = any(("prev", k) in b for b in bs)
                    body = [[c for c in b if c != ("prev", k)] for b in bs]
                    old = texts.get(k, [("prev", k)])
                    texts[k] = (old if grown else []) + [("loop", body, sm, x, fs)]
            elif x[0] == "store" and x[1][0] == "alloca" and x[2][0] in ("alloc", "ret"):
                self.alias[x[2]] = x[1]
            elif x[0] == "call":
                name, args = x[1], x[2]
                line = x[4]
                if name in FILEOUT and args[FILEOUT[name]][0] != "arg":
                    continue
                if name in FILEOUT:
                    cs = self.chunks(args[1:] if name.endswith("printf") else args[:1], line, texts, name.endswith("printf"))
                    texts["file"] = texts.get("file", [("prev", "file")]) + cs
                elif name in COMPOSE or name in APPEND:
                    dst = root(args[0])
                    dst = self.alias.get(dst, dst)
                    if name in ("sprintf", "__gmp_sprintf"):
                        cs = self.chunks(args[1:], line, texts, True)
                    elif name == "snprintf":
                        cs = self.chunks(args[2:], line, texts, True)
                    elif name.startswith("osl_int_sprint"):
                        cs = [("val", args[-1], line)]
                    else:
                        cs = self.chunks(args[1:2], line, texts, False)
                    if name in APPEND or root(args[0]) != args[0]:
                        cs = texts.get(dst, [("prev", dst)]) + cs
                    texts[dst] = cs
                elif name in self.variadic and any(a[0] == "str" for a in args):
                    k = next(k for k, a in enumerate(args) if a[0] == "str")
                    dst = root(args[0])
                    texts[dst] = texts.get(dst, [("prev", dst)]) + self.chunks(args[k:], line, texts, True)
                elif name.startswith("osl_") and any("FILE" in t for t in (self.M.ptypes.get(name) or [""])[1:]):
                    texts["file"] = texts.get("file", [("prev", "file")]) + [("nest", name, args, line)]

    def chunks(self, args, line, texts, fmt):
        if not args:
            return []
        a = args[0]
        if not fmt:
            return self.piece(a, line, texts)
        if a[0] != "str":
            return [("nest", "?", tuple(args), line)]
        out, p, k = [], 0, 1
        for m in CONV.finditer(a[1]):
            if m.start() > p:
                out.append(("txt", a[1][p:m.start()]))
            p = m.end()
            if m.group(5) == "%":
                out.append(("txt", "%"))
                continue
            k += (m.group(1) == "*") + (m.group(3) == "*")
            if k < len(args):
                out += self.piece(args[k], line, texts) if m.group(5) == "s" else [("val", args[k], line)]
            k += 1
        if p < len(a[1]):
            out.append(("txt", a[1][p:]))
        return out

    def piece(self, a, line, texts):
        if a[0] == "str":
            return [("txt", a[1])]
        r = root(a)
        while r not in texts:
            if r in self.alias:
                r = self.alias[r]
            elif r[0] == "alloc" and r[2] == "realloc":
                r = root(r[3][0])
            else:
                break
        if r in texts and r[0] in ("alloca", "alloc"):
            return list(texts[r])
        return [("str", a, line)]

    # ---------------------------------------------------------------- comments out, values in
    def tokens(self, cs, st, loops):
        """st[0]: inside a comment"""
        out = []
        for c in cs:
            if c[0] == "txt":
                w = ""
                for ch in c[1] + "\0":
                    if ch.isspace() and (not st[0] or ch == "\n"):
                        out.append(("sep", ch))
                    if st[0]:
                        if ch == "\n":
                            st[0] = False
                        continue
                    if ch == "#":
                        st[0] = True
                    if ch.isspace() or ch in "#\0":
                        if w:
                            k = len(out) - (1 if ch.isspace() else 0)
                            out.insert(k, Tok(None, "word", 0, val=w))
                        w = ""
                    else:
                        w += ch
            elif c[0] == "loop":
                st0 = st[0]
                bodies = []
                for b in c[1]:
                    st[0] = st0
                    bodies.append(self.tokens(b, st, loops + [c[2].key]))
                out.append(("loop", bodies, c[2], c[3], c[4]))
            elif c[0] == "prev":
                continue
            elif st[0]:
                continue
            elif c[0] in ("val", "str"):
                out.append(self.value(c[1], "int" if c[0] == "val" else "str", c[2], loops))
            elif c[0] == "nest":
                self_, p = False, None
                for a in c[2]:
                    if a[0] in ("ld", "fld", "idx") and p is None:
                        p = self.path(norm(a))
                    if a[0] in ("arg", "it") and not p and c[1].startswith(f"osl_{self.T}_"):
                        self_ = True
                out.append(Tok(p[0] if p else ("<self>",) if self_ else None, "nest" if p or self_ else "int", c[3]))
        return out

    def value(self, t, kind, line, loops):
        t = norm(t)
        p = self.path(t)
        if p:
            return Tok(p[0], kind, line, 0, entries(p[1], loops), t)
        c, d = lin(t)
        if len(d) == 1:
            y = next(iter(d))
            p = self.path(y)
            if p and d[y] == 1:
                return Tok(p[0], kind, line, c, entries(p[1], loops), y)
        if t[0] in ("ret", "call"):
            if kind == "str" and t[1].startswith(f"osl_{self.T}_") and "print" in t[1] and "comment" not in t[1] and any(a[0] in ("arg", "it") for a in t[2]):
                return Tok(("<self>",), "nest", line)
            if t[1] in COUNTS or t[1].endswith(("_count", "_number", "_size")):
                return Tok(None, "int", line, val=t)
            for a in t[2]:
                p = self.path(a)
                if p:
                    return Tok(p[0], "nest" if kind == "str" else kind, line, 0, (), t)
        if kind == "str":
            return Tok(None, "text", line)
        return Tok(None, kind, line, val=t)


# ------------------------------------------------------------------------------------------------ reader
class Reader(Side):
    def streams(self):
        out = []
        self.bykey, self.memo, self.um, self.words = {}, {}, {}, {}
        for st, v, line in self.res.rets:
            if v is not None and v == NULL:
                continue
            self.result = norm(v) if v is not None else None
            self.sinks, self.seen = [], set()
            self.owners = {}
            for _ in range(3):
                self.own(st.ev, set())
            self.collect(st.ev, st.facts, [])
            for (a, val) in list(st.mem.items()):
                p = self.path(norm(a))
                if p:
                    self.sinks.append((self.resolve(norm(val)), p[0], p[1], 0))
            self.sinks = list(dict.fromkeys(self.sinks))
            self.fm = {}
            out.append((self.tokens(st.ev, []), st.facts, line))
        return out

    def own(self, ev, seen):
        """blocks that were put into a field: their entries are entries of the field"""
        for x in ev:
            if x[0] == "loop":
                sm = self.L.sm(x)
                if sm is not None and x[2] not in seen:
                    seen.add(x[2])
                    for m, f, e2, env in sm.backs:
                        self.own(e2, seen)
            elif x[0] == "store" and x[2][0] in ("alloc", "ret", "it", "itm"):
                v = norm(x[2])
                p = self.path(norm(x[1]))
                if p and p[0] and v not in self.owners and p[0][-1] != "next":
                    self.owners[v] = p

    def resolve(self, t):
        """a value with the values it may have got in loops added"""
        if t not in self.memo:
            self.memo[t] = tuple(self.resolve1(t))
        return self.memo[t]

    def resolve1(self, t):
        if not self.bykey:
            for sm in self.E.summaries:
                self.bykey.setdefault(sm.key, []).append(sm)
        out, todo = [], [t]
        seen = set()
        while todo and len(out) < 40:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            out.append(x)
            for y in subterms(x):
                if y[0] in ("it", "itp") and y not in seen:
                    seen.add(y)
                    for sm in self.bykey.get(y[1], ()):
                        todo += {norm(v) for v in list(sm.steps.get(y[2], ())) + [sm.inits.get(y[2])] if v is not None}
                elif y[0] == "uninit":
                    todo += self.scanned.get(y[1], ())
                elif y[0] == "itm" and y not in seen:
                    seen.add(y)
                    for sm in self.bykey.get(y[1], ()):
                        for k, vs in sm.cells.items():
                            if norm(k) == norm(y[2]):
                                todo += {norm(v) for v in vs}
        return out

    def mentions(self, vals, r):
        k = (vals, r)
        if k not in self.um:
            self.um[k] = any(contains(v, r) and self.uses(v, r) for v in vals)
        return self.um[k]

    def uses(self, t, r):
        """does the value come from the result r?  (a size asked for is no use, a text that is copied is)"""
        if t == r:
            return True
        if not isinstance(t, tuple):
            return False
        if t and t[0] == "alloc" and t[2] in ("malloc", "calloc", "realloc"):
            return any(y[0] == "call" and y[1] == "strlen" and self.uses(y[2], r) for y in subterms(t[3]))
        return any(self.uses(x, r) for x in t if isinstance(x, tuple))

    def collect(self, ev, facts, seen):
        st = facts_state(facts)
        lits = [(y[2], a, p) for a, p in st.facts.items() for y in subterms(a) if y[0] == "call" and y[1] in ("strcmp", "strncmp")]
        for x in ev:
            if x[0] == "loop":
                sm = self.L.sm(x)
                if sm is None or x[2] in self.seen:
                    continue
                self.seen.add(x[2])
                for m, f, e2, env in sm.backs:
                    self.collect(e2, f, seen)
            elif x[0] == "store":
                p = self.path(norm(x[1]))
                if not p:
                    continue
                self.sinks.append((self.resolve(norm(x[2])), p[0], p[1], 0))
                if x[2][0] == "int":
                    for args, a, pol in lits:
                        w = next((t for t in args if t[0] == "str"), None)
                        o = next((t for t in args if t[0] != "str"), None)
                        if w and o and a[0] in ("eq0", "peq") and pol:
                            self.words[w[1]] = p[0]
                            self.sinks.append(((norm(o),), p[0], (), 0))
            elif x[0] == "call":
                name, args = x[1], x[2]
                if name in DISPATCH:
                    for a in args:
                        self.sinks.append((self.resolve(norm(a)), ("*",), (), 0))
                    continue
                for k, pth in MAKES.get(name, {}).items():
                    if k < len(args):
                        self.sinks.append((self.resolve(norm(args[k])), pth, (), 0))
                ad = [self.path(norm(a)) for a in args if a[0] in ("fld", "idx")]
                ad = [p for p in ad if p]
                if ad and len(args) > 1 and name not in ("free",):
                    for a in args:
                        if a[0] not in ("fld", "idx"):
                            self.sinks.append((self.resolve(norm(a)), ad[0][0], ad[0][1], 0))

    def reading(self, name, args):
        if name in SCANF:
            return True
        if name in ("strtok", "strtok_r"):
            return True
        if name in ("osl_util_sskip_blank_and_comments", "osl_util_skip_blank_and_comments", "free", "osl_util_read_uptotag") or not name.startswith("osl_"):
            return False
        ts = (self.M.ptypes.get(name) or [""])[1:]
        return any("FILE" in t or t.replace("const ", "").replace(" const", "") == "char**" for t in ts) and ("read" in name)

    def field(self, r, loops):
        if r in self.fm:
            sel = self.fm[r]
        else:
            sel = self.fm[r] = [s for s in self.sinks if self.mentions(s[0], r)]
        cand = {}
        for vals, p, ix, off in sel:
            o = 0
            for v in vals:
                c, d = lin(v)
                if set(d) == {r} and d[r] == 1:
                    o = c
            cand.setdefault(p, (o, entries(ix, loops)))
        return cand

    def tokens(self, ev, loops):
        out = []
        for x in ev:
            if x[0] == "loop":
                sm = self.L.sm(x)
                if sm is not None and sm.backs:
                    bodies = [self.tokens(e2, loops + [sm.key]) for m, f, e2, env in sm.backs]
                    if any(bodies):
                        out.append(("loop", bodies, sm, x, [f for m, f, e2, env in sm.backs]))
            elif x[0] == "call" and self.reading(x[1], x[2]):
                name, args, r, line = x[1], x[2], norm(x[3]), x[4]
                if name in SCANF:
                    if args[1][0] != "str":
                        continue
                    for k in range(2, len(args)):
                        p = self.path(norm(args[k]))
                        it = ("ret", "item", (norm(args[0]), ("int", k)), r[3], "x", ())
                        self.push(out, it, "int", line, loops, p, any(m.group(3) in "diux" for m in re.finditer(r"%(\*)?\d*(hh|h|ll|l)?([a-zA-Z])", args[1][1])))
                    continue
                p = None
                for a in args:
                    if a[0] in ("fld", "idx"):
                        p = p or self.path(norm(a))
                kind = "int" if name.endswith("_int") else "line" if name.endswith("_line") else "str" if "util" in name or "strtok" in name else "nest"
                self.push(out, r, kind, line, loops, p, kind == "int")
        return out

    def push(self, out, r, kind, line, loops, p, number):
        if r == self.result:
            out.append(Tok(("<self>",), "nest", line, val=r))
            return
        if p:
            out.append(Tok(p[0], kind, line, 0, entries(p[1], loops), r))
            return
        cand = self.field(r, loops)
        if cand:
            for p, (o, ix) in sorted(cand.items(), key=lambda c: str(c)):
                out.append(Tok(p, kind, line, o, ix, r))
                break
        else:
            out.append(Tok(None, kind if kind != "int" or number else "text", line, val=r))


# ------------------------------------------------------------------------------------------------ comparison
def lines_up(tree, loops=(), cap=24):
    """the sequences of values of a tree: the fullest round of every loop, then every other kind of round"""
    alts = []
    for x in tree:
        if isinstance(x, Tok):
            alts.append([[(x, loops)]])
        elif x[0] == "sep":
            alts.append([[(x, loops)]])
        else:
            vs = []
            for b in x[1]:
                for s in lines_up(b, loops + (id(x),), cap):
                    if s not in vs:
                        vs.append(s)
            vs.sort(key=lambda s: -sum(isinstance(t, Tok) for t, _ in s))
            alts.append(vs or [[]])
    base = [a[0] for a in alts]
    out = [sum(base, [])]
    for k, a in enumerate(alts):
        for v in a[1:]:
            if len(out) >= cap:
                return out
            out.append(sum(base[:k], []) + v + sum(base[k + 1:], []))
    return out


class Facts:
    """what the sequences of one side say"""

    def __init__(self):
        self.before, self.windows, self.offs, self.ix, self.paths, self.kinds, self.line, self.nl = set(), {}, {}, {}, set(), {}, {}, {}

    def take(self, seq, known, words):
        seq = [(t, l) for t, l in seq]
        toks = []
        for t, l in seq:
            if not isinstance(t, Tok):
                toks.append((t, l))
                continue
            p = t.path
            if t.kind == "word":
                p = words.get(t.val)
                if p is None:
                    if re.fullmatch(r"-?\d+", t.val):
                        toks.append((None, l))
                    continue
            if p is None or p not in known:
                if t.kind == "int":
                    toks.append((None, l))
                continue
            toks.append(((p, t), l))
        last, anon, ll, seen = ("^",), 0, (), []
        for t, l in toks:
            if t is None:
                anon += 1
                continue
            if t[0] == "sep":
                continue
            p, tok = t
            if p == last and not (p in seen[:-1]):
                pass
            c = 0
            while c < len(l) and c < len(ll) and l[c] == ll[c]:
                c += 1
            nested = None if tok.kind == "nest" or last == ("^",) else (len(ll) - c, len(l) - c)
            if p != last:
                self.windows.setdefault((last, p), set()).add((anon, nested))
                for q in seen:
                    if q != p:
                        self.before.add((q, p))
            elif anon:
                self.windows.setdefault((last, p), set()).add((anon, nested))
            seen.append(p)
            self.offs.setdefault(p, set()).add(tok.off)
            if None not in tok.ix:
                self.ix.setdefault(p, set()).add(tok.ix)
            self.line.setdefault(p, tok.line)
            self.kinds.setdefault(p, set()).add(tok.kind)
            last, anon, ll = p, 0, l
        self.windows.setdefault((last, ("$",)), set()).add((anon, None))
        # what follows each value in the text
        for k, (t, l) in enumerate(toks):
            if t is None or t[0] == "sep":
                continue
            s = ""
            for u, _ in toks[k + 1:]:
                if u is not None and u[0] == "sep":
                    s += u[1]
                else:
                    break
            else:
                s += "$"
            self.nl.setdefault(t[0], set()).add(s)


def name(p):
    return ".".join(p)


def flat(tree):
    for x in tree:
        if isinstance(x, Tok):
            yield x
        elif x[0] == "loop":
            for b in x[1]:
                yield from flat(b)


def compare(M, rep, T, pf, rf):
    P, R = Printer(M, T, pf), Reader(M, T, rf)
    P.raw = {}
    ps = P.streams()
    rs = R.streams()
    words = R.words
    wild = {q for k, fs in DISPATCH.items() if any(x.path == ("*",) for t, _, _ in rs for x in flat(t)) for q in fs}
    for t, _, _ in ps:
        for x in flat(t):
            if x.path in wild:
                P.raw[id(x)] = x.path
                x.path = ("*",)
    pp = {x.path for t, _, _ in ps for x in flat(t) if x.path} | {words[x.val] for t, _, _ in ps for x in flat(t) if x.kind == "word" and x.val in words}
    rp = {x.path for t, _, _ in rs for x in flat(t) if x.path}
    rp -= EXTRA.get(rf, set())
    both = pp & rp
    if not both:
        rep.undec(pf, "same-order", f"no field printed by {pf} and read by {rf} recognised")
        return
    A, B = Facts(), Facts()
    for t, _, _ in ps:
        for s in lines_up(t):
            A.take(s, both, words)
    for t, _, _ in rs:
        for s in lines_up(t):
            B.take(s, both, words)
    kind = {}
    for t, _, _ in ps + rs:
        for x in flat(t):
            if x.path:
                kind.setdefault(x.path, x.kind)
    pair = f"{pf} / {rf}"
    counts = {k.split(":")[2] for s in FIELDS.values() for k in (s.values() if isinstance(s, dict) else [x[1] if isinstance(x, tuple) else x for x in s]) if isinstance(k, str) and k.startswith("arr") and k.count(":") >= 2}
    for p in sorted(pp - rp):
        if kind.get(p) not in ("int", "word") or p[-1] not in counts:
            rep.bad(rf, 0, "all-consumed", f"{T}.{name(p)} is printed by {pf} but not read back", key=f"{rf}:{name(p)}")
    for p in sorted(rp - pp):
        if kind.get(p) not in ("int", "word") or p[-1] not in counts:
            rep.bad(pf, 0, "all-consumed", f"{T}.{name(p)} is read by {rf} but not printed as a value", key=f"{pf}:{name(p)}")
    for p in sorted(both):
        rep.ok(pf, "all-consumed", f"{T}.{name(p)} ({pair})")
    bad = set()
    for f, g in sorted(A.before):
        if (g, f) in B.before and (g, f) not in A.before and (f, g) not in B.before:
            bad |= {f, g}
            rep.bad(rf, B.line[f], "same-order", f"{T}.{name(f)} is printed before {T}.{name(g)} but read after it", key=f"{rf}:{name(f)}:{name(g)}")
    for k in sorted(set(A.windows) & set(B.windows)):
        if ("*",) in k and k[0] == ("^",):
            continue
        a, b = A.windows[k], B.windows[k]
        na, nb = {x[0] for x in a}, {x[0] for x in b}
        what = f"between {name(k[0])} and {name(k[1])}"
        if not na & nb:
            rep.bad(rf, B.line.get(k[1], B.line.get(k[0], 0)), "same-values", f"{what} of {T}: {sorted(na)} further numbers printed, {sorted(nb)} read", key=f"{rf}:{name(k[0])}:{name(k[1])}:n")
            continue
        la, lb = {x[1] for x in a}, {x[1] for x in b}
        if None not in la | lb and not la & lb:
            rep.bad(rf, B.line.get(k[1], 0), "same-loops", f"{what} of {T}: the entries are printed in another nesting of loops than they are read in", key=f"{rf}:{name(k[0])}:{name(k[1])}:l")
            continue
        rep.ok(rf, "same-order", f"{what} of {T}")
    for p in sorted(both):
        if all(a + b for a in A.offs.get(p, {0}) for b in B.offs.get(p, {0})):
            rep.bad(rf, B.line[p], "same-values", f"{T}.{name(p)}: the value read differs from the one printed by a constant", key=f"{rf}:{name(p)}:off")
        ia, ib = A.ix.get(p), B.ix.get(p)
        if ia and ib and not ia & ib:
            rep.bad(rf, B.line[p], "same-loops", f"{T}.{name(p)}: entries are printed in the order of {sorted(ia)}, read in the order of {sorted(ib)}", key=f"{rf}:{name(p)}:ix")
        # two values must not run into each other; a line ends with a newline
        for s in A.nl.get(p, ()):
            if s == "" and not A.kinds[p] & {"nest", "word"}:
                rep.bad(pf, A.line[p], "separated", f"{T}.{name(p)} is not separated from what follows", key=f"{pf}:{name(p)}:sep")
                break
            if "line" in B.kinds[p] and "\n" not in s and not A.kinds[p] & {"nest"}:
                rep.bad(pf, A.line[p], "separated", f"{T}.{name(p)} is read as a line, but the line goes on", key=f"{pf}:{name(p)}:line")
                break
        else:
            rep.ok(pf, "separated", f"{T}.{name(p)}")
    # values read from one line must be on one line
    for t, _, _ in rs:
        rows = {}
        for x in flat(t):
            if x.val and x.val[:2] == ("ret", "item") and x.path and x.path not in rows.setdefault(x.val[3], []):
                rows[x.val[3]].append(x.path)
        for fs in rows.values():
            for f in fs[:-1]:
                if f in A.nl and all("\n" in s for s in A.nl[f]):
                    rep.bad(pf, A.line[f], "separated", f"{T}.{name(f)}: {rf} expects more values on this line", key=f"{pf}:{name(f)}:row")
    rounds(R, rs, rep, T, rf)
    present(P, ps, R, rs, rep, T, pf, rf, both, words)
    if wild:
        announced(P, ps, rep, T, pf, wild)


def evaluate(t, F, v):
    """the value of a term for one value of the field it depends on (None: depends on something else)"""
    if t == F:
        return v
    if t[0] == "int":
        return t[1]
    if t[0] == "lin":
        vs = [(evaluate(y, F, v), k) for y, k in t[2]]
        return None if any(x is None for x, _ in vs) else t[1] + sum(x * k for x, k in vs)
    if t[0] == "bin":
        a, b = evaluate(t[2], F, v), evaluate(t[3], F, v)
        if a is None or b is None:
            return None
        return {"and": a & b, "or": a | b, "xor": a ^ b, "shl": a << b if 0 <= b < 32 else None, "lshr": a >> b if 0 <= b < 32 and a >= 0 else None, "ashr": a >> b if 0 <= b < 32 else None}.get(t[1])
    return None


def holds(atom, F, v):
    if atom[0] == "peq":
        x, y = evaluate(atom[1], F, v) if atom[1] != NULL else 0, evaluate(atom[2], F, v) if atom[2] != NULL else 0
        return None if x is None or y is None else x == y
    if atom[0] not in ("eq0", "le0"):
        return None
    x = evaluate(atom[1], F, v)
    return None if x is None else (x == 0 if atom[0] == "eq0" else x <= 0)


def bodies(trees):
    """every innermost choice: a list of (values directly in it, facts) per way through it"""
    yield [([x for x in t if isinstance(x, Tok)], f, t) for t, f, _ in trees]

    def loops(t):
        for x in t:
            if not isinstance(x, Tok) and x[0] == "loop":
                yield [([y for y in b if isinstance(y, Tok)], f, b) for b, f in zip(x[1], x[4])]
                for b in x[1]:
                    yield from loops(b)
    for t, _, _ in trees:
        yield from loops(t)


def optional(side, trees, both, words):
    """field -> [(ways through its body with the field, ways without)]"""
    out = {}
    for vs in bodies(trees):
        rows = [({x.path if x.kind != "word" else words.get(x.val) for x in ts} & both, f, len(ts)) for ts, f, b in vs]
        for p in set().union(*[r[0] for r in rows] or [()]):
            with_ = [r for r in rows if p in r[0]]
            # another text may stand for the field (a constant for a missing one)
            out.setdefault(p, []).append((with_, [r for r in rows if p not in r[0] and not any(r[2] >= w[2] and w[0] - {p} <= r[0] for w in with_)]))
    return out


def present(P, ps, R, rs, rep, T, pf, rf, both, words):
    """a field is read exactly when it has been printed"""
    A, B = optional(P, ps, both, words), optional(R, rs, both, words)
    lines = {x.path: x.line for t, _, _ in rs for x in flat(t)}
    kinds = {x.path: "nest" for t, _, _ in ps + rs for x in flat(t) if x.kind == "nest"}

    def field(side, t):
        t = norm(t)
        p = side.path(t)
        if p:
            return p[0] if t[0] in ("ld", "ret") else None
        if t[0] == "ret" and side is R:
            c = sorted(R.field(t, []))
            return c[0] if len(c) == 1 else None
        return None

    def guards(side, rows):
        """per way: {field: [(atom, the term standing for the field, polarity)]}"""
        out = []
        for fs, f, b in rows:
            g = {}
            for a, pol in dict(f).items():
                if a[0] not in ("eq0", "le0") and not (a[0] == "peq" and NULL in a[1:] and a[1][0] != "ld" and a[2][0] != "ld"):
                    continue
                leaves = {y for y in subterms(a) if y[0] in ("ld", "ret", "call")}
                leaves = [y for y in leaves if not any(y != z and contains(z, y) for z in leaves)]
                if len(leaves) == 1:
                    p = field(side, leaves[0])
                    if p:
                        g.setdefault(p, []).append((a, leaves[0], pol))
            out.append(g)
        return out

    def may(gs, F, v):
        return any(all(holds(a, y, v) in (None, pol) for a, y, pol in g.get(F, ())) for g in gs)
    for p in sorted(set(A) & set(B)):
        if p in (("*",), ("<self>",)):
            continue
        pa, pb = [x for x in A[p] if x[1]], [x for x in B[p] if x[1]]
        full = [x for x in B[p] if not x[1]]
        done = None
        if kinds.get(p) == "nest" and not (pa and pb):
            pa = pb = []  # announced by a number of its own
        if pa and not pb:
            # absent in some rounds although other fields of the entry are there
            for with_, without in pa:
                for fs, f, b in without:
                    if fs and any(fs >= w[0] - {p} for w in with_) and all(p in r for r in [set(w[0]) for x in B[p] for w in x[0]]):
                        done = f"{T}.{name(p)} is always read, but not always printed"
        if pb and not pa:
            for with_, without in pb:
                for fs, f, b in without:
                    if fs and any(fs >= w[0] - {p} for w in with_):
                        done = f"{T}.{name(p)} is always printed, but not always read"
        if pa and pb:
            for wa, na in pa:
                ga, ha = guards(P, wa), guards(P, na)
                for wb, nb in pb:
                    gb, hb = guards(R, wb), guards(R, nb)
                    for F in sorted({F for g in ga + ha for F in g} & {F for g in gb + hb for F in g}):
                        for v in range(0, 71):
                            on, off = may(ga, F, v) and not may(ha, F, v), may(ha, F, v) and not may(ga, F, v)
                            on2, off2 = may(gb, F, v) and not may(hb, F, v), may(hb, F, v) and not may(gb, F, v)
                            if on and off2 or off and on2:
                                done = f"for {T}.{name(F)} = {v}, {T}.{name(p)} is {'printed but not read' if on else 'read but not printed'}"
                                break
        if done:
            rep.bad(rf, lines.get(p, 0), "same-values", done, key=f"{rf}:{name(p)}:present")
        else:
            rep.ok(rf, "same-values", f"presence of {T}.{name(p)}")


def announced(P, ps, rep, T, pf, wild):
    """the number of parts announced is the number of parts printed"""
    rows = 0
    for vs in bodies(ps):
        for ts, f, b in vs:
            parts = [k for k, x in enumerate(ts) if x.path == ("*",)]
            if not parts:
                continue
            before = [x for x in ts[:parts[0]] if x.kind == "int" and x.path is None]
            if not before or before[-1].val is None:
                rep.undec(pf, "same-values", "number of parts announced not recognised")
                continue
            n = before[-1]
            st = facts_state(dict(f))
            c, d = lin(n.val)
            for y in d:
                if y[0] in ("ret", "call") and not y[1].endswith(("_count", "_number")) and any(P.path(a) and P.path(a)[0] in wild for a in y[2]):
                    rep.bad(pf, n.line, "same-values", f"the number of parts announced contains {y[1]}() of one part", key=f"{pf}:announced")
                    return
                if y[0] not in ("ret", "call") or not y[1].endswith(("_count", "_number")) or d[y] != 1:
                    c = None
                    break
            want, lists, known = 0, 0, True
            atoms = {}
            for a, pol in st.facts.items():
                if a[0] == "peq" and NULL in a[1:]:
                    p = P.path(norm(a[2] if a[1] == NULL else a[1]))
                    if p:
                        atoms[p[0]] = pol
            seen = [P.raw.get(id(ts[k])) for k in parts]
            for q in seen:
                if q is None or q not in wild:
                    known = False
                elif any(y for y in d if any(P.path(a) and P.path(a)[0] == q for a in y[2])):
                    lists += 1
                elif q in atoms:
                    want += not atoms[q]
                else:
                    known = False
            if c is None or not known:
                rep.undec(pf, "same-values", f"number of parts announced at line {n.line} not decided")
                continue
            rows += 1
            if c != want or lists != len(d):
                rep.bad(pf, n.line, "same-values", f"{want} parts and {lists} lists of parts are printed on a path on which {c} parts and {len(d)} lists are announced", key=f"{pf}:announced")
                return
    if rows:
        rep.ok(pf, "same-values", f"number of parts announced ({rows} paths)")


def rounds(R, rs, rep, T, rf):
    """a loop that reads entries makes as many rounds as the number read says"""
    done = {}

    def walk(tree, before):
        for x in tree:
            if isinstance(x, Tok):
                before = before | {x.path}
            elif x[0] == "loop":
                sm, ev = x[2], x[3]
                inner = {y.path for y in flat([x]) if y.path}
                if not inner & before:
                    r = count(R, sm, ev)
                    if r is not None and done.get(sm.line) != "bad":
                        done[sm.line] = r
                for b in x[1]:
                    walk(b, before)
                before = before | inner
    for t, _, _ in rs:
        walk(t, frozenset())
    for line, r in sorted(done.items()):
        if r == "bad":
            rep.bad(rf, line, "same-values", f"{T}: the loop does not make as many rounds as the number read before says", key=f"{rf}:rounds:{sorted(done).index(line)}")
        else:
            rep.ok(rf, "same-values", f"rounds of the loop at line {line}")


def count(R, sm, ev):
    f = facts_state(dict(ev[3]))
    for n, t in sm.phis.items():
        st = {norm(y) for y in sm.steps.get(n, ()) if y is not None}
        if len(st) != 1:
            continue
        d = add(next(iter(st)), norm(t), -1)
        if d not in (("int", 1), ("int", -1)):
            continue
        step, init = d[1], norm(sm.inits[n])
        for a, p in f.facts.items():
            a = norm(a)
            if a[0] not in ("eq0", "le0"):
                continue
            c, dd = lin(a[1])
            k = dd.get(norm(t))
            if k not in (1, -1):
                continue
            rest = add(a[1], ("lin", 0, ((norm(t), k),)), -1) if len(dd) > 1 or c else ("int", 0)
            if a[0] == "eq0":
                if not p:
                    continue
                V = rest if k == -1 else add(("int", 0), rest, -1)
            else:
                e, kk = (rest, k) if p else (add(("int", 1), rest, -1), -k)
                # kk*t + e <= 0
                if kk == -1 and step == 1:
                    V = e
                elif kk == 1 and step == -1:
                    V = add(("int", 0), e, -1)
                else:
                    continue
            total = add(V, init, -1) if step == 1 else add(init, V, -1)
            c, dd = lin(total)
            if len(dd) == 1:
                y = next(iter(dd))
                if y[0] == "ret" and dd[y] == 1 and (y[1].endswith("_int") or y[1] == "item"):
                    return "ok" if c == 0 else "bad"
    return None


def run(M, rep):
    check_model(M)
    for T, pf, rf in PAIRS:
        for f in (pf, rf):
            if f not in M.funcs or M.funcs[f].decl:
                raise AnalysisBroken(f"{f} not found")
        try:
            compare(M, rep, T, pf, rf)
        except Incomplete:
            rep.undec(rf, "same-order", "too many paths")
