"""C12: the keywords and tags the printers emit are the ones the readers recognise, each giving back the value it was printed for.

Both sides are evaluated by conditional constant propagation (nullness.py): the printer with the type field assumed to hold one
enumerated value, which leaves the literals it can emit for that value; the reader with the word being read assumed to be one
keyword, which leaves the value it stores."""
from ..ir import AnalysisBroken, macros
from ..modref import ModRef
from ..nullness import Nullness, NULL, NN, BOT
from .common import *

PRINTS = {"sprintf": 1, "snprintf": 2, "fprintf": 1, "printf": 0, "fputs": 0, "puts": 0, "strcat": 1, "strcpy": 1, "strncat": 1, "strncpy": 1, "strdup": 0,
          "osl_util_safe_strcat": 1, "osl_util_strdup": 0, "memcpy": 1, "llvm.memcpy.p0.p0.i64": 1}

TABLES = [
    dict(name="relation kind", sty="relation", field="type", prefix="OSL_TYPE_", skip={"OSL_TYPE_GENERIC", "OSL_TYPE_STRING", "OSL_TYPE_ACCESS"},
         writers=[("osl_relation_spprint", (NN, BOT)), ("osl_relation_sprint", (NN,))],
         readers=[("osl_relation_pread", (NN, BOT)), ("osl_relation_psread", (NN, BOT))]),
    dict(name="symbol kind", sty="symbols", field="type", prefix="OSL_SYMBOL_TYPE_", skip=set(),
         writers=[("osl_symbols_sprint", (NN,))], readers=[("osl_symbols_sread", (NN,))]),
    dict(name="dependence kind", sty="dependence", field="type", prefix="OSL_DEPENDENCE_", skip=set(),
         writers=[("osl_dependence_sprint", (NN,))], readers=[("osl_dependence_sread", (NN,)), ("osl_dependence_psread", (NN, BOT))]),
]


def words(text):
    """first words of the lines of a literal that are not comments"""
    out = []
    for l in text.split("\n"):
        l = l.split("#")[0].split()
        if l:
            out.append(l[0])
    return out


class Keywords:
    def __init__(self, M, rep):
        self.M, self.rep = M, rep
        self.mr = ModRef(M)

    def new(self, word=None, char=None):
        N = Nullness(self.M, self.mr.targets, self.mr)
        N.log = {}
        N.word = word
        N.char = char
        return N

    def literals(self, log):
        """string literals handed to text-producing calls"""
        out = {}
        for (fn, n, kind, *t), (line, args) in log.items():
            if kind != "call":
                continue
            for a in args:
                if a[0] == "s":
                    out.setdefault(a[1], (fn, line))
        return out

    # ------------------------------------------------------------------ reader
    def stored(self, reader, ctx, sty, idx, word):
        """values the reader leaves in the field when it finds the word: (set of values, line, function)"""
        N = self.new(word)
        N.call(reader, ctx)
        mine, base = [], []
        for (fn, n, kind, *t), (line, v) in N.log.items():
            if kind == "store" and (t[0], t[1]) == (S + sty, idx):
                (base if fn.split("@")[0] in self.allocs(sty) else mine).append((fn, n, t[2], line, v))
        if mine:
            keep = [a for a in mine if not any(b is not a and self.overwrites(N, a, b) for b in mine)]
            return {v for *_, v in keep}, keep[0][3], keep[0][0]
        return {v for *_, v in base}, None, None

    def allocs(self, sty):
        return {f"osl_{sty}_malloc", f"osl_{sty}_pmalloc"}

    def overwrites(self, N, a, b):
        """every feasible way from store a to the end of its function (or round its loop) passes store b"""
        if a[0] != b[0] or a[2] != b[2]:
            return False
        F_ = self.M.funcs[a[0]]
        I = {i.n: (k, i, blk) for blk in F_.blocks for k, i in enumerate(blk.insts)}
        ka, ia, ba = I[a[1]]
        kb, ib, bb = I[b[1]]
        def base(i):
            p = i.ops[1]
            return (p.v.ops[0].k, p.v.ops[0].v.n if p.v.ops[0].k == "inst" else p.v.ops[0].v) if p.k == "inst" and p.v.op == "gep" else None
        if base(ia) != base(ib):
            return False
        if ba is bb:
            return ka < kb
        succ = {}
        for (fn, cx, ab), es in N.edges.items():
            if fn == a[0] and cx == a[2]:
                for x, y in es:
                    succ.setdefault(x, []).append(y)
        seen, work, hit = set(), [ba], False
        while work:
            x = work.pop()
            if x is bb:
                hit = True
                continue
            if x in seen:
                if x is ba:
                    return False
                continue
            seen.add(x)
            nx = succ.get(x, [])
            if x.insts[-1].op == "ret":
                return False
            work.extend(nx)
        return hit

    # ------------------------------------------------------------------ tables
    def table(self, T):
        M, rep = self.M, self.rep
        mac = macros()
        undef = mac.get("OSL_UNDEFINED")
        vals = {n: v for n, v in mac.items() if n.startswith(T["prefix"]) and isinstance(v, int) and n not in T["skip"]}
        if len(vals) < 3 or undef is None:
            raise AnalysisBroken(f"enumerated values {T['prefix']}* not found")
        idx = fidx(M, T["sty"], T["field"])
        ws = [(w, c) for w, c in T["writers"] if w in M.funcs]
        rs = [(r, c) for r, c in T["readers"] if r in M.funcs]
        if not ws or not rs:
            raise AnalysisBroken(f"printer or reader of the {T['name']} not found")
        cache = {}

        def read(r, c, w):
            k = (r, w)
            if k not in cache:
                cache[k] = self.stored(r, c, T["sty"], idx, w)
            return cache[k]
        all_kw = set()
        for w, wc in ws:
            lits = {}
            for n, v in dict(vals, OSL_UNDEFINED=undef).items():
                N = self.new()
                N.call(w, wc, (S + T["sty"], idx, ("int", v)))
                lits[n] = self.literals(N.log)
            common_ = set.intersection(*(set(x) for x in lits.values()))
            for n, v in dict(vals, OSL_UNDEFINED=undef).items():
                cand = {}
                for l, at in lits[n].items():
                    if l not in common_:
                        for x in words(l):
                            cand.setdefault(x, at)
                for r, rc in rs:
                    got, unsure = {}, False
                    for x in cand:
                        vs, line, fn = read(r, rc, x)
                        if len(vs) == 1 and next(iter(vs))[0] == "int":
                            k = next(iter(vs))[1]
                            if k != undef:
                                got[x] = (k, line, fn)
                        elif vs:
                            unsure = True
                    what = f"{T['name']} {n} as printed by {w} and read by {r}"
                    wrong = [(x, *g) for x, g in got.items() if g[0] != v]
                    if wrong and not any(g[0] == v for g in got.values()):
                        x, k, line, fn = wrong[0]
                        kn = next((m for m, q in vals.items() if q == k), str(k))
                        rep.bad(fn or r, line, "keyword-table", f"\"{x}\", printed for {n} at {cand[x][0]}:{cand[x][1]}, is read back as {kn}", key=f"{T['name']}:{n}:{w}:{r}")
                    elif any(g[0] == v for g in got.values()):
                        rep.ok(r, "keyword-table", what)
                        all_kw |= {x for x, g in got.items() if g[0] == v}
                    elif v == undef and not unsure:
                        rep.ok(r, "keyword-table", what)
                    elif unsure:
                        rep.undec(r, "keyword-table", what + ": the reader's choice is not decided by comparisons with constant words")
                    elif not cand:
                        same = all(set(x) == common_ for x in lits.values())
                        if same:
                            rep.undec(w, "keyword-table", what + ": the printer's choice is not decided by the field")
                        else:
                            rep.bad(w, None, "keyword-table", f"no keyword is printed for {n}", key=f"{T['name']}:{n}:{w}:{r}")
                    else:
                        x, at = next(iter(cand.items()))
                        rep.bad(at[0], at[1], "keyword-table", f"\"{', '.join(cand)}\", printed for {n}, is not a keyword {r} recognises", key=f"{T['name']}:{n}:{w}:{r}")
        # words that are not keywords define nothing
        for r, rc in rs:
            for x in sorted({k + "X" for k in all_kw} | {"X" + k for k in all_kw} | {"anything"}):
                vs, line, fn = read(r, rc, x)
                if vs == {BOT} or len(vs) > 1:
                    rep.undec(r, "keyword-unknown", f"\"{x}\" ({T['name']})")
                elif vs and vs != {("int", undef)}:
                    k = next(iter(vs))[1]
                    rep.bad(fn or r, line, "keyword-unknown", f"the unknown keyword \"{x}\" is read as {T['name']} {next((m for m, q in vals.items() if q == k), k)}",
                            key=f"{T['name']}:{r}:unknown")
                else:
                    rep.ok(r, "keyword-unknown", f"\"{x}\" ({T['name']})")

    def precision(self):
        mac = macros()
        rep, fn = self.rep, "osl_util_get_precision"
        if fn not in self.M.funcs:
            raise AnalysisBroken(fn + " not found")
        for p in ("SP", "DP", "MP"):
            w, v = mac.get("OSL_PRECISION_ENV_" + p), mac.get("OSL_PRECISION_" + p)
            if not isinstance(w, str) or not isinstance(v, int):
                raise AnalysisBroken("precision macros not found")
            r, _ = self.new(w).call(fn, ())
            if r is None or r == BOT:
                rep.undec(fn, "keyword-env", f"precision \"{w}\"")
            elif r != ("int", v):
                rep.bad(fn, None, "keyword-env", f"the environment value \"{w}\" selects precision {r[1]} instead of {v}", key=f"env:{p}")
            else:
                rep.ok(fn, "keyword-env", f"precision \"{w}\"")

    # ------------------------------------------------------------------ tags
    def tags(self):
        M, rep = self.M, self.rep
        mac = macros()
        uri = mac.get("OSL_URI_SCOP")
        if not isinstance(uri, str):
            raise AnalysisBroken("OSL_URI_SCOP not found")
        N = self.new()
        for w, cx in (("osl_scop_print", (NN, NN)),):
            N.call(w, cx)
        # a tag literal the printer emits: every "<name>" / "</name>" in a format
        lits = self.literals(N.log)
        have = {t: at for l, at in lits.items() for t in self.find_tags(l)}
        R = self.new()
        R.call("osl_scop_pread", (NN, NN, BOT))
        R.call("osl_scop_read", (NN,))
        named = {}
        for (fn, n, kind, *t), (line, args) in R.log.items():
            if kind == "call" and t[0] in ("osl_util_read_uptotag", "osl_util_read_uptoendtag"):
                for a in args:
                    if a[0] == "s":
                        named.setdefault((t[0], a[1]), (fn, line))
        for f, form in (("osl_util_read_uptotag", "<%s>"), ("osl_util_read_uptoendtag", "</%s>")):
            if f not in M.funcs:
                raise AnalysisBroken(f + " not found")
            P = self.new()
            P.call(f, (NN, NULL, ("s", "NAME")))
            fm = {a[1] for (fn, n, kind, *t), (line, args) in P.log.items() if kind == "call" and t[0] in PRINTS for a in args if a[0] == "s" and "%" in a[1] and "<" in a[1]}
            if len(fm) != 1:
                rep.undec(f, "tag-form", "the text searched for is not built by one format")
                continue
            got = fm.pop()
            if got != form:
                rep.bad(f, None, "tag-form", f"searches for {got!r} instead of {form!r}", key=f"form:{f}")
            else:
                rep.ok(f, "tag-form", form)
            # the section tags
            mine = [x for (g, x) in named if g == f]
            if not mine:
                rep.undec("osl_scop_pread", "tag-scop", f"name given to {f}")
                continue
            for x in mine:
                t = got.replace("%s", x)
                if t not in have:
                    fn, line = named[(f, x)]
                    rep.bad(fn, line, "tag-scop", f"the reader looks for {t}, which the printer never emits", key=f"scop:{f}:{x}")
                else:
                    rep.ok(have[t][0], "tag-scop", t)
        # extensions: the tag printed is made of the URI, start and end alike
        W = self.new()
        W.call("osl_generic_sprint", (NN,))
        seen = set()
        for (fn, n, kind, *t), (line, args) in W.log.items():
            if kind != "call" or t[0] not in PRINTS:
                continue
            for k, a in enumerate(args):
                if a[0] == "s" and ("<%s>" in a[1] or "</%s>" in a[1]):
                    form = "</%s>" if "</%s>" in a[1] else "<%s>"
                    i = next(x for x in M.funcs[fn].insts if x.n == n)
                    o = i.ops[k + 1] if k + 1 < len(i.ops) else None
                    g = o.v.ops[0].v if o is not None and o.k == "inst" and o.v.op == "load" and o.v.ops[0].k == "inst" else None
                    if g is None or g.op != "gep" or not g.sty.startswith("struct."):
                        rep.undec(fn, "tag-extension", f"name printed with {form}")
                        seen.add(form)
                    elif g.sty != S + "interface" or [x.v for x in g.ops[1:] if x.k == "int"][1:] != [fidx(M, "interface", "URI")]:
                        rep.bad(fn, line, "tag-extension", f"{form} is printed with something else than the URI", key=f"{fn}:{form}")
                        seen.add(form)
                    else:
                        seen.add(form)
                        rep.ok(fn, "tag-extension", form)
        # written piece by piece: the opening, the name, the rest
        pieces = {(fn, n) for (fn, n, kind, *t), (line, args) in W.log.items() if kind == "call" and t[0] in PRINTS and any(a[0] == "s" and isinstance(a[1], str) and a[1].endswith(("<", "</")) for a in args)}
        for fn, n in sorted(pieces):
            i = next(x for x in M.funcs[fn].insts if x.n == n)
            head = next((o.v for o in i.ops if o.k == "str" and str(o.v).endswith(("<", "</"))), None)
            if head is None:
                continue
            form = "</%s>" if head.endswith("</") else "<%s>"
            after = [x for x in i.block.insts[i.block.insts.index(i) + 1:] if x.op == "call"][:1]
            gs = [o.v.ops[0].v for x in after for o in x.ops if o.k == "inst" and o.v.op == "load" and o.v.ops[0].k == "inst" and o.v.ops[0].v.op == "gep"]
            gs += [o.v.ops[0] for x in after for o in x.ops if o.k == "inst" and o.v.op == "load" and o.v.ops[0].k == "inst" and o.v.ops[0].v.op == "load"]
            where = fidx(M, "interface", "URI")
            if form in seen:
                continue
            seen.add(form)
            if gs and all(not hasattr(g, "op") and where == 0 or hasattr(g, "op") and g.sty == S + "interface" and [x.v for x in g.ops[1:] if x.k == "int"][1:] == [where] for g in gs):
                rep.ok(fn, "tag-extension", form)
            elif gs and all(hasattr(g, "op") and g.sty.startswith("struct.") for g in gs):
                rep.bad(fn, i.line, "tag-extension", f"{form} is printed with something else than the URI", key=f"{fn}:{form}")
            else:
                rep.undec(fn, "tag-extension", f"name printed with {form}")
        for form in ("<%s>", "</%s>"):
            if form not in seen:
                rep.bad("osl_generic_sprint", None, "tag-extension", f"no tag of the form {form} is printed", key=f"sprint:{form}")
        # ... and it is the tag that was read which selects the descriptor and ends the content
        for fn in ("osl_generic_sread_one", "osl_generic_read_one"):
            F_ = M.funcs.get(fn)
            if F_ is None:
                continue
            tag = [i for i in F_.insts if i.op == "call" and i.callee.k == "func" and i.callee.v == "osl_util_read_tag"]
            for i in F_.insts:
                if i.op != "call" or i.callee.k != "func" or i.callee.v not in ("osl_util_read_uptoendtag", "osl_interface_lookup"):
                    continue
                o = i.ops[-1]
                if len(tag) != 1:
                    rep.undec(fn, "tag-extension", i.callee.v)
                elif o.k == "inst" and o.v.n == tag[0].n:
                    rep.ok(fn, "tag-extension", f"{i.callee.v} of the tag read")
                elif o.k in ("str", "null", "arg", "global") or o.k == "inst" and o.v.op in ("gep",):
                    rep.bad(fn, i.line, "tag-extension", f"{i.callee.v} is not given the tag that was read", key=f"{fn}:{i.callee.v}")
                else:
                    rep.undec(fn, "tag-extension", i.callee.v)
        # the reader of tags accepts every character of every registered URI
        uris = {uri: ("osl_scop_print", None)}
        for n in sorted(M.funcs):
            if n.endswith("_interface") and not M.funcs[n].decl and M.funcs[n].nparams == 0:
                U = self.new()
                U.call(n, ())
                for (fn, k, kind, *t), (line, args) in U.log.items():
                    if kind == "call" and t[0] in ("osl_util_strdup", "strdup") and args and args[0][0] == "s":
                        uris[args[0][1]] = (fn, line)
        chars = sorted({c for u in uris for c in u})
        refused = set()
        for c in chars:
            N = self.new(char=ord(c))
            N.call("osl_util_read_tag", (NULL, NN))
            if not any(kind == "char" for (fn, n, kind, *t) in N.log):
                refused.add(c)
        for u, at in sorted(uris.items()):
            bad = [c for c in u if c in refused]
            if not u:
                rep.bad(at[0], at[1], "tag-chars", "empty URI", key=f"uri:{u}")
            elif bad:
                rep.bad(at[0], at[1], "tag-chars", f"osl_util_read_tag refuses '{bad[0]}' of the URI \"{u}\"", key=f"uri:{u}")
            else:
                rep.ok("osl_util_read_tag", "tag-chars", u)
        N = self.new(char=ord("/"))
        N.call("osl_util_read_tag", (NULL, NN))
        if any(kind == "char" for (fn, n, kind, *t) in N.log):
            rep.ok("osl_util_read_tag", "tag-chars", "end tags")
        else:
            rep.bad("osl_util_read_tag", None, "tag-chars", "end tags are refused", key="uri:/")

    @staticmethod
    def find_tags(l):
        import re
        return re.findall(r"</?\w+>", l)

    def run(self):
        for T in TABLES:
            self.table(T)
        self.precision()
        self.tags()


def run(M, rep):
    check_model(M)
    Keywords(M, rep).run()
