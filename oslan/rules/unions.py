"""C23: operations on a property of a relation, list, statement or scop reach every part of every union and every node.

Access-path dataflow over every path of the setting, converting, querying and rebuilding functions (non-public helpers analysed in
place): the list is walked to its end on every path, every completed iteration (and a last one left in the middle) does the work on its own node."""
import re
from ..engine import Engine, Incomplete, NULL, ZERO, atom_eq, atom_le0, add, subterms, subst, relin, lin, reatom
from ..ir import AnalysisBroken, macros
from .common import *
from .loops import Loops, facts_state
from .integrity import Integrity, PURE, ld
from .clone import CloneCheck

GETTERS = {"osl_relation_get_attributes": "relation", "osl_relation_list_get_attributes": "relation_list",
           "osl_statement_get_attributes": "statement", "osl_scop_get_attributes": "scop"}
OUT = {1: "parameters", 2: "iterators", 3: "scattering dimensions", 4: "local dimensions", 5: "array identifier"}


class Unions(Integrity):
    def __init__(self, M, rep):
        super().__init__(M, rep)
        mac = macros()
        self.P = {}
        for n in ("SP", "DP", "MP"):
            if not isinstance(mac.get("OSL_PRECISION_" + n), int):
                raise AnalysisBroken("OSL_PRECISION_" + n + " not found")
            self.P[n] = mac["OSL_PRECISION_" + n]

    def go(self, fn, rule, models=None, stores=True):
        F_ = self.M.funcs.get(fn)
        if F_ is None or F_.decl:
            raise AnalysisBroken(fn + " not found")
        M = self.M
        E = Engine(M, opaque=lambda n: n.split("@")[0] in M.public and n != fn, pure=lambda n: bool(PURE.match(n)), track=lambda n: True, max_states=8000,
                   models=models or {})
        E.keep_facts = True
        if stores:
            E.track_store = lambda a, s: True
        self.E, self.L, self.fn = E, Loops(E), fn
        self.names = [p.id for p in F_.params]
        try:
            return E.analyse(fn)
        except Incomplete as e:
            self.rep.undec(fn, rule, str(e))
            return None

    # ------------------------------------------------------------------ every node
    def after(self, ev, sm):
        """the events behind the given loop"""
        for k, x in enumerate(ev):
            if x[0] == "loop" and self.E.summaries[x[2]] is sm:
                return ev[k + 1:]
        return ev

    def every(self, fn, T, rule, res, need, start=None, what="part", via=None):
        """need(node, facts, events) -> [(True/False/None, text)] must hold for every node of the list at `start` on every return"""
        start = start or ("arg", 0)
        nx = fidx(self.M, T, "next")
        done, walked = set(), False

        def judge(t, f, ev, line):
            for o, txt in need(t, f, ev):
                if o is None:
                    self.rep.undec(fn, rule, txt)
                elif o:
                    self.rep.ok(fn, rule, f"{what}: {txt}")
                else:
                    self.rep.bad(fn, line, rule, f"a {what} is left without {txt}", key=f"{fn}:{T}:{txt}")
        for s, v, line in res.rets:
            f = facts_state(s.facts)
            if self.eq(f, start, NULL) is True or start != ("arg", 0) and self.eq(f, ("arg", 0), NULL) is True:
                continue
            w = self.loop_of(s, start, T, f)
            if w is None:
                nxt = strip_ep(self.fld(start, T, "next"))
                cut = False
                for sm in self.L.below(s.ev):
                    for n, t in sm.phis.items():
                        st = {strip_ep(x) for x in sm.steps.get(n, ()) if x is not None}
                        if strip_ep(sm.inits[n]) == strip_ep(start) and st == {NULL, strip_ep(self.fld(t, T, "next"))}:
                            cut = True
                if cut:
                    self.rep.bad(fn, line, rule, f"the walk can be cut short before the last {what}", key=f"{fn}:{T}:early")
                    walked = True
                    continue
                rest = self.eq(f, nxt, NULL) is True or any(x[0] == "call" and x[1] == fn and self.handed(x[2], nxt, start) for x in s.ev)
                if rest or not self.walks(s, start):
                    judge(start, f, s.ev, line)
                    walked = True
                    if not rest:
                        self.rep.bad(fn, line, rule, f"only the first {what} of the list is handled", key=f"{fn}:{T}:first")
                    else:
                        self.rep.ok(fn, rule, f"rest of the {what}s handled")
                else:
                    self.rep.undec(fn, rule, f"how the list of {T} nodes is walked before line {line}")
                continue
            sm, t = w
            walked = True
            if not self.L.at_end(f.facts, t, S + T, nx):
                self.rep.bad(fn, line, rule, f"the walk ends before the last {what}", key=f"{fn}:{T}:early")
                continue
            self.rep.ok(fn, rule, f"list of {what}s walked to its end")
            if self.eq(f, t, NULL) is not True:
                # left in the middle of the last iteration
                judge(t, f, self.after(s.ev, sm), line)
            if id(sm) in done:
                continue
            done.add(id(sm))
            for m, facts, ev, env in sm.backs:
                judge(t, facts_state(facts), ev, sm.line)
        if not walked:
            self.rep.undec(fn, rule, f"no walk over the list of {what}s found")

    def handed(self, args, nxt, start):
        """the recursive call gets the rest of the list in place of the list, all else unchanged"""
        return any(strip_ep(a) == nxt for a in args) and all(strip_ep(a) == nxt or a == ("arg", k) for k, a in enumerate(args))

    def walks(self, s, start):
        """some loop advances from the start of the list in a way not recognised"""
        for sm in self.L.below(s.ev):
            for n, t in sm.phis.items():
                st = {strip_ep(x) for x in sm.steps.get(n, ()) if x is not None}
                if strip_ep(sm.inits[n]) == strip_ep(start) and st - {strip_ep(t), NULL}:
                    return True
        return any(x[0] == "loop" for x in s.ev)

    def last_store(self, ev, addr):
        v = None
        for x in ev:
            if x[0] == "store" and strip_ep(x[1]) == strip_ep(addr):
                v = x[2]
        return v

    def set_to(self, t, T, field, want, f, ev):
        """the field of node t holds `want` afterwards"""
        a = F(self.M, t, T, field)
        v = self.last_store(ev, a)
        if v is None:
            return self.eq(f, ("ld", a, 0), want) is True
        return self.eq(f, v, want) is True

    def called(self, ev, name, *args):
        for x in ev:
            if x[0] == "call" and x[1] == name and len(x[2]) == len(args) and all(strip_ep(a) == strip_ep(b) for a, b in zip(x[2], args)):
                return True
        return False

    # ------------------------------------------------------------------ setters
    def setters(self):
        rule = "union-set"
        A = lambda k: ("arg", k)
        DIM = ["nb_output_dims", "nb_input_dims", "nb_local_dims", "nb_parameters"]

        def attrs(t, f, ev):
            args = [A(1), A(2), A(3), A(4)]
            if self.called(ev, "osl_relation_set_attributes_one", t, *args) and self.fn != "osl_relation_set_attributes_one":
                return [(True, n + " set") for n in DIM]
            return [(self.set_to(t, "relation", n, A(k + 1), f, ev), f"{n} being set to the requested number") for k, n in enumerate(DIM)]
        fn = "osl_relation_set_attributes_one"
        res = self.go(fn, rule)
        for s, v, line in res.rets if res else ():
            f = facts_state(s.facts)
            if self.eq(f, A(0), NULL) is True:
                continue
            for o, txt in attrs(A(0), f, s.ev):
                if o:
                    self.rep.ok(fn, rule, txt)
                else:
                    self.rep.bad(fn, line, rule, f"a relation is left without {txt}", key=f"{fn}:{txt}")
        fn = "osl_relation_set_attributes"
        res = self.go(fn, rule)
        if res:
            self.every(fn, "relation", rule, res, attrs)
        fn = "osl_relation_set_type"
        res = self.go(fn, rule)
        if res:
            self.every(fn, "relation", rule, res, lambda t, f, ev: [(self.set_to(t, "relation", "type", A(1), f, ev), "its kind being set")])
        fn = "osl_relation_list_set_type"
        res = self.go(fn, rule)

        def elt(t, f, ev):
            e = self.fld(t, "relation_list", "elt")
            return [(self.eq(f, e, NULL) is True or self.called(ev, "osl_relation_set_type", e, A(1)), "the kind of (all parts of) its relation being set")]
        if res:
            self.every(fn, "relation_list", rule, res, elt, what="list node")

    # ------------------------------------------------------------------ precision
    def precision(self):
        rule, fn = "union-precision", "osl_relation_set_precision"
        res = self.go(fn, rule)
        if res is None:
            return
        pt = self.M.ptypes[fn][1:]
        r = [k for k, t in enumerate(pt) if t.endswith("*")]
        if len(r) != 1 or len(pt) != 2:
            raise AnalysisBroken("signature of " + fn)
        R0, P = ("arg", r[0]), ("arg", 1 - r[0])
        nx = "next"

        def need(t, f, ev):
            old = self.fld(t, "relation", "precision")
            if self.eq(f, old, P) is True:
                return [(self.last_store(ev, old[1]) in (None, P), "its precision being the requested one")]
            return [(self.set_to(t, "relation", "precision", P, f, ev), "the requested precision being recorded"), self.converted(t, f, ev, old, P)]
        self.every(fn, "relation", rule, res, need, start=R0)

        fn = "osl_relation_set_same_precision"
        res = self.go(fn, rule)
        if res is None:
            return
        A, B = ("arg", 0), ("arg", 1)
        rank = {self.P["SP"]: 0, self.P["DP"]: 1, self.P["MP"]: 2}
        for pa in rank:
            for pb in rank:
                want = max(pa, pb, key=lambda p: rank[p])
                for s, v, line in res.rets:
                    f = facts_state(s.facts)
                    if any(self.eq(f, x, NULL) is True for x in (A, B)):
                        continue
                    val = {strip_ep(self.fld(A, "relation", "precision")): ("int", pa), strip_ep(self.fld(B, "relation", "precision")): ("int", pb)}
                    sub = lambda t: relin(subst(strip_ep(t), lambda y: val.get(y)))
                    feas = True
                    for a, p in f.facts.items():
                        if a[0] in ("eq0", "le0") or a[0] == "peq" and NULL in a[1:]:
                            x = sub(a[1] if a[0] != "peq" or a[2] == NULL else a[2])
                            if x[0] == "int" and ((x[1] == 0) if a[0] != "le0" else (x[1] <= 0)) != p:
                                feas = False
                    if not feas:
                        continue
                    end = {A: pa, B: pb}
                    odd = False
                    for x in s.ev:
                        if x[0] == "call" and x[1] == "osl_relation_set_precision":
                            p, o = sub(x[2][1 - r[0]]), x[2][r[0]]
                            if o in end:
                                end[o] = p[1] if p[0] == "int" else None
                                # later reads of the field see the new value
                            else:
                                odd = True
                        elif x[0] == "loop" or x[0] == "store" and x[1][0] == "fld":
                            odd = True
                    if odd or None in end.values():
                        self.rep.undec(fn, rule, f"precisions after line {line}")
                        continue
                    for o, nm in ((A, "first"), (B, "second")):
                        if end[o] != want:
                            self.rep.bad(fn, line, rule, f"the {nm} relation ends in precision {end[o]} when the two have {pa} and {pb}", key=f"{fn}:{pa}:{pb}:{nm}")
                        else:
                            self.rep.ok(fn, rule, f"{nm} relation, precisions {pa}/{pb}")

    def converted(self, t, f, ev, old, P):
        """every cell of the part is converted from its former precision"""
        txt = "all of its rows and columns being converted"
        rows, cols = self.fld(t, "relation", "nb_rows"), self.fld(t, "relation", "nb_columns")
        if f.known(atom_le0(strip_ep(rows))) or f.known(atom_le0(strip_ep(cols))):
            return True, txt
        any_call = False
        worst = None
        plain = lambda x: all(k[0] in ("ld", "arg") for k in lin(x)[1])
        for x in ev:
            sm = self.L.sm(x)
            if sm is None:
                continue
            verd = []
            for m, fb, e2, env in sm.backs:
                best = None
                for y in e2:
                    sm2 = self.L.sm(y)
                    if sm2 is None:
                        continue
                    for m2, f2, e3, env2 in sm2.backs:
                        hit = [z for z in e3 if z[0] == "call" and z[1] == "osl_int_set_precision"]
                        any_call = any_call or bool(hit)
                        if not hit:
                            if any_call or best is None:
                                best = best or "none"
                            continue
                        c = hit[0]
                        if self.eq(f, c[2][0], old) is not True or self.eq(f, c[2][1], P) is not True:
                            return (False if {strip_ep(c[2][0]), strip_ep(c[2][1])} <= {strip_ep(old), P} else None), "its cells being converted from the former to the requested precision"
                        a = strip_ep(c[2][2])
                        if not (a[0] == "idx" and a[1][0] == "ld" and a[1][1][0] == "idx" and strip_ep(a[1][1][1]) == strip_ep(self.fld(t, "relation", "m"))):
                            best = best or "unk"
                            continue
                        i, j = a[1][1][3], a[3]
                        cr = {self.L.cover(sm, dict(x[3]), x[4], i, rows, plain), self.L.cover(sm2, dict(y[3]), y[4], j, cols, plain)}
                        cc = {self.L.cover(sm2, dict(y[3]), y[4], i, rows, plain), self.L.cover(sm, dict(x[3]), x[4], j, cols, plain)}
                        if self.L.ivar(sm, i) is not None or self.L.ivar(sm2, j) is not None:
                            cc = cr
                        elif self.L.ivar(sm, j) is not None or self.L.ivar(sm2, i) is not None:
                            cr = cc
                        one = "yes" if cr == {"yes"} or cc == {"yes"} else "no" if "no" in cr and "no" in cc else "unk"
                        skipped = [1 for m3, f3, e4, en in sm2.backs if not any(z[0] == "call" and z[1] == "osl_int_set_precision" for z in e4)]
                        if skipped:
                            one = "no"
                        best = one if best in (None, "none") or one != "yes" else best
                verd.append(best)
            if verd and any(v is not None for v in verd):
                if all(v == "yes" for v in verd):
                    return True, txt
                worst = "unk" if "unk" in verd else "no"
        if worst == "unk" or worst is None and any(x[0] == "loop" for x in ev) and not any_call and self.deep(ev):
            return None, txt
        return False, txt

    def deep(self, ev):
        return any(z[0] == "call" and z[1] == "osl_int_set_precision" for sm in self.L.below(ev) for b in sm.backs for z in b[2])

    # ------------------------------------------------------------------ maximum dimensions
    def models_get(self):
        def mk(name):
            def run(E, frame, i, s, args):
                E.opaque_call(frame, i, s, name, args)
                for k in range(1, 6):
                    old = E.load(s, args[k])
                    E.store(s, args[k], ("call", f"max:{name}:{k}", (args[0], old)), i)
                return [s]
            return run
        return {n: mk(n) for n in GETTERS if n in self.M.funcs}

    def elems(self, v):
        """what a maximum chain covers: {("old", term)} and {(callee, object, position)}"""
        out = set()
        v = strip_ep(v)
        while v[0] == "call" and v[1].startswith("max:"):
            _, n, k = v[1].split(":")
            out.add((n, v[2][0], int(k)))
            v = v[2][1]
        out.add(v)
        return out

    def chain(self, v):
        """the suffixes of a chain"""
        v = strip_ep(v)
        out = [v]
        while v[0] == "call" and v[1].startswith("max:"):
            v = v[2][1]
            out.append(v)
        return out

    def maximum(self, f, ev, k, needed, txt):
        """the k-th result holds, after this round, at least its former value and the maxima of the needed objects, in the same position, and nothing else"""
        addr = ("arg", k)
        old = ("ld", addr, 0)
        v = self.last_store(ev, addr)
        # results written directly through the caller's pointers
        direct = [x for x in ev if x[0] == "call" and x[1] in GETTERS and len(x[2]) == 6 and any(a == addr for a in x[2][1:])]
        if v is None and direct:
            v = old
            for x in direct:
                for p, a in enumerate(x[2][1:], 1):
                    if a == addr:
                        v = ("call", f"max:{x[1]}:{p}", (x[2][0], v))
        if v is None:
            v = old
        v = strip_ep(v)
        got = self.elems(v)
        cands = set(self.chain(v)) | {old}
        for a, p in f.facts.items():
            if a[0] == "le0":
                for y in lin(a[1])[1]:
                    cands |= set(self.chain(y))
        for c in cands:
            if c != v and f.known(atom_le0(add(c, v, -1))):
                got |= self.elems(c)
        out = []
        isold = lambda e: e == old or e[0] in ("itm", "uninit") or e == ("int", -1) or e[0] == "int" and e[1] <= 0 or e[0] == "ld" and e[1][0] in ("alloca", "arg")
        if old not in got and not any(e[0] == "itm" and old[1] in e for e in got):
            out.append((False, f"{txt} keeping the largest number met before"))
        foreign = [e for e in self.elems(v) if not isold(e) and not (isinstance(e[0], str) and e[0] in GETTERS and e[2] == k)]
        wrong = [e for e in foreign if len(e) == 3 and isinstance(e[0], str) and e[0] in GETTERS]
        if wrong:
            out.append((False, f"{txt} being taken from the matching result of {wrong[0][0]}"))
        elif foreign:
            out.append((None, f"{txt}: value {self.sh(foreign[0])}"))
        for n, o in needed:
            if not (n, strip_ep(o), k) in got and self.eq(f, o, NULL) is not True:
                out.append((False, f"{txt} taking into account {self.sh(o)}"))
        return out or [(True, f"{txt} updated")]

    def queries(self):
        rule = "union-max"
        parts = {"relation_list": [("osl_relation_get_attributes", "elt")],
                 "statement": [("osl_relation_get_attributes", "domain"), ("osl_relation_get_attributes", "scattering"), ("osl_relation_list_get_attributes", "access")],
                 "scop": [("osl_relation_get_attributes", "context"), ("osl_statement_get_attributes", "statement")]}
        for fn, T in GETTERS.items():
            mod = {n: m for n, m in self.models_get().items() if n != fn}
            res = self.go(fn, rule, models=mod)
            if res is None:
                continue
            if T == "relation":
                self.every(fn, T, rule, res, self.need_relation)
                continue

            def need(t, f, ev, T=T):
                out = []
                for k, txt in OUT.items():
                    out += self.maximum(f, ev, k, [(n, self.fld(t, T, fl)) for n, fl in parts[T]], f"the number of {txt}" if k < 5 else f"the {txt}")
                return out
            self.every(fn, T, rule, res, need, what={"relation_list": "list node"}.get(T, T))

    def need_relation(self, t, f, ev):
        R = lambda n: strip_ep(self.fld(t, "relation", n))
        ty, K = R("type"), self.K
        acc = None
        for a, p in self.calls(f, "osl_relation_is_access"):
            if a == (strip_ep(t),):
                acc = p
        feas = []
        for kind in ("CONTEXT", "DOMAIN", "SCATTERING", "ACCESS", "OTHER"):
            if kind == "ACCESS":
                if acc is False or acc is None and all(self.eq(f, ty, K[x]) is False for x in ("ACCESS", "READ", "WRITE", "MAY_WRITE")):
                    continue
                if any(self.eq(f, ty, K[x]) is True for x in ("CONTEXT", "DOMAIN", "SCATTERING")):
                    continue
            elif kind == "OTHER":
                if acc is True or any(self.eq(f, ty, K[x]) is True for x in K):
                    continue
            elif acc is True or self.eq(f, ty, K[kind]) is False or any(self.eq(f, ty, K[x]) is True for x in K if x != kind):
                continue
            feas.append(kind)
        aid = ("call", "osl_relation_get_array_id", (strip_ep(t),))
        out = []
        for kind in feas:
            W = {1: R("nb_parameters"), 4: R("nb_local_dims"),
                 2: ZERO if kind == "CONTEXT" else R("nb_output_dims") if kind == "DOMAIN" else R("nb_input_dims"),
                 3: R("nb_output_dims") if kind in ("SCATTERING", "OTHER") else ZERO,
                 5: aid if kind == "ACCESS" else ZERO}
            for k, w in W.items():
                old = ("ld", ("arg", k), 0)
                v = self.last_store(ev, ("arg", k))
                v = old if v is None else strip_ep(v)
                txt = f"the {OUT[k]} of a part of kind {kind.lower()} being counted"
                ge = lambda a, b: a == b or f.known(atom_le0(add(b, a, -1)))
                if v not in (old, w) and self.eq(f, v, w) is not True:
                    other = {R(n) for n in ("nb_parameters", "nb_local_dims", "nb_output_dims", "nb_input_dims")} | {ZERO, aid}
                    out.append((False if v in other or v[0] == "int" else None, txt))
                else:
                    out.append((ge(v, old) and ge(v, w), txt))
        return out

    def extend_links(self):
        fn, rule = "osl_relation_extend_output", "union-split"
        res = self.go(fn, rule)
        nx = fidx(self.M, "relation", "next")
        for sm in self.E.summaries if res else ():
            if any(strip_ep(ini) == ("arg", 0) for t, ini in self.L.walker(sm, S + "relation", nx, ("arg", 0))):
                for m, facts, ev, env in sm.backs:
                    self.linked(fn, rule, sm, m, facts_state(facts), ev, env, "relation", "osl_relation_pmalloc")

    def name_sets(self):
        """the numbers found are the numbers of names generated, position by position"""
        rule = "union-names"
        for fn, get in (("osl_relation_names", "osl_relation_get_attributes"), ("osl_statement_names", "osl_statement_get_attributes"), ("osl_scop_names", "osl_scop_get_attributes")):
            if fn not in self.M.funcs or self.M.funcs[fn].decl:
                raise AnalysisBroken(fn + " not found")
            res = self.go(fn, rule, models=self.models_get())
            if res is None:
                continue
            for s, v, line in res.rets:
                gen = [x for x in s.ev if x[0] == "call" and x[1] == "osl_names_generate"]
                if len(gen) != 1 or v is None or v[0] != "ret" or v[1] != "osl_names_generate":
                    self.rep.undec(fn, rule, "how the names are generated")
                    continue
                for k in range(1, 6):
                    n = strip_ep(gen[0][2][2 * k - 1])
                    es = [e for e in self.elems(n) if len(e) == 3 and e[0] in GETTERS]
                    if len(es) != 1:
                        self.rep.undec(fn, rule, f"number of names for {OUT[k]}")
                    elif es[0] != (get, ("arg", 0), k):
                        self.rep.bad(fn, line, rule, f"the number of names generated for the {OUT[k]} is the number of {OUT[es[0][2]]}", key=f"{fn}:{k}")
                    else:
                        self.rep.ok(fn, rule, OUT[k])

    # ------------------------------------------------------------------ normalisation
    def normalize(self):
        rule, fn = "union-normalize", "osl_scop_normalize_scattering"
        res = self.go(fn, rule)
        if res is None:
            return
        A = ("arg", 0)
        st = self.fld(A, "scop", "statement")
        dims = set()

        def need(t, f, ev):
            sc = self.fld(t, "statement", "scattering")
            out = []
            if self.eq(f, sc, NULL) is True:
                return [(True, "scattering")]
            v = self.last_store(ev, sc[1])
            if v is None:
                # only the walk that computes the maximum
                return [(False, "its scattering being replaced by the extended one")]
            v = strip_ep(v)
            if v[0] in ("ret", "call") and v[1] == "osl_relation_extend_output" and v[2][0] == strip_ep(sc):
                dims.add(v[2][1])
                return [(True, "its scattering being replaced by the extended one")]
            return [(None, "the scattering of a statement after normalisation")]
        # the walk that replaces: the one whose rounds call the extension
        nx = fidx(self.M, "statement", "next")
        found = False
        for s, v, line in res.rets:
            f = facts_state(s.facts)
            if self.eq(f, A, NULL) is True or self.eq(f, st, NULL) is True:
                continue
            ws = [(sm, t, x) for x in s.ev if self.L.sm(x) for sm in [self.L.sm(x)] for t, ini in self.L.walker(sm, S + "statement", nx, st) if strip_ep(ini) == strip_ep(st)
                  and any(any(z[0] == "call" and z[1] == "osl_relation_extend_output" for z in b[2]) for b in sm.backs)]
            if len(ws) != 1:
                if not any(x[0] == "loop" for x in s.ev):
                    self.rep.bad(fn, line, rule, "the statements are not walked", key=f"{fn}:nowalk")
                else:
                    self.rep.undec(fn, rule, "the walk that extends the scatterings")
                continue
            sm, t, x = ws[0]
            found = True
            if not self.L.at_end(f.facts, t, S + "statement", nx):
                self.rep.bad(fn, line, rule, "the walk ends before the last statement", key=f"{fn}:early")
            rounds = [(facts_state(facts), ev) for m, facts, ev, env in sm.backs]
            if self.eq(f, t, NULL) is not True:
                rounds.append((f, self.after(s.ev, sm)))
            for g, ev in rounds:
                for o, txt in need(t, g, ev):
                    if o is None:
                        self.rep.undec(fn, rule, txt)
                    elif o:
                        self.rep.ok(fn, rule, txt)
                    else:
                        self.rep.bad(fn, sm.line, rule, f"a statement is left without {txt}", key=f"{fn}:{txt}")
            for d in dims:
                self.max_over(fn, rule, d, s, f, st, line)
        if not found:
            self.rep.undec(fn, rule, "no walk extends the scatterings")

    def max_over(self, fn, rule, d, s, f, st, line):
        """the number handed to the extension is at least the number of output dimensions of every part of every statement"""
        nx, rx = fidx(self.M, "statement", "next"), fidx(self.M, "relation", "next")
        txt = "the number of dimensions requested covers every part of every statement"
        d = strip_ep(d)
        for sm in self.L.below(s.ev):
            n = next((n for n, t in sm.phis.items() if strip_ep(t) == d), None)
            if n is None:
                continue
            w = [t for t, ini in self.L.walker(sm, S + "statement", nx, st) if strip_ep(ini) == strip_ep(st)]
            if not w:
                continue
            t = w[0]
            if not self.L.at_end(f.facts, t, S + "statement", nx):
                self.rep.bad(fn, line, rule, "the maximum is taken over a part of the statements only", key=f"{fn}:max-early")
                return
            for m, fb, ev, env in sm.backs:
                g = facts_state(fb)
                r = self.part_max(g, ev, env.get(n, d), d, self.fld(t, "statement", "scattering"))
                if r is None:
                    self.rep.undec(fn, rule, txt)
                elif r:
                    self.rep.ok(fn, rule, txt)
                else:
                    self.rep.bad(fn, sm.line, rule, "the number of dimensions requested does not cover every part of every statement", key=f"{fn}:max")
            return
        if d[0] == "int" or d[0] == "ld" or all(k[0] in ("ld", "int") for k in lin(d)[1]):
            self.rep.bad(fn, line, rule, "the number of dimensions requested is not a maximum over the statements", key=f"{fn}:max")
        else:
            self.rep.undec(fn, rule, txt)

    def part_max(self, g, ev, v, old, sc):
        """value v >= old and >= nb_output_dims of every part at sc"""
        v = strip_ep(v)
        rx = fidx(self.M, "relation", "next")
        ge = lambda h, a, b: a == b or h.known(atom_le0(add(b, a, -1)))
        if self.eq(g, sc, NULL) is True:
            return ge(g, v, old) or self.via_loop(ev, v, old)
        for x in ev:
            sm = self.L.sm(x)
            if sm is None:
                continue
            n = next((n for n, t in sm.phis.items() if strip_ep(t) == v), None)
            if n is None:
                continue
            w = [t for t, ini in self.L.walker(sm, S + "relation", rx, sc) if strip_ep(ini) == strip_ep(sc)]
            if not w:
                return None
            if not self.L.at_end(g.facts, w[0], S + "relation", rx):
                return False
            if strip_ep(sm.inits[n]) != old:
                return False if sm.inits[n][0] == "int" else None
            for m, fb, e2, env in sm.backs:
                h = facts_state(fb)
                nv = strip_ep(env.get(n, v))
                if not ge(h, nv, v) or not ge(h, nv, strip_ep(self.fld(w[0], "relation", "nb_output_dims"))):
                    return False
            return True
        # no walk over the parts: only the first one can have been looked at
        return False if not any(x[0] == "loop" for x in ev) and all(k[0] in ("ld", "it") for k in lin(v)[1]) else None

    def via_loop(self, ev, v, old):
        for x in ev:
            sm = self.L.sm(x)
            if sm is not None and any(strip_ep(t) == v and strip_ep(sm.inits[n]) == old for n, t in sm.phis.items()):
                return True
        return None

    # ------------------------------------------------------------------ splitting unions
    def split(self):
        rule, fn = "union-split", "osl_statement_remove_unions"
        res = self.go(fn, rule)
        if res is not None:
            self.split_statement(fn, rule, res)
        fn = "osl_scop_remove_unions"
        res = self.go(fn, rule)
        if res is not None:
            self.split_scop(fn, rule, res)

    def split_statement(self, fn, rule, res):
        A = ("arg", 0)
        nx, rx = fidx(self.M, "statement", "next"), fidx(self.M, "relation", "next")
        dom, sc = strip_ep(self.fld(A, "statement", "domain")), strip_ep(self.fld(A, "statement", "scattering"))
        walks = {}        # relation walked -> [(summary, position)]
        for sm in self.E.summaries:
            for src, nm in ((dom, "domain"), (sc, "scattering")):
                for t, ini in self.L.walker(sm, S + "relation", rx, src):
                    if strip_ep(ini) == src:
                        walks.setdefault(nm, []).append((sm, t))
        for nm in ("domain", "scattering"):
            if nm not in walks:
                if any(s.ev and any(x[0] == "loop" for x in s.ev) for s, v, l in res.rets) and self.E.summaries and not self.plain_loops():
                    self.rep.undec(fn, rule, f"the walk over the parts of the {nm}")
                else:
                    self.rep.bad(fn, None, rule, f"only the first part of the {nm} is used", key=f"{fn}:{nm}:first")
                return
        pos = {nm: {strip_ep(t) for sm, t in w} for nm, w in walks.items()}

        seen = set()
        inner = [sm for sm, t in walks["scattering"]]
        outer = [sm for sm, t in walks["domain"]]
        # nesting: every round of the outer walk runs the inner one over all its parts
        swap = any(any(self.L.sm(y) in inner for b in sm.backs for y in b[2]) for sm in outer)
        if not swap:
            inner, outer = outer, inner
        names = ("scattering", "domain") if swap else ("domain", "scattering")

        def part(x, nm, f):
            """position whose single-part copy x is"""
            x = strip_ep(x)
            if x == NULL:
                return NULL
            if x[0] in ("ret", "call") and x[1] in ("osl_relation_nclone", "osl_relation_clone_one_safe") and (x[1] != "osl_relation_nclone" or x[2][1] == ("int", 1)):
                return x[2][0]
            return None

        def pairs(f, ev, line, seen):
            """new statements completed in a stretch of events"""
            n = 0
            for x in ev:
                if x[0] == "call" and x[1] == "osl_statement_malloc":
                    O = x[3]
                    n += 1
                    got = {}
                    for fl in ("domain", "scattering", "access", "extension"):
                        got[fl] = self.last_store(ev, F(self.M, O, "statement", fl))
                    for nm in ("domain", "scattering"):
                        v = got[nm]
                        if v is None or v == NULL:
                            o = any(self.eq(f, p, NULL) is True for p in pos[nm] | {dom if nm == "domain" else sc})
                            if not o:
                                self.rep.bad(fn, line, rule, f"a new statement has no {nm}", key=f"{fn}:{nm}:none")
                            continue
                        p = part(v, nm, f)
                        if p is None:
                            v = strip_ep(v)
                            if v[0] in ("ret", "call") and v[1] in ("osl_relation_clone",) or v[0] == "ld":
                                self.rep.bad(fn, line, rule, f"the {nm} of a new statement is not a single-part copy", key=f"{fn}:{nm}:whole")
                            else:
                                self.rep.undec(fn, rule, f"the {nm} of a new statement")
                        elif p in pos[nm] or self.eq(f, p, NULL) is True:
                            self.rep.ok(fn, rule, f"{nm} of the new statement")
                        elif p[0] == "ld" or nm == names[1] and any(p == strip_ep(t) for sm in inner for t in sm.phis.values()) or p in pos["domain"] | pos["scattering"]:
                            self.rep.bad(fn, line, rule, f"the {nm} of a new statement is not the part at the current position", key=f"{fn}:{nm}:part")
                        else:
                            self.rep.undec(fn, rule, f"the {nm} of a new statement")
                    for fl, c in (("access", "osl_relation_list_clone"), ("extension", "osl_generic_clone")):
                        e = strip_ep(self.fld(A, "statement", fl))
                        v = strip_ep(got[fl]) if got[fl] is not None else None
                        if v is None or v == NULL:
                            if self.eq(f, e, NULL) is not True:
                                self.rep.bad(fn, line, rule, f"a new statement has no {fl}", key=f"{fn}:{fl}:none")
                        elif v[0] in ("ret", "call") and v[1] == c and v[2] == (e,):
                            self.rep.ok(fn, rule, f"{fl} of the new statement")
                        else:
                            self.rep.undec(fn, rule, f"the {fl} of a new statement")
            return n
        for sm in inner:
            t = next(t for s2, t in walks[names[0]] if s2 is sm)
            for m, facts, ev, env in sm.backs:
                f = facts_state(facts)
                if pairs(f, ev, sm.line, seen) != 1:
                    self.rep.bad(fn, sm.line, rule, f"a part of the {names[0]} gives no new statement", key=f"{fn}:{names[0]}:none-made")
                self.linked(fn, rule, sm, m, f, ev, env, "statement", "osl_statement_malloc")
        for sm in outer:
            ins = 0
            for m, facts, ev, env in sm.backs:
                f = facts_state(facts)
                iw = [(self.L.sm(y), y) for y in ev if self.L.sm(y) in inner]
                if len(iw) != 1:
                    self.rep.undec(fn, rule, f"the parts of the {names[0]} for each part of the {names[1]}")
                    continue
                it = next(t for s2, t in walks[names[0]] if s2 is iw[0][0])
                if not self.L.at_end(f.facts, it, S + "relation", rx):
                    self.rep.bad(fn, sm.line, rule, f"the parts of the {names[0]} are not all combined with each part of the {names[1]}", key=f"{fn}:{names[0]}:early")
                else:
                    self.rep.ok(fn, rule, f"all parts of the {names[0]} walked")
                if self.eq(f, it, NULL) is not True:
                    rest = self.after(ev, iw[0][0])
                    if pairs(f, rest, sm.line, seen) != 1:
                        self.rep.bad(fn, sm.line, rule, f"the last part of the {names[0]} gives no new statement", key=f"{fn}:{names[0]}:last")
                    self.linked(fn, rule, sm, m, f, rest, env, "statement", "osl_statement_malloc", inner=iw[0][0])
        for s, v, line in res.rets:
            f = facts_state(s.facts)
            if self.eq(f, A, NULL) is True:
                continue
            ow = [self.L.sm(y) for y in s.ev if self.L.sm(y) in outer]
            if len(ow) != 1:
                self.rep.undec(fn, rule, f"the parts of the {names[1]} before line {line}")
                continue
            ot = next(t for s2, t in walks[names[1]] if s2 is ow[0])
            if not self.L.at_end(f.facts, ot, S + "relation", rx):
                self.rep.bad(fn, line, rule, f"the walk ends before the last part of the {names[1]}", key=f"{fn}:{names[1]}:early")
            else:
                self.rep.ok(fn, rule, f"all parts of the {names[1]} walked")
            iw = [self.L.sm(y) for y in self.after(s.ev, ow[0]) if self.L.sm(y) in inner]
            if self.eq(f, ot, NULL) is not True or iw:
                if len(iw) != 1:
                    self.rep.undec(fn, rule, f"the last part of the {names[1]}")
                    continue
                it = next(t for s2, t in walks[names[0]] if s2 is iw[0])
                if not self.L.at_end(f.facts, it, S + "relation", rx):
                    self.rep.bad(fn, line, rule, f"the parts of the {names[0]} are not all combined with the last part of the {names[1]}", key=f"{fn}:{names[0]}:early")
                if self.eq(f, it, NULL) is not True and pairs(f, self.after(s.ev, iw[0]), line, seen) != 1:
                    self.rep.bad(fn, line, rule, "the last combination gives no new statement", key=f"{fn}:last")

    def plain_loops(self):
        return False

    def linked(self, fn, rule, sm, m, f, ev, env, T, maker, inner=None):
        """the node made in this round is reachable afterwards: it hangs behind the last one, or begins the list"""
        nx = fidx(self.M, T, "next")
        O = [strip_ep(x[3]) for x in ev if x[0] == "call" and x[1] == maker]
        if len(O) != 1:
            return
        O = O[0]
        at = [x for x in ev if x[0] == "store" and strip_ep(x[2]) == O]
        kept = [n for n, t in sm.phis.items() if strip_ep(env.get(n, t)) == O]
        modes = dict(m[0]) if m and m[0] else {}
        hooks = [x for x in at if x[1][0] == "fld" and x[1][2] == S + T and x[1][3] == nx]
        if not at and not kept:
            self.rep.bad(fn, sm.line, rule, f"a new {T} is not linked to the others", key=f"{fn}:{T}:lost")
            return
        for x in hooks:
            b = strip_ep(x[1][1])
            if self.eq(f, strip_ep(("ld", x[1], 0)), NULL) is True:
                self.rep.ok(fn, rule, f"new {T} behind the last one")
                continue
            # the node linked last is the one every round leaves in this variable
            src = [n for n, t in sm.phis.items() if b in (strip_ep(t), strip_ep(modes.get(n, t)))]
            if inner is not None:
                src = [n for n, t in inner.phis.items() if b == strip_ep(t)]
            if src:
                last = inner or sm
                good = any(all(self.is_new(e2.get(n), maker) for m2, f2, ev2, e2 in last.backs) for n in src)
                if good:
                    self.rep.ok(fn, rule, f"new {T} behind the last one")
                else:
                    fixed = all(all(self.stays(n, m2, e2, last, f2) for m2, f2, ev2, e2 in last.backs) for n in src)
                    if fixed:
                        self.rep.bad(fn, sm.line, rule, f"a new {T} replaces the ones linked before", key=f"{fn}:{T}:overwrite")
                    else:
                        self.rep.undec(fn, rule, f"where a new {T} is linked")
            elif b[0] in ("ret", "it", "alloc"):
                self.rep.ok(fn, rule, f"new {T} behind a node made before")
            else:
                self.rep.undec(fn, rule, f"where a new {T} is linked")
        if not hooks:
            self.rep.ok(fn, rule, f"new {T} kept")

    def stays(self, n, m, env, sm, facts):
        """a round leaves the variable on the node it was on (or puts it on the first node)"""
        was, v = dict(m[0]).get(n, sm.phis[n]), env.get(n, sm.phis[n])
        if was == NULL or facts_state(facts).known(atom_eq(strip_ep(was), NULL)) or v == was or strip_ep(v) == strip_ep(sm.phis[n]):
            return True
        return v[0] == was[0] == "ret" and strip_ep(v[:4]) == strip_ep(was[:4]) and v[4] != "cur"

    def is_new(self, v, maker):
        return v is not None and v[0] == "ret" and v[1] == maker and v[4] == "cur"

    def near(self, v, maker):
        """a node a fixed number of links behind the one made"""
        v = strip_ep(v) if v is not None else None
        while v is not None and v[0] == "ld" and v[1][0] == "fld":
            v = v[1][1]
        return v is not None and v[0] == "ret" and v[1] == maker

    def split_scop(self, fn, rule, res):
        A = ("arg", 0)
        nx, sx = fidx(self.M, "scop", "next"), fidx(self.M, "statement", "next")
        self.every(fn, "scop", rule, res, lambda t, f, ev: self.scop_round(fn, rule, t, f, ev), what="scop")
        for sm in self.E.summaries:
            if any(strip_ep(ini) == A for t, ini in self.L.walker(sm, S + "scop", nx, A)):
                for m, facts, ev, env in sm.backs:
                    self.linked(fn, rule, sm, m, facts_state(facts), ev, env, "scop", "osl_scop_malloc")

    def scop_round(self, fn, rule, t, f, ev):
        out = []
        O = [x[3] for x in ev if x[0] == "call" and x[1] == "osl_scop_malloc"]
        if len(O) != 1:
            return [(False if not O else None, "a new scop being made for it")]
        O = O[0]
        for fl, c in (("context", "osl_relation_clone"), ("extension", "osl_generic_clone"), ("parameters", "osl_generic_clone"), ("registry", "osl_interface_clone")):
            e = strip_ep(self.fld(t, "scop", fl))
            v = self.last_store(ev, F(self.M, O, "scop", fl))
            v = strip_ep(v) if v is not None else None
            if v in (None, NULL):
                out.append((self.eq(f, e, NULL) is True, f"its {fl} being copied"))
            elif v[0] in ("ret", "call") and v[1] == c:
                out.append((v[2] == (e,), f"its {fl} being copied"))
            else:
                out.append((False if v == e else None, f"its {fl} being copied"))
        out.append((self.set_to(O, "scop", "version", self.fld(t, "scop", "version"), f, ev), "its version being copied"))
        lang = self.fld(t, "scop", "language")
        v = self.last_store(ev, F(self.M, O, "scop", "language"))
        if v in (None, NULL):
            out.append((self.eq(f, lang, NULL) is True, "its language being copied"))
        else:
            v = strip_ep(v)
            cp = any(x[0] == "call" and x[1] in ("strcpy", "memcpy", "strdup", "__strdup") and any(strip_ep(a) == strip_ep(lang) for a in x[2]) for x in ev) or \
                v[0] == "alloc" and v[2] in ("strdup", "__strdup") and strip_ep(v[3][0]) == strip_ep(lang)
            out.append((True if cp else False if v == strip_ep(lang) else None, "its language being copied"))
        # the statements
        sx = fidx(self.M, "statement", "next")
        st = strip_ep(self.fld(t, "scop", "statement"))
        txt = "all its statements being split"
        if self.eq(f, st, NULL) is True:
            return out
        ws = [(sm, p) for x in ev if self.L.sm(x) for sm in [self.L.sm(x)] for p, ini in self.L.walker(sm, S + "statement", sx, st) if strip_ep(ini) == st]
        if len(ws) != 1:
            out.append((None if any(x[0] == "loop" for x in ev) else False, txt))
            return out
        sm, p = ws[0]
        if not self.L.at_end(f.facts, p, S + "statement", sx):
            out.append((False, txt))
            return out
        for m, fb, e2, env in sm.backs:
            g = facts_state(fb)
            made = [x for x in e2 if x[0] == "call" and x[1] == "osl_statement_remove_unions"]
            if len(made) != 1 or strip_ep(made[0][2][0]) != strip_ep(p):
                out.append((False if not made else None, txt))
                continue
            N = strip_ep(made[0][3])
            at = [x for x in e2 if x[0] == "store" and strip_ep(x[2]) == N]
            if not at:
                out.append((False, "the statements made from it being kept"))
                continue
            for x in at:
                a = x[1]
                if a[0] == "fld" and a[2] == S + "scop":
                    # the first one: nothing may hang there yet
                    first = [n for n, tt in sm.phis.items() if tt != p and self.eq(g, tt, NULL) is True] or self.eq(g, strip_ep(("ld", a, 0)), NULL) is True or \
                        any(v == NULL for n, v in dict(m[0]).items())
                    ok = strip_ep(a[1]) == strip_ep(O) and bool(first)
                    out.append((True if ok else None if strip_ep(a[1]) == strip_ep(O) else False, "the statements made from it being kept"))
                elif a[0] == "fld" and a[2] == S + "statement" and a[3] == sx:
                    b = strip_ep(a[1])
                    # linked behind a node known to be the last: the walk to the end of what was linked before
                    vs = [n for n, tt in sm.phis.items() if strip_ep(tt) == b]
                    last = lambda n: all(self.eq(facts_state(f3), strip_ep(self.fld(e3.get(n, sm.phis[n]), "statement", "next")), NULL) is True for _, f3, _, e3 in sm.backs)
                    if self.eq(g, strip_ep(("ld", a, 0)), NULL) is True or any(last(n) for n in vs):
                        out.append((True, "the statements made from it being kept"))
                    elif vs and all(strip_ep(e3.get(n, sm.phis[n])) == strip_ep(sm.phis[n]) or self.near(e3.get(n), "osl_statement_remove_unions") for n in vs for _, _, _, e3 in sm.backs):
                        out.append((False, "every statement made from it being kept (several may be made at once)"))
                    else:
                        out.append((None, "where the statements made from a statement are linked"))
                else:
                    out.append((None, "where the statements made from a statement are linked"))
        out.append((True, txt))
        return out


class Extend(CloneCheck):
    """osl_relation_extend_output: a clone of every part, the counts increased by the missing dimensions"""
    FN = "osl_relation_extend_output"

    def run(self):
        if self.FN not in self.M.funcs or self.M.funcs[self.FN].decl:
            raise AnalysisBroken(self.FN + " not found")
        self.check_fn(self.FN, "relation")

    def check_obj(self, s, O, N, t, sub=None):
        bad = []
        dim = ("arg", 1)
        f = self.state_of(s.facts)
        out = strip_ep(("ld", F(self.M, N, t, "nb_output_dims"), 0))
        for i, n, k, ct in fields(self.M, t):
            if n in ("m", "usr", "next"):
                continue
            e = ("fld", N, S + t, i)
            v = self.field_value(s, O, t, i)
            src = strip_ep(("ld", e, 0))
            if n == "nb_output_dims":
                ok = strip_ep(v) == dim or strip_ep(v) == src and (f.known(atom_eq(add(out, dim, -1), ZERO)) or f.known(atom_le0(add(dim, out, -1))))
            elif n in ("nb_rows", "nb_columns"):
                w = add(src, add(dim, out, -1))
                d = add(strip_ep(v), w, -1)
                ok = d == ZERO or f.known(atom_eq(d, ZERO))
            else:
                ok = self.copy_val(s, v, e)
            if not ok:
                bad.append((n, (v, "is not the part's own" if n not in ("nb_output_dims", "nb_rows", "nb_columns") else "is not the extended number", True)))
        return bad


def run(M, rep):
    check_model(M)
    u = Unions(M, rep)
    u.setters()
    u.precision()
    u.queries()
    u.name_sets()
    u.normalize()
    u.split()
    u.extend_links()
    Extend(M, rep).run()
