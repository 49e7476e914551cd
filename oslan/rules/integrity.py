"""C20: the integrity check consults every part, with the right expectations, and succeeds only when every part passed.

Access-path dataflow over every path of the checking functions (non-public helpers analysed in place, checks of the parts
kept as uninterpreted results): on every path answering success, the facts established must say that every part was
checked and passed, for every node of the list (loop summaries: every completed iteration, and the list was walked to its end)."""
import re
from ..engine import Engine, Incomplete, NULL, ZERO, atom_eq, atom_le0, add
from ..ir import AnalysisBroken, macros
from .common import *
from .loops import Loops, facts_state
from .lists import Lists

PURE = re.compile(r"^osl_\w+_integrity_check$|^osl_strings_size$|^osl_generic_lookup$|^osl_relation_is_access$|^osl_relation_get_array_id$|^osl_int_\w+$|.*_i?dump$")
U = ("int", -1)


def ld(b, t, k):
    return ("ld", ("fld", b, S + t, k), 0)


class Integrity:
    def __init__(self, M, rep):
        self.M, self.rep = M, rep
        mac = macros()
        self.K = {}
        for n in ("CONTEXT", "DOMAIN", "SCATTERING", "ACCESS", "READ", "WRITE", "MAY_WRITE"):
            if not isinstance(mac.get("OSL_TYPE_" + n), int):
                raise AnalysisBroken("OSL_TYPE_" + n + " not found")
            self.K[n] = ("int", mac["OSL_TYPE_" + n])
        if mac.get("OSL_UNDEFINED") != -1:
            raise AnalysisBroken("OSL_UNDEFINED changed")

    def fld(self, b, t, f):
        return ld(b, t, fidx(self.M, t, f))

    def analyse(self, fn, rule):
        F_ = self.M.funcs.get(fn)
        if F_ is None or F_.decl:
            raise AnalysisBroken(fn + " not found")
        M = self.M
        E = Engine(M, opaque=lambda n: n.split("@")[0] in M.public and n != fn, pure=lambda n: bool(PURE.match(n)), track=lambda n: True, max_states=8000)
        E.keep_facts = True
        self.E, self.L, self.fn = E, Loops(E), fn
        self.names = [p.id for p in F_.params]
        try:
            return E.analyse(fn)
        except Incomplete as e:
            self.rep.undec(fn, rule, str(e))
            return None

    def sh(self, t):
        return show(self.M, t, self.names)

    # ------------------------------------------------------------------ facts
    def eq(self, f, a, b):
        """True / False / None"""
        x = strip_ep(add(a, b, -1)) if a != NULL and b != NULL else None
        if strip_ep(a) == strip_ep(b):
            return True
        at = atom_eq(strip_ep(a), strip_ep(b))
        r = f.decide(at[0])
        if r is None and b == NULL:
            at = atom_eq(strip_ep(a), ZERO)
            r = f.decide(at[0])
        if r is not None and not at[1]:
            r = not r
        return r

    def calls(self, f, name):
        """results of a check known to be nonzero / zero: [(args, nonzero?)]"""
        out = []
        for a, p in f.facts.items():
            if a[0] == "peq" and NULL in a[1:]:
                c = a[1] if a[2] == NULL else a[2]
            elif a[0] == "eq0":
                c = a[1]
            else:
                continue
            if c[0] in ("call", "ret") and c[1] == name:
                out.append((tuple(strip_ep(x) for x in c[2]), not p))
        return out

    # ------------------------------------------------------------------ list walks ending in success
    def successes(self, res):
        """[(state, facts, line)] of the paths that may answer success"""
        out = []
        for s, v, line in res.rets:
            if v == ZERO:
                continue
            f = facts_state(s.facts)
            if v is not None and v[0] != "int":
                f.facts = dict(f.facts)
                at, want = (strip_ep(v[1]), v[2]) if v[0] == "lit" else (self.zero(v), False)
                if f.decide(at) is (not want):
                    continue
                f.facts[at] = want
            out.append((s, f, line, v))
        return out

    def loop_of(self, s, start, T, f):
        """the walk over the list of T nodes starting at `start`: (summary, position) or None"""
        nx = fidx(self.M, T, "next")
        for sm in self.L.below(s.ev):
            for t, ini in self.L.walker(sm, S + T, nx, start):
                if strip_ep(ini) == strip_ep(start):
                    return sm, t
        return None

    def zero(self, t):
        at = atom_eq(strip_ep(t), ZERO)
        return at[0] if isinstance(at[0], tuple) else at

    def live(self, sm, evs):
        """the completed iterations after which one of the given event lists (its exit mode of the loop) is still possible"""
        ends = {x[5] for ev in evs for x in ev if x[0] == "loop" and len(x) > 5 and self.E.summaries[x[2]] is sm}
        if not ends or len(sm.backmodes) != len(sm.backs):
            return sm.backs
        good = set(ends)
        while True:
            new = {a for a, b in sm.trans if b in good} - good
            if not new:
                break
            good |= new
        return [b for b, (i, j) in zip(sm.backs, sm.backmodes) if j in good]

    def flags(self, sm, succ):
        """verdict variables of a loop: success requires them nonzero, and once zero they stay so (or the loop ends)"""
        out = []
        for n, t in sm.phis.items():
            at = self.zero(t)
            if sm.inits[n] == ZERO or not all(f.decide(at) is False for _, f, _, _ in succ):
                continue
            if all(strip_ep(e2.get(n, t)) in (ZERO, strip_ep(t)) or facts_state(facts).decide(at) is False for m, facts, ev, e2 in sm.backs):
                out.append(n)
        return out

    def assuming(self, g, sm, env, succ):
        """facts of an iteration after which success is still possible; None: it is not"""
        f = facts_state(g.facts)
        for n in self.flags(sm, succ):
            v = strip_ep(env.get(n, sm.phis[n]))
            if v == ZERO:
                return None
            if v[0] == "int":
                continue
            if v[0] == "lit":
                if f.decide(v[1]) is (not v[2]):
                    return None
                f.facts[v[1]] = v[2]
            else:
                if f.decide(self.zero(v)) is True:
                    return None
                f.facts[self.zero(v)] = False
        return f

    def each(self, fn, T, rule, res, need, start=None, what="node", skip=None):
        """on every success path the list at `start` was walked to its end and need(position, facts, events) holds for every iteration.
        need returns [(ok?, text)]"""
        start = start or ("arg", 0)
        succ = self.successes(res)
        if not succ:
            self.rep.bad(fn, None, rule, "the check never succeeds", key=f"{fn}:never")
            return
        done = set()
        walked = False
        for s, f, line, v in succ:
            if self.eq(f, start, NULL) is True:
                continue
            if skip and skip(f):
                continue
            w = self.loop_of(s, start, T, f)
            if w is None:
                one = need(start, f, s.ev)
                if all(o for o, _ in one) and self.eq(f, self.fld(start, T, "next"), NULL) is True:
                    self.rep.ok(fn, rule, f"single {what}")
                    walked = True
                    continue
                nxt = self.fld(start, T, "next")
                rest = [a for a, p in self.calls(f, fn) if p and a[0] == strip_ep(nxt) and a[1:] == tuple(("arg", k) for k in range(1, len(a)))]
                if rest and start == ("arg", 0):
                    walked = True
                    for o, txt in one:
                        if o:
                            self.rep.ok(fn, rule, f"{what}: {txt}")
                        else:
                            self.rep.bad(fn, line, rule, f"a {what} passes without {txt}", key=f"{fn}:{T}:{txt}")
                    continue
                adv = [x for sm in self.L.below(s.ev) for n in sm.phis for x in sm.steps.get(n, ()) if x is None or x != NULL and strip_ep(x) != strip_ep(sm.phis[n]) and
                       strip_ep(sm.inits[n]) == strip_ep(start)]
                if any(x[0] == "call" and x[1] == fn for x in s.ev) or adv:
                    self.rep.undec(fn, rule, f"how the list of {T} nodes is walked before success at line {line}")
                else:
                    self.rep.bad(fn, line, rule, f"success without walking the list of {what}s", key=f"{fn}:{T}:nowalk")
                continue
            sm, t = w
            walked = True
            nx = fidx(self.M, T, "next")
            if not self.L.at_end(f.facts, t, S + T, nx):
                self.rep.bad(fn, line, rule, f"success before the last {what} was checked", key=f"{fn}:{T}:early")
            else:
                self.rep.ok(fn, rule, f"list of {what}s walked to its end")
            if id(sm) in done:
                continue
            done.add(id(sm))
            for m, facts, ev, env in self.live(sm, [x[0].ev for x in succ]):
                g = facts_state(facts)
                miss = [txt for o, txt in need(t, g, ev) if not o]
                if miss:
                    g = self.assuming(g, sm, env, succ)
                    miss = [txt for o, txt in need(t, g, ev) if not o] if g is not None else []
                if g is None:
                    continue
                for txt in miss:
                    self.rep.bad(fn, sm.line, rule, f"a {what} passes without {txt}", key=f"{fn}:{T}:{txt}")
                if not miss:
                    for o, txt in need(t, g, ev):
                        self.rep.ok(fn, rule, f"{what}: {txt}")
        if not walked:
            self.rep.undec(fn, rule, f"no walk over the list of {what}s found")

    def passed(self, f, name, *args):
        """a check call with these arguments (None: any; a tuple of alternatives) is known to have succeeded"""
        for a, p in self.calls(f, name):
            if p and len(a) == len(args) and all(x is None or (a[k] in x if isinstance(x, list) else a[k] == strip_ep(x)) for k, x in enumerate(args)):
                return True
        return False

    # ------------------------------------------------------------------ the checks
    def relation_list(self):
        fn = "osl_relation_list_integrity_check"
        res = self.analyse(fn, "integrity-part")
        if res is None:
            return

        def need(t, f, ev):
            e = self.fld(t, "relation_list", "elt")
            ok = self.eq(f, e, NULL) is True or self.passed(f, "osl_relation_integrity_check", e, *[("arg", k) for k in (1, 2, 3, 4)])
            return [(ok, "the check of its relation with the expected kind and counts")]
        self.each(fn, "relation_list", "integrity-part", res, need, what="list node")

    def statement(self):
        fn = "osl_statement_integrity_check"
        res = self.analyse(fn, "integrity-part")
        if res is None:
            return

        def need(t, f, ev):
            K = self.K
            d, sc, ac = (self.fld(t, "statement", n) for n in ("domain", "scattering", "access"))
            nod = self.eq(f, d, NULL) is True
            its = self.fld(d, "relation", "nb_output_dims")
            # the number of iterators is only unconstrained without a domain (or when the domain leaves it undefined)
            free = nod or self.eq(f, its, U) is True
            it = [strip_ep(its), U] if free else [strip_ep(its)]
            out = [(nod or self.passed(f, "osl_relation_integrity_check", d, K["DOMAIN"], None, ZERO, ("arg", 1)), "the check of the domain as a domain without input dimensions and with the expected parameters"),
                   (self.eq(f, sc, NULL) is True or self.passed(f, "osl_relation_integrity_check", sc, K["SCATTERING"], None, it, ("arg", 1)),
                    "the check of the scattering as a scattering of the domain's iterators with the expected parameters"),
                   (self.eq(f, ac, NULL) is True or self.passed(f, "osl_relation_list_integrity_check", ac, K["ACCESS"], None, it, ("arg", 1)),
                    "the check of the accesses as accesses over the domain's iterators with the expected parameters")]
            ok = free
            for a, p in list(f.facts.items()):
                for x in a[1:]:
                    for y in subterms_calls(x, "osl_generic_lookup"):
                        if y[2][0] == strip_ep(self.fld(t, "statement", "extension")) and y[2][1] == ("str", "body"):
                            b = self.fld(y, "body", "iterators")
                            n = ("call", "osl_strings_size", (b,))
                            if self.eq(f, y, NULL) is True or self.eq(f, b, NULL) is True or self.size_eq(f, b, its):
                                ok = True
            out.append((ok, "the number of iterators of the body being compared with the domain's"))
            return out
        self.each(fn, "statement", "integrity-part", res, need, what="statement")

    def size_eq(self, f, b, its):
        for a, p in f.facts.items():
            if a[0] == "eq0" and p:
                for y in subterms_calls(a[1], "osl_strings_size"):
                    if y[2] == (strip_ep(b),) and add(strip_ep(y), strip_ep(its), -1) in (a[1], add(ZERO, a[1], -1)):
                        return True
        return False

    def scop(self):
        fn = "osl_scop_integrity_check"
        res = self.analyse(fn, "integrity-part")
        if res is None:
            return

        def need(t, f, ev):
            c, st = self.fld(t, "scop", "context"), self.fld(t, "scop", "statement")
            noc = self.eq(f, c, NULL) is True
            np = self.fld(c, "relation", "nb_parameters")
            n = [strip_ep(np), U] if noc or self.eq(f, np, U) is True else [strip_ep(np)]
            return [(noc or self.passed(f, "osl_relation_integrity_check", c, self.K["CONTEXT"], None, None, None), "the check of the context as a context"),
                    (self.eq(f, st, NULL) is True or self.passed(f, "osl_statement_integrity_check", st, n), "the check of the statements with the context's number of parameters")]
        self.each(fn, "scop", "integrity-part", res, need, what="scop")

    def scoplib(self):
        fn, rule = "osl_scop_check_compatible_scoplib", "integrity-scoplib"
        res = self.analyse(fn, rule)
        if res is None:
            return
        A = ("arg", 0)
        succ = self.successes(res)
        for s, f, line, v in succ:
            if not self.passed(f, "osl_scop_integrity_check", A):
                self.rep.bad(fn, line, rule, "success although the integrity check did not pass", key=f"{fn}:integrity")
            else:
                self.rep.ok(fn, rule, "integrity check passed")
            if self.eq(f, A, NULL) is True:
                continue
            if self.eq(f, self.fld(A, "scop", "next"), NULL) is not True:
                self.rep.bad(fn, line, rule, "success for a list of several scops", key=f"{fn}:next")
            else:
                self.rep.ok(fn, rule, "single scop")

        st = self.fld(A, "scop", "statement")

        def need(t, f, ev):
            d, sc = self.fld(t, "statement", "domain"), self.fld(t, "statement", "scattering")
            out = [(self.eq(f, sc, NULL) is False, "a scattering being present")]
            nx = fidx(self.M, "relation", "next")
            flat = lambda g, r: self.eq(g, self.fld(r, "relation", "nb_local_dims"), ZERO) is True

            def identity(g, r, ev):
                if any(self.eq(g, self.fld(r, "relation", n), ZERO) is True for n in ("nb_rows", "nb_output_dims")):
                    return True
                return any(self.calls(facts_state(fb), n) for sm in self.L.below(ev) for m, fb, e2, env in sm.backs for n in ("osl_int_mone", "osl_int_zero"))

            def parts(r, test):
                """every part of the union satisfies the test"""
                if self.eq(f, r, NULL) is True:
                    return True
                if self.eq(f, self.fld(r, "relation", "next"), NULL) is True and test(f, r, ev):
                    return True
                for sm in self.L.below(ev):
                    for w, ini in self.L.walker(sm, S + "relation", nx, r):
                        if strip_ep(ini) == strip_ep(r) and self.L.at_end(f.facts, w, S + "relation", nx) and all(test(facts_state(fb), w, e2) for m, fb, e2, env in sm.backs):
                            return True
                return False
            out.append((parts(sc, lambda g, r, e: flat(g, r)), "all parts of its scattering having no local dimension"))
            out.append((parts(d, lambda g, r, e: flat(g, r)), "all parts of its domain having no local dimension"))
            out.append((parts(sc, identity), "the output part of its scattering being compared with the identity"))
            return out
        self.each(fn, "statement", rule, res, need, start=st, what="statement", skip=lambda f: self.eq(f, ("arg", 0), NULL) is True)
        # the identity comparison: row i, output column j+1, all rows and columns
        rows = set()
        for sm in [E2 for E2 in self.E.summaries]:
            for m, fb, e2, env in sm.backs:
                g = facts_state(fb)
                for n, diag in (("osl_int_mone", True), ("osl_int_zero", False)):
                    for a, p in self.calls(g, n):
                        if p and a[1][0] == "ld" and a[1][1][0] == "idx":
                            row, col = a[1][1][1], a[1][1][3]
                            if row[0] == "ld" and row[1][0] == "idx":
                                i, j = row[1][3], add(col, ("int", -1))
                                k = self.eq(g, i, j)
                                if k is None:
                                    self.rep.undec(fn, rule, "position of a cell compared with the identity")
                                elif k != diag:
                                    self.rep.bad(fn, sm.line, rule, "a cell is compared with the wrong entry of the identity", key=f"{fn}:identity:{diag}")
                                else:
                                    self.rep.ok(fn, rule, f"identity cell ({'diagonal' if diag else 'other'})")

    def relation(self):
        M, rep = self.M, self.rep
        fn, rule = "osl_relation_integrity_check", "integrity-relation"
        res = self.analyse(fn, rule)
        if res is None:
            return
        A, K = ("arg", 0), self.K
        R = lambda b, n: self.fld(b, "relation", n)
        DIMS = (("nb_output_dims", ("arg", 2)), ("nb_input_dims", ("arg", 3)), ("nb_parameters", ("arg", 4)))

        def head(b, f):
            ty = R(b, "type")
            acc = any(p and a == (strip_ep(b),) for a, p in self.calls(f, "osl_relation_is_access")) or any(self.eq(f, ty, K[x]) is True for x in ("ACCESS", "READ", "WRITE", "MAY_WRITE"))
            out = [(self.eq(f, ("arg", 1), ty) is True or self.eq(f, ("arg", 1), K["ACCESS"]) is True and acc, "its kind being the expected one")]
            for n in ("nb_output_dims", "nb_input_dims", "nb_local_dims", "nb_parameters"):
                out.append((self.eq(f, R(b, n), U) is False or f.known(atom_le0(add(ZERO, R(b, n), -1))), f"{n} being defined"))
            ctx, dom = self.eq(f, ty, K["CONTEXT"]), self.eq(f, ty, K["DOMAIN"])
            other = any(self.eq(f, ty, K[x]) is True for x in K if x not in ("CONTEXT", "DOMAIN"))
            out.append((ctx is False or other or dom is True or self.eq(f, R(b, "nb_output_dims"), ZERO) is True, "a context having no output dimension"))
            out.append((ctx is False and dom is False or other or self.eq(f, R(b, "nb_input_dims"), ZERO) is True, "a domain or context having no input dimension"))
            for n, e in DIMS:
                out.append((self.eq(f, e, U) is True or self.eq(f, e, R(b, n)) is True, f"{n} being the expected number"))
            return out

        def need(t, f, ev):
            out = []
            for n, e in DIMS:
                out.append((self.eq(f, R(t, n), R(A, n)) is True or self.eq(f, R(t, n), e) is True, f"{n} being that of the union"))
            loc = R(t, "nb_local_dims")
            tot = R(t, "nb_columns")
            tot = add(tot, ("int", -2))
            ok = False
            for part in (A, t):
                x = tot
                for n, _ in DIMS:
                    x = add(x, R(part, n), -1)
                if self.eq(f, add(x, loc, -1), ZERO) is True or self.eq(f, loc, U) is True and self.eq(f, x, ZERO) is True:
                    ok = True
            x = tot
            for n, e in DIMS:
                x = add(x, e, -1)
            if self.eq(f, add(x, loc, -1), ZERO) is True or self.eq(f, loc, U) is True and self.eq(f, x, ZERO) is True:
                ok = True
            # mixtures of expected and recorded counts (they are equal here)
            if not ok:
                ok = self.mixed(f, tot, loc, t, DIMS)
            out.append((ok, "its number of columns being 2 + output + input + local + parameters"))
            rows, cols = R(t, "nb_rows"), R(t, "nb_columns")
            empty = f.known(atom_le0(rows)) or f.known(atom_le0(cols))
            col = empty
            if not empty:
                for sm in self.L.below(ev):
                    for nm, ph in sm.phis.items():
                        if self.L.cover(sm, f.facts, True, ph, rows) == "yes" and sm.backs and all(self.marked(fb, t, ph, sm, env, f) for m, fb, e2, env in self.live(sm, [ev])):
                            col = True
            out.append((col, "every row's first cell being 0 or 1"))
            acc = [p for a, p in self.calls(f, "osl_relation_is_access") if a == (strip_ep(t),)]
            noacc = False in acc or self.noaccess(f, R(t, "type"))
            idk = False
            for a, p in f.facts.items():
                if a[0] == "eq0" and not p or a[0] == "le0":
                    for y in subterms_calls(a[1], "osl_relation_get_array_id"):
                        if y[2] == (strip_ep(t),) and (self.eq(f, y, U) is False or f.known(atom_le0(add(("int", 1), y, -1))) or f.known(atom_le0(add(ZERO, y, -1)))):
                            idk = True
            out.append((noacc or idk, "an access naming its array"))
            return out
        succ = self.successes(res)
        hd = {}
        for s, f, line, v in succ:
            if self.eq(f, A, NULL) is True:
                continue
            w = self.loop_of(s, A, "relation", f)
            for o, txt in head(A, f):
                if not o and w is not None:
                    # or: established for every part
                    o = all(dict((x, y) for y, x in head(w[1], facts_state(fb))).get(txt) for m, fb, ev, env in w[0].backs) and bool(w[0].backs)
                if not o:
                    rep.bad(fn, line, rule, f"success without {txt}", key=f"{fn}:{txt}")
                else:
                    hd[txt] = hd.get(txt, 0) + 1
        for txt, n in hd.items():
            rep.ok(fn, rule, f"first part: {txt} ({n} paths)")
        self.each(fn, "relation", rule, res, need, what="union part")

    def noaccess(self, f, ty):
        for x in ("CONTEXT", "DOMAIN", "SCATTERING"):
            if self.eq(f, ty, self.K[x]) is True:
                return True
        return all(self.eq(f, ty, self.K[x]) is False for x in ("ACCESS", "READ", "WRITE", "MAY_WRITE"))

    def mixed(self, f, tot, loc, t, DIMS):
        import itertools
        A = ("arg", 0)
        for pick in itertools.product((0, 1, 2), repeat=len(DIMS)):
            x = tot
            for (n, e), k in zip(DIMS, pick):
                x = add(x, e if k == 0 else self.fld(A if k == 1 else t, "relation", n), -1)
            if self.eq(f, add(x, loc, -1), ZERO) is True or self.eq(f, loc, U) is True and self.eq(f, x, ZERO) is True:
                return True
        return False

    def marked(self, fb, t, ph, sm, env, f):
        g = facts_state(fb)
        if self.marker(g, t, ph):
            return True
        g = self.assuming(g, sm, env, [(None, f, None, None)])
        return g is None or self.marker(g, t, ph)

    def marker(self, f, t, ph):
        """the first cell of row ph of t is known to be 0 or 1 (in its own precision)"""
        prec, m = strip_ep(self.fld(t, "relation", "precision")), strip_ep(self.fld(t, "relation", "m"))
        for n in ("osl_int_zero", "osl_int_one"):
            for a, p in self.calls(f, n):
                if p and a[0] == prec and a[1][0] == "ld":
                    c = a[1][1]
                    if c[0] == "idx":
                        if c[3] != ZERO:
                            continue
                        c = c[1]
                    row = c
                    if row[0] == "ld" and row[1][0] == "idx" and row[1][1] == m and strip_ep(row[1][3]) == strip_ep(ph):
                        return True
        return False

    def consulted(self):
        """readers and printers consult the check; the SCoPLib printer prints nothing incompatible"""
        rep, rule = self.rep, "integrity-consulted"
        for fn, check, what in (("osl_scop_pread", "osl_scop_integrity_check", None), ("osl_scop_print", "osl_scop_integrity_check", ("arg", 1))):
            res = self.analyse(fn, rule)
            if res is None:
                continue
            n = 0
            for s, v, line in res.rets:
                f = facts_state(s.facts)
                obj = v if what is None else what
                if obj is None or obj == NULL or self.eq(f, obj, NULL) is True or what is not None and self.eq(f, ("arg", 0), NULL) is True:
                    continue
                if any(x[0] == "call" and x[1] == check and strip_ep(x[2][0]) == strip_ep(obj) for x in s.ev):
                    n += 1
                else:
                    rep.bad(fn, line, rule, f"a path {'returns' if what is None else 'prints'} scops that were not checked", key=f"{fn}:consult")
            if n:
                rep.ok(fn, rule, f"{n} paths")
        fn = "osl_scop_print_scoplib"
        res = self.analyse(fn, rule)
        if res is not None:
            for s, v, line in res.rets:
                f = facts_state(s.facts)
                pr = [x for x in s.ev if x[0] == "call" and re.search(r"print|fputs|fputc", x[1]) and strip_ep(x[2][0]) == ("arg", 0)]
                pr += [x for sm in self.L.below(s.ev) for m, fb, e2, env in sm.backs for x in e2 if x[0] == "call" and re.search(r"print", x[1]) and strip_ep(x[2][0]) == ("arg", 0)]
                if self.eq(f, ("arg", 1), NULL) is True or not pr:
                    continue
                if self.passed(f, "osl_scop_check_compatible_scoplib", ("arg", 1)):
                    rep.ok(fn, rule, "printed after the compatibility check passed")
                else:
                    rep.bad(fn, line, rule, "a scop that did not pass the compatibility check is printed", key=f"{fn}:print")

    def run(self):
        self.relation()
        self.relation_list()
        self.statement()
        self.scop()
        self.scoplib()
        self.consulted()


def subterms_calls(t, name):
    out = []

    def walk(x):
        if isinstance(x, tuple):
            if len(x) >= 3 and x[0] in ("call", "ret") and x[1] == name:
                out.append(x)
            for y in x:
                walk(y)
    walk(t)
    return out


def run(M, rep):
    check_model(M)
    Integrity(M, rep).run()
