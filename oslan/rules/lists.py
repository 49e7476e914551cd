"""C18: appending, concatenating, pushing, popping, filtering and counting keep every node exactly once and in order.
C17: at most one entry per identifier: additions are refused when the identifier is present, lookups and removals
concern exactly the entry with that identifier."""
import re
from ..engine import Engine, Incomplete, NULL, ZERO, atom_eq, atom_le0, add, subterms, contains
from ..ir import AnalysisBroken
from .common import *
from .loops import Loops, facts_state

LINKED = {t for t, fs in FIELDS.items() if "next" in fs and fs["next"] == "link"}
ADD = re.compile(r"^osl_([a-z_]+)_add$")
COUNT = re.compile(r"^osl_([a-z_]+)_(number|count|get_nb_symbols|nb_components)$")
IMPURE_OPAQUE = re.compile(r"^osl_\w+_(free|clone|nclone|malloc|pmalloc)$")
PUREQ = re.compile(r"^osl_relation_is_access$")


def lin_terms(a):
    """the terms a numeric fact is about"""
    e = a[1]
    return [k for k, _ in e[2]] if e[0] == "lin" else [e]


class Lists:
    def __init__(self, M, rep):
        self.M, self.rep = M, rep

    def engine(self, fn, opaque=None, max_states=200, locs=False):
        E = Engine(self.M, opaque=lambda n: bool(IMPURE_OPAQUE.match(n)) or bool(PUREQ.match(n)) or (opaque and opaque(n)),
                   pure=lambda n: bool(PUREQ.match(n)), track=lambda n: True, max_states=max_states)
        E.track_store = lambda a, s: locs or E.objroot(a)[0] != "alloca"
        E.keep_facts = True
        self.E, self.L, self.fn = E, Loops(E), fn
        self.names = [p.id for p in self.M.funcs[fn].params]
        return E

    def analyse(self, fn, rule, **kw):
        F_ = self.M.funcs.get(fn)
        if F_ is None or F_.decl:
            raise AnalysisBroken(fn + " not found")
        E = self.engine(fn, **kw)
        try:
            return E.analyse(fn)
        except Incomplete as e:
            self.rep.undec(fn, rule, str(e))
            return None

    def sh(self, t):
        return show(self.M, t, self.names)

    def nxt(self, t):
        return fidx(self.M, t, "next")

    # ------------------------------------------------------------------ where a list ends
    def loops_of(self, ev):
        return [sm for sm in self.L.below(ev) if sm.backs]

    def is_walker(self, t, start, T, ev):
        """t runs over the nodes of the list starting with node `start`"""
        if t[0] != "it":
            return False
        for sm in self.loops_of(ev):
            if t[1] == sm.key:
                return any(strip_ep(w) == strip_ep(t) and strip_ep(i) == strip_ep(start) for w, i in self.L.walker(sm, S + T, self.nxt(T)))
        return False

    def is_link_walker(self, t, loc, T, ev):
        """t runs over the link locations of the list held at `loc` (&list, &node->next, ...)"""
        if t[0] != "it":
            return False
        for sm in self.loops_of(ev):
            if t[1] != sm.key or t[2] not in sm.steps:
                continue
            st = {strip_ep(x) for x in sm.steps[t[2]] if x is not None}
            ini = strip_ep(sm.inits[t[2]])
            if st == {("fld", ("ld", strip_ep(t), 0), S + T, self.nxt(T))} and ini in (strip_ep(loc), ("fld", ("ld", strip_ep(loc), 0), S + T, self.nxt(T))):
                return True
        return False

    def tail(self, a, f, loc, T, ev, first=None):
        """address a is the end link of the list held at loc: True / False (certainly may not be) / None
        first: the list's first node when it is held in a local variable"""
        nx = self.nxt(T)
        a = strip_ep(a)
        head = strip_ep(first) if first is not None else ("ld", strip_ep(loc), 0)
        if loc is not None and a == strip_ep(loc):
            return True if f.known(atom_eq(head, NULL)) else False
        if a[0] == "it" and loc is not None and self.is_link_walker(a, loc, T, ev):
            return True if f.known(atom_eq(("ld", a, 0), NULL)) else False
        if a[0] == "fld" and a[2] == S + T and a[3] == nx:
            n = a[1]
            end = f.known(atom_eq(("ld", a, 0), NULL))
            if n == head or self.is_walker(n, head, T, ev) or n[0] == "ld" and n[1][0] == "fld" and n[1][2] == S + T and n[1][3] == nx and \
                    (n[1][1] == head or self.is_walker(n[1][1], head, T, ev)):
                return True if end else False
        return None

    # ------------------------------------------------------------------ add
    def adds(self):
        out = []
        for n, F_ in sorted(self.M.funcs.items()):
            m = ADD.match(n)
            if not m or F_.decl or n not in self.M.public or m.group(1) not in LINKED:
                continue
            t = m.group(1)
            pt = self.M.ptypes[n][1:]
            li = [i for i, p in enumerate(pt) if p == S + t + "**"]
            no = [i for i, p in enumerate(pt) if p == S + t + "*"]
            if li and len(no) == 1:
                out.append((n, t, li[0], no[0], li[1:]))
        return out

    def links(self, ev, T, loc):
        """stores to links of T lists or to the list head, in order, and whether some happen inside loops"""
        out, inl = [], []
        nx = self.nxt(T)
        rel = lambda a: strip_ep(a) == strip_ep(loc) or (a[0] == "fld" and a[2] == S + T and a[3] == nx) or a[0] == "it"
        for x in ev:
            if x[0] == "store" and rel(x[1]):
                out.append(x)
            elif x[0] == "loop":
                for sm in self.L.below((x,)):
                    for b in sm.backs:
                        inl += [y for y in b[2] if y[0] == "store" and rel(y[1])]
        return out, inl

    def check_add(self, fn, T, li, ni, tails, rule="list-add", uniq=None):
        rep = self.rep
        res = self.analyse(fn, rule)
        if res is None:
            return
        loc, node = ("arg", li), ("arg", ni)
        for s, v, line in res.rets:
            f = facts_state(s.facts)
            ls, inl = self.links(s.ev, T, loc)
            if inl:
                rep.undec(fn, rule, "links stored inside a loop")
                continue
            if not ls:
                if f.known(atom_eq(node, NULL)):
                    rep.ok(fn, rule, "nothing to add")
                else:
                    rep.bad(fn, line, rule, "a path returns without linking the added node", key=f"{fn}:unlinked")
                continue
            done = False
            for x in ls:
                a, v_, ln = x[1], x[2], x[3]
                if v_ == node:
                    r = self.tail(a, f, loc, T, s.ev)
                    if r is None and tails and strip_ep(a) == ("fld", ("ld", ("arg", tails[0]), 0), S + T, self.nxt(T)):
                        # documented tail pointer
                        r = f.decide(atom_eq(("ld", loc, 0), NULL)[0]) is False
                    if r:
                        done = True
                        rep.ok(fn, rule, "linked at the end")
                    elif r is False:
                        done = True
                        rep.bad(fn, ln, rule, f"the new node replaces what {self.sh(a)} still holds", key=f"{fn}:not-at-end")
                    else:
                        done = True
                        rep.undec(fn, rule, f"linked at {self.sh(a)}")
                elif strip_ep(a) == ("fld", node, S + T, self.nxt(T)):
                    if v_ == NULL and f.known(atom_eq(("ld", strip_ep(a), 0), NULL)):
                        continue
                    rep.bad(fn, ln, rule, f"the nodes following the added one are replaced by {self.sh(v_)}", key=f"{fn}:rest")
                elif strip_ep(v_) == ("ld", strip_ep(a), 0):
                    continue
                else:
                    rep.bad(fn, ln, rule, f"{self.sh(a)} is set to {self.sh(v_)}", key=f"{fn}:other")
            if not done:
                rep.bad(fn, line, rule, "a path returns without linking the added node", key=f"{fn}:unlinked")
            for k in tails:
                w = self.E.load(s, ("arg", k))
                if w == node or w[0] in ("it", "itm") or w[0] == "ld":
                    if f.known(atom_eq(strip_ep(("ld", ("fld", w, S + T, self.nxt(T)), 0)), NULL)):
                        rep.ok(fn, rule, "tail pointer at the end")
                    else:
                        rep.bad(fn, line, rule, "the tail pointer is not left on the last node", key=f"{fn}:tail")
                else:
                    rep.undec(fn, rule, "tail pointer")
            if uniq:
                self.unique(fn, T, s, f, loc, node, line)

    # ------------------------------------------------------------------ uniqueness
    def uri(self, n, T):
        if T == "interface":
            return ("ld", F(self.M, n, "interface", "URI"), 0)
        return ("ld", F(self.M, ("ld", F(self.M, n, "generic", "interface"), 0), "interface", "URI"), 0)

    def same(self, f, n, u, T):
        """what the facts say about 'node n carries identifier u': True / False / None"""
        n, u = strip_ep(n), strip_ep(u)
        w = self.uri(n, T)
        i = ("ld", F(self.M, n, "generic", "interface"), 0) if T == "generic" else None
        if f.known(atom_eq(w, NULL)) or (i and f.known(atom_eq(i, NULL))) or f.known(atom_eq(n, NULL)):
            return False
        for x, y in ((w, u), (u, w)):
            a, p = atom_eq(("call", "strcmp", (x, y)), ZERO)
            d = f.decide(a)
            if d is not None:
                return d == p
        return None

    def unique(self, fn, T, s, f, loc, node, line):
        rep = self.rep
        if f.known(atom_eq(("ld", loc, 0), NULL)):
            rep.ok(fn, "uniq-add", "the list is empty")
            return
        best = None
        head = ("ld", loc, 0)
        for sm in [self.L.sm(e) for e in s.ev if e[0] == "loop"]:
            if sm is None or not sm.backs:
                continue
            for t, ini in self.L.walker(sm, S + T, self.nxt(T)):
                ini = strip_ep(ini)
                if ini not in (strip_ep(node), strip_ep(head)):
                    continue
                other, mine = (head, True) if ini == strip_ep(node) else (node, False)
                if not self.L.at_end(s.facts, t, S + T, self.nxt(T)):
                    continue
                okb = 0
                touched = False
                for b in sm.backs:
                    r = self.inner(T, sm, t, b, other, mine)
                    okb += r is True
                    touched = touched or r is not None
                if okb == len(sm.backs):
                    rep.ok(fn, "uniq-add", "every added node was looked up")
                    return
                if touched:
                    best = "not every node of the added list is checked against every node of the list"
        rep.bad(fn, line, "uniq-add", best or "a node is linked although its identifier was not looked up in the list", key=f"{fn}:uniq")

    def inner(self, T, sm, t, back, other, mine):
        """one completed iteration for node t established that t and no node of the other list share an identifier"""
        hit = None
        for e in back[2]:
            s2 = self.L.sm(e)
            if s2 is None:
                continue
            for t2, i2 in self.L.walker(s2, S + T, self.nxt(T)):
                if strip_ep(i2) != strip_ep(other):
                    continue
                # the exit of the inner loop taken in this iteration
                if not self.L.at_end(back[1], t2, S + T, self.nxt(T)):
                    continue
                if not s2.backs:
                    continue
                rs = []
                for m, facts, ev, env in s2.backs:
                    f = facts_state(facts)
                    rs.append(self.same(f, t2, self.uri(t, T), T) if mine else self.same(f, t, self.uri(t2, T), T))
                fx = facts_state(back[1])
                if not fx.known(atom_eq(strip_ep(t2), NULL)):
                    # the walk stopped on the last node: that one has to be compared as well
                    rs.append(self.same(fx, t2, self.uri(t, T), T) if mine else self.same(fx, t, self.uri(t2, T), T))
                if all(r is False for r in rs):
                    return True
                hit = False
        return hit

    # ------------------------------------------------------------------ lookup
    def check_lookup(self, fn, T):
        rep = self.rep
        res = self.analyse(fn, "uniq-lookup")
        if res is None:
            return
        u = ("arg", 1)
        for s, v, line in res.rets:
            f = facts_state(s.facts)
            ws = [(sm, t) for sm in self.loops_of(s.ev) for t, ini in self.L.walker(sm, S + T, self.nxt(T)) if strip_ep(ini) == ("arg", 0)]
            if v == NULL or v == ZERO or f.known(atom_eq(strip_ep(v), NULL)):
                if f.known(atom_eq(u, NULL)) or f.known(atom_eq(("arg", 0), NULL)):
                    rep.ok(fn, "uniq-lookup", "nothing to look up")
                    continue
                done = False
                for sm, t in ws:
                    if not self.L.at_end(s.facts, t, S + T, self.nxt(T)):
                        continue
                    done = True
                    rs = [self.same(facts_state(b[1]), t, u, T) for b in sm.backs]
                    if not f.known(atom_eq(strip_ep(t), NULL)):
                        rs.append(self.same(f, t, u, T))
                    if all(r is False for r in rs):
                        rep.ok(fn, "uniq-lookup", "nothing found: no node carries the identifier")
                    elif any(r is True for r in rs):
                        rep.bad(fn, line, "uniq-lookup", "a node carrying the identifier is passed over", key=f"{fn}:skip")
                    else:
                        rep.bad(fn, line, "uniq-lookup", "a node is passed over without comparing its identifier", key=f"{fn}:skip2")
                if not done:
                    rep.bad(fn, line, "uniq-lookup", "answers 'not found' before the end of the list", key=f"{fn}:early")
                continue
            if T == "generic":
                n = v[1][1] if v[0] == "ld" and v[1] == F(self.M, v[1][1] if v[1][0] == "fld" else NULL, "generic", "data") else None
                if n is None:
                    n = v if v[0] == "it" else None
                    if n is not None:
                        rep.bad(fn, line, "uniq-lookup", "returns the node instead of its data", key=f"{fn}:node")
                        continue
            else:
                n = v
            if n is None:
                rep.bad(fn, line, "uniq-lookup", f"returns {self.sh(v)}", key=f"{fn}:what") if v[0] == "ld" else rep.undec(fn, "uniq-lookup", self.sh(v))
                continue
            r = self.same(f, n, u, T)
            if r is True and (strip_ep(n) == ("arg", 0) or any(strip_ep(t) == strip_ep(n) for _, t in ws)):
                rep.ok(fn, "uniq-lookup", "returned entry carries the identifier")
            elif r is True:
                rep.undec(fn, "uniq-lookup", f"returned entry {self.sh(n)}")
            else:
                rep.bad(fn, line, "uniq-lookup", f"returns {self.sh(v)}, whose identifier was not found equal", key=f"{fn}:wrong")

    def check_has(self):
        fn = "osl_generic_has_URI"
        res = self.analyse(fn, "uniq-lookup")
        if res is None:
            return
        for s, v, line in res.rets:
            for truth in (True, False):
                st = s.copy()
                if v[0] == "int":
                    if (v[1] != 0) != truth:
                        continue
                elif v[0] == "lit":
                    if not st.assume((v[1], v[2] == truth)):
                        continue
                else:
                    self.rep.undec(fn, "uniq-lookup", self.sh(v))
                    continue
                r = self.same(facts_state(st.facts), ("arg", 0), ("arg", 1), "generic")
                if r is truth:
                    self.rep.ok(fn, "uniq-lookup", f"answers {truth}")
                elif r is None and truth is False and facts_state(st.facts).known(atom_eq(("arg", 1), NULL)):
                    self.rep.ok(fn, "uniq-lookup", "no identifier given")
                else:
                    self.rep.bad(fn, line, "uniq-lookup", f"answers {int(truth)} for a node whose identifier was " + ("found different" if r is False else "found equal" if r else "not compared"),
                                 key=f"{fn}:{truth}")

    # ------------------------------------------------------------------ removal
    def check_remove(self, fn, T, bykey):
        rep, rule = self.rep, "uniq-remove"
        res = self.analyse(fn, rule)
        if res is None:
            return
        loc = ("arg", 0)
        head = ("ld", loc, 0)
        nx = self.nxt(T)
        rel = "osl_%s_free" % T
        for s, v, line in res.rets:
            f = facts_state(s.facts)
            frees = [e for e in s.ev if e[0] == "call" and e[1] in (rel, "free")]
            ls, inl = self.links(s.ev, T, loc)
            if inl:
                rep.undec(fn, rule, "links stored inside a loop")
                continue
            ws = [(sm, t) for sm in self.loops_of(s.ev) for t, ini in self.L.walker(sm, S + T, nx) if strip_ep(ini) == head]
            if not frees:
                if ls:
                    rep.bad(fn, ls[0][3], rule, "a node is unlinked but not released", key=f"{fn}:leak")
                    continue
                if f.known(atom_eq(head, NULL)) or (not bykey and f.known(atom_eq(("arg", 1), NULL))):
                    rep.ok(fn, rule, "nothing to remove")
                    continue
                # every node was examined
                okk = None
                for sm, t in ws:
                    if not self.L.at_end(s.facts, t, S + T, nx):
                        continue
                    if bykey:
                        rs = [self.same(facts_state(b[1]), t, ("arg", 1), T) for b in sm.backs]
                        if all(r is False for r in rs):
                            okk = True
                        elif not any(self.same(f, w, ("arg", 1), T) for _, w in ws):
                            okk = okk or False
                        else:
                            okk = True       # found by identifier, then sought as a member of the same list
                    else:
                        okk = True if all(self.passed(facts_state(b[1]), t, ("arg", 1), T) for b in sm.backs) else (okk or False)
                if okk:
                    rep.ok(fn, rule, "not in the list")
                elif okk is False:
                    rep.bad(fn, line, rule, "a node is passed over without being compared", key=f"{fn}:skip")
                elif bykey and any(self.same(f, w, ("arg", 1), T) for _, w in ws):
                    rep.bad(fn, line, rule, "the entry with the identifier is found but not removed", key=f"{fn}:kept")
                else:
                    rep.bad(fn, line, rule, "gives up before the end of the list", key=f"{fn}:early")
                continue
            if len(frees) > 1 or frees[0][1] != rel:
                rep.undec(fn, rule, "several releases")
                continue
            X = frees[0][2][0]
            if bykey:
                r = self.same(f, X, ("arg", 1), T)
                if r is True:
                    rep.ok(fn, rule, "the removed entry carries the identifier")
                elif r is False or X[0] in ("it", "ld", "arg"):
                    rep.bad(fn, frees[0][4], rule, f"{self.sh(X)} is removed although its identifier was not found equal", key=f"{fn}:which")
                else:
                    rep.undec(fn, rule, f"removed entry {self.sh(X)}")
            elif X == ("arg", 1) or f.known(atom_eq(strip_ep(X), ("arg", 1))):
                rep.ok(fn, rule, "the given node is removed")
            else:
                rep.bad(fn, frees[0][4], rule, f"{self.sh(X)} is removed instead of the given node", key=f"{fn}:which")
            Xs = strip_ep(X)
            un = cut = False
            order = [e for e in s.ev if e in ls or e in frees]
            for e in order:
                if e in frees:
                    break
                a, w = strip_ep(e[1]), strip_ep(e[2])
                if a == ("fld", Xs, S + T, nx) and w == NULL:
                    cut = True
                    continue
                if f.known(atom_eq(("ld", a, 0), Xs)) or strip_ep(("ld", a, 0)) == Xs:
                    isnext = w == ("ld", ("fld", Xs, S + T, nx), 0) or self.eqk(f, w, Xs, T)
                    inlist = a == loc or self.is_link_walker(a, loc, T, s.ev) or \
                        (a[0] == "fld" and (a[1] == head or any(strip_ep(t) == a[1] for _, t in ws)))
                    if isnext and inlist:
                        un = True
                        continue
                    if isnext:
                        rep.undec(fn, rule, f"unlinked at {self.sh(a)}")
                        un = True
                        continue
                    rep.bad(fn, e[3], rule, f"the nodes after the removed one are replaced by {self.sh(w)}", key=f"{fn}:rest")
                    un = True
                    continue
                rep.bad(fn, e[3], rule, f"{self.sh(a)} is changed, which does not hold the removed node", key=f"{fn}:link")
            if not un:
                rep.bad(fn, frees[0][4], rule, "the released node stays linked in the list", key=f"{fn}:linked")
            elif cut or f.known(atom_eq(("ld", ("fld", Xs, S + T, nx), 0), NULL)):
                rep.ok(fn, rule, "exactly the node is unlinked and released")
            else:
                rep.bad(fn, frees[0][4], rule, "all the nodes after the removed one are released with it", key=f"{fn}:cut")

    def eqk(self, f, w, X, T):
        n = ("ld", ("fld", X, S + T, self.nxt(T)), 0)
        return f.known(atom_eq(w, n)) or (w[0] == "ld" and w[1][0] == "fld" and w[1][2] == S + T and w[1][3] == self.nxt(T) and
                                          f.known(atom_eq(w[1][1], X)))

    def passed(self, f, t, g, T):
        """the walk went on past t (or past t's successor) knowing it is not g"""
        t = strip_ep(t)
        return f.decide(atom_eq(t, g)[0]) is False or f.decide(atom_eq(("ld", ("fld", t, S + T, self.nxt(T)), 0), g)[0]) is False

    # ------------------------------------------------------------------ counting
    SKIP = {"osl_relation_list_count": "elt"}      # documented: counts the entries that hold a relation

    def counts(self):
        out = []
        for n, F_ in sorted(self.M.funcs.items()):
            m = COUNT.match(n)
            if m and not F_.decl and n in self.M.public and m.group(1) in LINKED and F_.nparams == 1:
                out.append((n, m.group(1)))
        return out

    def check_count(self, fn, T):
        rep, rule = self.rep, "list-count"
        res = self.analyse(fn, rule)
        if res is None:
            return
        nx = self.nxt(T)
        skip = self.SKIP.get(fn)
        for s, v, line in res.rets:
            f = facts_state(s.facts)
            if f.known(atom_eq(("arg", 0), NULL)):
                if v == ZERO:
                    rep.ok(fn, rule, "an empty list counts 0")
                    continue
            done = False
            for sm in self.loops_of(s.ev):
                for t, ini in self.L.walker(sm, S + T, nx):
                    if strip_ep(ini) != ("arg", 0):
                        continue
                    if not self.L.at_end(s.facts, t, S + T, nx):
                        rep.bad(fn, line, rule, "stops counting before the end of the list", key=f"{fn}:early")
                        done = True
                        continue
                    c = self.counter(sm, v)
                    if c is None:
                        continue
                    done = True
                    off = c[1]
                    past = f.known(atom_eq(t, NULL))
                    if off != (0 if past else 1):
                        rep.bad(fn, line, rule, f"the count is off by {off - (0 if past else 1)}", key=f"{fn}:off")
                        continue
                    okk = True
                    for b in sm.backs:
                        st = c[0](b)
                        fb = facts_state(b[1])
                        if skip:
                            e = ("ld", F(self.M, strip_ep(t), T, skip), 0)
                            d = fb.decide(atom_eq(e, NULL)[0])
                            want = None if d is None else (0 if d else 1)
                        else:
                            want = 1
                        if st is None or want is None:
                            okk = None if okk else okk
                        elif st != want:
                            okk = False
                            rep.bad(fn, line, rule, f"an iteration adds {st} to the count for one node", key=f"{fn}:step")
                    if okk:
                        rep.ok(fn, rule, "every node is counted once")
                    elif okk is None:
                        rep.undec(fn, rule, "step of the counter")
            if not done:
                rep.undec(fn, rule, f"returned count {self.sh(v)}")

    def counter(self, sm, v):
        """(step per completed iteration, constant offset) of the counted value"""
        if v is None:
            return None
        d = {k: c for k, c in (v[2] if v[0] == "lin" else ((v, 1),) if v[0] == "it" else ())}
        off = v[1] if v[0] == "lin" else 0
        its = [k for k in d if k[0] == "it" and k[1] == sm.key]
        if len(its) != 1 or d[its[0]] != 1 or len(d) != 1:
            return None
        n = its[0][2]
        if n == -1:
            return (lambda b: 1), off
        ini = sm.inits.get(n)
        if ini is None or ini[0] != "int":
            return None

        def step(b):
            w = b[3].get(n)
            if w is None:
                st = [add(x, its[0], -1) for x in sm.steps.get(n, ())]
                return st[0][1] if len(set(st)) == 1 and st[0][0] == "int" else None
            d = add(w, its[0], -1)
            return d[1] if d[0] == "int" else None
        return step, off + ini[1]


    # ------------------------------------------------------------------ concatenation, push, pop
    def check_concat(self, fn, T):
        rep, rule = self.rep, "list-concat"
        res = self.analyse(fn, rule, locs=True)
        if res is None:
            return
        cl = ("osl_%s_clone" % T, "osl_%s_nclone" % T)

        def copy_of(v, a):
            return v[0] == "ret" and v[1] in cl and v[2][0] == a and (len(v[2]) == 1 or v[2][1] == ("int", -1))
        a1, a2 = ("arg", 0), ("arg", 1)
        for s, v, line in res.rets:
            f = facts_state(s.facts)
            n1, n2 = f.known(atom_eq(a1, NULL)), f.known(atom_eq(a2, NULL))
            if (v == NULL or f.known(atom_eq(strip_ep(v), NULL))) and n1 and n2:
                rep.ok(fn, rule, "two empty lists")
                continue
            none1 = [x[1] for x, p in s.facts.items() if x[0] == "peq" and x[2] == NULL and p]
            # the cell holding the copy of the first list was found empty
            none1 += [e[2] for e in s.ev if e[0] == "store" and ("ld", e[1], 0) in none1]
            if copy_of(v, a2) and (n1 or any(copy_of(x, a1) for x in none1)):
                rep.ok(fn, rule, "the second list alone")
                continue
            if not copy_of(v, a1):
                if v == NULL or v[0] == "arg" or (v[0] == "ret" and v[1] in cl):
                    rep.bad(fn, line, rule, f"returns {self.sh(v)} although the first list may hold nodes", key=f"{fn}:first")
                else:
                    rep.undec(fn, rule, self.sh(v))
                continue
            ls = [e for e in s.ev if e[0] == "store" and (e[1][0] == "it" or e[1][0] == "fld" and e[1][2] == S + T and e[1][3] == self.nxt(T))]
            if not ls:
                if n2:
                    rep.ok(fn, rule, "the first list alone")
                else:
                    rep.bad(fn, line, rule, "the second list is lost", key=f"{fn}:second")
                continue
            for e in ls:
                a, w = e[1], e[2]
                if not copy_of(w, a2):
                    if w[0] in ("null", "arg") or (w[0] == "ret" and w[1] in cl):
                        rep.bad(fn, e[3], rule, f"appends {self.sh(w)} instead of a copy of the second list", key=f"{fn}:what")
                    else:
                        rep.undec(fn, rule, self.sh(w))
                    continue
                r = None
                if a[0] == "it":
                    if f.known(atom_eq(("ld", strip_ep(a), 0), NULL)):
                        r = True
                else:
                    r = self.tail(a, f, None, T, s.ev, first=v)
                if r:
                    rep.ok(fn, rule, "appended at the end")
                elif r is False:
                    rep.bad(fn, e[3], rule, "the rest of the first list is replaced by the second", key=f"{fn}:tail")
                else:
                    rep.undec(fn, rule, self.sh(a))

    def check_push(self, fn, T):
        rep, rule = self.rep, "list-push"
        res = self.analyse(fn, rule)
        if res is None:
            return
        loc, node = ("arg", 0), ("arg", 1)
        for s, v, line in res.rets:
            f = facts_state(s.facts)
            ls, _ = self.links(s.ev, T, loc)
            if f.known(atom_eq(node, NULL)):
                if ls:
                    rep.bad(fn, line, rule, "pushing nothing changes the list", key=f"{fn}:null")
                else:
                    rep.ok(fn, rule, "nothing to push")
                continue
            h = self.E.load(s, loc)
            n = self.E.load(s, ("fld", node, S + T, self.nxt(T)))
            if h != node:
                rep.bad(fn, line, rule, "the pushed node does not become the head", key=f"{fn}:head")
            elif strip_ep(n) == ("ld", loc, 0) or (f.known(atom_eq(("ld", loc, 0), NULL)) and n == NULL):
                rep.ok(fn, rule, "pushed in front of the old list")
            else:
                rep.bad(fn, line, rule, f"the node is followed by {self.sh(n)} instead of the old list", key=f"{fn}:rest")

    def check_pop(self, fn, T):
        rep, rule = self.rep, "list-push"
        res = self.analyse(fn, rule)
        if res is None:
            return
        loc = ("arg", 0)
        old = ("ld", loc, 0)
        nx = self.nxt(T)
        for s, v, line in res.rets:
            f = facts_state(s.facts)
            ls, _ = self.links(s.ev, T, loc)
            if f.known(atom_eq(old, NULL)):
                if ls or not (v == NULL or strip_ep(v) == old):
                    rep.bad(fn, line, rule, "popping from an empty list", key=f"{fn}:empty")
                else:
                    rep.ok(fn, rule, "empty list")
                continue
            h = strip_ep(self.E.load(s, loc))
            n = self.E.load(s, ("fld", v, S + T, nx)) if v[0] != "null" else None
            if strip_ep(v) != old:
                rep.bad(fn, line, rule, f"returns {self.sh(v)} instead of the first node", key=f"{fn}:ret")
            elif h != ("ld", ("fld", old, S + T, nx), 0):
                rep.bad(fn, line, rule, f"the list becomes {self.sh(h)} instead of the nodes after the first", key=f"{fn}:head")
            elif n != NULL:
                rep.bad(fn, line, rule, "the popped node still leads to the list", key=f"{fn}:next")
            else:
                rep.ok(fn, rule, "the first node leaves the list")

    # ------------------------------------------------------------------ filtering
    def check_filter(self, fn, T, access):
        rep, rule = self.rep, "list-filter"
        res = self.analyse(fn, rule)
        if res is None:
            return
        nx = self.nxt(T)
        cl = ("osl_%s_clone" % T, "osl_%s_nclone" % T)
        found = False
        for sm in self.E.summaries:
            for t, ini in self.L.walker(sm, S + T, nx):
                if not (ini[0] == "ret" and ini[1] in cl and ini[2][0] == ("arg", 0)):
                    continue
                found = True
                elt = ("ld", F(self.M, t, T, "elt"), 0)
                ty = ("ld", F(self.M, elt, "relation", "type"), 0)
                for m, facts, ev, env in sm.backs:
                    f = facts_state(facts)
                    isacc = f.decide(atom_eq(("arg", 1), ("int", access))[0])
                    k = None
                    if f.known(atom_eq(elt, NULL)):
                        k = False
                    elif isacc is True:
                        k = f.decide(atom_eq(("call", "osl_relation_is_access", (elt,)), ZERO)[0])
                        k = None if k is None else not k
                    elif isacc is False:
                        a, p = atom_eq(("arg", 1), ty)
                        d = f.decide(a)
                        k = None if d is None else d == p
                    freed = [e for e in ev if e[0] == "call" and e[1] == "osl_%s_free" % T and strip_ep(e[2][0]) == strip_ep(t)]
                    if k is None:
                        own = {a: p for a, p in f.facts.items() if ("arg", 1) in set(subterms(a)) or ty in set(subterms(a))}
                        rels = [a for a, p in own.items() if a[0] == "le0"]
                        if isacc is False and len(rels) == 1 and own[rels[0]] is not None and \
                                all(set(lin_terms(a)) <= {("arg", 1), ty} for a in own):
                            rep.bad(fn, sm.line, rule, "the kind of a node is not compared for equality with the requested kind", key=f"{fn}:kind")
                            continue
                        rep.undec(fn, rule, "condition for keeping a node")
                        continue
                    if k and freed:
                        rep.bad(fn, freed[0][4], rule, "a node of the requested kind is dropped", key=f"{fn}:drop")
                        continue
                    if not k and not freed:
                        if f.known(atom_eq(elt, NULL)):
                            rep.bad(fn, sm.line, rule, "a node without relation is kept", key=f"{fn}:keep0")
                        else:
                            rep.bad(fn, sm.line, rule, "a node of another kind is kept", key=f"{fn}:keep")
                        continue
                    modes = dict(m[0])
                    # the head of the result is the first kept node and stays it
                    n = self.retphi(fn, sm)
                    if n in modes and n in env:
                        want = modes[n] if modes[n] != NULL else t if k else NULL
                        if strip_ep(env[n]) != strip_ep(want):
                            rep.bad(fn, sm.line, rule, "the head of the result is replaced by a later node" if modes[n] != NULL else
                                    "the first kept node does not become the head of the result" if k else "a dropped node becomes the head of the result", key=f"{fn}:head")
                            continue
                    if freed:
                        st = [e for e in ev if e[0] == "store"]
                        if not any(e[1] == ("fld", t, S + T, nx) and e[2] == NULL for e in st):
                            rep.bad(fn, freed[0][4], rule, "the nodes after a dropped one are released with it", key=f"{fn}:cut")
                            continue
                        before = [n for n, w in modes.items() if w != NULL and w[0] in ("it", "itp", "ld", "ret", "itm") and sm.inits.get(n) == NULL]
                        un = [e for e in st if e[1][0] == "fld" and e[1][3] == nx and e[2] != NULL]
                        if before and not un:
                            rep.bad(fn, freed[0][4], rule, "a dropped node stays linked behind a kept one", key=f"{fn}:linked")
                            continue
                    rep.ok(fn, rule, "kept" if k else "dropped")
        if not found and not self.stride(fn, rule, T, nx, cl):
            rep.undec(fn, rule, "walk over a copy of the list not recognised")

    def stride(self, fn, rule, T, nx, cl):
        """a walk over the copy that sometimes steps over a node: that node must have been judged like any other"""
        bad = False
        for sm in self.E.summaries:
            for n, t in sm.phis.items():
                ini = sm.inits.get(n)
                if not (ini and ini[0] == "ret" and ini[1] in cl):
                    continue
                for m, facts, ev, env in sm.backs:
                    f, x, mid = facts_state(facts), strip_ep(env.get(n, NULL)), []
                    while x[0] == "ld" and x[1][0] == "fld" and x[1][3] == nx:
                        x = strip_ep(x[1][1])
                        mid.append(x)
                    if x != strip_ep(t) or len(mid) < 2:
                        continue
                    for y in mid[:-1]:
                        elt = ("ld", F(self.M, y, T, "elt"), 0)
                        if f.known(atom_eq(elt, NULL)) and not any(e[0] == "call" and e[1] == "osl_%s_free" % T and strip_ep(e[2][0]) == y for e in ev):
                            self.rep.bad(fn, sm.line, rule, "a node without relation is stepped over and stays in the list", key=f"{fn}:stride")
                            bad = True
        return bad

    def retphi(self, fn, sm):
        for i in self.M.funcs[fn].insts:
            if i.op == "ret" and i.ops and i.ops[0].k == "inst":
                x = i.ops[0].v
                for _ in range(4):
                    if x.n in sm.phis:
                        return x.n
                    if x.op == "phi":
                        c = [v.v for v, b in x.incoming if v.k == "inst"]
                        c = [y for y in c if y.n in sm.phis] or c
                        if not c:
                            return None
                        x = c[0]
        return None

    # ------------------------------------------------------------------ arrays
    def text(self, s, v, a):
        """v is a private copy of string a"""
        if v[0] == "alloc" and v[2] in ("strdup", "__strdup"):
            return v[3][0] == a
        if v[0] == "alloc":
            for e in s.ev:
                if e[0] == "call" and e[1] in ("strcpy", "memcpy") and e[2][0] == v:
                    return e[2][1] == a
        return None

    def check_entry(self, fn, obj, T, count, arrays):
        """one entry is added behind the existing ones.  arrays: {field: ('val'|'own'|'copy', argument)}"""
        rep, rule = self.rep, "list-entry"
        res = self.analyse(fn, rule)
        if res is None:
            return
        for s, v, line in res.rets:
            f = facts_state(s.facts)
            O = obj(self, s)
            if count is not None:
                ca = F(self.M, O, T, count)
                c0 = ("ld", ca, 0)
                c1 = self.E.load(s, ca)
                touched = any(e[0] == "store" for e in s.ev)
                if not touched:
                    if any(f.known(atom_eq(("arg", i), NULL)) for i in range(self.M.funcs[fn].nparams)):
                        rep.ok(fn, rule, "nothing to add")
                    else:
                        rep.bad(fn, line, rule, "a path returns without adding the entry", key=f"{fn}:none")
                    continue
                if strip_ep(c1) != add(c0, ("int", 1)):
                    d = add(strip_ep(c1), c0, -1)
                    if d[0] == "int":
                        rep.bad(fn, line, rule, f"the count grows by {d[1]} for one entry", key=f"{fn}:count")
                    else:
                        rep.undec(fn, rule, f"count {self.sh(c1)}")
                    continue
            for fld, (kind, arg) in arrays.items():
                fa = F(self.M, O, T, fld)
                A = self.E.load(s, fa)
                if A[0] != "alloc" or A[2] not in ("realloc", "reallocarray"):
                    if strip_ep(A) == ("ld", fa, 0):
                        rep.bad(fn, line, rule, f"{fld} is not extended", key=f"{fn}:{fld}:same")
                    else:
                        rep.undec(fn, rule, f"{fld} = {self.sh(A)}")
                    continue
                if strip_ep(A[3][0]) != ("ld", fa, 0):
                    rep.bad(fn, line, rule, f"{fld} is extended from {self.sh(A[3][0])}", key=f"{fn}:{fld}:from")
                    continue
                es = {strip_ep(e[1]): e for e in s.ev if e[0] == "store" and self.E.objroot(e[1]) == A}
                if count is not None:
                    at = c0
                    extra = {}
                else:
                    at = self.strlen(s, f, O, T, fld)
                    if at is None:
                        rep.undec(fn, rule, "number of existing entries")
                        continue
                    extra = {add(at, ("int", 1)): NULL}
                idx = {}
                for a, e in es.items():
                    i = a[3] if a[0] == "idx" and a[1] == strip_ep(A) else ZERO if a == strip_ep(A) else None
                    if i is None and a[0] == "idx":
                        i = a[3]
                    idx[i] = (e[2], e[3])
                ok_ = True
                for i, (w, ln) in idx.items():
                    if i == at:
                        good = w == arg if kind in ("val", "own") else self.text(s, w, arg)
                        if good is False:
                            rep.bad(fn, ln, rule, f"the new entry of {fld} receives {self.sh(w)}", key=f"{fn}:{fld}:value")
                            ok_ = False
                        elif good is None:
                            rep.undec(fn, rule, f"entry {self.sh(w)}")
                            ok_ = False
                    elif i in extra and w == extra[i]:
                        continue
                    else:
                        rep.bad(fn, ln, rule, f"entry {self.sh(i) if i else '?'} of {fld} is written instead of the one behind the existing entries", key=f"{fn}:{fld}:index")
                        ok_ = False
                if at not in idx and ok_:
                    rep.bad(fn, line, rule, f"no entry of {fld} is written", key=f"{fn}:{fld}:unset")
                    ok_ = False
                for i in extra:
                    if i not in idx and ok_:
                        rep.bad(fn, line, rule, f"{fld} is not terminated again", key=f"{fn}:{fld}:term")
                        ok_ = False
                if ok_:
                    rep.ok(fn, rule, fld)

    def strlen(self, s, f, O, T, fld):
        arr = ("ld", F(self.M, O, T, fld), 0)
        if f.known(atom_eq(O, NULL)) or f.known(atom_eq(arr, NULL)):
            return ZERO
        for sm in self.loops_of(s.ev):
            for n, t in sm.phis.items():
                if sm.inits.get(n) == ZERO and {strip_ep(x) for x in sm.steps.get(n, ())} == {add(strip_ep(t), ("int", 1))}:
                    c = ("ld", ("idx", arr, "ptr", strip_ep(t)), 0)
                    if f.known(atom_eq(c, NULL)):
                        return strip_ep(t)
        if f.known(atom_eq(("ld", arr, 0), NULL)):
            return ZERO
        return None




def run_uniq(M, rep):
    check_model(M)
    L = Lists(M, rep)
    for fn, T, li, ni, tails in L.adds():
        if T in ("generic", "interface"):
            L.check_add(fn, T, li, ni, tails, rule="uniq-link", uniq=True)
    L.check_lookup("osl_generic_lookup", "generic")
    L.check_lookup("osl_interface_lookup", "interface")
    L.check_has()
    L.check_remove("osl_generic_remove_node", "generic", False)
    L.check_remove("osl_generic_remove", "generic", True)


def run(M, rep):
    check_model(M)
    L = Lists(M, rep)
    a = L.adds()
    if len(a) < 8:
        raise AnalysisBroken(f"only {len(a)} add functions found")
    for fn, T, li, ni, tails in a:
        L.check_add(fn, T, li, ni, tails)
    for fn, T in L.counts():
        L.check_count(fn, T)
    L.check_concat("osl_relation_list_concat", "relation_list")
    L.check_push("osl_relation_list_push", "relation_list")
    L.check_pop("osl_relation_list_pop", "relation_list")
    from ..ir import macros
    L.check_filter("osl_relation_list_filter", "relation_list", macros()["OSL_TYPE_ACCESS"])
    A0, A1, A2 = ("arg", 0), ("arg", 1), ("arg", 2)
    root = lambda L_, s: A0
    L.check_entry("osl_strings_add", root, "strings", None, {"string": ("copy", A1)})
    L.check_entry("osl_arrays_add", root, "arrays", "nb_names", {"id": ("val", A1), "names": ("copy", A2)})
    L.check_entry("osl_extbody_add", root, "extbody", "nb_access", {"start": ("val", A1), "length": ("val", A2)})
    for T, subs in (("annotation", ("prefix", "suffix")), ("region", ("prefix", "suffix", "prelude", "postlude"))):
        for sub in subs:
            L.check_entry(f"osl_{T}_append_{sub}", (lambda T, sub: lambda L_, s: F(L_.M, A0, T, sub))(T, sub), T + "_text", "count",
                          {"types": ("val", A1), "lines": ("own", A2)})
