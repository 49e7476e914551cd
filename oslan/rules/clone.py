"""C01: cloning makes a complete, independent deep copy (field-copy obligations over every path)."""
import re
from ..engine import Engine, Incomplete, NULL, ZERO, atom_eq, atom_le0, add, scale, subterms, contains, subst, lin
from ..ir import AnalysisBroken
from .common import *
from .loops import Loops
from ..modref import ModRef
from ..nullness import Nullness, NN, BOT

PUREFN = re.compile(r"^osl_\w+_(count|size|number|nb_components|lookup|is_\w+|equal)$|^osl_strings_size$")
ADDFN = re.compile(r"^osl_\w+_(add|append)$")


def add_models(M):
    """functions appending to a list whose head is passed by address: an empty list gets the new node as its head"""
    def append(name):
        def run(E, frame, i, s, args):
            E.opaque_call(frame, i, s, name, args)
            if args[1] == NULL:
                return [s]
            E.append_sites.add((frame["F"].name, args[0]))
            h = E.load(s, args[0])
            d = s.decide(atom_eq(h, NULL)[0])
            if d is None:
                s2 = s.copy()
                s2.assume(atom_eq(h, NULL))
                E.store(s2, args[0], args[1])
                a, p = atom_eq(h, NULL)
                s.assume((a, not p))
                return [s, s2]
            if d == atom_eq(h, NULL)[1]:
                E.store(s, args[0], args[1])
            return [s]
        return run
    out = {}
    for n, f in M.funcs.items():
        pt = M.ptypes.get(n, [])
        if ADDFN.match(n) and len(pt) == 3 and pt[1].endswith("**") and pt[2] == pt[1][:-1]:
            out[n] = append(n)
    return out


class CloneCheck:
    TAG = "clone"
    def __init__(self, M, rep):
        self.M, self.rep = M, rep
        self.clonefns = {}
        for t in FIELDS:
            for suf in ("clone", "nclone"):
                n = f"osl_{t}_{suf}"
                if n in M.funcs and not M.funcs[n].decl and n in M.public:
                    self.clonefns[n] = t
        self.clonefns.setdefault("osl_relation_clone_nconstraints", "relation")

    def opaque(self, n):
        return n in self.clonefns or n.endswith("_pmalloc") or bool(PUREFN.match(n)) or (bool(ADDFN.match(n)) and n in self.M.public) or n.startswith("osl_int_")

    def run(self):
        M = self.M
        for fn, t in sorted(self.clonefns.items()):
            if fn == "osl_relation_clone_nconstraints":
                continue
            self.check_fn(fn, t)
        # static clone helpers with their own recursion are analysed in place

    # ------------------------------------------------------------------
    def check_fn(self, fn, t):
        M = self.M
        self.fn, self.t = fn, t
        self.names = [p.id for p in M.funcs[fn].params]
        E = Engine(M, opaque=self.opaque, pure=lambda n: bool(PUREFN.match(n)) or n.endswith("_clone") and False,
                   track=lambda n: True, max_states=64, models=dict(models(M), **add_models(M)))
        E.track_store = lambda a, s: True
        E.append_sites = set()
        self.E = E
        self.L = Loops(E)
        self.backs = []
        E.back_hook = self.on_back
        ptr = M.ptypes.get(fn, ["?"])[0].endswith("*")
        try:
            res = E.analyse(fn)
        except Incomplete as e:
            self.rep.undec(fn, "clone", str(e))
            return
        src = ("arg", 0) if ptr else ("arg", 1)
        self.src = src
        rets = res.rets
        if not rets:
            self.rep.bad(fn, 0, "clone", "no path returns")
            return
        self.list_loops(res)
        for s, v, line in rets:
            self.check_ret(s, v, line)

    def on_back(self, E, frame, hdr, key, m, b, inits, it, idx):
        self.backs.append(dict(key=key, m=m, s=b.copy(), inits=inits, it=it, idx=idx, frame=frame["F"].name, line=hdr.insts[-1].line))

    # ------------------------------------------------------------------ judgement: v copies e
    def copy_val(self, s, v, e):
        """v (plain value) is the value of location e"""
        if is_ld(strip_ep(v), strip_ep(e)):
            return True
        le = self.E.load(s, e)
        if strip_ep(v) == strip_ep(le):
            return True
        for a, p in s.facts.items():
            if p and a[0] == "eq0" and strip_ep(a[1]) in (strip_ep(add(v, ("ld", e, 0), -1)), strip_ep(add(("ld", e, 0), v, -1))):
                return True
            if p and a[0] == "peq" and {strip_ep(a[1]), strip_ep(a[2])} == {strip_ep(v), strip_ep(("ld", e, 0))}:
                return True
        # boolean / narrow copies pass through and/trunc
        x = v
        while x[0] == "bin" and x[1] in ("and", "trunc", "xor"):
            x = x[2] if x[2][0] != "int" else x[3]
        if x[0] == "lit" and x[1][0] == "peq" and x[1][2] == NULL and not x[2]:
            x = x[1][1]
        while x[0] == "bin" and x[1] == "and":
            x = x[2] if x[2][0] != "int" else x[3]
        return is_ld(strip_ep(x), strip_ep(e))

    def known_null(self, s, e):
        e = strip_ep(e)
        for a, p in s.facts.items():
            if p and a[0] == "peq" and a[2] == NULL and strip_ep(a[1]) == e:
                return True
        return False

    def same(self, x, e):
        """x is the content of location e"""
        return is_ld(strip_ep(x), strip_ep(e))

    def copy_str(self, s, v, e, ebase=None, ix=None):
        if v == NULL or v == ZERO:
            return True if self.known_null(s, ("ld", e, 0)) else ("stays NULL whatever the source holds", True)
        if v[0] == "uninit":
            return ("is never set", True)
        is_src = (lambda x: self.same(x, e)) if ebase is None else (lambda x: strip_ep(x)[0] == "ld" and self.is_elem(strip_ep(x)[1], ebase, ix))
        if v[0] == "alloc":
            if v[2] in ("strdup", "__strdup", "strndup", "__strndup"):
                if is_src(v[3][0]):
                    return True if v[2].endswith("strdup") else ("is cut", False)
                return (f"is a copy of {show(self.M, v[3][0], self.names)}", True)
            for ev in s.ev:
                if ev[0] == "call" and ev[1] in ("strcpy", "memcpy", "strncpy", "sprintf", "memmove", "stpcpy", "snprintf", "strcat") and ev[2] and ev[2][0] == v:
                    if any(is_src(x) for x in ev[2][1:]):
                        return True
            return ("is not recognised as a copy", False)
        if is_src(v) or v[0] == "ld" and any(y == strip_ep(self.src) or (y[0] == "it") for y in subterms(strip_ep(v))):
            return ("aliases the source's own block", True)
        return ("is not recognised as a copy", False)

    def copy_own(self, s, v, e, t):
        """v owns a full copy of the structure at pointer location e"""
        if v == NULL or v == ZERO:
            return True if self.known_null(s, ("ld", e, 0)) else ("stays NULL whatever the source holds", True)
        if v[0] == "uninit":
            return ("is never set", True)
        if v[0] in ("ret", "call") and self.clonefns.get(v[1]) == t:
            if not self.same(v[2][0], e):
                return (f"is a copy of {show(self.M, v[2][0], self.names)}", strip_ep(v[2][0])[0] in ("ld", "null", "arg"))
            return True if self.full_count(v) else (f"is only partially copied by {v[1]}", v[2][1][0] == "int")
        if self.same(v, e):
            return ("aliases the source's own block", True)
        if v[0] == "ld" and any(y == strip_ep(self.src) or y[0] == "it" for y in subterms(strip_ep(v))):
            return ("aliases a block of the source", True)
        return ("is not recognised as a copy", False)

    def full_count(self, v):
        if len(v[2]) > 1:
            n = v[2][1]
            if n == ("int", -1):
                return True
            if n[0] in ("call", "ret") and PUREFN.match(n[1]):
                return True
            return False
        return True

    # ------------------------------------------------------------------ objects
    def objects(self, s, t):
        """fresh objects of struct t known in the state"""
        out = []
        for a in s.mem:
            if a[0] == "fld" and a[2] == S + t and a[1][0] in ("alloc", "ret") and a[1] not in out:
                out.append(a[1])
        for ev in s.ev:
            for x in (ev[1:3] if ev[0] == "store" else ev[2] if ev[0] == "call" else ()):
                if isinstance(x, tuple):
                    for y in subterms(x):
                        if y[0] == "ret" and y[1] == f"osl_{t}_pmalloc" and y not in out:
                            out.append(y)
        return out

    def field_value(self, s, O, t, i):
        a = ("fld", O, S + t, i)
        v = s.mem.get(a)
        if v is not None:
            return v
        if O[0] == "ret" and O[1] == "osl_relation_pmalloc" and t == "relation":
            n = self.M.fields[S + t][i][0]
            return {"precision": O[2][0], "nb_rows": O[2][1], "nb_columns": O[2][2], "next": NULL}.get(n, ("ld", a, 0))
        if O[0] == "alloc" and (O[2] == "calloc" or any(z[:4] == O[:4] for z in s.zeroed)):
            return NULL if self.M.fields[S + t][i][1].endswith("*") else ZERO
        return ("uninit", a)

    def check_obj(self, s, O, N, t, sub=None):
        """-> list of (field, reason, definite) for fields of object O that are not copies of N's; N is a pointer term"""
        bad = []
        for i, n, k, ct in fields(self.M, t):
            if k in ("skip", "link"):
                continue
            e = ("fld", N, S + t, i)
            if k.startswith("sub:"):
                st = k[4:]
                Oa = ("fld", O, S + t, i)
                for f, r in self.check_obj(s, Oa, e, st):
                    bad.append((n + "." + f, r))
                continue
            v = self.field_value(s, O, t, i)
            r = True
            if k in ("val", "borrow"):
                if not self.copy_val(s, v, e) and not (k == "val" and self.count_ok(s, O, t, i, v, e)):
                    r = (self.plain_why(v), v[0] in ("uninit", "int", "null") or (v[0] == "ld" and self.E.root(v) != self.E.root(O)) or v[0] in ("fn", "str"))
            elif k == "str":
                r = self.copy_str(s, v, e)
            elif k.startswith("own:"):
                r = self.copy_own(s, v, e, k[4:])
            elif k == "data":
                ok = v[0] == "ret" and v[1] == "*clone" and self.same(v[2][-1], e)
                r = True if ok else ("aliases the source's own block", True) if self.same(v, e) else \
                    (self.plain_why(v), v[0] in ("uninit", "int", "null") or (v[0] == "ret" and v[1].startswith("*")))
            elif k in ("matrix", "cells"):
                r = self.copy_matrix(s, O, N, t, i)
                if self.same(v, e):
                    r = ("aliases the source's own block", True)
            elif k.startswith("arr"):
                r = self.copy_array(s, O, N, t, i, k, v, e)
            elif k == "strv":
                r = self.copy_strv(s, O, N, t, i, v, e)
            if r is not True:
                bad.append((n, (v,) + r))
        return bad

    def plain_why(self, v):
        if v[0] == "uninit":
            return "is never copied (left as allocated)"
        if v[0] in ("int", "null"):
            return f"stays {show(self.M, v)} whatever the source holds"
        return "is not the source's field"

    def plain(self, s, N):
        """term expressed through fields of source/clone and constants only"""
        def f(x):
            c, d = lin(x)
            return all(k[0] in ("ld", "call", "arg") and not any(y[0] in ("it", "itm", "uninit", "ret", "bin") and y != strip_ep(N) and not (y[0] == "it" and strip_ep(y) in list(subterms(strip_ep(N)))) for y in subterms(k)) for k in d)
        return f

    def cov(self, x, s, ix, bound, N):
        sm = self.L.sm(x)
        hx = x[4] if len(x) > 4 else False
        return self.L.cover(sm, s.facts, hx, ix, bound, self.plain(s, N))

    def count_ok(self, s, O, t, i, v, e):
        """a count that the code increments once per copied entry, from 0 to the source's count"""
        f = self.state_of(s.facts)
        src = strip_ep(("ld", e, 0))
        if v[0] == "int":
            return f.known(atom_eq(src, v)) or (v == ZERO and f.known(atom_le0(src)))
        for x in s.ev:
            if x[0] == "loop" and self.L.sm(x) is not None and self.L.ivar(self.L.sm(x), strip_ep(v)):
                if self.cov(x, s, v, src, e) == "yes":
                    return True
        return False

    def loops_of(self, s):
        out = []

        def walk(ev, facts, depth=0):
            for x in ev:
                if x[0] == "loop" and x[2] < len(self.E.summaries):
                    sm = self.E.summaries[x[2]]
                    out.append((sm, facts))
                    if depth < 3:
                        for m, f, e2, env in sm.backs:
                            walk(e2, f, depth + 1)
        walk(s.ev, s.facts)
        seen, res = set(), []
        for sm, f in out:
            if id(sm) not in seen:
                seen.add(id(sm))
                res.append((sm, f))
        return res

    def index_var(self, sm):
        """induction variables of the loop: [(it term, init, step)] with constant steps"""
        out = []
        for n, t in sm.phis.items():
            st = sm.steps.get(n, ())
            if len(st) == 1:
                d = add(list(st)[0], t, -1)
                if d[0] == "int" and d[1] != 0:
                    out.append((t, sm.inits[n], d[1]))
        return out

    def state_of(self, facts):
        from ..engine import State
        s = State()
        s.facts = {(strip_ep(a) if a[0] != "true" else a): p for a, p in facts.items()}
        return s

    # ---- m[i][j]
    def copy_matrix(self, s, O, N, t, i):
        """True / (reason, definite)"""
        want_rows = ("ld", F(self.M, N, t, "nb_rows"), 0)
        want_cols = ("ld", F(self.M, N, t, "nb_columns"), 0)
        f = self.state_of(s.facts)
        if f.known(atom_le0(strip_ep(want_rows))) or f.known(atom_le0(strip_ep(want_cols))):
            return True
        worst = ("no copy of the cells found", True)
        for x in s.ev:
            sm = self.L.sm(x)
            if sm is None or not sm.backs:
                continue
            verdicts = []
            for m, facts, ev, env in sm.backs:
                st = self.state_of(facts)
                st.facts, st.ev = facts, ev
                best = None
                for y in ev:
                    sm2 = self.L.sm(y)
                    if sm2 is None or not sm2.backs:
                        continue
                    for _, f2, ev2, _ in sm2.backs:
                        c = self.cell_copied(ev2, O, N)
                        if c is None:
                            continue
                        ij, same = c
                        if not same:
                            best = best or ("a cell is copied to a different position", True)
                            continue
                        r, q = self.cov(x, s, ij[0], want_rows, N), self.cov(y, st, ij[1], want_cols, N)
                        if r == "yes" and q == "yes":
                            best = True
                        elif best is not True:
                            best = ("the copying loops do not visit every " + ("row" if r != "yes" else "column"), "no" in (r, q))
                verdicts.append(best)
            got = [b for b in verdicts if b is not None]
            if not got:
                continue
            if all(b is True for b in verdicts):
                return True
            if None in verdicts:
                worst = ("a row is skipped on some path", True)
            else:
                worst = [b for b in got if b is not True][0]
            return worst
        # cells mentioned anywhere?
        if worst[1] and any(y == strip_ep(("ld", F(self.M, N, t, "m"), 0)) for e in self.flat(s.ev) for z in e if isinstance(z, tuple) for y in subterms(strip_ep(z))):
            return ("the copy of the cells was not understood", False)
        return worst

    def flat(self, ev, d=4):
        out = []
        for x in ev:
            if x[0] == "loop":
                sm = self.L.sm(x)
                if sm is not None and d:
                    for _, _, e2, _ in sm.backs:
                        out.extend(self.flat(e2, d - 1))
            else:
                out.append(x)
        return out

    def cell_copied(self, ev, O, N):
        """((row, column), same position?) of a cell copy"""
        So, Sn = strip_ep(O), strip_ep(N)
        for x in ev:
            if x[0] == "call" and x[1] == "osl_int_assign" and len(x[2]) == 3:
                dst, src = strip_ep(x[2][1]), strip_ep(x[2][2])
                if src[0] != "ld" or not contains(dst, So):
                    continue
                a, b = self.cell_pos(dst), self.cell_pos(src[1])
                if a is None or b is None:
                    continue
                if not (a[2] == strip_ep(F(self.M, So, self.t, "m")) and b[2] == strip_ep(F(self.M, Sn, self.t, "m"))):
                    continue
                return (a[0], a[1]), a[:2] == b[:2]
        return None

    @staticmethod
    def cell_pos(a):
        """&x->m[i][j] -> (i, j, &x->m)"""
        j, i = ZERO, ZERO
        if a[0] == "idx":
            j, a = a[3], a[1]
        if a[0] != "ld":
            return None
        a = a[1]
        if a[0] == "idx":
            i, a = a[3], a[1]
        if a[0] != "ld":
            return None
        return i, j, a[1]

    # ---- heap arrays
    def copy_array(self, s, O, N, t, i, k, v, e):
        """True / (reason, definite)"""
        parts = k.split(":")
        elem = parts[1]
        if v in (NULL, ZERO):
            if self.known_null(s, ("ld", e, 0)):
                return True
        if parts[0] == "arr2":
            if elem == "val":
                bounds, inner = [("ld", F(self.M, N, t, "nb_statements"), 0)], "nb_predicates"
            else:
                bounds, inner = self.alt_bounds(N, t), "nb_iterators"
        else:
            cnt = ("ld", F(self.M, N, t, parts[2]), 0) if parts[2] else None
            bounds, inner = ([cnt] if cnt else self.alt_bounds(N, t)), None
        if self.known_empty(s, bounds):
            return True
        if v in (NULL, ZERO):
            return ("stays NULL whatever the source holds", True)
        if self.is_shared(v, N):
            return ("aliases the source's own block", True)
        if v[0] == "uninit":
            return ("is never set", True)
        # block copy
        for ev in s.ev:
            if ev[0] == "call" and ev[1] in ("memcpy", "memmove") and len(ev[2]) >= 3 and ev[2][0] == v and self.same(ev[2][1], e):
                if elem == "str" or inner:
                    return ("the entries' pointers are shared with the source", True)
                sz = strip_ep(ev[2][2])
                if any(sz == strip_ep(scale(b, 4)) for b in bounds):
                    return True
                rest = [y for y in s.ev if y[0] == "store" and y[1][0] == "idx" and y[1][1] == v]
                d = [add(sz, strip_ep(scale(b, 4)), -1) for b in bounds]
                if any(z[0] == "int" for z in d):
                    # a few entries more or less than the count: the others must be copied one by one
                    one = [y for y in rest if strip_ep(y[2])[0] == "ld" and self.is_elem(strip_ep(y[2])[1], e, strip_ep(y[1][3]))]
                    if one:
                        return ("block copy of a different size", len(one) < len(rest))
                    return ("is not copied in full", all(strip_ep(y[2])[0] in ("ld", "int") for y in rest))
                return ("block copy of a different size", any(sz == strip_ep(scale(b, z)) for b in bounds for z in (1, 2, 8)))
        worst = None
        for x in s.ev:
            sm = self.L.sm(x)
            if sm is None or not sm.backs:
                continue
            res = []
            for m, facts, ev, env in sm.backs:
                r = self.elem_copied(sm, facts, ev, v, e, elem, N, inner)
                if isinstance(r, tuple) and r[0] == "at":
                    c = [self.cov(x, s, r[1], b, N) for b in bounds]
                    r = True if "yes" in c else ("the copying loop does not visit every entry", all(y == "no" for y in c))
                res.append(r)
            if all(r is True for r in res):
                return True
            got = [r for r in res if r is not None]
            if got:
                w = [r for r in got if r is not True]
                worst = w[0] if w else ("an entry is skipped on some path", True)
        if worst:
            return worst
        src = strip_ep(("ld", e, 0))
        if v[0] == "alloc" and not any(src in list(subterms(strip_ep(z))) for ev in self.flat(s.ev) for z in ev if isinstance(z, tuple)):
            return ("is a fresh block whose entries are never filled from the source's", True)
        return ("is not recognised as a copy", False)

    def alt_bounds(self, N, t):
        a, b = ("ld", F(self.M, N, t, "nb_control"), 0), ("ld", F(self.M, N, t, "nb_exit"), 0)
        return [add(a, b)]

    def known_empty(self, s, bounds):
        f = self.state_of(s.facts)
        for b in bounds:
            if b is not None and (f.known(atom_eq(strip_ep(b), ZERO)) or f.known(atom_le0(strip_ep(b)))):
                return True
        return False

    def elem_copied(self, sm, facts, ev, v, e, elem, N, inner=None):
        """('at', index) when this iteration copies entry index; (reason, definite) when it copies wrongly; None when it does not"""
        st = self.state_of(facts)
        st.facts, st.ev = facts, ev
        wrong = None
        for x in ev:
            if x[0] != "store":
                continue
            a, val = x[1], x[2]
            if not self.base_is(a, v, sm, ev, facts):
                continue
            ix = strip_ep(a[3]) if a[0] == "idx" else ZERO
            if inner is not None:
                ib = ("ld", ("idx", ("ld", F(self.M, N, self.t, inner), 0), "i32", ix), 0)
                if ix == ZERO:
                    ib = ("ld", ("ld", F(self.M, N, self.t, inner), 0), 0)
                erow = ("idx", ("ld", e, 0), "ptr", ix) if ix != ZERO else ("ld", e, 0)
                if self.is_shared(val, N):
                    return ("row pointers are shared with the source", True)
                if self.known_empty(st, [ib]):
                    return ("at", ix)
                for y in ev:
                    sm2 = self.L.sm(y)
                    if sm2 is None or not sm2.backs:
                        continue
                    rs = [self.elem_copied(sm2, f2, e2, val, erow, elem, N) for _, f2, e2, _ in sm2.backs]
                    if all(isinstance(r, tuple) and r[0] == "at" for r in rs):
                        c = self.cov(y, st, rs[0][1], ib, N)
                        if c == "yes":
                            return ("at", ix)
                        wrong = ("the inner copying loop does not visit every entry", c == "no")
                    else:
                        w = [r for r in rs if isinstance(r, tuple) and r[0] != "at"]
                        wrong = wrong or (w[0] if w else None)
                wrong = wrong or ("row not recognised as a copy", False)
                continue
            src = strip_ep(("idx", ("ld", e, 0), "ptr", ix)) if ix != ZERO else strip_ep(("ld", e, 0))
            if elem == "val":
                sv = strip_ep(val)
                if sv[0] == "ld" and self.is_elem(sv[1], e, ix):
                    return ("at", ix)
                if sv[0] == "ld":
                    wrong = (f"receives {show(self.M, val, self.names)} at index {show(self.M, ix, self.names)}", True)
                elif wrong is None:
                    wrong = (f"receives {show(self.M, val, self.names)[:60]}", sv[0] in ("int", "null", "uninit"))
            else:
                r = self.copy_str(st, val, src, e, ix)
                if r is True:
                    return ("at", ix)
                wrong = r
        return wrong

    def is_elem(self, addr, e, ix):
        addr = strip_ep(addr)
        b = strip_ep(("ld", e, 0))
        if ix == ZERO:
            return addr == b
        return addr[0] == "idx" and addr[1] == b and addr[3] == ix

    def base_is(self, a, v, sm, ev, facts):
        """store address a lies in the array that ends up in the field (value v)"""
        b = a[1] if a[0] == "idx" else a
        if b == v:
            return True
        if b[0] == v[0] == "alloc" and b[1] == v[1] and b[2] == v[2] and b[2].startswith("realloc"):
            return True
        # array grown in the loop: v is the final value of a cell, which in this iteration holds b
        if v[0] == "itm" and v[1] == sm.key:
            cell = v[2]
            for x in ev:
                if x[0] == "store" and x[1] == cell and x[2] == b:
                    return True
        return False

    # ---- NULL-terminated vectors of strings
    def copy_strv(self, s, O, N, t, i, v, e):
        n = ("call", "osl_strings_size", (N,))
        if self.known_empty(s, [n]):
            return True
        if self.is_shared(v, N):
            return ("aliases the source's own block", True)
        if v[0] in ("int", "null", "uninit"):
            return ("is left " + ("unset" if v[0] == "uninit" else "NULL"), not self.known_null(s, ("ld", e, 0)))
        if v[0] != "alloc":
            return ("is not recognised as a copy", False)
        worst = ("is a fresh block whose entries are never filled from the source's", True)
        for x in s.ev:
            sm = self.L.sm(x)
            if sm is None or not sm.backs:
                continue
            rs = [self.elem_copied(sm, facts, ev, v, e, "str", N) for m, facts, ev, env in sm.backs]
            if all(r is None for r in rs):
                continue
            bad = [r for r in rs if not (isinstance(r, tuple) and r[0] == "at")]
            if bad:
                worst = [r for r in bad if r is not None] or [("an entry is skipped on some path", True)]
                return worst[0]
            ix = rs[0][1]
            c = self.cov(x, s, ix, n, N)
            f = self.state_of(s.facts)
            ent = ("ld", ("idx", strip_ep(("ld", e, 0)), "ptr", strip_ep(ix)), 0)
            iv = self.L.ivar(sm, strip_ep(ix))
            ends = [ix, n]
            if c != "yes" and iv and iv[1] == 1 and iv[2] == ZERO and f.known(atom_eq(ent, NULL)):
                c = "yes"
            if c != "yes":
                return ("the copying loop does not visit every string", c == "no")
            z = [strip_ep(q) for q in ends]
            term = any(a[0] == "idx" and a[1] == v and strip_ep(a[3]) in z and val == NULL for a, val in s.mem.items())
            term = term or any(y[0] == "store" and y[1][0] == "idx" and y[1][1] == v and strip_ep(y[1][3]) in z and y[2] == NULL for y in s.ev)
            term = term or v[2] == "calloc" or v in s.zeroed
            if term:
                return True
            other = any(y[0] == "store" and y[1][0] == "idx" and y[1][1] == v and y[2] == NULL for y in s.ev)
            return ("has no terminating NULL entry", not other)
        if any(strip_ep(("ld", e, 0)) in list(subterms(strip_ep(z))) for ev in self.flat(s.ev) for z in ev if isinstance(z, tuple)):
            return ("is not recognised as a copy", False)
        return worst

    # ------------------------------------------------------------------ list loops
    def list_iter(self, sm):
        """the phi walking the source list: (it term, init)"""
        out = []
        nx = fidx(self.M, self.t, "next") if any(k == "link" for _, _, k, _ in fields(self.M, self.t)) else None
        if nx is None:
            return None
        for n, t in sm.phis.items():
            st = {strip_ep(x) for x in sm.steps[n] if x is not None}
            if st == {strip_ep(("ld", ("fld", t, S + self.t, nx), 0))}:
                out.append((t, sm.inits[n], n))
        for x in out:
            if self.E.root(x[1]) == self.src or x[1] == self.src:
                return x
        return out[0] if out else None

    def list_loops(self, res):
        self.loopinfo = {}
        if not any(k == "link" for _, _, k, _ in fields(self.M, self.t)):
            return
        nx = fidx(self.M, self.t, "next")
        for sm in self.E.summaries:
            li = self.list_iter(sm)
            if li is None:
                continue
            itt, init, pn = li
            backs = [b for b in self.backs if b["key"] == sm.key]
            if not backs:
                continue
            created = [b for b in backs if self.objects(b["s"], self.t)]
            if not created:
                continue        # a walk that copies nothing (counting, finding the end)
            if sm.key in self.loopinfo:
                continue
            self.loopinfo[sm.key] = (sm, li)
            for b in backs:
                self.check_iteration(b, sm, itt, nx)

    def mode_val(self, b, n):
        return dict(b["m"][0]).get(n)

    def check_iteration(self, b, sm, itt, nx):
        s = b["s"]
        N = itt
        objs = self.objects(s, self.t)
        # skipped node?
        best = None
        for O in objs:
            if O[4] == "old":
                continue
            bad = self.check_obj(s, O, N, self.t)
            if best is None or len(bad) < len(best[1]):
                best = (O, bad)
                if not bad:
                    break
        if best is None:
            if self.t == "generic" and self.known_null(s, ("ld", F(self.M, N, "generic", "interface"), 0)):
                self.rep.ok(self.fn, "clone-skip", "node without a descriptor is skipped with a warning")
                return
            self.rep.bad(self.fn, b["line"], "clone-node", "a path of the copying loop copies no node for the current source node")
            return
        O, bad = best
        nf = len([1 for f in fields(self.M, self.t) if f[2] not in ("skip", "link")])
        if bad:
            for f, v in bad:
                self.report_field(f, v, b["line"], s, N)
        else:
            for i, n, k, c in fields(self.M, self.t):
                if k not in ("skip", "link"):
                    self.rep.ok(self.fn, "clone-field", f"{self.t}.{n}")
        # linking
        b["sm"] = sm
        linked = self.linked(b, s, O, nx)
        if linked is None:
            self.rep.undec(self.fn, "clone-link", "linking of the copied node not understood")
        elif linked:
            self.rep.ok(self.fn, "clone-link", "copied node is linked to the clone")
        else:
            self.rep.bad(self.fn, b["line"], "clone-link", "a copied node is not linked after the previously copied node")

    def cyclic(self, sm, idx):
        """mode idx can occur in more than one iteration"""
        seen, todo = set(), [y for x, y in sm.trans if x == idx]
        while todo:
            x = todo.pop()
            if x == idx:
                return True
            if x not in seen:
                seen.add(x)
                todo += [y for q, y in sm.trans if q == x]
        return False

    def linked(self, b, s, O, nx):
        """True / False / None (undecided)"""
        it, sm = b["it"], b["sm"]
        first = b["idx"] == 0 or not b["m"][0]
        unk = False
        rep = self.cyclic(sm, b["idx"])
        for x in s.ev:
            if x[0] == "call" and ADDFN.match(x[1]) and O in x[2]:
                return True
            if x[0] == "store":
                a, v = x[1], x[2]
                P = self.E.objroot(a)
                if v == O and P[0] in ("alloc", "ret") and P != O and a[0] == "fld" and a[3] == nx:
                    # after the head only once, after any older node never, while the previous node is known
                    if P[4] == "prev" or P[4] == "cur":
                        return True
                    if P[4] == "head":
                        return not rep
                    unk = P[4] not in ("old",)
                elif a[0] == "fld" and a[3] == nx and P == O and v[0] in ("alloc", "ret"):
                    return True     # next node allocated ahead
                elif v == O and P[0] == "itp" and a[0] == "fld" and a[3] == nx:
                    if P[3] == "prev":
                        return True
                    if P[3] == "head":
                        return not rep
                elif v == O and P[0] in ("it", "itm", "alloca", "arg"):
                    if a[0] in ("it", "itm", "alloca", "arg"):
                        return True
                    unk = True
        if first:
            for n in it:
                if n in s.env and s.env.get(n) == O:
                    return True
            for a, v in s.mem.items():
                if v == O and a[0] == "alloca":
                    return True
        # object allocated ahead in an earlier iteration (or before the loop) and linked then
        if O[4] in ("prev", "head") or (O[4] == "cur" and not O[5]):
            return True
        return None if unk or not b["m"][0] else False

    def report_field(self, f, vr, line, s, N):
        M = self.M
        v, why, definite = vr
        if definite:
            self.rep.bad(self.fn, line, "clone-field", f"field {self.t}.{f} of the clone {why} (value: {show(M, v, self.names)[:120]})",
                         key=f"{self.fn}:clone-field:{self.t}.{f}")
        else:
            self.rep.undec(self.fn, "clone-field", f"field {self.t}.{f} of the clone {why} (value: {show(M, v, self.names)[:120]})")

    def is_shared(self, v, N):
        """a pointer taken from the source structure"""
        return v[0] == "ld" and self.E.root(v) in (self.E.root(N), self.src)

    # ------------------------------------------------------------------ returns
    def check_ret(self, s, v, line):
        M, t = self.M, self.t
        src = self.src
        islist = any(k == "link" for _, _, k, _ in fields(M, t))
        nargs = M.funcs[self.fn].nparams
        loops = [self.loopinfo[x[1]] for x in s.ev if x[0] == "loop" and x[1] in self.loopinfo]
        if v is None:
            return
        if v[0] in ("ret", "call") and self.clonefns.get(v[1]) == t and not loops:
            ok = v[2][0] == src and self.full_count(v)
            if len(v[2]) > 1 and nargs > 1 and v[2][1] == ("arg", 1):
                ok = v[2][0] == src
            if ok:
                self.rep.ok(self.fn, "clone-delegate", f"delegates to {v[1]} for the whole structure")
            else:
                self.rep.bad(self.fn, line, "clone-delegate", f"delegates to {show(M, v, self.names)} instead of copying the whole structure")
            return
        if loops:
            # complete traversal: leaving only at the end of the list or at the requested number of nodes
            for sm, (itt, init, pn) in loops:
                if self.exit_ok(s, sm, itt):
                    self.rep.ok(self.fn, "clone-all-nodes", "loop left only at the end of the source")
                elif self.exit_by_count(s, sm):
                    self.rep.undec(self.fn, "clone-all-nodes", "loop left on a condition on the requested number of nodes")
                else:
                    self.rep.bad(self.fn, line, "clone-all-nodes", "the copying loop can stop before the last requested source node")
                self.check_head(s, v, sm, line)
                if strip_ep(init) not in (strip_ep(src),):
                    # starts at the second node: the first one must have been copied before
                    self.check_single(s, self.head_obj(s, v), src, line)
            return
        if v in (NULL, ZERO) or v == src and self.known_null(s, src):
            if self.known_null(s, src) or self.nothing_requested(s):
                self.rep.ok(self.fn, "clone-null", "nothing in, nothing out")
            else:
                self.rep.bad(self.fn, line, "clone-null", "returns nothing although there is a source structure")
            return
        # single object
        self.check_single(s, v, src, line)
        if islist:
            nx = fidx(M, t, "next")
            nv = self.field_value(s, v, t, nx)
            e = ("fld", src, S + t, nx)
            if nv in (NULL, ZERO):
                if not self.known_null(s, ("ld", e, 0)) and nargs == 1 and not loops:
                    # single-node copy helper of a list type: only acceptable for functions documented so
                    self.rep.bad(self.fn, line, "clone-all-nodes", "only the first node of the source list is copied")
            elif not self.copy_own(s, nv, e, t):
                self.rep.bad(self.fn, line, "clone-all-nodes", "the rest of the list is not copied")

    def nothing_requested(self, s):
        nargs = self.M.funcs[self.fn].nparams
        if nargs > 1:
            f = self.state_of(s.facts)
            return any(("arg", 1) in list(subterms(a)) for a in s.facts)
        return False

    def head_obj(self, s, v):
        return v

    def check_single(self, s, O, N, line):
        if O is None or O[0] not in ("alloc", "ret"):
            if O is not None and (O == N or self.E.root(O) == self.src):
                self.rep.bad(self.fn, line, "clone-alias", "returns (part of) the source itself")
            else:
                self.rep.undec(self.fn, "clone-field", f"result not tracked: {show(self.M, O, self.names) if O else None}")
            return
        bad = self.check_obj(s, O, N, self.t)
        nul = self.known_null(s, N)
        if nul:
            return
        for f, v in bad:
            self.report_field(f, v, line, s, N)
        if not bad:
            for i, n, k, c in fields(self.M, self.t):
                if k not in ("skip", "link"):
                    self.rep.ok(self.fn, "clone-field", f"{self.t}.{n}")

    def exit_ok(self, s, sm, itt):
        f = self.state_of(s.facts)
        if f.known(atom_eq(strip_ep(itt), NULL)):
            return True
        nx = fidx(self.M, self.t, "next")
        # do-while form: the last visited node has no successor
        if f.known(atom_eq(strip_ep(("ld", ("fld", itt, S + self.t, nx), 0)), NULL)):
            return True
        for t, init, step in self.index_var(sm):
            if step == 1 and init == ZERO:
                for b in self.limits():
                    if f.known(atom_le0(strip_ep(add(b, t, -1)))):
                        return True
            if step == -1 and any(strip_ep(init) == strip_ep(b) for b in self.limits()):
                if f.known(atom_le0(t)):
                    return True
        for n, t in sm.phis.items():
            # a countdown that is only skipped for negative (unlimited) requests
            if sm.steps.get(n) and set(sm.steps[n]) <= {t, add(t, ("int", -1))} and any(strip_ep(sm.inits[n]) == strip_ep(b) for b in self.limits()):
                if f.known(atom_eq(t, ZERO)):
                    return True
        return False

    def exit_by_count(self, s, sm):
        """left on a condition on the requested number (or the computed number) of nodes"""
        lim = set(self.limits())
        for x in s.ev:
            if x[0] == "loop" and x[1] == sm.key:
                for a, p in x[3]:
                    ts = set(subterms(strip_ep(a)))
                    if ts & lim and self.M.funcs[self.fn].nparams > 1:
                        return True
                    for y in ts:
                        if y[0] == "it" and y[1] == sm.key and strip_ep(sm.inits.get(y[2], ZERO)) in lim:
                            return True
        return False

    def limits(self):
        out = [("arg", 1)]
        for c in ("count", "number", "nb_components"):
            out.append(("call", f"osl_{self.t}_{c}", (self.src,)))
        return out

    def check_head(self, s, v, sm, line):
        """the returned node must be the first copied one"""
        if any(s.mem.get(loc) == v for _, loc in self.E.append_sites):
            return          # the head of a list built by appending
        if v[0] in ("alloc", "ret") and sm.key in v[5] and v[4] in ("prev", "old"):
            self.rep.bad(self.fn, line, "clone-head", f"returns a node copied later than the first one ({show(self.M, v)})", key=f"{self.fn}:clone-head")


def run(M, rep):
    check_model(M)
    c = CloneCheck(M, rep)
    if len(c.clonefns) < 25:
        raise AnalysisBroken("too few clone functions found")
    c.run()
    builders(M, rep)


# operations documented to answer a new structure built from their operands
BUILDER = re.compile(r"^osl_\w+?_(n?clone(_one|_nconstraints)?|concat(_constraints|_vector)?|union|filter|names|to_strings|add|sub|add_scalar|mul_scalar|remove_unions|extend_output|from_vector|node|add_control|add_exit|add_predicates)$")
PARTS = ("own:", "link", "str", "data")


def builders(M, rep):
    """the structure answered is new and nothing of an operand is linked into it"""
    mr = ModRef(M)
    count = 0
    for n, F_ in sorted(M.funcs.items()):
        b = n.split("@")[0]
        if F_.decl or b not in M.ptypes or b not in M.public or not BUILDER.match(b):
            continue
        ts = M.ptypes[b]
        if ts[0].count("*") != 1 or not ts[0].startswith(S) or F_.nparams != len(ts) - 1:
            continue
        ps = [p - 1 for p, t in enumerate(ts) if p and t.startswith(S) and t.count("*") == 1]
        if not ps:
            continue
        count += 1
        inner = {r[0] for r in mr.R[n][1] if r != "fresh"}
        N = Nullness(M, mr.targets, mr)
        der = N.derived(F_)
        for p in ps:
            N.trace = set()
            ctx = tuple(NN if k == p else BOT for k in range(F_.nparams))
            N.call(n, ctx)
            live, edges = N.trace, N.edges.get((n, ctx, None), set())
            what = f"{ts[p + 1][len(S):].rstrip('*')} operand {p + 1}"
            bad = answered(F_, p, live, edges) or (p in inner and linked(M, mr, F_, p, live, der, edges))
            if bad:
                rep.bad(n, bad[0], "new-result", f"the structure answered {bad[1]} the {what}: they are not independent", key=f"{n}:{p}:new")
            else:
                rep.ok(n, "new-result", f"nothing of the {what} is part of the answer")
    if count < 25:
        raise AnalysisBroken(f"only {count} operations that build a structure found")


def answered(F_, p, live, edges):
    """the operand itself, known not to be absent, is answered"""
    for i in F_.insts:
        if i.op == "ret" and i.ops and (F_.name, i.n) in live:
            line = is_operand(i.ops[0], p, edges)
            if line is not None:
                return line or i.line or F_.line, "is"
    return None


def is_operand(o, p, edges):
    """may the value be the operand itself? (the line where it is chosen)"""
    seen, todo = set(), [(o, 0)]
    while todo:
        v, line = todo.pop()
        if v.k == "arg" and v.v == p:
            return line
        if v.k == "inst" and v.v.op == "select":
            todo += [(x, v.v.line) for x in v.v.ops[1:]]
        if v.k == "inst" and v.v.op == "phi" and v.v.n not in seen:
            # a cursor that started at the operand is not followed: what it is at the end is not known here
            if any(x.k == "inst" and reaches(x.v, v.v) for x, _ in v.v.incoming):
                continue
            seen.add(v.v.n)
            todo += [(x, q.insts[-1].line if q.insts else 0) for x, q in v.v.incoming if (q, v.v.block) in edges]
    return None


def reaches(x, phi, d=0):
    return x is phi or d < 6 and x.op in ("load", "gep", "phi", "bitcast", "select") and any(o.k == "inst" and reaches(o.v, phi, d + 1) for o in (x.ops or [v for v, _ in x.incoming or ()]))


def linked(M, mr, F_, p, live, der, edges):
    """the operand itself is stored in a part of a structure that is not reached from the operands"""
    def place(o):
        """(structure, field) of an address not reached from the operands"""
        if o.k == "inst" and o.v.op == "gep" and o.v.sty.startswith(S) and not der.get(o.v.n):
            ix = [x.v for x in o.v.ops[1:] if x.k == "int"]
            if len(ix) == 2:
                return (o.v.sty, ix[1])
        return None
    for i in F_.insts:
        if (F_.name, i.n) not in live:
            continue
        if i.op == "store" and is_operand(i.ops[0], p, edges) is not None:
            f = place(i.ops[1])
            if f is None:
                continue
            kind = FIELDS.get(f[0][len(S):], {}).get(M.fields[f[0]][f[1]][0], "")
            if kind.startswith(PARTS) and not any(j is not i and j.op == "store" and place(j.ops[1]) == f and after(i, j) for j in F_.insts):
                return i.line, "is linked to"
        if i.op == "call":
            for k, o in enumerate(i.ops):
                if is_operand(o, p, edges) is None:
                    continue
                for t in mr.targets(i):
                    for q, c in mr.C.get(t, {}).items():
                        if (k, 0) in c and q != k and q < len(i.ops) and not (i.ops[q].k == "arg" or i.ops[q].k == "inst" and der.get(i.ops[q].v.n)):
                            return i.line, "is linked to"
    return None


def after(i, j):
    """may j be executed after i?"""
    if i.block is j.block and i.block.insts.index(j) > i.block.insts.index(i):
        return True
    seen, todo = set(), list(i.block.succ)
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo += x.succ
    return j.block in seen
