"""Questions about summarised loops: does an index expression run over exactly [0, bound)?  is a list walked to its end?"""
from ..engine import State, NULL, ZERO, atom_eq, atom_le0, add, scale, subterms, subst, lin, unlin, relin, reatom
from .common import strip_ep


def facts_state(facts):
    s = State()
    for a, p in facts.items():
        s.facts[strip_ep(a) if a[0] not in ("true", "false") else a] = p
    return s


class Loops:
    def __init__(self, E):
        self.E = E

    def sm(self, ev):
        return self.E.summaries[ev[2]] if ev[0] == "loop" and ev[2] < len(self.E.summaries) else None

    def below(self, ev, depth=4):
        """all loop summaries reachable from an event list, with the facts they start from"""
        out = []

        def walk(ev, d):
            for x in ev:
                if x[0] == "loop" and x[2] < len(self.E.summaries):
                    s = self.E.summaries[x[2]]
                    if s in out:
                        continue
                    out.append(s)
                    if d:
                        for m, f, e2, env in s.backs:
                            walk(e2, d - 1)
        walk(ev, depth)
        return out

    # ---- counting loops
    def ivar(self, sm, ix):
        """(loop variable, coefficient*step, value of ix before the first iteration) of a linear index expression"""
        c, d = lin(ix)
        ts = [t for t in d if t[0] == "it" and t[1] == sm.key]
        if len(ts) != 1:
            return None
        t = ts[0]
        if any(y == t for k in d if k != t for y in subterms(k)):
            return None
        n = t[2]
        st = [x for x in sm.steps.get(n, ()) if x is not None]
        if len(set(st)) != 1:
            return None
        s = add(st[0], t, -1)
        if s[0] != "int" or s[1] == 0:
            return None
        e0 = relin(subst(ix, lambda y: sm.inits[n] if y == t else None))
        return t, d[t] * s[1], strip_ep(e0)

    def cover(self, sm, exitfacts, hx, ix, bound, plain=None):
        """does index expression ix take exactly the values 0..bound-1 when the loop runs to this exit?
        'yes' / 'no' (positively different) / 'unk'.  plain(term): term is expressed in the structure's own fields."""
        ix, b = strip_ep(ix), strip_ep(bound)
        iv = self.ivar(sm, ix)
        if iv is None:
            # the same entry in every iteration
            return "no" if ix[0] == "int" and b[0] != "int" else "unk"
        t, eff, e0 = iv
        f = facts_state(exitfacts)
        if eff == 1:
            if e0 != ZERO:
                return "no" if e0[0] == "int" else "unk"
            if f.known(atom_le0(add(b, ix, -1))) and self.guarded(sm, ix, b):
                return "yes"
            # body executed before the test: the last index handled is ix itself
            if not hx and f.known(atom_le0(add(add(b, ix, -1), ("int", -1)))):
                return "yes" if self.guarded(sm, ix, b) else "unk"
        elif eff == -1:
            if e0 == add(b, ("int", -1)):
                if f.known(atom_le0(add(ix, ("int", 1)))) or (not hx and f.known(atom_le0(ix))):
                    return "yes"
            elif e0 != b and plain is not None and plain(e0):
                return "no"
            elif e0 == b and hx:
                return "no"
        else:
            return "no"
        if hx and plain is not None:
            for B in self.exit_bounds(f, t, ix, eff):
                if B != b and plain(B):
                    return "no"
        return "unk"

    def exit_bounds(self, f, t, ix, eff):
        """B with exit condition ix >= B / ix == B  (eff 1)  or  ix <= B (eff -1, returned when B != -1)"""
        out = []
        for a, p in f.facts.items():
            if a[0] not in ("le0", "eq0"):
                continue
            c, d = lin(a[1])
            if t not in d or abs(d[t]) != 1:
                continue
            if a[0] == "eq0":
                if not p:
                    continue
                e = scale(a[1], d[t])             # t + r == 0
                r = add(e, t, -1)
                B = relin(subst(ix, lambda y: scale(r, -1) if y == t else None))
                out.append(B)
                continue
            # le0: p: e<=0 ; not p: e >= 1, i.e. -e+1 <= 0
            e = a[1] if p else add(scale(a[1], -1), ("int", 1))
            c, d = lin(e)
            # e <= 0 with coefficient of t: -1: t >= rest ; +1: t <= -rest
            rest = add(e, scale(t, d[t]), -1)
            k = lin(ix)[1].get(t)
            if k is None:
                continue
            lower = (d[t] == -1)
            lim = rest if lower else scale(rest, -1)
            up = lower == (k > 0)                 # ix grows: ix >= B
            B = relin(subst(ix, lambda y: lim if y == t else None))
            if eff == 1 and up:
                out.append(B)
            if eff == -1 and not up and add(B, ("int", 1)) != ZERO:
                out.append(add(B, ("int", 1)))
        return out

    def guarded(self, sm, ix, b):
        """no completed iteration has index >= bound"""
        for m, facts, ev, env in sm.backs:
            f = facts_state(facts)
            if f.known(atom_le0(add(add(ix, b, -1), ("int", 1)))):
                continue
            if f.decide(atom_eq(ix, b)[0]) is False or f.decide(atom_eq(add(ix, ("int", 1)), b)[0]) is False:
                continue
            if f.known(atom_le0(add(add(ix, b, -1), ("int", 2)))):
                continue
            # do-while: the test precedes the next iteration
            return False
        return True

    # ---- list walks
    def walker(self, sm, sty, nx, start=None):
        """list positions: phi advancing through field nx of sty: [(it term, init)]"""
        out = []
        for n, t in sm.phis.items():
            st = {strip_ep(x) for x in sm.steps.get(n, ()) if x is not None}
            if st and st <= {strip_ep(("ld", ("fld", t, sty, nx), 0))}:
                out.append((t, sm.inits[n]))
        if start is not None:
            pref = [x for x in out if strip_ep(x[1]) == strip_ep(start)]
            out = pref or out
        return out

    def at_end(self, facts, t, sty, nx):
        f = facts_state(facts)
        return f.known(atom_eq(t, NULL)) or f.known(atom_eq(strip_ep(("ld", ("fld", t, sty, nx), 0)), NULL))
