"""C10: a refused memory request is noticed before the block is used, and the operation does not go on as if nothing happened.

For every call that hands out memory (malloc, calloc, realloc, strdup, and every function of the library that returns nothing
when such a request is refused), the code behind the call is evaluated by conditional constant propagation with its result
assumed to be NULL.  On the feasible continuations nothing may access memory through it, and none may end normally, except
by returning nothing, in which case the obligation moves to the callers."""
from ..engine import NORETURN
from ..ir import AnalysisBroken
from ..modref import ModRef
from ..nullness import Nullness, NULL, NN, BOT
from .common import *

ALLOC = {"malloc", "calloc", "realloc", "strdup", "strndup", "reallocarray", "aligned_alloc"}


def stoppers(M, targets):
    """functions of the program that never return"""
    out = set(NORETURN)
    while True:
        new = set()
        for n, F in M.funcs.items():
            if F.decl or n in out:
                continue
            seen, work, ret = set(), [F.blocks[0]], False
            while work and not ret:
                b = work.pop()
                if b in seen:
                    continue
                seen.add(b)
                for i in b.insts:
                    if i.op == "call":
                        ts = targets(i)
                        if ts and all(t in out for t in ts):
                            break
                    if i.op == "ret":
                        ret = True
                else:
                    work.extend(b.succ)
            if not ret:
                new.add(n)
        if not new:
            return out
        out |= new


class AllocFail:
    def __init__(self, M, rep):
        self.M, self.rep = M, rep
        self.mr = ModRef(M)
        self.N = Nullness(M, self.mr.targets, self.mr)
        self.N.stop = stoppers(M, self.mr.targets)
        self.N.memory = True

    def run(self):
        M, rep, N = self.M, self.rep, self.N
        sites = [(n, i) for n, F in sorted(M.funcs.items()) if not F.decl for i in F.insts if i.op == "call" and i.callee.k == "func" and i.callee.v in ALLOC]
        if len(sites) < 20:
            raise AnalysisBroken("allocation sites not found")
        done, queue = set(), [(n, i, NULL) for n, i in sites]
        self.propagates = {}     # (function, what it returns when refused)
        while queue:
            n, i, given = queue.pop(0)
            if (n, i.n, given) in done:
                continue
            done.add((n, i.n, given))
            F = M.funcs[n]
            ret, found = N.after(n, i, given)
            what = i.callee.v if i.callee.k == "func" else "operation"
            if found:
                k, w = found[0]
                leaf = k[-2:]
                rep.bad(n, i.line, "alloc-use", f"the result of {what} is used when the request is refused: {w} at {leaf[0]}:{leaf[1]}", key=f"{n}:{what}:{self.nth(F, i)}:use")
                continue
            if ret is None:
                rep.ok(n, "alloc-checked", f"{what} at line {i.line}: stops")
            elif ret == NULL or ret[0] == "int" and n not in M.public:
                rep.ok(n, "alloc-checked", f"{what} at line {i.line}: gives the failure back")
                if (n, ret) not in self.propagates:
                    self.propagates[n, ret] = (i.line, what)
                    for m, G in sorted(M.funcs.items()):
                        if not G.decl:
                            for j in G.insts:
                                if j.op == "call" and n in self.mr.targets(j):
                                    queue.append((m, j, ret))
            else:
                rep.bad(n, i.line, "alloc-ignored", f"when {what} is refused the operation goes on and ends normally", key=f"{n}:{what}:{self.nth(F, i)}:go")

    def nth(self, F, i):
        same = [j for j in F.insts if j.op == "call" and j.callee.k == i.callee.k and j.callee.v == i.callee.v]
        return next(k for k, j in enumerate(same) if j.n == i.n)


def run(M, rep):
    check_model(M)
    AllocFail(M, rep).run()
