"""C25: the evaluation counts an optimiser reports are the numbers of evaluations made."""
import itertools

import numpy as np

from mc.core import Result
from mc.toy import Cstr, Toy, lattice

PROPERTY = "C25"
RULE = (
    "Every ordered population (with repetition for Lara, unordered for MMD) of 1-3 points from a palette (feasible, infeasible, active, dominated, on a bound) x "
    "optimiser x number of objectives x constraint sets x callback styles (plain functions, methods with batch variants) x preconditioning: the "
    "callbacks count the points at which they are evaluated, and after the construction, every iteration and every operation of an enumerated sequence of "
    "user operations on the state (update with or without derivatives, update of one point, slices and copies) the counts of the state are compared."
    " Lattice populations of every size from 4 to 20, with and without coinciding points; runs of 15 (40) iterations."
)
ASSUMPTIONS = ["a point at which both the equality and the inequality derivatives are requested counts once, as documented by the counters' names"]
PAL = np.array([[0.2, 0.4], [0.9, -0.2], [0.35, 0.35], [1.2, 1.1], [-0.5, 0.3], [1.5, -1.0]])
XL, XU = np.array([-1.0, -1.0]), np.array([1.5, 1.5])


class Counting:
    """the user's problem: counts points, offers batch variants on demand"""

    def __init__(self, toy, cs, batch):
        self.n = {k: 0 for k in ("func", "jac", "hess", "h", "h_jac", "h_hess", "g", "g_jac", "g_hess")}
        for name in self.n:
            f = getattr(toy, name, None) or getattr(cs, name)
            setattr(self, name, self.method(name, f, batch))

    def method(self, name, f, batch):
        me = self

        class Owner:
            pass

        def point(self_, x):
            assert np.ndim(x) == 1
            me.n[name] += 1
            return f(x)

        def rows(self_, x):
            me.n[name] += len(x)
            return np.array([f(v) for v in x])

        point.__name__ = name
        setattr(Owner, name, point)
        if batch:
            setattr(Owner, name + "_batch", rows)
        o = Owner()
        return getattr(o, name)


def make(name, p, cs, m, X, pre, R):
    from hvd.gradient_based import Lara
    from hvd.mmd_newton import MMDNewton
    from hvd.newton import HVN, DpN
    from hvd.reference_set import ReferenceSet

    kw = {}
    if cs.eq:
        kw.update(h=p.h, h_jac=p.h_jac)
    if cs.ieq:
        kw.update(g=p.g, g_jac=p.g_jac)
    hs = {**(dict(h_hessian=p.h_hess) if cs.eq else {}), **(dict(g_hessian=p.g_hess) if cs.ieq else {})}
    n, xl, xu = 2, XL.copy(), XU.copy()
    e = {0: -np.ones(m) / np.sqrt(m)}
    if name == "HVN":
        o = HVN(n, m, p.func, p.jac, p.hess, np.full(m, 30.0), xl, xu, N=len(X), X0=X, verbose=False, preconditioning=pre, **kw, **hs)
        return o, o.iterate
    if name == "DpN":
        o = DpN(n, m, p.func, p.jac, p.hess, ReferenceSet(R, eta=e), xl, xu, N=len(X), x0=X, verbose=False, preconditioning=pre, **kw, **hs)
        return o, o.newton_iteration
    if name in ("MMD", "MMDmatch"):
        o = MMDNewton(n, m, p.func, p.jac, p.hess, ReferenceSet(R, eta=e), xl, xu, N=len(X), X0=X, verbose=False, preconditioning=pre, matching=name != "MMD", **kw)
        return o, o.newton_iteration
    o = Lara(n, m, p.func, p.jac, xl, xu, N=len(X), X0=X, verbose=False)
    return o, o.iteration


def expected(p, cs):
    c = lambda k: max(p.n["h_" + k] if cs.eq else 0, p.n["g_" + k] if cs.ieq else 0)
    return [p.n["jac"], c("jac"), c("hess")]


def s_count(name, m, kind, batch, pre, size, iters, repeat=False, pops=None):
    res = Result()
    toy, cs = Toy(m), Cstr(kind)
    if pops is not None:
        idx = [list(range(len(P))) for P in pops]
    elif name.startswith("MMD"):  # compiles per population
        idx = list(itertools.combinations(range(len(PAL)), size))
    else:
        idx = list(itertools.product(range(len(PAL)), repeat=size) if repeat else itertools.permutations(range(len(PAL)), size))
    for q, rows in enumerate(idx):
        X = PAL[list(rows)] if pops is None else pops[q].copy()
        p = Counting(toy, cs, batch)
        R = np.array([toy.func(x) for x in (PAL + 0.1)[: max(size, 2)]]) - 0.4 if pops is None else lattice(len(X), m, 0.4, -0.9, 1.4)
        ctx = dict(optimiser=name, m=m, constraints=kind, batch=batch, preconditioning=pre, points=X)
        try:
            o, step = make(name, p, cs, m, X, pre, R if pops is not None else R[:size])
        except AssertionError:
            res.skipped += 1
            continue
        for it in range(iters + 1):
            if it:
                try:
                    step()
                    o.log()
                except Exception as e:  # noqa: BLE001 - judged by the checks of the optimisers
                    res.skipped += 1
                    res.outcome(type(e).__name__)
                    break
            res.call()
            res.state()
            s = o.state
            got, want = [s.n_jac_evals, s.n_cstr_jac_evals, s.n_cstr_hess_evals], expected(p, cs)
            if got != want:
                res.fail(f"count:{name}", f"after {it} iterations the state reports {got} evaluations of [Jacobian, constraint Jacobian, constraint Hessian], "
                         f"the callbacks were evaluated at {want} points", dict(ctx, iteration=it))
                break
            res.outcome(f"{name}{got}")
        res.trace()
    res.sample(dict(optimiser=name, m=m, constraints=kind))
    return res


def s_sizes(name, m, kind, batch, sizes, iters=2):
    """larger lattice populations, some of them with coinciding points"""
    return s_count(name, m, kind, batch, False, 0, iters, pops=[np.vstack([L, L[:k]]) for N in sizes for k in (0, 1) for L in [lattice(N, 2, 0.2, -0.8, 0.9)]])


def s_state(kind, batch, depth, first):
    from copy import deepcopy

    from hvd.base import State

    res = Result()
    toy, cs = Toy(2), Cstr(kind)
    ops = [("update", 3, True, True), ("update", 1, True, False), ("update", 2, False, True), ("update", 2, False, False), ("one", 0), ("one", -1), ("slice", [1, 0]), ("slice", [0]), ("copy",)]
    pad = np.ones((len(PAL), cs.ne + cs.ni)) * 0.5
    full = np.c_[PAL, pad]
    for seq in itertools.product(range(len(ops)), repeat=depth - 1):
        seq = (first,) + seq
        p = Counting(toy, cs, batch)
        kw = {}
        if cs.eq:
            kw.update(h=p.h, h_jac=p.h_jac, h_hess=p.h_hess)
        if cs.ieq:
            kw.update(g=p.g, g_jac=p.g_jac, g_hess=p.g_hess)
        s = State(2, cs.ne, cs.ni, p.func, p.jac, **kw)
        s.update(full[:2])
        for k, i in enumerate(seq):
            op = ops[i]
            if op[0] == "update":
                s.update(full[k:k + op[1]], op[2], op[3])
            elif op[0] == "one":
                s.update_one(full[5 - k], op[1] % s.N)
            elif op[0] == "slice":
                s = s[[j for j in op[1] if j < s.N]]
            else:
                s = deepcopy(s)
            res.call()
            res.state()
            got, want = [s.n_jac_evals, s.n_cstr_jac_evals, s.n_cstr_hess_evals], expected(p, cs)
            if got != want:
                res.fail("count:state", f"after {[ops[j] for j in seq[:k + 1]]} the state reports {got}, evaluated at {want}", dict(kind=kind, batch=batch, sequence=[ops[j] for j in seq[:k + 1]]))
                break
        res.outcome(f"{got}")
        res.trace()
    return res


SCENARIOS = dict(count=s_count, sizes=s_sizes, state=s_state)


def plan(tier):
    th = tier == "thorough"
    for size in (3, 2, 1) + ((4,) if th else ()):
        for name in ("HVN", "DpN", "MMD", "MMDmatch", "Lara"):
            for m, kind, batch, pre in itertools.product((2, 3), ("", "h", "g", "hg", "hG", "HG"), (False, True), (False, True)):
                if name == "Lara" and (kind or pre):
                    continue
                if m == 3 and (pre or kind not in ("", "hg")) and not th:
                    continue
                if name.startswith("MMD") and not th and (m == 3 or size > 2 and (batch or pre)):
                    continue
                yield "count", dict(name=name, m=m, kind=kind, batch=batch, pre=pre, size=size, iters=4 if th else 3, repeat=name == "Lara" and size < 4)
    for name, (kind, batch) in itertools.product(("HVN", "DpN", "MMDmatch", "Lara"), (("", False), ("hG", True))):
        if name != "Lara" or not kind:
            sizes = list(range(4, 31 if th else 21)) if name != "MMDmatch" else [5, 12]
            for c in range(3):
                yield "sizes", dict(name=name, m=2, kind=kind, batch=batch, sizes=sizes[c::3])
    for name, (kind, batch) in itertools.product(("HVN", "DpN", "MMDmatch", "MMD", "Lara"), (("", False), ("hG", True))):
        if name != "Lara" or not kind:  # long runs
            yield "sizes", dict(name=name, m=2, kind=kind, batch=batch, sizes=[3, 5], iters=40 if th else 15)
    for kind, batch in itertools.product(("", "h", "g", "HG"), (False, True)):
        for first in range(9):
            yield "state", dict(kind=kind, batch=batch, depth=4 if th else 3, first=first)
