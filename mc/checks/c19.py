"""C19: the multi-objective steepest-descent method (Lara): every iteration is a transition of the population compared with a model."""
import itertools

import numpy as np

from hvd.gradient_based import Lara
from mc import layouts
from mc.core import Result
from mc.toy import Toy, lattice

PROPERTY = "C19"
RULE = ("Every ordered population with repetition of 1 to 3 (4) points from palettes with interior points, faces, corners, points outside the box, "
        "nearly coinciding points and exact minimisers of single objectives x 2-3 objectives x boxes, 3-4 iterations each; complete runs for every budget."
        " Lattice populations of every size up to 41; runs of 20 (60) iterations.")
ASSUMPTIONS = ["objectives are quadratic-plus-cubic with closed-form derivatives; points closer than 1e-6 but not 1e-9 to each other or to a bound are outside the domain"]

T0 = Toy(3)
PAL = [(0.55, -0.13), (0.31, 0.42), (-0.5, 0.62), (1.5, 1.5), (-0.5, -0.5), tuple(T0.C[0]), tuple(T0.C[1]), (2.7, 0.21), (0.31, 0.42 + 1e-12), (0.43, 1.5),
       (1.4999999, -0.3)]


class Metric:
    def compute(self, X=None, Y=None):
        return float(np.sum(Y))


class Skip(Exception):
    pass


def iterate(toy, X, xl, xu):
    """next population, or Skip when a comparison is too close"""
    keep = []
    for i, x in enumerate(X):
        d = [np.linalg.norm(x - X[j]) for j in keep]
        if any(1e-9 < v < 1e-7 for v in d):
            raise Skip("nearly coinciding")
        if not any(v <= 1e-9 for v in d):
            keep.append(i)
    X = X[keep]
    step = np.zeros_like(X)
    for i, x in enumerate(X):
        for v in toy.jac(x):
            L = np.linalg.norm(v)
            if 0 < L < 1e-9:
                raise Skip("nearly vanishing gradient")
            if L > 0:
                step[i] -= v / L
    size = 1.0
    for i, j in itertools.product(range(len(X)), range(X.shape[1])):
        lo, up = X[i, j] - xl[j], xu[j] - X[i, j]
        if 1e-11 < lo < 1e-9 or 1e-11 < up < 1e-9 or 0 < abs(step[i, j]) < 1e-12:
            raise Skip("nearly on a bound")
        if (lo <= 1e-11 and step[i, j] < 0) or (up <= 1e-11 and step[i, j] > 0):
            step[i, j] = 0.0
        if step[i, j] < 0:
            size = min(size, lo / -step[i, j])
        if step[i, j] > 0:
            size = min(size, up / step[i, j])
    return X + size * step, step


def run_case(res, m, X0, box, iters, ctx):
    n = X0.shape[1]
    toy = Toy(m, n)
    xl, xu = {"tight": (np.full(n, -0.5), np.full(n, 1.5)), "wide": (np.resize([-8.0, -9.0], n), np.resize([9.0, 8.0], n)),
              # the minimisers lie beyond the upper (lower) bounds, so steps lead out of the box there
              "below": (np.full(n, -2.5), np.resize([0.05, -0.5], n)), "above": (np.resize([0.4, 0.6], n), np.full(n, 3.0))}[box]
    X0 = X0 + {"below": -0.8, "above": 0.7}.get(box, 0.0)
    keep = X0.copy()
    opt = Lara(n, m, toy.func, toy.jac, xl=-0.5 if box == "tight" else xl, xu=list(xu), X0=X0, max_iters=iters, verbose=False, metrics={"M": Metric()})
    X = np.clip(keep, xl, xu)
    if not np.array_equal(X0, keep) or not np.array_equal(opt.state.primal, X):
        res.fail("init", f"initial population {opt.state.primal.tolist()}, expected {X.tolist()} (input unchanged)", ctx)
        return
    sound = True
    for t in range(iters):
        if opt.terminate():
            res.fail("terminate", f"stopped after {t} of {iters}", ctx)
            break
        X = opt.state.primal.copy()
        res.state()
        want = None
        if sound:
            try:
                want, step = iterate(toy, X, xl, xu)
            except Skip as e:
                sound = False
                res.skipped += 1
                res.outcome(f"skip:{e}")
        try:
            opt.iteration()
            opt.log()
        except Exception as e:  # noqa: BLE001
            res.fail(f"iterate:{type(e).__name__}", f"iteration {t} raised {e!r} at {X.tolist()}", ctx)
            break
        res.call()
        P = opt.state.primal
        if not np.all(np.isfinite(P)) or np.any(P < xl - 1e-9) or np.any(P > xu + 1e-9):
            res.fail("box", f"iteration {t} gives {P.tolist()}", ctx)
            break
        if not np.allclose(opt.state.Y, [toy.func(x) for x in P]) or not np.allclose(opt.state.J, [toy.jac(x) for x in P]):
            res.fail("stale", "objective values or Jacobians do not belong to the new points", ctx)
        if opt.N != len(P) or opt.iter_count != t + 1 or not (len(opt.history_X) == len(opt.history_Y) == len(opt.history_R_norm)
                                                             == len(opt.history_metrics["M"]) == t + 1):
            res.fail("history", "counters or histories do not match the iterations made", ctx)
        elif not np.array_equal(opt.history_X[-1], P) or not np.array_equal(opt.history_Y[-1], opt.state.Y) or not np.isclose(
                opt.history_metrics["M"][-1], np.sum(opt.state.Y)):
            res.fail("history", "the newest history entry is not the new population", ctx)
        if want is None:
            continue
        if P.shape != want.shape or not np.allclose(P, want, rtol=1e-8, atol=1e-9):
            res.fail("step", f"new points {P.tolist()}, expected {want.tolist()}", dict(ctx, X=X))
            break
        if not np.isclose(opt.history_R_norm[-1], np.median(np.linalg.norm(step, axis=1))):
            res.fail("rnorm", f"logged norm {opt.history_R_norm[-1]}", ctx)
        res.outcome(f"{len(P)}{np.round(np.linalg.norm(P - X[: len(P)]), 1)}")
    else:
        if not opt.terminate() or opt.stop_dict.get("iter_count") != iters:
            res.fail("terminate", f"not terminated after {iters}: {opt.stop_dict}", ctx)
    res.trace()
    res.sample(ctx)


def s_iter(m, size, box, iters, chunk, nchunks):
    res = Result()
    for q, tup in enumerate(itertools.product(range(len(PAL)), repeat=size)):
        if q % nchunks == chunk:
            run_case(res, m, np.array([PAL[i] for i in tup]), box, iters, dict(objectives=m, points=tup, box=box))
        if res.full:
            break
    return res


def s_sizes(m, n, nmax, variants, iters, sizes=None):
    """lattice populations of every size up to a bound in other numbers of decision variables; some of them on bounds"""
    res = Result()
    for N, v, box in itertools.product(sizes or range(1, nmax + 1), variants, ("tight", "wide", "below", "above")):
        X0 = lattice(N, n, v, -0.7, 1.6)
        run_case(res, m, X0, box, iters, dict(objectives=m, variables=n, N=N, variant=v, box=box))
        if res.full:
            break
    return res


def s_run():
    res = Result()
    for m, n, given, budget, dim in itertools.product((1, 2, 3), (1, 2, 3), (0, 1), (0, 1, 3, None), (2, 3)):
        toy = Toy(m, dim)
        np.random.seed(n)
        X0 = np.array([[0.2 * i + 0.1 * j for j in range(dim)] for i in range(n)]) if given else None
        opt = Lara(dim, m, toy.func, toy.jac, -2, [2.0] * dim, N=n, X0=X0, max_iters=budget, verbose=False)
        ctx = dict(m=m, n=n, given=given, budget=budget, dim=dim)
        if not given and (opt.state.primal.shape != (n, dim) or np.any(np.abs(opt.state.primal) > 2)):
            res.fail("sample", f"random initial population {opt.state.primal.tolist()}", ctx)
        X, Y, stop = opt.run()
        k = 10 * n if budget is None else budget
        res.state()
        res.call()
        res.trace()
        if opt.iter_count != k or stop.get("iter_count") != k or len(opt.history_X) != k:
            res.fail("run", f"ran {opt.iter_count} iterations, {k} expected, reported {stop}", ctx)
        if not np.array_equal(X, opt.state.primal) or not np.allclose(Y, [toy.func(x) for x in X]):
            res.fail("run", "returned points and values do not match", ctx)
        res.outcome(f"{k}{len(X)}")
    return res


SCENARIOS = dict(iter=s_iter, run=s_run, sizes=s_sizes)


def plan(tier):
    th = tier == "thorough"
    yield "run", {}
    for m, n in itertools.product((1, 2, 3), (1, 2, 3, 5)):
        yield "sizes", dict(m=m, n=n, nmax=20 if th else 10, variants=list(range(8 if th else 3)), iters=4)
    for m, n, N in itertools.product((1, 2, 3), (2, 3), range(4)):
        yield "sizes", dict(m=m, n=n, nmax=0, variants=[0], iters=4, sizes=list(range(11, 42))[N::4])
    for m, n in itertools.product((1, 2, 3), (2, 3, 4)):
        yield "sizes", dict(m=m, n=n, nmax=0, variants=[0, 1, 2], iters=60 if th else 20, sizes=[1, 4, 7])  # long runs
    for m, size, box in itertools.product((1, 2, 3), (1, 2, 3), ("tight", "wide", "below", "above")):
        nch = {1: 1, 2: 1, 3: 6}[size]
        for c in range(nch):
            yield "iter", dict(m=m, size=size, box=box, iters=4 if th or size < 3 else 3, chunk=c, nchunks=nch)
    if th:
        for m, c in itertools.product((2, 3), range(24)):
            yield "iter", dict(m=m, size=4, box="tight", iters=4, chunk=c, nchunks=24)


plan = layouts.extend(SCENARIOS, plan, layouts.s_optimiser, name="Lara")
