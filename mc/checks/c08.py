"""C08: one iteration of the hypervolume Newton method is the constrained Newton step it claims to be.

Every population (ordered tuples with repetition from a palette of decision points that contains feasible,
infeasible, active, dominated, out-of-box and beyond-reference points) is run for a few iterations under
every constraint configuration; every iteration is a transition of the real optimiser and is compared with an
independent dense model of it (partition into layers, exact hypervolume derivatives, KKT system, step bound, line
search, bookkeeping)."""
import itertools

import numpy as np

from hvd.newton import HVN
from mc import layouts
from mc.core import Result
from mc.hv_deriv import active_rows, expected
from mc.ref_hv import grid_hv, peel
from mc.toy import Cstr, OutOfDomain, Toy, lattice, newton_solve, pd_modify

PROPERTY = "C08"
RULE = ("Every ordered population with repetition of 1 to 3 (4 in the thorough tier) points from palettes of 6-9 decision "
        "points (feasible/infeasible/active/dominated/out of the box/beyond the reference) x constraint sets {none, "
        "equality, inequality, both, two each} x preconditioning x step limiting x 2-3 objectives, and lattice populations of 1-8 points "
        "in 1, 2, 3 and 5 decision variables, run for several "
        "iterations; each iteration compared with the dense model."
        " Lattice populations of every size up to 30 (2 objectives) or 14 (3); runs of 15 (40) iterations.")
ASSUMPTIONS = ["populations whose hypervolume is not twice differentiable (ties), ill-conditioned Newton systems and line-search "
               "decisions within 1e-9 of the threshold are outside the domain (counted as skipped)",
               "quadratic-plus-cubic objectives in 1-5 variables with closed-form derivatives"]


class Metric:
    def compute(self, X=None, Y=None):
        return float(np.sum(Y))


class Ref:
    """dense model of the iteration"""

    def __init__(self, toy, cs, ref, xl, xu, precond, limit, use_hess=True):
        self.t, self.c, self.ref, self.xl, self.xu = toy, cs, np.asarray(ref, float), xl, xu
        self.precond, self.limit, self.n, self.use_hess = precond, limit, toy.n, use_hess

    def cstr(self, x):
        c = self.c
        v = np.r_[c.h(x), c.g(x)]
        act = np.r_[np.ones(c.ne, bool), c.g(x) >= -1e-4]
        if np.any(np.abs(c.g(x) + 1e-4) < 1e-9) or np.any(np.abs(np.abs(c.h(x)) - 1e-4) < 1e-9):
            raise OutOfDomain("active-set threshold")
        return v, act

    def feasible(self, x):
        v, act = self.cstr(x)
        return bool(np.all(np.abs(v[: self.c.ne]) <= 1e-4) and not np.any(act[self.c.ne:]))

    def residual(self, X, hess=False):
        n, N = self.n, len(X)
        P, D = X[:, :n], X[:, n:]
        Y = np.array([self.t.func(x) for x in P])
        gap = np.abs(Y[:, None] - Y[None])
        if np.any((gap > 0) & (gap < 1e-9)):
            raise OutOfDomain("objective values tied up to rounding")
        e = expected(Y, self.ref, hess)
        if e is None:
            raise OutOfDomain("kink of the hypervolume")
        gY, HY = e
        J = np.array([self.t.jac(x) for x in P])
        grad = np.einsum("im,imk->ik", gY, J)
        A = [self.cstr(x) for x in P]
        Jc = [np.vstack([self.c.h_jac(x), self.c.g_jac(x)]) for x in P]
        R = np.zeros((N, X.shape[1]))
        for i in range(N):
            v, act = A[i]
            R[i, :n] = grad[i] + Jc[i][act].T @ D[i, act]
            R[i, n:][act] = v[act]
        if not hess:
            return R
        m = Y.shape[1]
        big = np.zeros((N * m, N * n))
        for i in range(N):
            big[i * m:(i + 1) * m, i * n:(i + 1) * n] = J[i]
        HX = big.T @ HY @ big
        for i in range(N):
            HX[i * n:(i + 1) * n, i * n:(i + 1) * n] += np.einsum("m,mab->ab", gY[i], self.t.hess(P[i]))
        return R, HX, A, Jc

    def layer_step(self, X):
        """Newton step of one layer, X with duals"""
        n, N = self.n, len(X)
        R, HX, A, Jc = self.residual(X, True)
        if self.precond:
            HX = -pd_modify(-HX)
        rows = [(i, j) for i in range(N) for j in range(len(A[i][1])) if A[i][1][j]]
        K = np.zeros((N * n + len(rows),) * 2)
        K[: N * n, : N * n] = HX
        if self.use_hess:
            for i in range(N):
                Hc = np.concatenate([self.c.h_hess(X[i, :n]), self.c.g_hess(X[i, :n])])
                for j in range(len(Hc)):
                    if A[i][1][j]:
                        K[i * n:(i + 1) * n, i * n:(i + 1) * n] += Hc[j] * X[i, n + j]
        for q, (i, j) in enumerate(rows):
            K[N * n + q, i * n:(i + 1) * n] = Jc[i][j]
            K[i * n:(i + 1) * n, N * n + q] = Jc[i][j]
        b = np.r_[R[:, :n].ravel(), [R[i, n + j] for i, j in rows]]
        s = -newton_solve(K, b)
        step = np.zeros_like(X)
        step[:, :n] = s[: N * n].reshape(N, n)
        for q, (i, j) in enumerate(rows):
            step[i, n + j] = s[N * n + q]
        return step, R

    def step_bound(self, X, step):
        if not self.limit:
            return 1.0
        P, S = X[:, : self.n], step[:, : self.n]
        best = np.inf
        for i in range(len(P)):
            for k in range(self.n):
                if min(abs(P[i, k] - self.xl[k]), abs(self.xu[k] - P[i, k])) < 1e-9 and abs(S[i, k]) < 1e-9:
                    raise OutOfDomain("numerically zero step on the boundary")
                if S[i, k] != 0:
                    d = P[i, k] - self.xl[k] if S[i, k] < 0 else self.xu[k] - P[i, k]
                    best = min(best, abs(d) / abs(S[i, k]))
        return min(1.0, 0.25 * best)

    def line_search(self, X, step, R, smax):
        p0 = np.linalg.norm(R)
        s = smax
        if abs(p0) < 1e-7:  # convergence tolerance of the search: full step either way
            if p0 > 1e-9:
                raise OutOfDomain("residual near the convergence tolerance")
            return s
        for _ in range(6):
            p = np.linalg.norm(self.residual(X + s * step))
            thr = (1 - 1e-5 * s) * p0
            if not np.isfinite(p):
                raise OutOfDomain("not finite")
            if abs(p - thr) < 1e-7 * max(1.0, p0) and not np.all(step == 0):
                raise OutOfDomain("line search threshold")
            if p <= thr:
                return s
            s /= 2
        return s

    def layers(self, X):
        P = X[:, : self.n]
        feas = np.array([self.feasible(x) for x in P])
        if not feas.any():
            return [np.arange(len(X))]
        fi = np.nonzero(feas)[0]
        fr = peel(np.array([self.t.func(P[i]) for i in fi]))
        L = [fi[fr == k] for k in range(fr.max() + 1)]
        L[0] = np.sort(np.r_[L[0], np.nonzero(~feas)[0]])
        return L

    def iterate(self, X):
        keep = []
        for i in range(len(X)):
            d = [np.linalg.norm(X[i, : self.n] - X[j, : self.n]) for j in keep]
            if any(1e-10 < v < 1e-2 for v in d):
                raise OutOfDomain("nearly coincident points")
            if not any(v <= 1e-10 for v in d):
                keep.append(i)
        X = X[keep]
        Xn = X.copy()
        sizes, Rs = np.ones(len(X)), np.zeros_like(X)
        L = self.layers(X)
        for idx in L:
            step, R = self.layer_step(X[idx])
            if np.max(np.abs(step)) > 1e6:
                raise OutOfDomain("huge step")
            a = self.line_search(X[idx], step, R, self.step_bound(X[idx], step))
            sizes[idx], Rs[idx] = a, R
            Xn[idx] = X[idx] + a * step
        return X, Xn, sizes, Rs, len(L)


PALETTES = {
    # name: points; the circle points are feasible for the equality, (2.6, 0.3) lies outside the box
    "u": [(0.55, -0.13), (0.31, 0.42), (1.17, 0.28), (-0.64, 0.77), (0.93, -0.71), (1.62, 1.49)],
    "h": [(np.cos(0.4), np.sin(0.4)), (np.cos(-0.7), np.sin(-0.7)), (np.cos(2.1), np.sin(2.1)), (0.52, 0.33), (-0.71, 1.18), (1.45, -0.36)],
    "g": [(0.81, 0.12), (1.32, -0.57), (0.64, 0.44), (-0.28, 0.37), (0.18, -0.93), (1.11, 0.83)],
    "box": [(2.6, 0.31), (0.47, -0.22), (-1.98, 1.71), (0.86, -2.3), (0.12, 0.63), (1.99, -1.97)],
}


def setting(m, kind, refname, n=2):
    toy = Toy(m, n)
    ref = {"far": [30.0, 31.0, 33.0, 35.0][:m], "near": [3.1, 2.7, 3.6, 3.4][:m]}[refname]
    return toy, Cstr(kind, n), ref


def run_case(res, toy, cs, ref, X0, precond, limit, iters, use_hess, ctx):
    X0 = np.asarray(X0, float)
    n = X0.shape[1]
    xl, xu = -2.0 * np.ones(n), 2.0 * np.ones(n)
    keep = X0.copy()
    kw = cs.kwargs(("h_hessian", "g_hessian") if use_hess else None)
    opt = HVN(n_var=n, n_obj=toy.m, func=toy.func, jac=toy.jac, hessian=toy.hess, ref=np.array(ref), xl=-2.0, xu=xu,
              X0=X0, max_iters=iters, verbose=False, preconditioning=precond, limit_max_step_size=limit,
              metrics={"M": Metric()}, **kw)
    model = Ref(toy, cs, ref, xl, xu, precond, limit, use_hess)
    X = np.c_[np.clip(keep, xl, xu), np.ones((len(X0), cs.ne + cs.ni)) / len(X0)]
    if not np.array_equal(X0, keep):
        res.fail("mutated", "the initial population passed in was modified", ctx)
    if not np.allclose(opt.state.X, X):
        res.fail("init", f"initial primal-dual points {opt.state.X.tolist()} expected {X.tolist()}", ctx)
        return
    hist = []
    checked = 0
    for t in range(iters):
        if opt.terminate():
            res.fail("terminate", f"stopped after {t} of {iters} iterations", ctx)
            return
        X = opt.state.X.copy()
        res.state()
        try:
            Xd, Xn, sizes, R, nl = model.iterate(X)
        except OutOfDomain as e:
            res.skipped += 1
            res.outcome(f"skip:{e}")
            Xd = None
            if t:
                break
        try:
            opt.iterate()
        except Exception as e:  # noqa: BLE001
            if Xd is None:
                break
            res.fail(f"iterate:{type(e).__name__}", f"iteration {t} raised {e!r} at {X.tolist()}", ctx)
            return
        res.call()
        opt.log()
        if Xd is None:
            break
        N = len(Xd)
        c = dict(ctx, iteration=t, X=X)
        if opt.N != N or opt.state.X.shape != Xn.shape:
            res.fail("duplicates", f"{opt.N} points left, {N} distinct ones in the population", c)
            return
        tol = 1e-6 * max(1.0, np.max(np.abs(Xn)), np.max(np.abs(Xn - Xd)))
        if not np.all(np.abs(opt.state.X - Xn) <= tol):
            res.fail("step", f"new points {opt.state.X.tolist()}; the Newton model gives {Xn.tolist()} (step sizes {sizes.tolist()})", c)
            return
        if limit and np.all(Xd[:, :n] >= xl) and np.all(Xd[:, :n] <= xu):
            if np.any(opt.state.primal < xl - 1e-9) or np.any(opt.state.primal > xu + 1e-9):
                res.fail("box", f"a step-limited iteration leaves the box: {opt.state.primal.tolist()}", c)
        if not np.allclose(opt.state.Y, [toy.func(x) for x in opt.state.primal]):
            res.fail("stale", "objective values do not belong to the new points", c)
        hv = grid_hv(np.array([toy.func(x) for x in Xd[:, :n]]), ref)
        if not np.isclose(opt.history_indicator_value[-1], hv, rtol=1e-9, atol=1e-9):
            res.fail("indicator", f"logged hypervolume {opt.history_indicator_value[-1]}, exact {hv}", c)
        rn = np.median(np.linalg.norm(R, axis=1))
        if not np.isclose(opt.history_R_norm[-1], rn, rtol=1e-6, atol=1e-8):
            res.fail("rnorm", f"logged residual norm {opt.history_R_norm[-1]}, model {rn}", c)
        hist.append((opt.state.primal.copy(), opt.state.Y.copy()))
        ok = (len(opt.history_X) == len(opt.history_Y) == len(opt.history_indicator_value) == len(opt.history_R_norm)
              == len(opt.history_metrics["M"]) == opt.iter_count == t + 1)
        if not ok or any(not np.array_equal(a, b[0]) for a, b in zip(opt.history_X, hist)) or any(
                not np.array_equal(a, b[1]) for a, b in zip(opt.history_Y, hist)):
            res.fail("history", "histories do not hold one entry per iteration with the iterates", c)
        if not np.isclose(opt.history_metrics["M"][-1], np.sum(opt.state.Y)):
            res.fail("history", "metric of the new population not logged", c)
        checked += 1
        res.outcome(f"N{N} L{nl} s{np.round(sizes, 3).tolist()} {cs.kind}")
    else:
        if not opt.terminate() or opt.stop_dict.get("iter_count") != iters:
            res.fail("terminate", f"not terminated after {iters} iterations: {opt.stop_dict}", ctx)
    if checked:
        res.trace()
        res.sample(ctx)


def s_iter(m, kind, pal, refname, precond, limit, size, chunk, nchunks, iters, use_hess=True):
    res = Result()
    toy, cs, ref = setting(m, kind, refname)
    P = PALETTES[pal]
    for q, tup in enumerate(itertools.product(range(len(P)), repeat=size)):
        if q % nchunks != chunk:
            continue
        run_case(res, toy, cs, ref, [P[i] for i in tup], precond, limit, iters, use_hess,
                 dict(objectives=m, constraints=kind, palette=pal, ref=ref, precondition=precond, limit=limit, points=tup))
        if res.full:
            break
    return res


def s_sizes(m, n, kind, nmax, precond, limit, variants=(0, 1, 2), iters=2, sizes=None):
    """lattice populations of every size up to a bound in other numbers of decision variables"""
    res = Result()
    toy, cs, ref = setting(m, kind, "far", n)
    for N, v in itertools.product(sizes or range(1, nmax + 1), variants):
        run_case(res, toy, cs, ref, lattice(N, n, v, -1.3, 1.4), precond, limit, iters, True,
                 dict(objectives=m, variables=n, constraints=kind, precondition=precond, limit=limit, N=N, variant=v))
        if res.full:
            break
    return res


def s_run():
    """run(): termination, return values, defaults of the iteration budget, random initial populations in the box"""
    res = Result()
    for m, kind, n, X0given, mi in itertools.product((2, 3), ("", "h", "g"), (1, 2, 3), (0, 1), (0, 1, 2, 3, None)):
        toy, cs, ref = setting(m, kind, "far")
        P = np.array(PALETTES["u"][:n])
        if mi is None and n > 1:
            continue
        np.random.seed(7 * n + m)
        opt = HVN(2, m, toy.func, toy.jac, toy.hess, np.array(ref), -2, [2.0, 2.0], N=n, X0=P if X0given else None, max_iters=mi,
                  verbose=False, **cs.kwargs())
        if not X0given and (opt.state.primal.shape != (n, 2) or np.any(np.abs(opt.state.primal) > 2)):
            res.fail("sample", f"random initial population {opt.state.primal.tolist()}", None)
        X, Y, stop = opt.run()
        k = n * 10 if mi is None else mi
        res.state()
        res.call()
        res.trace()
        if opt.iter_count != k or stop.get("iter_count") != k or len(opt.history_X) != k:
            res.fail("run", f"iteration budget {mi}, {n} points: ran {opt.iter_count}, reported {stop}", dict(m=m, kind=kind, n=n))
        if not np.array_equal(X, opt.state.primal) or not np.allclose(Y, [toy.func(x) for x in X]):
            res.fail("run", "returned points and objective values do not match", dict(m=m, kind=kind, n=n))
        res.outcome(f"{k}{len(X)}")
    return res


SCENARIOS = dict(iter=s_iter, run=s_run, sizes=s_sizes)


def plan(tier):
    yield "run", {}
    th = tier == "thorough"
    combos = []
    for m in (2, 3):
        for kind, pal, refname in (("", "u", "far"), ("", "u", "near"), ("h", "h", "far"), ("g", "g", "far"), ("hg", "h", "far"),
                                   ("G", "g", "near"), ("", "box", "far"), ("g", "box", "near"), ("hG", "h", "near")):
            for pre, lim in ((0, 0), (1, 0), (0, 1), (1, 1)):
                if not th and m == 3 and (pre and lim):
                    continue
                combos.append((m, kind, pal, refname, bool(pre), bool(lim)))
    for size in (1, 2, 3) + ((4,) if th else ()):
        for m, kind, pal, refname, pre, lim in combos:
            if size == 4 and (m == 3 or (pre and lim) or refname == "near"):
                continue
            if not th and size == 3 and m == 3 and (pre or lim):
                continue
            nch = {1: 1, 2: 1, 3: 4 if m == 3 else 2, 4: 16}[size]
            for c in range(nch):
                yield "iter", dict(m=m, kind=kind, pal=pal, refname=refname, precond=pre, limit=lim, size=size, chunk=c, nchunks=nch,
                                   iters=2 if size == 3 and not th else 3)
    for m, n, kind, (pre, lim) in itertools.product((2, 3, 4), (1, 2, 3, 5), ("", "h", "g", "hg", "H", "G", "hG"),
                                                    itertools.product((False, True), repeat=2) if th else ((False, False), (True, True))):
        if m == 4 and (n != 3 or kind not in ("", "hg") or lim and not th):
            continue
        if n > 1 or kind in ("", "h", "g"):
            yield "sizes", dict(m=m, n=n, kind=kind, nmax=(10 if th else 8) if m == 2 else 6, precond=pre, limit=lim,
                                variants=list(range(8 if th else 3)), iters=3 if th else 2)
    for m, n, kind, pre in ((2, 3, "", False), (2, 2, "h", False), (3, 3, "g", False), (3, 2, "", True)):
        for c in range(4):
            yield "sizes", dict(m=m, n=n, kind=kind, nmax=0, precond=pre, limit=True, variants=[0], iters=2,
                                sizes=list(range(9, (31 if m == 2 else 15) + 10 * th))[c::4])
    for m, n, kind in ((2, 2, ""), (2, 3, "h"), (2, 2, "g"), (3, 3, ""), (3, 3, "g"), (4, 3, "")):  # long runs
        yield "sizes", dict(m=m, n=n, kind=kind, nmax=0, precond=kind == "g", limit=True, variants=[0, 1, 2], iters=40 if th else 15,
                            sizes=[1, 3, 5] + [8] * th)
    for kind in ("h", "g", "hG"):
        yield "iter", dict(m=2, kind=kind, pal="h", refname="far", precond=False, limit=False, size=2, chunk=0, nchunks=1, iters=2, use_hess=False)


plan = layouts.extend(SCENARIOS, plan, layouts.s_optimiser, name="HVN")
