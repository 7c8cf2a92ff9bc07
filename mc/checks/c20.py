"""C20: one iteration of the maximum-mean-discrepancy Newton method.

Every population of a palette under every kernel, matching mode, constraint set and preconditioning is run for a few
iterations on the real optimiser; each iteration (a transition of the population/multipliers/targets/counters) is compared
with an independent dense model: optimal matching, target shift, exact indicator derivatives, joint KKT step of all points,
one common step size from the halving automaton, bookkeeping."""
import itertools

import numpy as np

from hvd.mmd import laplace, rational_quadratic, rbf
from hvd.mmd_newton import MMDNewton
from hvd.reference_set import ReferenceSet
from mc import layouts
from mc.checks.c09 import FAR, PAL, REFS, Metric, best_assignment, chim, make_refs
from mc.core import Result
from mc.ref_mmd import chain, derivatives, matching_value, mmd_value
from mc.toy import Cstr, OutOfDomain, Toy, lattice, newton_solve, pd_modify

PROPERTY = "C20"
RULE = ("Every ordered population of 1 to 3 points from palettes of 6-8 decision points x {matched, plain} discrepancy x kernels "
        "and length scales x constraint sets {none, equality, inequality, both, two inequalities} x preconditioning x reference "
        "sets (near, far, reached exactly, two components; given or default shift direction; plain: more or fewer targets than "
        "points) x 2-3 objectives x zero/non-zero multipliers, 2-4 iterations each, plus complete runs for every budget."
        " Lattice populations of 12 and 20 points; runs of 15 (40) iterations.")
ASSUMPTIONS = ["ties of the optimal matching, ill-conditioned systems and line-search decisions within 1e-9 of the threshold are "
               "outside the domain of the model comparison", "no clustering (as many targets as points per component when matched)"]
KERN = dict(rbf=rbf, rational_quadratic=rational_quadratic, laplace=laplace)
COMPILED = {}  # kernel derivatives compiled by earlier optimisers with the same parameters


class Model:
    def __init__(self, toy, cs, comps, eta, Y_idx, matching, precond, kernel, theta):
        self.t, self.c, self.pre, self.matching, self.kernel, self.th = toy, cs, precond, matching, kernel, theta
        self.comp = [np.array(c, float) for c in comps]
        self.Y_idx = Y_idx
        self.eta = eta or [chim(c) for c in self.comp]
        self.n = toy.n
        self.T = None  # targets in the order of the population (matched) / all targets (plain)
        self.beta = 0.25 if matching else 1.0
        self.cl = None

    def clusters(self, Y):
        if len(self.comp) == 1:
            return [(0, np.arange(len(Y)))]

        def dh(A, B):
            return max(min(np.linalg.norm(a - b) for b in B) for a in A)

        k = len(self.comp)
        C = [[dh(self.comp[i], Y[self.Y_idx[j]]) for j in range(k)] for i in range(k)]
        tot = sorted((sum(C[i][p[i]] for i in range(k)), p) for p in itertools.permutations(range(k)))
        if tot[1][0] - tot[0][0] < 1e-9:
            raise OutOfDomain("component tie")
        return [(i, np.array(self.Y_idx[tot[0][1][i]])) for i in range(k)]

    def match(self, Y):
        cl = self.clusters(Y)
        if self.cl is not None and [(c, list(i)) for c, i in cl] != [(c, list(i)) for c, i in self.cl]:
            raise OutOfDomain("component matching changes")
        out = np.zeros_like(Y)
        for c, idx in cl:
            pool = self.comp[c] if self.cl is None else self.T[idx]
            if len(idx) != len(pool):
                raise OutOfDomain("cluster sizes")
            out[idx] = best_assignment(Y[idx], pool)
        self.cl, self.T = cl, out

    def Y(self, X):
        return np.array([self.t.func(x) for x in X[:, : self.n]])

    def value(self, Y):
        if self.matching:
            return matching_value(self.kernel, Y, self.T, self.th, self.beta)
        return mmd_value(self.kernel, Y, self.T, self.th)

    def grad_hess(self, X):
        Y = self.Y(X)
        if self.kernel == "laplace":
            for P in (Y, self.T):
                d = np.abs(Y[:, None] - P[None])
                if np.any((d < 1e-9) & ~(np.eye(len(Y), len(P), dtype=bool)[:, :, None] if P is Y else np.zeros(d.shape, bool))):
                    raise OutOfDomain("kernel kink")
        gY, HY = derivatives(self.kernel, Y, self.T, self.th, self.beta, self.matching)
        P = X[:, : self.n]
        return chain(gY, HY, np.array([self.t.jac(x) for x in P]), np.array([self.t.hess(x) for x in P]))

    def residual(self, X):
        """residual rows, active Jacobians, mask, Hessian"""
        n = self.n
        g, H = self.grad_hess(X)
        R, Js, mask = np.zeros_like(X), [], np.zeros((len(X), X.shape[1] - n), bool)
        for i, x in enumerate(X):
            p = x[:n]
            v = np.r_[self.c.h(p), self.c.g(p)]
            if np.any(np.abs(self.c.g(p) + 1e-4) < 1e-9):
                raise OutOfDomain("active-set threshold")
            a = np.r_[np.ones(self.c.ne, bool), self.c.g(p) >= -1e-4]
            J = np.vstack([self.c.h_jac(p), self.c.g_jac(p)])[a]
            R[i, :n] = g[i] + J.T @ x[n:][a]
            R[i, n:][a] = v[a]
            Js.append(J)
            mask[i] = a
        return R, Js, mask, H

    def iterate(self, X, t, prev):
        n, N = self.n, len(X)
        Y = self.Y(X)
        if self.matching:
            self.match(Y)
        elif self.T is None:
            self.T = np.concatenate(self.comp)
        value = self.value(Y)
        # shift
        logged = {}
        if t == 0:
            idx = np.arange(N)
        else:
            d = np.linalg.norm(Y[:, None] - self.T[None], axis=2).min(axis=1)
            L = np.linalg.norm(prev[:, :n], axis=1)
            if np.any((d > 1e-10) & (d < 1e-6)) or np.any((L > 1e-10) & (L < 1e-6)):
                raise OutOfDomain("shift threshold")
            idx = np.nonzero((d <= 1e-8) & (L <= 1e-8))[0]
        if len(idx):
            if self.matching:
                which = np.zeros(N, int)
                for c, ii in self.cl:
                    which[ii] = c
                self.T = self.T.copy()
                for i in idx:
                    self.T[i] += 0.08 * self.eta[which[i]]
            else:
                off = np.repeat(np.arange(len(self.comp)), [len(c) for c in self.comp])
                self.T = self.T + 0.08 * np.array([self.eta[c] for c in off])
            logged = {int(i): self.T[i].copy() for i in idx if i < len(self.T)}
        if self.matching:
            self.match(Y)
        R, Js, mask, H = self.residual(X)
        if self.pre:
            H = pd_modify(H)
        k = int(mask.sum())
        A = np.zeros((k, N * n))
        r = 0
        for i, J in enumerate(Js):
            A[r:r + len(J), i * n:(i + 1) * n] = J
            r += len(J)
        K = np.block([[H, A.T], [A, np.zeros((k, k))]])
        if np.linalg.svd(K, compute_uv=False)[-1] < 1e-7:  # entries are differences of numbers of order one
            raise OutOfDomain("nearly singular system")
        s = -newton_solve(K, np.r_[R[:, :n].ravel(), R[:, n:][mask]])
        step = np.zeros_like(X)
        step[:, :n] = s[: N * n].reshape(N, n)
        D = np.zeros(mask.shape)
        D[mask] = s[N * n:]
        step[:, n:] = D
        if np.max(np.abs(step)) > 1e6:
            raise OutOfDomain("huge step")
        return X + self.search(X, R, step) * step, value, step, R, logged

    def search(self, X, R, step):
        p0, m = np.linalg.norm(R), np.max(np.abs(step))
        if m < 1e-5 or p0 < 1e-7:
            if (m > 1e-10) and (p0 > 1e-9):
                raise OutOfDomain("converged up to the tolerance")
            return 1.0
        s = 1.0
        for _ in range(6):
            p = np.linalg.norm(self.residual(X + s * step)[0])
            thr = (1 - 1e-6 * s) * p0
            if abs(p - thr) < 1e-8 * max(1.0, p0):
                raise OutOfDomain("line search threshold")
            if p <= thr:
                return s
            s /= 2
        return s


def run_case(res, m, kind, X0, matching, precond, refset, n_comp, eta_mode, iters, kernel, theta, ctx, duals=0.0, extra=0, resync=False):
    X0 = np.asarray(X0, float)
    N, n = X0.shape
    toy, cs = Toy(m, n), Cstr(kind, n)
    xl, xu = np.resize([-1.0, -1.5], n), np.resize([2.0, 1.5], n)
    comps, Y_idx = make_refs(m, N + extra, refset, n_comp)
    eta = None
    if eta_mode == "given":
        eta = [np.array([-0.6, -0.8, -0.3, -0.45][:m]), np.array([-0.9, -0.2, -0.5, -0.35][:m])][:n_comp]
    if refset == "settled":
        comps = [np.array([toy.func(x) for x in np.clip(X0, xl, xu)]) - 0.08 * eta[0]]
    try:
        model = Model(toy, cs, comps, eta, Y_idx, matching, precond, kernel, theta)
    except OutOfDomain:
        res.skipped += 1
        return
    caller = [c.copy() for c in comps]
    ref = ReferenceSet({i: c for i, c in enumerate(comps)} if n_comp > 1 else comps[0],
                       eta=None if eta is None else {i: e for i, e in enumerate(eta)}, Y_idx=Y_idx)
    kw = {k: v for k, v in cs.kwargs().items() if "hess" not in k}
    if kernel != "rbf" or theta != 1.0:
        kw.update(kernel=KERN[kernel], theta=theta)
    given = X0.copy()
    opt = MMDNewton(n, m, toy.func, toy.jac, toy.hess, ref, xl=xl.tolist(), xu=xu, X0=given, max_iters=iters, verbose=False,
                    preconditioning=precond, metrics={"M": Metric()}, matching=matching, **kw)
    key = (matching, m, N, kernel, theta, precond, len(np.concatenate(comps)), getattr(opt.indicator, "beta", None),
           getattr(opt.indicator, "theta", None))
    names = [a for a in ("_kernel_gradient", "_kernel_hessian") if a in vars(opt.indicator)]
    if key in COMPILED:
        for a in names:
            if a in COMPILED[key]:
                setattr(opt.indicator, a, COMPILED[key][a])
    elif len(names) == 2:
        COMPILED[key] = {a: getattr(opt.indicator, a) for a in names}
    X = np.c_[np.clip(X0, xl, xu), np.zeros((N, cs.ne + cs.ni))]
    if not np.array_equal(given, X0):
        res.fail("mutated", "the initial population passed in was modified", ctx)
    if opt.state.X.shape != X.shape or not np.allclose(opt.state.X, X):
        res.fail("init", f"initial primal-dual points {opt.state.X.tolist()} expected {X.tolist()}", ctx)
        return
    if duals:
        X[:, n:] = duals * (1.0 + 0.3 * np.arange(N))[:, None] * np.array([1.0, -0.7, 0.4, 0.9])[: cs.ne + cs.ni]
        opt.state.update(X.copy())
    prev, sound, done = None, True, 0
    for t in range(iters):
        if opt.terminate():
            res.fail("terminate", f"stopped after {t} of {iters} iterations", ctx)
            return
        X = opt.state.X.copy()
        res.state()
        out = None
        n_med = {k: len(v) for k, v in opt.history_medoids.items()}
        if sound:
            try:
                out = model.iterate(X, t, prev)
                prev = out[2]
            except OutOfDomain as e:
                sound = False
                res.skipped += 1
                res.outcome(f"skip:{e}")
        try:
            opt.newton_iteration()
            opt.log()
        except Exception as e:  # noqa: BLE001
            if not sound and (not np.all(np.isfinite(X)) or (n_comp == 2 and isinstance(e, AssertionError))):
                return
            res.fail(f"iterate:{type(e).__name__}", f"iteration {t} raised {e!r} at {X.tolist()}", dict(ctx, X=X))
            return
        res.call()
        P = opt.state.primal
        if not np.allclose(opt.state.Y, [toy.func(x) for x in P], equal_nan=True):
            res.fail("stale", "objective values do not belong to the new points", ctx)
        if opt.iter_count != t + 1 or not (len(opt.history_X) == len(opt.history_Y) == len(opt.history_indicator_value)
                                           == len(opt.history_R_norm) == len(opt.history_metrics["M"]) == t + 1):
            res.fail("history", "histories do not hold one entry per iteration", ctx)
        if not np.array_equal(opt.history_X[-1], P) or not np.array_equal(opt.history_Y[-1], opt.state.Y):
            res.fail("history", "the newest history entry is not the new population", ctx)
        if any(not np.array_equal(a, b) for a, b in zip(caller, comps)):
            res.fail("mutated", "the reference set passed in was modified", ctx)
            return
        if out is None:
            if resync and n_comp == 1 and np.all(np.isfinite(opt.state.X)):
                # the model goes on from the state the optimiser has reached
                model.T, prev, sound = np.array(opt.ref.reference_set), opt.step.copy(), True
                model.cl = [(0, np.arange(N))]
            continue
        Xn, value, step, R, logged = out
        c = dict(ctx, iteration=t, X=X)
        if not np.isclose(opt.history_indicator_value[-1], value, rtol=1e-7, atol=1e-9):
            res.fail("indicator", f"logged indicator {opt.history_indicator_value[-1]}, model {value}", c)
        tol = 1e-6 * max(1.0, np.max(np.abs(Xn)))
        if not np.all(np.abs(opt.state.X - Xn) <= tol):
            res.fail("step", f"new points {opt.state.X.tolist()}; the model gives {Xn.tolist()} (Newton step {step.tolist()})", c)
            return
        rn = np.median(np.linalg.norm(R, axis=1))
        if not np.isclose(opt.history_R_norm[-1], rn, rtol=1e-6, atol=1e-8):
            res.fail("rnorm", f"logged residual norm {opt.history_R_norm[-1]}, model {rn}", c)
        if opt.ref.reference_set.shape != model.T.shape or not np.allclose(opt.ref.reference_set, model.T, atol=1e-9):
            res.fail("targets", f"targets {opt.ref.reference_set.tolist()}, model {model.T.tolist()}", c)
            return
        if matching:
            new = {int(k): v[-1] for k, v in opt.history_medoids.items() if len(v) > n_med.get(k, 0)}
            if sorted(new) != sorted(logged) or any(not np.allclose(new[k], logged[k]) for k in new):
                res.fail("medoids", f"logged shifted targets {new}, model {logged}", c)
        done += 1
        moved = np.max(np.abs(opt.state.X - X)) > 1e-12
        res.outcome(f"{len(logged)} {moved} {np.round(np.linalg.norm(opt.state.X - X) / max(np.linalg.norm(step), 1e-300), 3)}")
    if not opt.terminate() or opt.stop_dict.get("iter_count") != iters:
        res.fail("terminate", f"not terminated after {iters} iterations: {opt.stop_dict}", ctx)
    if done:
        res.trace()
        res.sample(ctx)


SYM = [(0.3, -0.3), (-0.3, 0.3), (0.7, 0.7), (0.0, 0.0), (1.0, -1.0), (-0.5, 0.5)]


def s_iter(m, kind, pal, matching, precond, refset, n_comp, eta_mode, size, iters, kernel="rbf", theta=1.0, chunk=0, nchunks=1, duals=0.0,
           extra=0):
    res = Result()
    P = PAL[pal]
    for q, tup in enumerate(itertools.permutations(range(len(P)), size)):
        if q % nchunks != chunk:
            continue
        run_case(res, m, kind, [P[i] for i in tup], matching, precond, refset, n_comp, eta_mode, iters, kernel, theta,
                 dict(objectives=m, constraints=kind, palette=pal, matching=matching, precondition=precond, refset=refset,
                      components=n_comp, eta=eta_mode, points=tup, duals=duals, kernel=kernel, theta=theta, extra=extra), duals, extra)
        if res.full:
            break
    return res


def s_sizes(m, n, kind, matching, precond, n_comp, nmax, variants, iters, extra=0, sizes=None, resync=False):
    """lattice populations of every size up to a bound in other numbers of decision variables"""
    res = Result()
    for N, v in itertools.product(sizes or range(n_comp, nmax + 1), variants):
        run_case(res, m, kind, lattice(N, n, v, -0.9, 1.45), matching, precond, "near", n_comp, "given", iters, "rbf", 1.0,
                 dict(objectives=m, variables=n, constraints=kind, matching=matching, precondition=precond, components=n_comp, N=N, variant=v,
                      extra=extra), 0.0, extra, resync)
        if res.full:
            break
    return res


class Mirror:
    """x -> -x exchanges the objectives, so the steps of a mirrored population {p, -p} are opposite (their median is zero)"""

    n, m = 2, 2
    c = np.array([1.0, 0.4])

    def func(self, x):
        x = np.asarray(x)
        return np.array([np.sum((x - self.c) ** 2), np.sum((x + self.c) ** 2)]) + 0.5 * np.sum(x**4)

    def jac(self, x):
        x = np.asarray(x)
        return np.array([2 * (x - self.c), 2 * (x + self.c)]) + 2.0 * x**3

    def hess(self, x):
        return np.array([np.eye(2) * 2 + np.diag(6 * np.asarray(x) ** 2)] * 2)


def s_mirror():
    """populations whose median step component vanishes by symmetry: the search must still be made"""
    res = Result()
    for a, b, th, pre in itertools.product((-0.6, 0.2, 0.55, 1.1), (-0.2, 0.4, 0.9, 1.6), (0.3, 1.0, 3.0), (False, True)):
        toy, cs = Mirror(), Cstr("")
        T = np.array([[-0.5, 1.9], [1.9, -0.5]])
        eta = [np.array([-0.7, -0.7])]
        ctx = dict(a=a, b=b, theta=th, precondition=pre)
        X0 = np.array([(a, b), (-a, -b)])
        opt = MMDNewton(2, 2, toy.func, toy.jac, toy.hess, ReferenceSet(T.copy(), eta={0: eta[0]}), xl=-3, xu=3.0, X0=X0, max_iters=3,
                        verbose=False, preconditioning=pre, theta=th)
        model = Model(toy, cs, [T], eta, None, True, pre, "rbf", th)
        prev = None
        for t in range(3):
            X = opt.state.X.copy()
            res.state()
            try:
                Xn, value, prev, _, _ = model.iterate(X, t, prev)
            except OutOfDomain as e:
                res.skipped += 1
                res.outcome(f"skip:{e}")
                break
            opt.newton_iteration()
            opt.log()
            res.call()
            if not np.all(np.abs(opt.state.X - Xn) <= 1e-6 * max(1.0, np.max(np.abs(Xn)))):
                res.fail("mirror", f"new points {opt.state.X.tolist()}; the model gives {Xn.tolist()} (Newton step {prev.tolist()})", ctx)
                break
            res.outcome(f"{np.round(np.linalg.norm(Xn - X) / np.linalg.norm(prev), 3)}")
        res.trace()
        res.sample(ctx)
    return res


def s_run():
    res = Result()
    for m, kind, n, given, mi, matching in itertools.product((2, 3), ("", "h", "g"), (1, 2), (0, 1), (0, 1, 2, None), (True, False)):
        toy, cs = Toy(m), Cstr(kind)
        if mi is None and (n > 1 or kind):
            continue
        np.random.seed(7 * n + m)
        ref = ReferenceSet(np.array(REFS[m][:n]), eta={0: -np.ones(m) / np.sqrt(m)})
        kw = {k: v for k, v in cs.kwargs().items() if "hess" not in k}
        opt = MMDNewton(2, m, toy.func, toy.jac, toy.hess, ref, -2, [2.0, 2.0], N=n, X0=np.array(PAL["in"][:n]) if given else None,
                        max_iters=mi, verbose=False, matching=matching, **kw)
        ctx = dict(m=m, kind=kind, n=n, budget=mi, matching=matching)
        if not given and (opt.state.primal.shape != (n, 2) or np.any(np.abs(opt.state.primal) > 2)):
            res.fail("sample", f"random initial population {opt.state.primal.tolist()}", ctx)
        X, Y, stop = opt.run()
        k = n * 10 if mi is None else mi
        res.state()
        res.call()
        res.trace()
        if opt.iter_count != k or stop.get("iter_count") != k or len(opt.history_X) != k:
            res.fail("run", f"iteration budget {mi}, {n} points: ran {opt.iter_count}, reported {stop}", ctx)
        if not np.array_equal(X, opt.state.primal) or not np.allclose(Y, [toy.func(x) for x in X]):
            res.fail("run", "returned points and objective values do not match", ctx)
        res.outcome(f"{k}{len(X)}")
    return res


SCENARIOS = dict(iter=s_iter, run=s_run, mirror=s_mirror, sizes=s_sizes)


def plan(tier):
    yield "run", {}
    yield "mirror", {}
    th = tier == "thorough"
    kernels = (("rbf", 1.0), ("rational_quadratic", 0.6), ("rbf", 0.15)) + ((("laplace", 0.4), ("rational_quadratic", 2.0)) if th else ())
    for size in (1, 2, 3):
        for m, (kind, pal), matching, pre in itertools.product(
                (2, 3), (("", "in"), ("", "box"), ("g", "cstr"), ("h", "cstr"), ("hg", "cstr"), ("G", "in")), (True, False), (False, True)):
            for q, (kernel, theta) in enumerate(kernels):
                for refset, n_comp, eta, extra in (("near", 1, "given", 0), ("far", 1, "given", 0), ("near", 1, "default", 0), ("near", 2, "given", 0),
                                                   ("near", 1, "given", 1), ("near", 1, "given", -1)):
                    if (n_comp == 2 and size < 2) or (eta == "default" and size < m) or (extra and (matching or size + extra < 1)):
                        continue
                    if not th and (size == 3 and (m == 3 or pre or q or kind not in ("", "g")) or (q and (pre or n_comp == 2 or pal == "box"))
                                   or (pre and (refset != "near" or n_comp == 2)) or (refset == "far" and q == 0)):
                        continue
                    nch = {1: 1, 2: 1, 3: 3}[size]
                    for c in range(nch):
                        yield "iter", dict(m=m, kind=kind, pal=pal, matching=matching, precond=pre, refset=refset, n_comp=n_comp, eta_mode=eta,
                                           size=size, iters=3 if th or size == 1 else 2, kernel=kernel, theta=theta, chunk=c, nchunks=nch, extra=extra)
    for m, n, matching in itertools.product((2, 3, 4), (1, 2, 3, 5), (True, False)):
        if m == 4 and n != 3:
            continue
        for kind, pre in (("", False), ("h", False), ("g", True))[: 3 if n == 3 else 1] if not th else itertools.product(("", "h", "g", "hG"), (False, True)):
            if n == 1 and kind == "hG":
                continue
            for n_comp, extra in ((1, 0), (2, 0), (1, 2))[: 3 if not matching else 2] if th or n == 3 else ((1, 0),):
                yield "sizes", dict(m=m, n=n, kind=kind, matching=matching, precond=pre, n_comp=n_comp, nmax=8 if th else 6,
                                    variants=[0, 1, 2, 3] if th else [0, 1], iters=3 if th else 2, extra=extra)
    for (m, n, kind), matching, n_comp in itertools.product(((2, 3, ""), (3, 2, "h")), (True, False), (1, 2)):
        for N in [12, 20] + [32] * th:
            yield "sizes", dict(m=m, n=n, kind=kind, matching=matching, precond=False, n_comp=n_comp, nmax=0, variants=[0], iters=2, sizes=[N])
    # long runs: the model takes the state over wherever an iterate is too close to a threshold to be judged
    for (m, n, kind), matching in itertools.product(((2, 2, ""), (2, 3, "h"), (2, 2, "g"), (3, 3, ""), (3, 3, "g")), (True, False)):
        yield "sizes", dict(m=m, n=n, kind=kind, matching=matching, precond=kind != "h", n_comp=1, nmax=0, variants=[0, 1, 2], iters=40 if th else 15,
                            sizes=[3, 4], resync=True)
    for m, kind, matching, duals in itertools.product((2, 3), ("", "h", "g", "hg"), (True, False), (0.0, 0.6)):
        if duals and not kind:
            continue
        for size in (1, 2, 3) if th else (1, 2):
            yield "iter", dict(m=m, kind=kind, pal="on", matching=matching, precond=False, refset="settled", n_comp=1, eta_mode="given",
                               size=size, iters=4, duals=duals)


plan = layouts.extend(SCENARIOS, plan, layouts.s_optimiser, name="MMDNewton")
