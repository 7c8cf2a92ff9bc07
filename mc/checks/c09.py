"""C09: one iteration of the averaged-Hausdorff (Delta_p) Newton method.

Every population of a palette (interior, face, edge and corner points of the box; feasible and infeasible) under
every indicator type, constraint set and preconditioning is run for a few iterations on the real optimiser; each
iteration is compared with an independent model (optimal matching, target shift, per-point KKT step, projection on the
box, line search, bookkeeping), and the box invariant is evaluated on every iterate."""
import itertools

import numpy as np

from hvd.newton import DpN
from hvd.reference_set import ReferenceSet
from mc import layouts
from mc.assign import two_best
from mc.core import Result
from mc.toy import Cstr, OutOfDomain, Toy, lattice, newton_solve, pd_modify

PROPERTY = "C09"
RULE = ("Every ordered population without repetition of 1 to 3 points from palettes of 6-8 decision points (incl. every "
        "kind of box face/corner) x indicator type {generational, inverted, averaged Hausdorff} x constraint sets x "
        "preconditioning x reference sets (one or two components, given or default shift direction) x 2-3 objectives, "
        "2-3 iterations each."
        " Lattice populations of every size up to 25; runs of 15 (40) iterations, the model taking over the state wherever an iterate is too close to a threshold.")
ASSUMPTIONS = ["ties of the optimal matching / nearest target, ill-conditioned systems and line-search decisions within 1e-9 of "
               "the threshold are outside the domain of the model comparison (box invariance is still evaluated)",
               "as many reference points as approximation points per component (no clustering)"]


class Metric:
    def compute(self, X=None, Y=None):
        return float(np.sum(Y))


def chim(R):
    """unit normal of the hyperplane through the individual minimisers, all components nonpositive"""
    Z = R[R.argmin(axis=0)]
    M = Z[1:] - Z[0]
    if np.linalg.matrix_rank(M) < len(M):
        raise OutOfDomain("degenerate reference set")
    n = -np.abs(np.linalg.svd(M)[2][-1])
    return n / np.linalg.norm(n)


def best_assignment(Y, T):
    """optimal assignment of the rows of T to the rows of Y (sum of distances)"""
    D = np.linalg.norm(Y[:, None] - T[None], axis=2)
    costs = two_best(D)
    if len(costs) > 1 and costs[1][0] - costs[0][0] < 1e-9 * max(1, costs[0][0]):
        raise OutOfDomain("matching tie")
    return T[list(costs[0][1])]


class Ref:
    def __init__(self, toy, cs, targets, eta, Y_idx, type, xl, xu, precond, use_hess=True):
        self.t, self.c, self.type, self.xl, self.xu, self.pre = toy, cs, type, xl, xu, precond
        self.comp = [np.array(t, float) for t in targets]  # per component
        self.Y_idx = Y_idx
        self.eta = eta or [chim(c) for c in self.comp]
        self.n = toy.n
        self.matched = None  # targets in the order of the population
        self.use_hess = use_hess

    def clusters(self, Y):
        if len(self.comp) == 1:
            return [(0, np.arange(len(Y)))]
        # optimal matching of components by directed Hausdorff distance
        def dh(A, B):
            return max(min(np.linalg.norm(a - b) for b in B) for a in A)

        k = len(self.comp)
        C = [[dh(self.comp[i], Y[self.Y_idx[j]]) for j in range(k)] for i in range(k)]
        tot = sorted((sum(C[i][p[i]] for i in range(k)), p) for p in itertools.permutations(range(k)))
        if tot[1][0] - tot[0][0] < 1e-9:
            raise OutOfDomain("component tie")
        return [(i, np.array(self.Y_idx[tot[0][1][i]])) for i in range(k)]

    def match(self, Y):
        out = np.zeros_like(Y)
        if self.matched is None:
            self.cl = self.clusters(Y)
            for c, idx in self.cl:
                if len(idx) != len(self.comp[c]):
                    raise OutOfDomain("cluster sizes")
                out[idx] = best_assignment(Y[idx], self.comp[c])
        else:
            cl = self.clusters(Y)
            if [(c, list(i)) for c, i in cl] != [(c, list(i)) for c, i in self.cl]:
                raise OutOfDomain("component matching changes")
            for c, idx in cl:
                out[idx] = best_assignment(Y[idx], self.matched[idx])
        return out

    def nearest(self, Y, T):
        D = np.linalg.norm(Y[:, None] - T[None], axis=2)
        S = np.sort(D, axis=1)
        if T.shape[0] > 1 and np.any(S[:, 1] - S[:, 0] < 1e-9):
            raise OutOfDomain("nearest-target tie")
        return T[D.argmin(axis=1)], D.min(axis=1)

    def cstr(self, x):
        v = np.r_[self.c.h(x), self.c.g(x)]
        if np.any(np.abs(self.c.g(x) + 1e-4) < 1e-9):
            raise OutOfDomain("active-set threshold")
        return v, np.r_[np.ones(self.c.ne, bool), self.c.g(x) >= -1e-4]

    def targets(self, Y, which):
        """the line search keeps the matching of the iterate"""
        return self.nearest(Y, self.matched)[0] if which == "gd" else self.matched

    def residual_i(self, X, i, which):
        P = X[:, : self.n]
        Y = np.array([self.t.func(x) for x in P])
        T = self.targets(Y, which)
        w = 2.0 / len(X) if which == "gd" else 2.0
        d = Y[i] - T[i]
        J = self.t.jac(P[i])
        v, act = self.cstr(P[i])
        Jc = np.vstack([self.c.h_jac(P[i]), self.c.g_jac(P[i])])[act]
        r = w * J.T @ d + Jc.T @ X[i, self.n:][act]
        Hm = w * (J.T @ J + np.einsum("m,mab->ab", d, self.t.hess(P[i])))
        return np.r_[r, v[act]], Hm, Jc, act

    def newton(self, X, i, which):
        n = self.n
        R, Hm, Jc, act = self.residual_i(X, i, which)
        if self.pre:
            Hm = pd_modify(Hm)
        if self.use_hess:
            Hc = np.concatenate([self.c.h_hess(X[i, :n]), self.c.g_hess(X[i, :n])])
            for j in range(len(Hc)):
                if act[j]:
                    Hm = Hm + Hc[j] * X[i, n + j]
        k = len(Jc)
        K = np.block([[Hm, Jc.T], [Jc, np.zeros((k, k))]]) if k else Hm
        s = -newton_solve(K, R)
        step = np.zeros(X.shape[1])
        step[:n] = s[:n]
        step[n:][act] = s[n:]
        Rf = np.zeros(X.shape[1])
        Rf[:n] = R[:n]
        Rf[n:][act] = R[n:]
        return step, R, Rf

    def box(self, x, step):
        p, s = x[: self.n], step[: self.n]
        lo, up = p - self.xl, self.xu - p
        if np.any((lo > 0) & (lo < 1e-10)) or np.any((up > 0) & (up < 1e-10)):
            raise OutOfDomain("almost on the boundary")
        if np.any(((lo == 0) | (up == 0)) & (np.abs(s) < 1e-9) & (s != 0)):
            raise OutOfDomain("numerically zero component on the boundary")
        step = step.copy()
        step[: self.n][((lo == 0) & (s < 0)) | ((up == 0) & (s > 0))] = 0
        s = step[: self.n]
        r = [lo[k] / -s[k] if s[k] < 0 else up[k] / s[k] if s[k] > 0 else np.inf for k in range(self.n)]
        return step, min(1.0, min(r))

    def line_search(self, X, i, step, R, smax, which):
        p0 = np.linalg.norm(R)
        if p0 < 1e-7:
            if p0 > 1e-9:
                raise OutOfDomain("residual near the convergence tolerance")
            return smax
        s, phi = [0.0, smax], [p0]
        for _ in range(8):
            Z = X.copy()
            Z[i] = X[i] + s[-1] * step
            p = np.linalg.norm(self.residual_i(Z, i, which)[0])
            phi.append(p)
            thr = (1 - 1e-4 * s[-1]) * p0
            if abs(p - thr) < 1e-8 * max(1, p0) and np.any(step):
                raise OutOfDomain("line search threshold")
            if p <= thr:
                return s[-1]
            # safeguarded cubic interpolation
            a, b, fa, fb = s[-2], s[-1], phi[-2], phi[-1]
            d1 = -fa - fb - 3 * (fa - fb) / (a - b)
            rad = d1**2 - fa * fb
            if abs(rad) < 1e-9:
                raise OutOfDomain("interpolation")
            d2 = np.sign(b - a) * np.sqrt(rad) if rad > 0 else np.nan
            c = b - (b - a) * (-fb + d2 - d1) / (-fb + fa + 2 * d2)
            s.append(0.5 * b if np.isnan(c) else float(np.clip(c, 0.4 * b, 0.6 * b)))
        return s[-1]

    def iterate(self, X, t, prev_step):
        n, N = self.n, len(X)
        Y = np.array([self.t.func(x) for x in X[:, :n]])
        pool = np.concatenate(self.comp) if self.matched is None else self.matched
        gd = np.sqrt(np.mean(self.nearest(Y, pool)[1] ** 2))
        self.matched = self.match(Y)
        igd = np.mean(np.sum((Y - self.matched) ** 2, axis=1))
        if t == 0:
            mask = np.ones(N, bool)
        else:
            d = np.linalg.norm(Y - self.matched, axis=1)
            L = np.linalg.norm(prev_step[:, :n], axis=1)
            if np.any((d > 1e-10) & (d < 1e-6)) or np.any((L > 1e-10) & (L < 1e-6)):
                raise OutOfDomain("shift threshold")
            mask = (d <= 1e-8) & (L <= 1e-8)
        comp = np.zeros(N, int)
        for c, idx in self.cl:
            comp[idx] = c
        for i in np.nonzero(mask)[0]:
            self.matched[i] = self.matched[i] + (0.08 if t == 0 else 0.05) * self.eta[comp[i]]
        which = self.type
        if which == "deltap":
            if abs(gd - igd) < 1e-9:
                raise OutOfDomain("indicator tie")
            which = "gd" if gd > igd else "igd"
        if which == "igd":
            self.matched = self.match(Y)
        steps, sizes, R = np.zeros_like(X), np.ones(N), np.zeros_like(X)
        Rl = []
        bounds = []
        for i in range(N):
            s, r, R[i] = self.newton(X, i, which)
            if np.max(np.abs(s)) > 1e6:
                raise OutOfDomain("huge step")
            s, b = self.box(X[i], s)
            steps[i] = s
            Rl.append(r)
            bounds.append(b)
        if np.max(np.abs(steps)) < 1e-6:
            if np.max(np.abs(steps)) > 1e-10:
                raise OutOfDomain("step threshold")
        else:
            for i in range(N):
                sizes[i] = self.line_search(X, i, steps[i], Rl[i], bounds[i], which)
        # trial points re-match; targets stay the same set.  The next match starts from that set.
        return X + sizes[:, None] * steps, gd, igd, steps, sizes, R, which


PAL = {
    "in": [(0.55, -0.13), (0.31, 0.42), (1.17, 0.28), (-0.64, 0.77), (0.93, -0.71), (1.42, 1.19)],
    "box": [(-0.5, -0.5), (1.5, 1.5), (-0.5, 0.62), (0.43, 1.5), (1.5, -0.5), (2.7, 0.21), (0.35, -1.1), (-0.5, 1.5)],
    # on / near both constraint surfaces
    "on": [(np.cos(0.9), np.sin(0.9)), (0.398, 0.7), (np.cos(-0.3), np.sin(-0.3)), (0.3 + 0.2 * 0.16, -0.4), (0.64, 0.44), (0.9, -0.2)],
    "cstr": [(0.81, 0.12), (np.cos(0.9), np.sin(0.9)), (0.64, 0.44), (-0.28, 0.37), (1.32, -0.17), (0.22, -0.43)],
}
REFS = {
    2: [(-0.3, 0.9), (0.37, 0.11), (1.31, -0.42), (0.1, 0.35)],
    3: [(-0.2, 0.9, 0.4), (0.47, 0.11, 0.6), (1.1, 0.52, -0.3), (0.3, 0.2, 0.2)],
    4: [(-0.2, 0.9, 0.4, 0.1), (0.47, 0.11, 0.6, 0.8), (1.1, 0.52, -0.3, 0.4), (0.3, 0.2, 0.2, -0.1)],
}
# one step may be attracted by far-away targets as well (several halvings)
FAR = {2: [(-4.0, 3.0), (-1.0, -2.5), (5.0, -3.7), (2.0, -6.0)], 3: [(-4.0, 3.0, 1.0), (-1.0, -2.5, 2.0), (5.0, -3.7, -2.0), (1, 1, -4.0)],
       4: [(-4.0, 3.0, 1.0, 0.5), (-1.0, -2.5, 2.0, 3.0), (5.0, -3.7, -2.0, 1.0), (1, 1, -4.0, -2.0)]}


def make_refs(m, N, refset, n_comp):
    T = np.array((REFS if refset != "far" else FAR)[m][: max(N, 1)])
    if N > len(T):
        T = lattice(N, m, 0.5, -0.4, 1.3)
    if n_comp == 2:  # two far apart components, clusters of the population given
        k = N // 2
        comps = [T[:k], T[k:] + 3.0]
        return comps, [list(range(N - k, N))[:k], list(range(0, N - k))] if k != N - k else [list(range(k, N)), list(range(k))]
    return [T], None


def run_case(res, m, kind, X0, type, precond, refset, n_comp, eta_mode, iters, use_hess, ctx, duals=0.0, resync=False):
    X0 = np.asarray(X0, float)
    n = X0.shape[1]
    toy, cs = Toy(m, n), Cstr(kind, n)
    xl, xu = np.full(n, -0.5), np.full(n, 1.5)
    N = len(X0)
    comps, Y_idx = make_refs(m, N, refset, n_comp)
    eta = None
    if eta_mode == "given":
        base = [np.array([-0.6, -0.8, -0.3, -0.45][:m]), np.array([-0.9, -0.2, -0.5, -0.35][:m])]
        eta = base[:n_comp]
    keep = X0.copy()
    if refset == "settled":  # the first shift moves every target exactly onto the image of one point
        comps = [np.array([toy.func(x) for x in np.clip(X0, xl, xu)]) - 0.08 * eta[0]]
    try:
        model = Ref(toy, cs, comps, eta, Y_idx, type, xl, xu, precond, use_hess)
    except OutOfDomain:
        res.skipped += 1
        return
    ref = ReferenceSet({i: c.copy() for i, c in enumerate(comps)} if n_comp > 1 else comps[0].copy(),
                       eta=None if eta is None else {i: e for i, e in enumerate(eta)}, Y_idx=Y_idx)
    kw = cs.kwargs(("h_hessian", "g_hessian") if use_hess else None)
    opt = DpN(n, m, toy.func, toy.jac, toy.hess, ref, xl=-0.5, xu=xu, type=type, x0=X0, max_iters=iters, verbose=False,
              preconditioning=precond, metrics={"M": Metric()}, **kw)
    X = np.c_[np.clip(keep, xl, xu), np.zeros((N, cs.ne + cs.ni))]
    if not np.array_equal(X0, keep):
        res.fail("mutated", "the initial population passed in was modified", ctx)
    if not np.allclose(opt.state.X, X):
        res.fail("init", f"initial primal-dual points {opt.state.X.tolist()} expected {X.tolist()}", ctx)
        return
    if duals:
        X[:, n:] = duals * (1.0 + 0.3 * np.arange(N))[:, None] * np.array([1.0, -0.7, 0.4, 0.9])[: cs.ne + cs.ni]
        opt.state.update(X.copy())
    prev = None
    sound, reason = True, None
    done = 0
    for t in range(iters):
        if opt.terminate():
            res.fail("terminate", f"stopped after {t} of {iters} iterations", ctx)
            return
        X = opt.state.X.copy()
        res.state()
        out = None
        if sound:
            try:
                out = model.iterate(X, t, prev)
                prev = out[3]
            except OutOfDomain as e:
                sound, reason = False, str(e)
                res.skipped += 1
                res.outcome(f"skip:{e}")
        try:
            opt.newton_iteration()
            opt.log()
        except Exception as e:  # noqa: BLE001
            if not sound and ((n_comp == 2 and isinstance(e, AssertionError)) or not np.all(np.isfinite(X))):
                return
            res.fail(f"iterate:{type_name(e)}", f"iteration {t} raised {e!r} at {X.tolist()}", dict(ctx, X=X))
            return
        res.call()
        P = opt.state.primal
        if np.any(P < xl - 1e-7) or np.any(P > xu + 1e-7):
            res.fail("box", f"iteration {t} leaves the box [{xl.tolist()}, {xu.tolist()}]: {P.tolist()}", dict(ctx, X=X))
            return
        if not np.allclose(opt.state.Y, [toy.func(x) for x in P], equal_nan=True):
            res.fail("stale", "objective values do not belong to the new points", ctx)
        if opt.iter_count != t + 1 or not (len(opt.history_X) == len(opt.history_Y) == len(opt.history_indicator_value)
                                           == len(opt.history_R_norm) == len(opt.history_metrics["M"]) == t + 1):
            res.fail("history", "histories do not hold one entry per iteration", ctx)
        if not np.array_equal(opt.history_X[-1], P) or not np.array_equal(opt.history_Y[-1], opt.state.Y):
            res.fail("history", "the newest history entry is not the new population", ctx)
        if out is None:
            if resync and n_comp == 1 and np.all(np.isfinite(opt.state.X)):
                # the model goes on from the state the optimiser has reached
                model.matched, model.cl, prev, sound = np.array(opt.ref.reference_set), [(0, np.arange(N))], opt.step.copy(), True
            continue
        Xn, gd, igd, steps, sizes, R, which = out
        c = dict(ctx, iteration=t, X=X)
        if not np.isclose(opt.history_indicator_value[-1], max(gd, igd), rtol=1e-8, atol=1e-10):
            res.fail("indicator", f"logged indicator {opt.history_indicator_value[-1]}, model max({gd}, {igd})", c)
        tol = 1e-6 * max(1.0, np.max(np.abs(Xn)))
        if not np.all(np.abs(opt.state.X - Xn) <= tol):
            res.fail("step", f"new points {opt.state.X.tolist()}; the model ({which}) gives {Xn.tolist()} (step sizes {sizes.tolist()})", c)
            return
        rn = np.median(np.linalg.norm(R, axis=1))
        if not np.isclose(opt.history_R_norm[-1], rn, rtol=1e-6, atol=1e-8):
            res.fail("rnorm", f"logged residual norm {opt.history_R_norm[-1]}, model {rn}", c)
        # the set of targets (unordered when re-matched by trial points)
        got = np.array(sorted(opt.ref.reference_set.tolist()))
        exp = np.array(sorted(model.matched.tolist()))
        if got.shape != exp.shape or not np.allclose(got, exp, atol=1e-9):
            res.fail("targets", f"targets {got.tolist()}, model {exp.tolist()}", c)
            return
        done += 1
        res.outcome(f"{which} s{np.round(sizes, 2).tolist()}")
    if not opt.terminate() or opt.stop_dict.get("iter_count") != iters:
        res.fail("terminate", f"not terminated after {iters} iterations: {opt.stop_dict}", ctx)
    if done:
        res.trace()
        res.sample(ctx)


def type_name(e):
    return type(e).__name__


def s_iter(m, kind, pal, type, precond, refset, n_comp, eta_mode, size, iters, use_hess=True, chunk=0, nchunks=1, duals=0.0):
    res = Result()
    P = PAL[pal]
    for q, tup in enumerate(itertools.permutations(range(len(P)), size)):
        if q % nchunks != chunk:
            continue
        run_case(res, m, kind, [P[i] for i in tup], type, precond, refset, n_comp, eta_mode, iters, use_hess,
                 dict(objectives=m, constraints=kind, palette=pal, type=type, precondition=precond, refset=refset,
                      components=n_comp, eta=eta_mode, points=tup, duals=duals), duals)
        if res.full:
            break
    return res


def s_sizes(m, n, kind, type, precond, n_comp, nmax, variants, iters, duals=0.0, sizes=None, resync=False):
    """lattice populations of every size up to a bound in other numbers of decision variables"""
    res = Result()
    for N, v in itertools.product(sizes or range(n_comp, nmax + 1), variants):
        run_case(res, m, kind, lattice(N, n, v, -0.45, 1.45), type, precond, "near", n_comp, "given", iters, True,
                 dict(objectives=m, variables=n, constraints=kind, type=type, precondition=precond, components=n_comp, N=N, variant=v, duals=duals), duals, resync)
        if res.full:
            break
    return res


def s_run():
    res = Result()
    for m, kind, n, given, mi in itertools.product((2, 3), ("", "h", "g"), (1, 2, 3), (0, 1), (0, 1, 2, None)):
        toy, cs = Toy(m), Cstr(kind)
        if mi is None and n > 1:
            continue
        np.random.seed(7 * n + m)
        ref = ReferenceSet(np.array(REFS[m][:n]), eta={0: -np.ones(m) / np.sqrt(m)})
        opt = DpN(2, m, toy.func, toy.jac, toy.hess, ref, -2, [2.0, 2.0], N=n, x0=np.array(PAL["in"][:n]) if given else None,
                  max_iters=mi, verbose=False, **cs.kwargs())
        if not given and (opt.state.primal.shape != (n, 2) or np.any(np.abs(opt.state.primal) > 2)):
            res.fail("sample", f"random initial population {opt.state.primal.tolist()}", None)
        X, Y, stop = opt.run()
        k = n * 10 if mi is None else mi
        res.state()
        res.call()
        res.trace()
        if opt.iter_count != k or stop.get("iter_count") != k or len(opt.history_X) != k:
            res.fail("run", f"iteration budget {mi}, {n} points: ran {opt.iter_count}, reported {stop}", dict(m=m, kind=kind, n=n))
        if not np.array_equal(X, opt.state.primal) or not np.allclose(Y, [toy.func(x) for x in X]):
            res.fail("run", "returned points and objective values do not match", dict(m=m, kind=kind, n=n))
        res.outcome(f"{k}{len(X)}")
    return res


SCENARIOS = dict(iter=s_iter, run=s_run, sizes=s_sizes)


def plan(tier):
    yield "run", {}
    th = tier == "thorough"
    for size in (1, 2, 3):
        for m, (kind, pal), type, pre in itertools.product(
                (2, 3), (("", "in"), ("", "box"), ("g", "cstr"), ("h", "cstr"), ("hg", "cstr"), ("G", "in"), ("g", "box")),
                ("gd", "igd", "deltap"), (False, True)):
            for refset, n_comp, eta in (("near", 1, "given"), ("far", 1, "given"), ("near", 1, "default"), ("near", 2, "given")):
                if n_comp == 2 and size < 2:
                    continue
                if eta == "default" and size < m:
                    continue
                if not th and size == 3 and (m == 3 or pre or type == "gd" or (kind not in ("", "g"))):
                    continue
                if not th and (pre and (refset != "near" or n_comp == 2)):
                    continue
                nch = {1: 1, 2: 1, 3: 3}[size]
                for c in range(nch):
                    yield "iter", dict(m=m, kind=kind, pal=pal, type=type, precond=pre, refset=refset, n_comp=n_comp, eta_mode=eta,
                                       size=size, iters=3 if th or size == 1 else 2, chunk=c, nchunks=nch)
    for m, n, kind, type, pre in itertools.product((2, 3, 4), (1, 2, 3, 5), ("", "h", "g", "hG"), ("gd", "igd", "deltap"), (False, True)):
        if (n == 1 and kind == "hG") or (not th and pre and kind) or (m == 4 and n != 3):
            continue
        for n_comp in (1, 2) if th or (n == 3 and not pre) else (1,):
            yield "sizes", dict(m=m, n=n, kind=kind, type=type, precond=pre, n_comp=n_comp, nmax=9 if th else 7,
                                variants=list(range(8 if th else 2)), iters=3 if th else 2, duals=0.4 if n == 2 and kind else 0.0)
    for (m, n, kind), type, n_comp in itertools.product(((2, 3, ""), (3, 2, "h"), (2, 2, "g")), ("gd", "igd", "deltap"), (1, 2)):
        for c in range(2):
            yield "sizes", dict(m=m, n=n, kind=kind, type=type, precond=False, n_comp=n_comp, nmax=0, variants=[0], iters=2,
                                sizes=list(range(8, 41 if th else 26))[c::2])
    # long runs: the model takes the state over wherever an iterate is too close to a threshold to be judged
    for (m, n, kind), type in itertools.product(((2, 2, ""), (2, 3, "h"), (2, 2, "g"), (3, 3, ""), (3, 3, "g")), ("gd", "igd", "deltap")):
        yield "sizes", dict(m=m, n=n, kind=kind, type=type, precond=kind == "g", n_comp=1, nmax=0, variants=[0, 1, 2], iters=40 if th else 15,
                            sizes=[1, 3, 6] + [12] * th, resync=True)
    # targets reached exactly at the first iteration, non-zero multipliers
    for m, kind, type, duals, pre in itertools.product((2, 3), ("", "h", "g", "hg"), ("igd", "deltap", "gd"), (0.0, 0.6), (False, True)):
        if (duals and not kind) or (not th and (pre or (type == "gd" and m == 3))):
            continue
        for size in (1, 2, 3) if th else (1, 2):
            yield "iter", dict(m=m, kind=kind, pal="on", type=type, precond=pre, refset="settled", n_comp=1, eta_mode="given",
                               size=size, iters=4, duals=duals)
    for kind, type in itertools.product(("h", "g", "hg"), ("igd", "deltap")):
        yield "iter", dict(m=2, kind=kind, pal="cstr", type=type, precond=False, refset="near", n_comp=1, eta_mode="given",
                           size=2, iters=3, duals=0.4)
    for kind in ("h", "g"):
        yield "iter", dict(m=2, kind=kind, pal="cstr", type="deltap", precond=False, refset="near", n_comp=1, eta_mode="given", size=2,
                           iters=2, use_hess=False)


plan = layouts.extend(SCENARIOS, plan, layouts.s_optimiser, name="DpN")
