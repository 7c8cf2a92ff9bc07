"""Scenarios shared by C02 (gradient) and C03 (Hessian)."""
import itertools

import numpy as np

from mc.core import Result
from mc.ref_hv import exact_derivatives, grid_derivatives, grid_hv
from mc.toy import lattice


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if not np.all(np.isfinite(a)):
        return False
    return bool(np.all(np.abs(a - b) <= tol * max(1.0, float(np.max(np.abs(b))) if b.size else 1.0)))


def active_rows(Y, ref):
    """Rows that matter locally: those strictly dominating ref and not strictly dominated by a row.
    Returns (mask, ok); ok=False when the hypervolume is not (twice) differentiable at Y."""
    Y, ref = np.asarray(Y, float), np.asarray(ref, float)
    if np.any(Y == ref):
        # a coordinate exactly at the reference: a kink unless the point is strictly inside the
        # dominated region or strictly outside through another coordinate
        for y in Y[np.any(Y == ref, axis=1)]:
            if not (np.any(y > ref) or np.any(np.all(Y < y, axis=1))):
                return None, False
    inside = np.all(Y < ref, axis=1)
    sd = np.array([np.any(np.all(Y < y, axis=1)) for y in Y])
    act = inside & ~sd
    A = Y[act]
    for k in range(Y.shape[1]):
        if len(np.unique(A[:, k])) != len(A):
            return act, False
    return act, True


def expected(Y, ref, hessian):
    """exact gradient / Hessian w.r.t. the objective points (rows that do not matter have zeros)"""
    Y = np.asarray(Y, float)
    N, m = Y.shape
    act, ok = active_rows(Y, ref)
    if not ok:
        return None
    idx = np.nonzero(act)[0]
    g = np.zeros((N, m))
    H = np.zeros((N * m, N * m))
    if len(idx):
        _, gs, Hs = exact_derivatives(Y[idx], ref, hessian)
        g[idx] = gs
        sel = (idx[:, None] * m + np.arange(m)).ravel()
        H[np.ix_(sel, sel)] = Hs
    return g, H


def fd_expected(Y, ref, hessian):
    """the same by central differences of the independent value; exact because the value is multilinear
    inside a cell of the arrangement (integer coordinates, step 1/4)"""
    Y = np.asarray(Y, float)
    N, m = Y.shape
    h = 0.25
    v = Y.ravel()
    D = v.size

    def f(z):
        return grid_hv(z.reshape(N, m), ref)

    g = np.zeros(D)
    H = np.zeros((D, D))
    E = np.eye(D) * h
    for a in range(D):
        g[a] = (f(v + E[a]) - f(v - E[a])) / (2 * h)
    if hessian:
        for a in range(D):
            for b in range(a):
                H[a, b] = H[b, a] = (
                    f(v + E[a] + E[b]) - f(v + E[a] - E[b]) - f(v - E[a] + E[b]) + f(v - E[a] - E[b])
                ) / (4 * h * h)
    return g.reshape(N, m), H


def _compare(res, ind, X, Y, J, g, H, hessian, tag, case):
    """run the real code in the requested mode and compare with dHV/dX, d2HV/dX2"""
    N = len(X)
    if hessian:
        out = ind.compute_derivatives(X, Y, True, J)
        res.call()
        if not (isinstance(out, tuple) and len(out) == 2):
            res.fail(f"{tag}:shape", f"expected (gradient, Hessian), got {type(out)}", case)
            return
        G, HH = out
        if not close(HH, H, 1e-8):
            HH = np.asarray(HH)
            res.fail(f"{tag}:hessian", f"got\n{HH}\nexpected\n{H}", case)
        elif not close(np.asarray(HH), np.asarray(HH).T, 1e-12):
            res.fail(f"{tag}:asymmetric", f"{HH}", case)
        if not close(np.asarray(G).reshape(N, -1), g, 1e-8):
            res.fail(f"{tag}:gradient-with-hessian", f"got\n{G}\nexpected\n{g}", case)
    else:
        G = ind.compute_derivatives(X, Y, False, J)
        res.call()
        if not close(G, g, 1e-8):
            res.fail(f"{tag}:gradient", f"got\n{G}\nexpected\n{g}", case)


def order_types(m, N, first, hessian, extents=False):
    from hvd import HypervolumeDerivatives

    res = Result()
    P = list(itertools.permutations(range(N)))
    refs = [np.full(m, float(N))]
    if extents:
        refs += [refs[0] + np.arange(m) * 1.5 + 0.5]
        # a reference that cuts the point set: some rows lie beyond it
        refs += [refs[0] - 0.5 - (np.arange(m) == a) * 1.0 for a in range(m)]
        refs += [refs[0] - 1.5]
    inds = [HypervolumeDerivatives(m, m, r) for r in refs]
    for f in first:
        for rest in itertools.product(P, repeat=m - 1):
            Y = np.array((P[f],) + rest, float).T
            for r, ind in zip(refs, inds):
                ex = expected(Y, r, hessian)
                if ex is None:
                    res.skipped += 1
                    continue
                res.state()
                res.trace()
                res.outcome(np.sign(ex[0]).astype(int).tolist() if m * N < 9 else float(ex[0].sum()))
                Y0 = Y.copy()
                _compare(res, ind, Y, None, None, ex[0], ex[1], hessian, "identity", dict(Y=Y0, ref=r))
                if not np.array_equal(Y, Y0):
                    res.fail("input-modified", "objective points changed in place", dict(Y=Y0, ref=r))
                    Y = Y0
            if res.full:
                return res
    res.sample(dict(Y=Y, ref=refs[-1]))
    return res


def grid(m, hi, ref, size, first, hessian):
    """all sequences of grid points with ties, duplicates, points on/beyond the reference, wherever the
    hypervolume is differentiable"""
    from hvd import HypervolumeDerivatives

    res = Result()
    pts = list(itertools.product(range(hi + 1), repeat=m))
    ind = HypervolumeDerivatives(m, m, np.asarray(ref, float))
    for f in first:
        for rest in itertools.product(range(len(pts)), repeat=size - 1):
            Y = np.array([pts[i] for i in (f,) + rest], float)
            ex = expected(Y, ref, hessian)
            if ex is None:
                res.skipped += 1
                continue
            res.state()
            res.trace()
            res.outcome(float(ex[0].sum()))
            _compare(res, ind, Y, None, None, ex[0], ex[1], hessian, "grid", dict(Y=Y, ref=ref))
            if res.full:
                return res
    res.sample(dict(Y=Y, ref=ref))
    return res


def families(m, nmax, hessian):
    """structured larger sets, every size up to nmax"""
    from hvd import HypervolumeDerivatives

    res = Result()
    for N in range(1, nmax + 1):
        r = np.arange(N)
        perms = [r, r[::-1], np.argsort(r % 2, kind="stable"), np.argsort(r % 3, kind="stable"), np.roll(r, N // 2)]
        for row in (0, 3):
            for combo in itertools.product(range(len(perms)), repeat=m - 1):
                if 0 in combo and m > 2:
                    continue
                Y = np.stack([perms[row]] + [perms[c] for c in combo], axis=1).astype(float)
                ref = np.full(m, float(N)) + np.arange(m)
                ind = HypervolumeDerivatives(m, m, ref)
                g, H = fd_expected(Y, ref, hessian)
                res.state()
                res.trace()
                res.outcome((N, float(np.abs(g).sum())))
                _compare(res, ind, Y, None, None, g, H, hessian, "family", dict(Y=Y, ref=ref))
                if res.full:
                    return res
    res.sample(dict(m=m, N=N, Y=Y))
    return res


def fronts(m, sizes, hessian):
    """curved fronts with dominated points and points beyond the reference in between, in three row orders"""
    from hvd import HypervolumeDerivatives

    res = Result()
    for N in sizes:
        Y = 0.1 + lattice(N, m, 0.3 * m, 0.0, 1.0)
        if m > 1:
            Y /= np.linalg.norm(Y, axis=1)[:, None]
        Y[::3] *= 1.15
        for ref, order in itertools.product((np.full(m, 1.3), 0.8 + 0.15 * np.arange(m)), (np.arange(N), np.argsort(Y[:, 0]), np.argsort(-Y[:, -1]))):
            Z = Y[order]
            g, H = grid_derivatives(Z, ref, hessian)
            ind = HypervolumeDerivatives(m, m, ref)
            res.state()
            res.trace()
            res.outcome((N, int(np.sum(g != 0)), int(np.sum(H != 0))))
            _compare(res, ind, Z, None, None, g, H, hessian, "front", dict(Y=Z, ref=ref))
        if res.full:
            break
    if len(sizes):
        res.sample(dict(m=m, N=N))
    return res


# -- composition with a nonlinear objective map --------------------------------------------------------


class CubicMap:
    """f_k(x) = c_k + a_k.x + sum_i t_ki x_i^3 / 6: the curvature vanishes where a coordinate does, and some objectives are flat"""

    def __init__(self, n, m):
        q = QuadraticMap(n, m, False)
        self.c, self.A = q.c, q.A
        self.T = np.array([[(2 * k + i) % 3 * 0.75 for i in range(n)] for k in range(m)])

    def f(self, x):
        x = np.asarray(x, float)
        return self.c + self.A @ x + self.T @ x**3 / 6

    def jac(self, x):
        return self.A + self.T * np.asarray(x, float) ** 2 / 2

    def hess(self, x):
        return np.stack([np.diag(t * np.asarray(x, float)) for t in self.T])


class QuadraticMap:
    """f_k(x) = c_k + a_k.x + x'B_k x / 2 with fixed small integer data: exact derivatives"""

    def __init__(self, n, m, curved=True):
        self.n, self.m = n, m
        self.c = np.arange(m) * 0.5
        self.A = np.array([[((3 * k + 5 * i) % 7) - 2.0 + (2.0 if i == k else 0.0) for i in range(n)] for k in range(m)])
        B = np.zeros((m, n, n))
        if curved:
            for k in range(m):
                for i in range(n):
                    for j in range(i + 1):
                        B[k, i, j] = B[k, j, i] = ((k + 2 * i + 3 * j) % 5 - 1) * 0.25
        self.B = B

    def f(self, x):
        x = np.asarray(x, float)
        return self.c + self.A @ x + 0.5 * np.einsum("kij,i,j->k", self.B, x, x)

    def jac(self, x):
        return self.A + np.einsum("kij,j->ki", self.B, np.asarray(x, float))

    def hess(self, x):
        return self.B.copy()


def chain(g, H, J, T):
    """dense chain rule written out with loops: g (N,m), H (Nm,Nm), J (N,m,n), T (N,m,n,n)"""
    N, m, n = J.shape
    gx = np.zeros((N, n))
    Hx = np.zeros((N * n, N * n))
    for i in range(N):
        gx[i] = g[i] @ J[i]
        for j in range(N):
            Hx[i * n : (i + 1) * n, j * n : (j + 1) * n] = J[i].T @ H[i * m : (i + 1) * m, j * m : (j + 1) * m] @ J[j]
        for k in range(m):
            Hx[i * n : (i + 1) * n, i * n : (i + 1) * n] += g[i, k] * T[i, k]
    return gx, Hx


def composed(n, m, N, hessian, first, k=3, modes=(0, 1, 2, 3), cubic=False):
    """all sequences of N decision points from a k^n grid through a quadratic map; minimisation and
    maximisation; objective points / Jacobians given or computed"""
    from hvd import HypervolumeDerivatives

    res = Result()
    q = CubicMap(n, m) if cubic else QuadraticMap(n, m)
    xs = np.linspace(-0.8, 0.9, k) if not cubic else np.array([0.0, 0.7, -0.6, 0.45][:k])
    pts = [np.array(p) for p in itertools.product(xs, repeat=n)]
    allY = np.array([q.f(p) for p in pts])
    lo, hi = allY.min(axis=0), allY.max(axis=0)
    refs = [hi + 1.0, lo + 0.7 * (hi - lo)]
    inds = []
    for r in refs:
        inds.append((1.0, r, HypervolumeDerivatives(n, m, r, q.f, q.jac, q.hess)))
        inds.append(
            (
                -1.0,
                r,
                HypervolumeDerivatives(
                    n, m, -r, lambda x: -q.f(x), lambda x: -q.jac(x), lambda x: -q.hess(x), minimization=False
                ),
            )
        )
    for f in first:
        for rest in itertools.product(range(len(pts)), repeat=N - 1):
            X = np.array([pts[i] for i in (f,) + rest])
            Y = np.array([q.f(x) for x in X])
            J = np.array([q.jac(x) for x in X])
            T = np.array([q.hess(x) for x in X])
            for sgn, r, ind in inds:
                ex = expected(Y, r, hessian)
                # round-off ties between decision points with equal images are out of the domain
                if ex is None or _near_tie(Y, r):
                    res.skipped += 1
                    continue
                gx, Hx = chain(ex[0], ex[1], J, T)
                res.state()
                res.trace()
                res.outcome(np.round(gx.sum(), 6))
                for mode in modes:
                    Ya = sgn * Y if mode & 1 else None
                    Ja = sgn * J if mode & 2 else None
                    Y0, J0 = None if Ya is None else Ya.copy(), None if Ja is None else Ja.copy()
                    case = dict(X=X, ref=sgn * r, maximisation=sgn < 0, given_Y=bool(mode & 1), given_J=bool(mode & 2))
                    _compare(res, ind, X, Ya, Ja, gx, Hx, hessian, "composed" if sgn > 0 else "maximised", case)
                    if (Ya is not None and not np.array_equal(Ya, Y0)) or (Ja is not None and not np.array_equal(Ja, J0)):
                        res.fail("input-modified", "a given array changed in place", case)
            if res.full:
                return res
    res.sample(dict(n=n, m=m, X=X))
    return res


def _near_tie(Y, r):
    Z = np.vstack([Y, r])
    for k in range(Z.shape[1]):
        d = np.abs(Z[:, None, k] - Z[None, :, k])
        np.fill_diagonal(d, 1)
        if np.any(d < 1e-6):
            return True
    return False


def histories(m, depth, hessian):
    """all sequences of requests (different population sizes / layouts / kinds) on ONE indicator object"""
    from hvd import HypervolumeDerivatives

    res = Result()
    ref = np.full(m, 4.0)
    r = np.arange(3)
    pops = [
        np.full((1, m), 1.0),
        np.stack([r if k % 2 == 0 else r[::-1] for k in range(m)], axis=1).astype(float),
        np.stack([np.roll(r, k) for k in range(m)], axis=1).astype(float)[:2],
        np.stack([r] * m, axis=1).astype(float),  # dominated chain
        np.vstack([np.full((1, m), 5.0), np.full((1, m), 2.0)]),  # first row beyond the reference
    ]
    kinds = ["value", "gradient", "hessian"]
    alphabet = [(p, k) for p in range(len(pops)) for k in kinds]
    want = [expected(p, ref, True) for p in pops]
    vals = [grid_hv(p, ref) for p in pops]
    for seq in itertools.product(range(len(alphabet)), repeat=depth):
        ind = HypervolumeDerivatives(m, m, ref)
        for t, s in enumerate(seq):
            p, kind = alphabet[s]
            case = dict(m=m, sequence=[alphabet[i] for i in seq[: t + 1]])
            if kind == "value":
                v = ind.compute(Y=pops[p])
                res.call()
                if abs(v - vals[p]) > 1e-9:
                    res.fail("history:value", f"{v} != {vals[p]}", case)
            else:
                _compare(res, ind, pops[p], None, None, want[p][0], want[p][1], kind == "hessian", "history", case)
        res.state()
        res.trace()
        if res.full:
            break
    res.outcome(len(want))
    res.sample(dict(m=m, sequence=[alphabet[i] for i in seq]))
    return res


def shared(n, m, depth, hessian):
    """all sequences of (refill ONE array in place, request) on ONE object: distinct populations, populations that differ by
    1e-6 but in dominance, and populations of a nonlinear map; objective points given or computed"""
    from hvd import HypervolumeDerivatives

    res = Result()
    q = CubicMap(n, m)
    e = 1e-6
    base = np.array([[0.7] * n, [0.7 + 3 * e] + [0.7] * (n - 1), [0.2] * n])
    B = np.linspace(-1, 1, n)
    pops = [base[:, :n] + 0.02 * np.arange(3)[:, None] * B]
    for s in (1, -1):  # the second point is barely dominated by / barely incomparable with the first
        P = pops[0].copy()
        J = q.jac(P[0])
        d = np.linalg.lstsq(J[:2], np.array([1.0, s]), rcond=None)[0] if n > 1 else np.array([1.0])
        P[1] = P[0] + s * e * d
        pops.append(P)
    pops.append(np.array([[-0.6] * n, [0.4] * n, [0.05] * n]) + 0.03 * np.outer([1, 2, 3], B))
    allY = [np.array([q.f(x) for x in P]) for P in pops]
    ref = np.max(np.concatenate(allY), axis=0) + np.arange(1, m + 1) * 0.5
    want = []
    for P, Y in zip(pops, allY):
        ex = expected(Y, ref, True)
        if ex is None or np.min(np.abs(Y[0] - Y[1])) < 1e-8:
            want.append(None)
            continue
        want.append(chain(ex[0], ex[1], np.array([q.jac(x) for x in P]), np.array([q.hess(x) for x in P])))
    ops = [(p, kind, mode) for p in range(len(pops)) if want[p] is not None for kind in (("gradient",) if not hessian else ("gradient", "hessian"))
           for mode in (0, 1)]
    for seq in itertools.product(range(len(ops)), repeat=depth):
        ind = HypervolumeDerivatives(n, m, ref, q.f, q.jac, q.hess)
        X, Y = np.empty_like(pops[0]), np.empty_like(allY[0])
        for t, s in enumerate(seq):
            p, kind, mode = ops[s]
            X[:], Y[:] = pops[p], allY[p]
            case = dict(n=n, m=m, sequence=[ops[i] for i in seq[: t + 1]], X=X)
            _compare(res, ind, X, Y if mode else None, None, want[p][0], want[p][1], kind == "hessian", "refilled", case)
            if not np.array_equal(X, pops[p]) or not np.array_equal(Y, allY[p]):
                res.fail("input-modified", "a given array changed in place", case)
        res.state()
        res.trace()
        if res.full:
            break
    res.outcome(len(ops))
    res.sample(dict(n=n, m=m, sequence=[ops[i] for i in seq]))
    return res


# -- derivatives by automatic differentiation; the reference point replaced in the life of an object ----


def _auto(res, ind, X, g, H, gx, Hx, hessian, sign, case, tag="automatic"):
    """compute_automatic_differentiation against the exact derivatives w.r.t. objectives (g, H) and decisions (gx, Hx)"""
    out = ind.compute_automatic_differentiation(X)
    res.call()
    want = dict(HVdX2=Hx, HVdY2=H) if hessian else dict(HVdX=gx.ravel(), HVdY=sign * g.ravel())
    for k, w in want.items():
        if k not in out or not close(out[k], w, 1e-8):
            res.fail(f"{tag}:{k}", f"got\n{out.get(k)}\nexpected\n{w}", case)


def automatic(m, N, first, hessian):
    """all order types (times reference points, some of which cut the set), the objectives being the decision variables"""
    from hvd import HypervolumeDerivatives

    res = Result()
    P = list(itertools.permutations(range(N)))
    refs = [np.full(m, float(N)) + np.arange(m) * 0.5, np.full(m, N - 1.5)]
    inds = [(s, r, HypervolumeDerivatives(m, m, s * r, minimization=s > 0)) for r in refs for s in (1, -1)]
    for f in first:
        for rest in itertools.product(P, repeat=m - 1):
            Y = np.array((P[f],) + rest, float).T
            for s, r, ind in inds:
                ex = expected(Y, r, hessian)
                if ex is None:
                    res.skipped += 1
                    continue
                res.state()
                res.trace()
                res.outcome(float(ex[0].sum()))
                # under maximisation the value is a function of -Y
                X = s * Y
                _auto(res, ind, X, ex[0], ex[1], s * ex[0], ex[1], hessian, s, dict(X=X, ref=s * r, maximisation=s < 0))
                if f == first[0]:  # the same points as whole numbers
                    _auto(res, ind, X.astype(int), ex[0], ex[1], s * ex[0], ex[1], hessian, s,
                          dict(X=X.astype(int), ref=s * r, maximisation=s < 0), "whole")
                if not np.array_equal(X, s * Y):
                    res.fail("input-modified", "objective points changed in place", dict(Y=Y, ref=r))
            if res.full:
                return res
    res.sample(dict(m=m, N=N, Y=Y))
    return res


def references(n, m, sign, depth, hessian):
    """all histories of (replace the reference point, value, derivatives, automatic differentiation) on ONE object"""
    from hvd import HypervolumeDerivatives

    res = Result()
    q = QuadraticMap(n, m)
    pops = [np.array([[0.4] * n, [-0.5] + [0.3] * (n - 1), [0.1] * (n - 1) + [-0.7]]), np.array([[0.25] * (n - 1) + [0.6]])]
    Ys = [np.array([q.f(x) for x in p]) for p in pops]
    hi, lo = np.max(np.vstack(Ys), axis=0), np.min(np.vstack(Ys), axis=0)
    refs = [hi + 1.0, hi + np.arange(2, m + 2) * 0.75, lo + 0.8 * (hi - lo) + 0.01]
    want = {}
    for r, p in itertools.product(range(len(refs)), range(len(pops))):
        ex = expected(Ys[p], refs[r], True)
        if ex is None or _near_tie(Ys[p], refs[r]):
            continue
        J, T = np.array([q.jac(x) for x in pops[p]]), np.array([q.hess(x) for x in pops[p]])
        want[r, p] = ex + chain(ex[0], ex[1], J, T) + (grid_hv(Ys[p], refs[r]),)
    ops = [("ref", r) for r in range(len(refs))] + [
        (k, p) for p in range(len(pops)) for k in ("value", "hessian" if hessian else "gradient", "automatic")
    ]
    for seq in itertools.product(ops, repeat=depth):
        if seq[-1][0] == "ref":
            continue
        ind = HypervolumeDerivatives(
            n, m, sign * refs[0], lambda x: sign * q.f(x), lambda x: sign * q.jac(x), lambda x: sign * q.hess(x), minimization=sign > 0
        )
        r = 0
        for t, (k, p) in enumerate(seq):
            case = dict(n=n, m=m, sign=sign, sequence=seq[: t + 1])
            if k == "ref":
                r = p
                ind.ref = sign * refs[r] if p % 2 else list(sign * refs[r])
                continue
            if (r, p) not in want:
                continue
            g, H, gx, Hx, v = want[r, p]
            if k == "value":
                got = ind.compute(pops[p])
                res.call()
                if abs(got - v) > 1e-9 * max(1, v):
                    res.fail("references:value", f"{got} != {v}", case)
            elif k == "automatic":
                _auto(res, ind, pops[p], g, H, gx, Hx, hessian, sign, case, "references:automatic")
            else:
                _compare(res, ind, pops[p], None, None, gx, Hx, hessian, "references", case)
        res.state()
        res.trace()
        if res.full:
            break
    res.outcome(len(want))
    res.sample(dict(n=n, m=m, sign=sign, sequence=seq))
    return res
