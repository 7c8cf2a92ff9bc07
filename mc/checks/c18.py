"""C18: numerical helpers (positive-definite modification, reflection into the box, bounds, shift direction, packing of primal-dual steps)."""
import itertools

import numpy as np

import hvd.mmd_newton
import hvd.utils as U
from hvd.utils import compute_chim, handle_box_constraint, precondition_hessian, set_bounds
from mc import layouts
from mc.core import Result
from mc.toy import lattice

PROPERTY = "C18"
RULE = ("Every symmetric matrix of order 1 to 4 with entries of a small lattice (order 4: tridiagonal) under seven magnitudes; every point of a lattice of "
        "positions relative to every box of a palette (finite, one-sided, free) as a vector and as rows of a table; every form of bounds; every set of 2-4 "
        "lattice points; every activity mask of up to 3 points with 3 multipliers."
        " Dense matrices of every order from 5 to 30 (definite, indefinite, singular).")
ASSUMPTIONS = ["matrices whose most negative eigenvalue exceeds -1e7 (the number of doublings of the shift is limited)", "boxes of positive width",
               "tables have a number of rows different from the number of variables"]
BETA = 1e-6


def check_pd(res, H, ctx):
    keep = H.copy()
    n = len(H)
    lam = np.linalg.eigvalsh(H)
    top = max(1e-300, np.max(np.abs(lam)))
    res.state()
    try:
        R = np.asarray(precondition_hessian(H))
    except Exception as e:  # noqa: BLE001
        res.fail(f"pd:{type(e).__name__}", f"raised {e!r}", ctx)
        return
    res.call()
    if not np.array_equal(H, keep):
        res.fail("pd:mutated", "the matrix passed in was modified", ctx)
    if R.shape != H.shape or not np.all(np.isfinite(R)):
        res.fail("pd:finite", f"result {R.tolist()}", ctx)
        return
    tol = 1e-10 * max(top, np.max(np.abs(R)))
    if np.max(np.abs(R - R.T)) > tol:
        res.fail("pd:symmetric", f"result is not symmetric: {R.tolist()}", ctx)
    D = R - H
    tau = np.mean(np.diag(D))
    if np.max(np.abs(D - tau * np.eye(n))) > tol or tau < -tol:
        res.fail("pd:shift", f"result differs from the matrix by something else than a non-negative multiple of the identity: {D.tolist()}", ctx)
        return
    low = np.linalg.eigvalsh(R)[0]
    if low < -1e-12 * max(top, tau) * n:
        res.fail("pd:definite", f"smallest eigenvalue of the result is {low}", ctx)
    sure = lam[0] > 1e-12 * top * n
    if sure and abs(tau) > tol:
        res.fail("pd:unchanged", f"a positive definite matrix was shifted by {tau}", ctx)
    need = max(0.0, -lam[0])
    bound = max(2 * need, need + BETA, BETA) * (1 + 1e-6) + tol
    if tau > bound:
        res.fail("pd:excess", f"shift {tau}, the smallest sufficient shift is {need}", ctx)
    res.outcome("pd" if sure else ("semi" if need < 1e-12 * top * n else f"shift {np.round(np.log2(max(tau, 1e-12) / need))}"))


def s_pd(n, entries, offdiag, scale):
    res = Result()
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n) if n < 4 or j == i + 1]
    for d in itertools.product(entries, repeat=n):
        for o in itertools.product(offdiag, repeat=len(pairs)):
            H = np.diag(np.array(d, float))
            for (i, j), v in zip(pairs, o):
                H[i, j] = H[j, i] = v
            H = H * scale
            check_pd(res, H, dict(matrix=H))
            if res.full:
                return res
    res.trace(res.states)
    return res


def s_orders(orders, scale):
    """dense matrices of larger orders: lattice entries, indefinite, definite and singular ones"""
    res = Result()
    for n in orders:
        A = lattice(n, 2, 0.1, -1.0, 1.0)
        B = np.cos(3.0 * np.outer(A[:, 0], A[:, 0]) + A[:, 1][:, None] + A[:, 1])
        for shift in (-2.0 * n, -n, -1.0, -0.1, 0.0, 0.1, 1.0, 0.4 * n, 2.0 * n):
            check_pd(res, scale * (B + shift * np.eye(n)), dict(order=n, scale=scale, shift=shift))
        check_pd(res, scale * (A @ A.T), dict(order=n, scale=scale, rank=2))
        check_pd(res, -scale * (B @ B.T), dict(order=n, scale=scale, negative=True))
        if res.full:
            break
    res.trace(res.states)
    return res


def wave(v, lo, up):
    """reflection of v into [lo, up]"""
    w = up - lo
    t = (v - lo) / w
    k = np.floor(t)
    f = t - k
    return lo + w * (f if int(k) % 2 == 0 else 1 - f)


BOXES = [(0.0, 1.0), (-1.0, 1.0), (0.25, 2.75), (-np.inf, np.inf), (-2.0, -1.5)]
POS = [-3.0, -1.75, -1.0, -0.25, 0.0, 0.125, 0.5, 0.75, 1.0, 1.25, 2.0, 2.5, 3.0, 4.75]


def s_reflect(dim, form):
    res = Result()
    for boxes in itertools.product(BOXES, repeat=dim):
        lb, ub = np.array([b[0] for b in boxes]), np.array([b[1] for b in boxes])

        def place(t, b):
            return b[0] + t * (b[1] - b[0]) if np.isfinite(b[0]) else t

        cols = [[place(t, b) for t in POS] for b in boxes]
        if form == "rows":  # tables of points
            pts = list(itertools.product(*cols)) if dim == 2 else [tuple(c[(i * s + s) % len(POS)] for s, c in enumerate(cols, 1)) for i in range(len(POS))]
            groups = [pts[i:i + 5] for i in range(0, len(pts) - 4, 5)] + [pts[:1], pts[-4:]]
            groups = [g for g in groups if len(g) != dim]
        else:
            pts = list(itertools.product(*cols)) if dim <= 2 else [tuple(c[(i * s + s) % len(POS)] for s, c in enumerate(cols, 1)) for i in range(len(POS))]
            groups = pts
        for g in groups:
            x = np.array(g, float)
            E = np.array([[wave(v, lo, up) if np.isfinite(lo) else v for v, lo, up in zip(r, lb, ub)] for r in np.atleast_2d(x)]).reshape(x.shape)
            res.state()
            ctx = dict(x=x, lower=lb, upper=ub)
            try:
                r = handle_box_constraint(x.copy(), lb, ub)
            except Exception as e:  # noqa: BLE001
                res.fail(f"reflect:{type(e).__name__}", f"raised {e!r}", ctx)
                continue
            res.call()
            if r.shape != x.shape or not np.allclose(r, E, atol=1e-9):
                res.fail("reflect:value", f"{np.asarray(r).tolist()} expected {E.tolist()}", ctx)
            inside = np.all((x >= lb) & (x < ub))
            res.outcome(f"{inside}")
        if res.full:
            return res
    res.trace(res.states)
    return res


def s_bounds():
    res = Result()
    for dim in range(1, 5):
        forms = [("int", 2, np.full(dim, 2.0)), ("float", -0.5, np.full(dim, -0.5)), ("np", np.float64(1.5), np.full(dim, 1.5)), ("zero", 0, np.zeros(dim)),
                 ("one", [3.0], np.full(dim, 3.0)), ("one-array", np.array([3.0]), np.full(dim, 3.0)), ("tuple", (4.0,), np.full(dim, 4.0)),
                 ("list", [0.5 * i for i in range(dim)], 0.5 * np.arange(dim)), ("array", 0.25 * np.arange(dim), 0.25 * np.arange(dim)),
                 ("range", tuple(range(dim)), np.arange(dim))]
        if dim > 1:
            forms += [("text", str([0.5 * i for i in range(dim)]), 0.5 * np.arange(dim))]
        for name, b, e in forms:
            res.state()
            keep = np.array(b, copy=True) if not isinstance(b, str) else b
            ctx = dict(form=name, dim=dim)
            try:
                r = set_bounds(b, dim)
                res.call()
            except Exception as ex:  # noqa: BLE001
                res.fail("bounds:raise", f"raised {ex!r}", ctx)
                continue
            if not isinstance(r, np.ndarray) or r.shape != (dim,) or not np.allclose(r, e):
                res.fail("bounds:value", f"{r!r} expected {e}", ctx)
            if not isinstance(b, str) and not np.array_equal(b, keep):
                res.fail("bounds:mutated", "bounds passed in were modified", ctx)
            res.outcome(name)
        for wrong in ([0.0] * (dim + 1), np.zeros(dim + 2)) + (([0.0] * (dim - 1),) if dim > 2 else ()):
            res.state()
            try:
                r = set_bounds(wrong, dim)
                res.fail("bounds:length", f"{len(wrong)} bounds accepted for {dim} variables: {r!r}", dict(dim=dim))
            except Exception:  # noqa: BLE001
                res.outcome("refused")
    res.trace(res.states)
    return res


def s_chim(m, size, levels):
    res = Result()
    for pts in itertools.combinations(list(itertools.product(levels, repeat=m)), size):
        Y = np.array(pts, float)
        S = np.sort(Y, axis=0)
        idx = Y.argmin(0)
        Z = Y[idx]
        M = Z[1:] - Z[0]
        if np.any(S[1] - S[0] < 1e-9) or len(set(idx)) < m or np.linalg.svd(M, compute_uv=False)[-1] < 1e-9:
            res.skipped += 1
            continue
        keep = Y.copy()
        n = np.linalg.svd(M)[2][-1]
        n = -np.abs(n) / np.linalg.norm(n)
        for pi in (list(range(size)), list(range(size))[::-1]):
            res.state()
            r = compute_chim(Y[pi])
            res.call()
            if np.shape(r) != (m,) or not np.allclose(r, n, atol=1e-9):
                res.fail("chim:value", f"direction {np.asarray(r).tolist()}, expected {n.tolist()}", dict(points=Y[pi]))
            res.outcome(np.round(n, 2).tolist())
        if not np.array_equal(Y, keep):
            res.fail("chim:mutated", "points were modified", dict(points=Y))
    res.trace(res.states)
    return res


def s_pack(N, n, k):
    """packing a primal-dual table into a vector and back keeps primal and active entries and zeroes the others"""
    res = Result()
    pack = getattr(U, "matrix_to_Nd_vector", None)
    unpacks = [(m.__name__, f) for m in (U, hvd.mmd_newton) if (f := getattr(m, "Nd_vector_to_matrix", None)) is not None]
    X = np.arange(1, N * (n + k) + 1, dtype=float).reshape(N, n + k)
    for bits in itertools.product((False, True), repeat=N * k):
        mask = np.array(bits, bool).reshape(N, k)
        full = np.c_[np.ones((N, n), bool), mask]
        vec = np.r_[X[:, :n].ravel(), X[:, n:][mask]]
        res.state()
        if pack is not None:
            v = pack(X, n, mask)
            res.call()
            if v.size != vec.size or not np.array_equal(v.ravel(), vec):
                res.fail("pack", f"vector {v.ravel().tolist()} expected {vec.tolist()}", dict(mask=mask))
        E = np.where(full, X, 0.0)
        for name, f in unpacks:
            r = f(vec.copy(), N, n + k, n, full if "mmd" in name else mask)
            res.call()
            if r.shape != E.shape or not np.array_equal(r, E):
                res.fail(f"unpack:{name}", f"table {r.tolist()} expected {E.tolist()}", dict(mask=mask))
        res.outcome(int(mask.sum()))
    res.trace(res.states)
    return res


SCENARIOS = {"orders": s_orders, "pd": s_pd, "reflect": s_reflect, "bounds": s_bounds, "chim": s_chim, "pack": s_pack}


def plan(tier):
    th = tier == "thorough"
    E = [-2.0, -1.0, -0.3, 0.0, 0.3, 1.0, 2.0]
    items = []
    for s in (1e-8, 1e-4, 1e-2, 1.0, 30.0, 1e3, 1e6):
        items.append(("pd", dict(n=1, entries=E, offdiag=[0.0], scale=s)))
        items.append(("pd", dict(n=2, entries=E, offdiag=E, scale=s)))
        items.append(("pd", dict(n=3, entries=E if th else [-1.0, 0.0, 0.3, 2.0], offdiag=E if th else [-1.0, -0.3, 0.0, 1.0], scale=s)))
        items.append(("pd", dict(n=4, entries=[-1.0, 0.0, 0.5, 2.0] if th else [-1.0, 0.0, 2.0], offdiag=[-2.0, 0.0, 0.3, 1.0] if th else [0.0, 0.3, 1.0], scale=s)))
    for s in (1e-4, 1.0, 1e4):
        items.append(("orders", dict(orders=list(range(5, 61 if th else 31)), scale=s)))
    for dim in (1, 2, 3):
        items += [("reflect", dict(dim=dim, form="vector"))] + ([("reflect", dict(dim=dim, form="rows"))] if dim > 1 else [])
    items.append(("bounds", {}))
    items.append(("chim", dict(m=2, size=2, levels=[0.0, 1.0, 2.5, 4.0])))
    items.append(("chim", dict(m=2, size=3, levels=[0.0, 1.0, 2.5, 4.0])))
    items.append(("chim", dict(m=3, size=3, levels=[0.0, 1.0, 2.5])))
    if th:
        items.append(("chim", dict(m=3, size=4, levels=[0.0, 1.0, 2.5])))
    for N, n, k in [(1, 1, 1), (1, 2, 3), (2, 1, 2), (2, 2, 3), (3, 2, 2), (3, 1, 3)] + ([(3, 2, 4), (4, 2, 3)] if th else []):
        items.append(("pack", dict(N=N, n=n, k=k)))
    return items


plan = layouts.extend(SCENARIOS, plan, layouts.s_c18)
