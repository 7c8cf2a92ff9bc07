"""C13: every benchmark problem computes its published objective and constraint functions and their exact derivatives.

All problems x sizes x a complete grid of decision points; the reference is an independent second-order jet evaluation of
the published formulas (mc/ref_problems.py)."""
import itertools

import numpy as np

from mc.core import Result
from mc.ref_problems import REG, evaluate

PROPERTY = "C13"
RULE = ("Every benchmark class x number of variables x number of objectives (x WFG position parameter) x every point of a decision "
        "grid (complete product of 2-3 levels per variable up to 6 variables, structured one- and two-coordinate deviations above, all "
        "box corners up to 8 variables): objectives, inequality and equality constraints, Jacobians and Hessians; default-constructed "
        "problems x every ordered pair of kinds of requests, arrays refilled in between.")
ASSUMPTIONS = ["derivatives are compared away from kinks (1e-7); on non-differentiable boundary points values may be smoothed by at most 1%",
               "the published definitions are those of the ZDT, DTLZ (inverted: with the factor 1/2 of Cuate et al.), WFG and CEC 2009 reports"]


def cls(name):
    import hvd.problems as P
    import hvd.problems.misc as misc

    return getattr(P, name, None) or getattr(misc, name)


def points(xl, xu, deep, which):
    """interior grid (generic levels, no symmetric values) / box corners and faces"""
    n = len(xl)
    w = xu - xl
    if which == "corner":
        if n <= 8:
            F = np.array(list(itertools.product((0.0, 1.0), repeat=n)))
        else:
            F = np.array([[(i >> (j % 5)) & 1 for j in range(n)] for i in range(32)], float)
        return xl + F * w
    lev = [0.137, 0.463, 0.811]
    off = 0.013 * np.sin(1.7 * np.arange(n) + 0.3)
    cap = 6 if deep else 5
    if n <= cap:
        F = np.array(list(itertools.product(lev, repeat=n)))
    else:
        rows = []
        base = [np.full(n, l) for l in lev] + [np.array([lev[j % 3] for j in range(n)]), np.array([lev[(2 * j + 1) % 3] for j in range(n)])]
        for b in base:
            for i in range(n):
                for l in lev:
                    r = b.copy()
                    r[i] = l
                    rows.append(r)
            if deep:
                for i, j in itertools.combinations(range(n), 2):
                    for l1, l2 in itertools.product(lev, lev):
                        r = b.copy()
                        r[i], r[j] = l1, l2
                        rows.append(r)
        for a, b_, c in itertools.product((0.021, 0.137, 0.29, 0.463, 0.618, 0.811, 0.953), (0.137, 0.34, 0.77), lev):
            r = np.full(n, c)
            r[0], r[1] = a, b_
            rows.append(r)
        F = np.unique(np.array(rows), axis=0)
    return xl + np.clip(F + off, 0.003, 0.997) * w


def scaled_close(a, b, tol):
    """row-wise comparison relative to the largest entry of the reference row"""
    a, b = np.asarray(a, float).reshape(len(b), -1), np.asarray(b, float).reshape(len(b), -1)
    s = np.maximum(1.0, np.max(np.abs(b), axis=1, initial=0.0))
    return np.all(np.isfinite(a), axis=1) & np.all(np.abs(a - b) <= tol * s[:, None], axis=1)


def smoothing(name, X, V):
    """values may deviate by this much where the published function is not differentiable"""
    z = np.zeros(len(X))
    if name in ("ZDT1", "ZDT3", "ZDT4", "ZDT6"):
        z = np.where((X[:, 0] <= 1e-9) | np.all(X[:, 1:] <= 1e-9, axis=1), 0.02, z)
    if name.endswith("DTLZ6"):
        z = np.where(np.any(np.abs(X) < 1e-9, axis=1), 0.0012 * X.shape[1], z)
    return z * np.maximum(1.0, np.max(np.abs(V), axis=1))


def compare(res, name, p, kind, fn, X, M, extra, ctx, deriv):
    V, G, H, ok = evaluate(fn, X, M, **extra)
    f = dict(obj=(p.objective_batch, p.objective_jacobian_batch, p.objective_hessian_batch))
    if kind != "obj":
        f[kind] = tuple(getattr(p, f"{kind}_{s}_batch") for s in ("constraint", "jacobian", "hessian"))
    v, g, h = f[kind]
    q = V.shape[1]
    got = np.asarray(v(X))
    res.call()
    got = got.reshape(len(X), -1)
    if got.shape != V.shape:
        res.fail(f"{name}:{kind}:shape", f"{got.shape[1]} values per point, {q} expected", ctx)
        return
    fin = np.all(np.isfinite(V), axis=1)
    good = scaled_close(got, V, 1e-7) | ~fin
    sm = smoothing(name, X, V) if kind == "obj" else np.zeros(len(X))
    good |= np.all(np.abs(got - V) <= sm[:, None], axis=1)
    res.state(int(fin.sum()))
    res.skipped += int((~fin).sum())
    for i in np.nonzero(~good)[0][:1]:
        res.fail(f"{name}:{kind}:value", f"{kind} at {X[i].tolist()} is {got[i].tolist()}, the published function gives {V[i].tolist()}", dict(ctx, x=X[i]))
    res.outcome(f"{name}{kind}{np.round(np.nansum(V), 6)}")
    if not deriv:
        return
    ok = ok & fin & np.all(np.isfinite(G.reshape(len(X), -1)), axis=1) & np.all(np.isfinite(H.reshape(len(X), -1)), axis=1)
    ok &= np.max(np.abs(H.reshape(len(X), -1)), axis=1) < 1e9
    res.skipped += int((~ok).sum())
    if not ok.any():
        return
    X = X[ok]
    for what, fun, ref, tol in (("jacobian", g, G[ok], 1e-6), ("hessian", h, H[ok], 1e-5)):
        got = np.asarray(fun(X))
        res.call()
        if got.shape != ref.shape:
            res.fail(f"{name}:{kind}:{what}", f"shape {got.shape}, expected {ref.shape}", ctx)
            continue
        good = scaled_close(got, ref, tol)
        res.state(len(X))
        res.trace()
        for i in np.nonzero(~good)[0][:1]:
            res.fail(f"{name}:{kind}:{what}", f"{what} at {X[i].tolist()} is {got[i].tolist()}, exact {ref[i].tolist()}", dict(ctx, x=X[i]))


def s_problem(name, sizes, deep):
    res = Result()
    C = cls(name)
    for n, M, k in sizes:
        kw = {}
        if n is not None:
            kw["n_var"] = n
        if M is not None:
            kw["n_obj"] = M
        if k is not None:
            kw["k"] = k
        p = C(**kw)
        f, g, h = REG[name]
        extra = dict(k=p.k, xu=p.xu) if name.startswith("WFG") else {}
        ctx = dict(problem=name, n_var=p.n_var, n_obj=p.n_obj, k=k)
        for which in ("grid", "corner"):
            X = points(p.xl, p.xu, deep, which)
            d = which == "grid"
            compare(res, name, p, "obj", f, X, p.n_obj, extra, ctx, d)
            if g is not None:
                compare(res, name, p, "ieq", g, X, p.n_obj, extra, ctx, d)
            if h is not None:
                compare(res, name, p, "eq", h, X, p.n_obj, extra, ctx, d)
        expect = (0 if g is None else len(np.atleast_1d(p.ieq_constraint(X[0]))), 0 if h is None else len(np.atleast_1d(p.eq_constraint(X[0]))))
        if (getattr(p, "n_ieq_constr", 0), getattr(p, "n_eq_constr", 0)) != expect:
            res.fail(f"{name}:counts", f"reported constraint counts differ from {expect}", ctx)
    res.sample(ctx)
    return res


def s_default(name, big=None):
    """the problem as it is constructed without arguments (or with many variables); every ordered pair of requests (point or batch; value,
    Jacobian, Hessian of objectives or constraints) on one object, with an array that is refilled in between"""
    res = Result()
    C = cls(name)
    p = C() if big is None else C(**{k: v for k, v in zip(("n_var", "n_obj"), big) if v is not None})
    extra = dict(k=p.k, xu=p.xu) if name.startswith("WFG") else {}
    n = p.n_var
    lev = np.array([0.137, 0.463, 0.811, 0.29, 0.618])
    F = np.array([[lev[(a * j + b) % 5] for j in range(n)] for a, b in ((0, 1), (1, 0), (2, 3), (3, 2))]) + 0.013 * np.sin(1.7 * np.arange(n) + 0.3)
    if name.endswith("DTLZ4"):
        F[:, : p.n_obj - 1] = 1 - 0.02 * F[:, : p.n_obj - 1]
    X = p.xl + F * (p.xu - p.xl)
    slow = name in ("WFG6", "WFG9") and n > 12
    methods = []
    refs = {}
    for kind, fn in zip(("obj", "ieq", "eq"), REG[name]):
        if fn is None:
            continue
        V, G, H, ok = evaluate(fn, X, p.n_obj, **extra)
        ok = ok & np.all(np.isfinite(V), axis=1) & np.all(np.isfinite(G.reshape(4, -1)), axis=1) & np.all(np.isfinite(H.reshape(4, -1)), axis=1)
        names = ("objective", "objective_jacobian", "objective_hessian") if kind == "obj" else tuple(f"{kind}_{s}" for s in ("constraint", "jacobian", "hessian"))
        for order, (m, R) in enumerate(zip(names, (V, G, H))):
            if order and slow or order == 2 and n > 12 and name.startswith("WFG"):
                continue
            refs[m] = (R, ok if order else np.all(np.isfinite(V), axis=1), (1e-7, 1e-6, 1e-5)[order])
            methods += [(m, False), (m, True)]
    ctx = dict(problem=name, n_var=n, n_obj=p.n_obj)

    def ask(buf, m, batch, rows, after):
        R, ok, tol = refs[m]
        buf[:] = X[rows]
        given = buf if batch else buf[0]
        got = np.asarray(getattr(p, m + ("_batch" if batch else ""))(given))
        want, good = (R[rows], ok[rows]) if batch else (R[rows[0]], ok[rows[0]])
        res.call()
        res.state()
        what = m + (" of a batch" if batch else "")
        if not batch and m in ("ieq_constraint", "eq_constraint"):
            got = np.atleast_1d(got)
        if batch and m in ("ieq_constraint", "eq_constraint"):
            got = got.reshape(len(rows), -1)
        if got.shape != want.shape:
            res.fail(f"{name}:{m}:shape", f"{what} {after} has shape {got.shape}, expected {want.shape}", ctx)
            return
        if not np.all(good):
            res.skipped += 1
            return
        a, b = (got, want) if batch else (got[None], want[None])
        if not np.all(scaled_close(a, b, tol)):
            res.fail(f"{name}:{m}:history", f"{what} {after} at {X[rows[0]].tolist()}.. is {got.tolist()}, exact {want.tolist()}", dict(ctx, x=X[rows[0]]))
        if not np.array_equal(buf, X[rows]):
            res.fail(f"{name}:{m}:mutated", f"{what} changed the given point", ctx)

    for (a, ab), (b, bb) in itertools.product(methods, repeat=2):
        one, two = np.empty((2, n)), np.empty((2, n))
        ask(one, a, ab, [0, 1], "first")
        ask(two, b, bb, [2, 3], f"after {a}")
        ask(one, a, ab, [2, 0], f"after {b} with the array refilled")
        ask(one, b, bb, [1, 3], f"after {a}")
        res.trace()
    for N in (1, 3, 4):
        for m, batch in methods:
            if batch:
                ask(np.empty((N, n)), m, True, [3, 0, 2, 1][:N], f"of {N} points")
    res.outcome(f"{name}{n}{len(methods)}")
    res.sample(ctx)
    return res


SCENARIOS = dict(problem=s_problem, default=s_default)


def sizes(name, deep):
    if name in ("DENT", "CONV3", "CONV4", "CONV4_2F", "DisConnected"):
        return [(None, None, None)]
    if name.startswith("ZDT"):
        return [(n, None, None) for n in ((2, 3, 5, 7) if deep else (2, 4, 7))]
    if name.startswith("UF") or name.startswith("CF"):
        three = int(name[2:]) >= 8
        lo = 5 if three else (4 if name in ("CF6", "CF7") else 3)
        return [(n, None, None) for n in (range(lo, 13) if deep else ((5, 6, 7, 8, 10) if three else (lo, 5, 6, 8)))]
    if name.startswith("WFG"):
        s = [(6, 2, 4), (8, 3, 4), (8, 4, 6), (9, 2, 5), (9, 3, 6)] + ([(7, 3, 4), (10, 2, 6), (10, 4, 6), (12, 5, 8), (6, 3, 4)] if deep else [])
        return [t for t in s if not (name in ("WFG2", "WFG3") and (t[0] - t[2]) % 2)]
    if "DTLZ" in name:
        return [(M + k - 1, M, None) for M, k in ([(2, 1), (2, 3), (3, 2), (4, 2), (5, 1), (3, 5), (6, 2)] if deep else [(2, 3), (3, 2), (4, 1)])]
    raise KeyError(name)


def plan(tier):
    deep = tier == "thorough"
    for name in sorted(REG, key=lambda v: (not v.startswith("WFG"), v)):
        yield "default", dict(name=name)
        if deep and REG[name] and "DTLZ" in name:
            yield "default", dict(name=name, big=(17, 8))
            yield "default", dict(name=name, big=(30, 2))
        elif deep and name[:2] in ("UF", "CF", "ZD"):
            yield "default", dict(name=name, big=(41, None))
    for name in REG:
        sz = sizes(name, deep)
        if deep:
            for s in sz:
                yield "problem", dict(name=name, sizes=[s], deep=True)
        else:
            yield "problem", dict(name=name, sizes=sz, deep=False)
