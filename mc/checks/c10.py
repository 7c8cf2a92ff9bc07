"""C10: maximum mean discrepancy (plain and matched): value, gradient and Hessian are exact."""
import itertools

import numpy as np

from hvd.mmd import MMD, MMDMatching, laplace, rational_quadratic, rbf
from hvd.reference_set import ReferenceSet
from mc import layouts
from mc.assign import exchange
from mc.core import Result
from mc.ref_mmd import chain, derivatives, matching_value, mmd_value
from mc.toy import Toy, lattice

PROPERTY = "C10"
RULE = ("Every multiset of 1-3 approximation points (with coinciding points) and every multiset of reference points from a grid, in 2 and 3 objectives, "
        "for 3 kernels x length scales x trade-offs, with objectives = decisions or a nonlinear map and values/Jacobians "
        "supplied or computed; every request history of length 3 on one object; compared with closed forms."
        " Lattice populations and reference sets of 13 to 24 points.")
ASSUMPTIONS = ["kernel kinks (equal coordinates under the Laplace kernel) are outside the domain of the derivative comparison",
               "matched targets are read back from the object and validated (distinct members of the reference set, optimal "
               "assignment) before they enter the closed form"]
K = dict(rbf=rbf, rational_quadratic=rational_quadratic, laplace=laplace)
GRID = {2: [np.array(p) for p in itertools.product((0.0, 0.45, 1.3), (0.1, 0.75, 1.2))],
        3: [np.array(p) for p in itertools.product((0.0, 0.8), (0.15, 1.1), (0.3, 0.9))]}
RGRID = {2: [np.array(p) for p in itertools.product((-0.2, 0.6), (0.05, 0.9))],
         3: [np.array(p) for p in itertools.product((-0.2, 0.6), (0.05,), (0.1, 1.0))]}
ETA = {1: {0: np.array([-1.0])}, 2: {0: np.array([-0.6, -0.8])}, 3: {0: np.array([-0.6, -0.8, -0.1])}, 4: {0: -np.ones(4) / 2}, 5: {0: -np.ones(5) / np.sqrt(5)}}


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.isfinite(a))) and bool(np.all(np.abs(a - b) <= tol * max(1.0, np.max(np.abs(b), initial=0))))


def kink(kernel, Y, R):
    if kernel != "laplace":
        return False
    for i in range(len(Y)):
        for j in range(len(Y)):
            if i != j and np.any(Y[i] == Y[j]):
                return True
        if np.any(np.any(Y[i] == R, axis=1)):
            return True
    return False


def build(cls, m, R, kernel, th, beta, toy):
    ref = ReferenceSet(R.copy(), eta=ETA[m])
    f = {} if toy is None else dict(func=toy.func, jac=toy.jac, hessian=toy.hess)
    n = m if toy is None else toy.n
    if cls == "mmd":
        return MMD(n, m, ref, kernel=K[kernel], theta=th, **f)
    return MMDMatching(n, m, ref, kernel=K[kernel], theta=th, beta=beta, **f)


def targets(ind, Y, R, res, ctx):
    """the matched targets, validated"""
    T = np.asarray(ind.ref.reference_set)
    if T.shape != Y.shape:
        res.fail("targets", f"{len(T)} targets for {len(Y)} points", ctx)
        return None
    left = [tuple(r) for r in R]
    for t in T:
        if tuple(t) not in left:
            res.fail("targets", f"targets {T.tolist()} are not distinct members of the reference set {R.tolist()}", ctx)
            return None
        left.remove(tuple(t))
    cost = lambda p: sum(np.linalg.norm(Y[i] - T[p[i]]) for i in range(len(Y)))
    if len(Y) > 6:
        worse = exchange(np.linalg.norm(Y[:, None] - T[None], axis=2), np.arange(len(Y))) < -1e-9
    else:
        worse = cost(range(len(Y))) > min(cost(p) for p in itertools.permutations(range(len(Y)))) + 1e-9
    if worse:
        res.fail("targets", f"matching of {Y.tolist()} to {T.tolist()} is not optimal", ctx)
        return None
    return T


def compare(ind, cls, kernel, th, beta, Y, R, X, toy, mode, res, ctx):
    m = Y.shape[1]
    N = len(Y)
    X0, Y0 = X.copy(), Y.copy()
    J = np.array([toy.jac(x) for x in X]) if toy else np.tile(np.eye(m), (N, 1, 1))
    Hf = np.array([toy.hess(x) for x in X]) if toy else np.zeros((N, m, m, m))
    kw = {}
    if mode in ("Y", "YJ"):
        kw["Y"] = Y
    if mode in ("J", "YJ"):
        kw["jacobian"] = J.copy()
    v = float(ind.compute(X=X) if mode in ("", "J") else ind.compute(Y=Y))
    T = R
    if cls == "matching":
        T = targets(ind, Y, R, res, ctx)
        if T is None:
            return
        ev = matching_value(kernel, Y, T, th, beta)
    else:
        ev = mmd_value(kernel, Y, R, th)
    res.state()
    res.call(4)
    if not close(v, ev):
        res.fail("value", f"value {v}, closed form {ev}", ctx)
    if kink(kernel, Y, R):
        res.skipped += 1
        return
    g1 = ind.compute_derivatives(X, compute_hessian=False, **kw)
    out = ind.compute_hessian(X, **kw)
    g2, H2 = ind.compute_derivatives(X, **kw)
    if cls == "matching":
        T = targets(ind, Y, R, res, ctx)
        if T is None:
            return
    gY, HY = derivatives(kernel, Y, T, th, beta if cls == "matching" else 1.0, cls == "matching")
    g, H = chain(gY, HY, J, Hf)
    for name, a, b in (("gradient", g1, g), ("gradient", g2, g), ("Hessian", H2, H), ("objective gradient", out["MMDdY"], gY),
                       ("objective Hessian", out["MMDdY2"], HY), ("Hessian", out["MMDdX2"], H), ("gradient", out["MMDdX"], g)):
        if not close(a, b):
            res.fail(name, f"{name} {np.asarray(a).tolist()}, closed form {b.tolist()}", ctx)
            break
    if not np.array_equal(X, X0) or not np.array_equal(Y, Y0):
        res.fail("mutated", "inputs modified", ctx)
    res.outcome(f"{cls}{kernel}{np.round(v, 6)}")
    res.trace()


def s_grid(cls, m, kernel, N, M, thetas, betas, rstep=1):
    """objectives = decisions (defaults for func/jac/hessian)"""
    res = Result()
    for th, beta in itertools.product(thetas, betas):
        ind = None
        for q, Rs in enumerate(itertools.combinations_with_replacement(RGRID[m], M)):
            if q % rstep:
                continue
            R = np.array(Rs)
            if ind is None:
                ind = build(cls, m, R, kernel, th, beta, None)
            for Ys in itertools.combinations_with_replacement(GRID[m], N):
                Y = np.array(Ys)
                # the same (compiled) indicator on a fresh reference set
                ind.ref = ReferenceSet(R.copy(), eta=ETA[m])
                compare(ind, cls, kernel, th, beta, Y, R, Y.copy(), None, "", res,
                        dict(cls=cls, kernel=kernel, theta=th, beta=beta, Y=Y, R=R))
                if res.full:
                    return res
    res.sample(dict(cls=cls, kernel=kernel, Y=Y, R=R))
    return res


def s_whole(cls, m, kernel, N, M):
    """points and reference points stored as whole numbers; the reference set is then shifted by a fraction"""
    res = Result()
    G = [np.array(p) for p in itertools.product((0, 1, 3), repeat=m)][:: 1 if m == 2 else 3]
    ind = build(cls, m, np.array(G[:M]), kernel, 0.4, 0.3, None)
    for Rs in list(itertools.combinations(range(len(G)), M))[::2]:
        R = np.array([G[i] for i in Rs]) + np.arange(m) % 2
        for Ys in itertools.combinations(range(len(G)), N):
            Y = np.array([G[i] for i in Ys])
            for shift in (0, 1):
                ind.ref = ReferenceSet(R.copy(), eta=ETA[m])
                if shift:
                    ind.ref.shift(0.3)
                compare(ind, cls, kernel, 0.4, 0.3, Y, R + 0.3 * shift * ETA[m][0], Y.copy(), None, "" if shift else "Y", res,
                        dict(cls=cls, kernel=kernel, Y=Y, R=R, shift=shift))
            if res.full:
                return res
    res.sample(dict(cls=cls, kernel=kernel, Y=Y, R=R))
    return res


def s_map(cls, m, n, kernel, N, M, modes=("", "Y", "J", "YJ")):
    """nonlinear objectives; values and Jacobians supplied or computed"""
    res = Result()
    toy = Toy(m, n)
    pal = [np.resize(p, n) + 0.07 * np.arange(n) for p in ((0.2, 0.1), (0.6, -0.3), (-0.1, 0.5), (0.35, 0.35), (0.9, 0.2))]
    R = np.array([GRID[m][i] + 0.013 for i in ((0, 4, 7, 2) if m == 2 else (0, 5, 6, 3))][:M])
    ind = build(cls, m, R, kernel, 0.7, 0.25, toy)
    for tup in itertools.permutations(range(len(pal)), N):
        X = np.array([pal[i] for i in tup])
        Y = np.array([toy.func(x) for x in X])
        for mode in modes:
            ind.ref = ReferenceSet(R.copy(), eta=ETA[m])
            compare(ind, cls, kernel, 0.7, 0.25, Y, R, X, toy, mode, res, dict(cls=cls, kernel=kernel, X=X, mode=mode, R=R))
        if res.full:
            break
    # row order equivariance follows from the comparison; lists and transposed inputs
    return res


def s_sizes(cls, m, n, kernel, nmax, step, sizes=None):
    """lattice populations and reference sets of all sizes up to a bound in up to five objectives and variables"""
    res = Result()
    toy = Toy(m, n)
    ind = build(cls, m, lattice(2, m, 0.4, -0.3, 1.7), kernel, 0.3, 0.35, toy)
    for N, M in sizes or itertools.product(range(1, nmax + 1, step), range(1, nmax + 3, step)):
        if cls == "matching" and M < N:
            continue
        X = lattice(N, n, 0.1 * M, -0.6, 1.2)
        R = lattice(M, m, 0.4, -0.3, 1.7)
        Y = np.array([toy.func(x) for x in X])
        ind.ref = ReferenceSet(R.copy(), eta=ETA[m])
        compare(ind, cls, kernel, 0.3, 0.35, Y, R, X, toy, ("", "YJ")[M % 2], res, dict(cls=cls, kernel=kernel, m=m, n=n, N=N, M=M))
        if res.full:
            break
    return res


def s_history(cls, kernel):
    """every history of three requests on one object equals fresh requests"""
    res = Result()
    m = 2
    R = np.array([GRID[2][i] + 0.013 for i in (0, 4, 8)])
    pops = [np.array([GRID[2][i] for i in t]) + 0.02 for t in ((1, 5, 6), (6, 3, 2))]
    ops = [(k, p) for k in ("value", "grad", "hess") for p in (0, 1)]
    fresh = {}

    def ask(ind, op):
        k, p = op
        if k == "value":
            return [float(ind.compute(Y=pops[p]))]
        if k == "grad":
            return [ind.compute_derivatives(pops[p], compute_hessian=False)]
        return list(ind.compute_derivatives(pops[p]))

    base = build(cls, m, R, kernel, 1.0, 0.5, None)
    for op in ops:
        base.ref = ReferenceSet(R.copy(), eta=ETA[m])
        fresh[op] = ask(base, op)
    for seq in itertools.product(ops, repeat=3):
        base.ref = ReferenceSet(R.copy(), eta=ETA[m])
        for s, op in enumerate(seq):
            got = ask(base, op)
            res.call()
            if not all(close(a, b, 1e-12) for a, b in zip(got, fresh[op])):
                res.fail("history", f"request {op} after {seq[:s]} differs from a fresh one", dict(cls=cls, history=seq))
        res.state()
        res.trace()
    return res


def s_refill(cls, kernel, m, n, depth):
    """one pair of arrays refilled in place between the requests on one object (nonlinear objectives, populations 1e-6 apart
    with different optimal matchings)"""
    from mc.checks.c11 import near_populations

    res = Result()
    toy = Toy(m, n)
    R, pops = near_populations(toy, "match")
    allY = [np.array([toy.func(x) for x in P]) for P in pops]
    allJ = [np.array([toy.jac(x) for x in P]) for P in pops]
    want = []
    for P, Y, J in zip(pops, allY, allJ):
        T = R
        if cls == "matching":
            T = min((R[list(q)] for q in itertools.permutations(range(2))), key=lambda T: np.linalg.norm(Y - T, axis=1).sum())
        v = matching_value(kernel, Y, T, 0.7, 0.25) if cls == "matching" else mmd_value(kernel, Y, R, 0.7)
        gY, HY = derivatives(kernel, Y, T, 0.7, 0.25 if cls == "matching" else 1.0, cls == "matching")
        want.append((v,) + chain(gY, HY, J, np.array([toy.hess(x) for x in P])))
    ind = build(cls, m, R, kernel, 0.7, 0.25, toy)
    ops = [(q, what, mode) for q in range(3) for what in ("value", "grad", "hess") for mode in ("", "YJ")]
    for seq in itertools.product(ops, repeat=depth):
        ind.ref = ReferenceSet(R.copy(), eta=ETA[m])
        X, Y, J = np.empty_like(pops[0]), np.empty_like(allY[0]), np.empty_like(allJ[0])
        for t, (q, what, mode) in enumerate(seq):
            X[:], Y[:], J[:] = pops[q], allY[q], allJ[q]
            ctx = dict(cls=cls, kernel=kernel, m=m, n=n, sequence=seq[: t + 1], X=X, R=R)
            kw = dict(Y=Y, jacobian=J) if mode else {}
            res.call()
            if what == "value":
                ok = close(float(ind.compute(Y=Y) if mode else ind.compute(X=X)), want[q][0])
            else:
                o = ind.compute_derivatives(X, compute_hessian=what == "hess", **kw)
                ok = close(o, want[q][1]) if what == "grad" else (close(o[0], want[q][1]) and close(o[1], want[q][2]))
            if not ok:
                res.fail("refilled", f"request {(what, mode)} after {seq[:t]} is not that of the current population", ctx)
            if not (np.array_equal(X, pops[q]) and np.array_equal(Y, allY[q]) and np.array_equal(J, allJ[q])):
                res.fail("mutated", "inputs modified", ctx)
        res.state()
        res.trace()
        if res.full:
            break
    return res


def s_settings(cls, kernel, depth, first):
    """one object whose reference set (also of another size) and weight are replaced between requests, as bootstrapping does"""
    res = Result()
    m = n = 2
    toy = Toy(m, n)
    X = np.array([np.array(p) for p in ((0.2, 0.17), (0.6, -0.23), (-0.1, 0.57))])
    Y, J, Hf = (np.array([f(x) for x in X]) for f in (toy.func, toy.jac, toy.hess))
    Rs = [np.array([GRID[2][i] + 0.013 for i in t]) for t in ((0, 4, 8), (1, 5, 6) if cls == "matching" else (1, 5, 6, 3))]
    betas = (0.25, 0.6) if cls == "matching" else (1.0,)
    want = {}
    for r, b in itertools.product(range(len(Rs)), betas):
        T = Rs[r]
        if cls == "matching":
            T = min((Rs[r][list(q)] for q in itertools.permutations(range(3))), key=lambda T: np.linalg.norm(Y - T, axis=1).sum())
        v = matching_value(kernel, Y, T, 0.7, b) if cls == "matching" else mmd_value(kernel, Y, T, 0.7)
        want[r, b] = (v,) + chain(*derivatives(kernel, Y, T, 0.7, b, cls == "matching"), J, Hf)
    ops = [("ref", r) for r in range(len(Rs))] + [("beta", b) for b in betas if cls == "matching"] + [(k, 0) for k in ("value", "grad", "hess")]
    for seq in itertools.product(ops, repeat=depth):
        if seq[-1][0] in ("ref", "beta") or seq[0] != ops[first]:
            continue
        r, b = 0, betas[0]
        ind = build(cls, m, Rs[0], kernel, 0.7, b, toy)
        for t, (k, a) in enumerate(seq):
            if k == "ref":
                r, ind.ref = a, ReferenceSet(Rs[a].copy(), eta=ETA[m])
                continue
            if k == "beta":
                b = ind.beta = a
                continue
            res.call()
            v, g, H = want[r, b]
            if k == "value":
                ok = close(float(ind.compute(Y=Y)), v)
            else:
                o = ind.compute_derivatives(X, compute_hessian=k == "hess")
                ok = close(o, g) if k == "grad" else close(o[0], g) and close(o[1], H)
            if not ok:
                res.fail("settings", f"{k} after {seq[:t]} is not that of the current reference set and weight", dict(cls=cls, kernel=kernel, history=seq))
        res.state()
        res.trace()
        if res.full:
            break
    res.outcome(len(want))
    return res


def s_kernels():
    """the kernels themselves: symmetric, 1 at equal arguments, closed form, strictly decreasing in each |difference|"""
    from mc.ref_mmd import kern

    res = Result()
    vals = (-1.5, -0.2, 0.0, 0.3, 2.0)
    for name, f in K.items():
        for m in (1, 2, 3):
            pts = list(itertools.product(vals, repeat=min(m, 2)))
            pts = [np.array(list(p) + [0.1] * (m - len(p))) for p in pts]
            for x, y in itertools.product(pts, pts):
                for th in (0.5, 1.0):
                    a = float(f(x, y, theta=th))
                    res.state()
                    if not np.isclose(a, kern(name, x, y, th)[0], rtol=1e-12, atol=1e-300):
                        res.fail("kernel", f"{name}({x.tolist()}, {y.tolist()}, {th}) = {a}", [name, x, y, th])
                    res.outcome(f"{name}{a:.5f}")
        res.call()
    for x, y, al in itertools.product([0.0, 1.0], [0.5, 2.0], [0.5, 1.0, 2.0, 3.0]):
        a = float(rational_quadratic(np.array([x]), np.array([y]), theta=0.7, alpha=al))
        e = ((x - y) ** 2 * 0.7 / (2 * al) + 1) ** (-al)
        res.state()
        if not np.isclose(a, e):
            res.fail("kernel", f"rational quadratic alpha={al}: {a} expected {e}", [x, y, al])
    return res


SCENARIOS = dict(sizes=s_sizes, whole=s_whole, settings=s_settings, grid=s_grid, map=s_map, history=s_history, kernels=s_kernels, refill=s_refill)


def plan(tier):
    th = tier == "thorough"
    yield "kernels", {}
    for cls, m, n in itertools.product(("mmd", "matching"), (1, 2, 3, 5), (1, 3, 5)):
        if th or n == 3 or (m, n) in ((1, 1), (2, 1), (5, 5)):
            yield "sizes", dict(cls=cls, m=m, n=n, kernel="rbf" if m != 3 else "rational_quadratic", nmax=6 + 2 * (th and cls == "mmd"), step=1 if th else 2)
    for cls, m in itertools.product(("mmd", "matching"), (2, 3)):
        for NM in [(15, 20), (24, 24)] + [(20, 13)] * (cls == "mmd") + [(40, 50)] * th:
            yield "sizes", dict(cls=cls, m=m, n=2, kernel="rbf", nmax=0, step=1, sizes=[NM])
    for cls, kernel in itertools.product(("mmd", "matching"), K):
        for m, N, M in ((2, 2, 2), (3, 2, 2)) if th or kernel == "rbf" else ((2, 2, 2),):
            yield "whole", dict(cls=cls, m=m, kernel=kernel, N=N, M=M)
    for cls, kernel in itertools.product(("mmd", "matching"), K):
        yield "history", dict(cls=cls, kernel=kernel)
        if th or kernel == "rbf":
            for f in range(5 if cls == "mmd" else 7):
                yield "settings", dict(cls=cls, kernel=kernel, depth=3, first=f)
        for m, n in ((2, 2), (2, 3)) if th or kernel == "rbf" else ((2, 2),):
            yield "refill", dict(cls=cls, kernel=kernel, m=m, n=n, depth=2)
    for N, M in itertools.product((1, 2, 3), (1, 2, 3)):
        for cls, kernel, m in itertools.product(("mmd", "matching"), K, (2, 3)):
            if cls == "matching" and M < N:
                continue
            if not th and N == 3 and (kernel == "laplace" or (m == 3) != (M == 3)):
                continue
            yield "grid", dict(cls=cls, m=m, kernel=kernel, N=N, M=M, thetas=[1.0, 0.4] if th or N < 3 else [0.7],
                               betas=([0.5, 0.25] if th else [0.25]) if cls == "matching" else [1.0],
                               rstep=1 if th or N < 3 else 5)
    for cls, kernel, (m, n), (N, M) in itertools.product(
            ("mmd", "matching"), K, ((2, 2), (3, 2), (2, 3)), ((1, 2), (2, 2), (3, 3), (2, 4)) + (((4, 4),) if th else ())):
        if not th and kernel != "rbf" and N == 3:
            continue
        yield "map", dict(cls=cls, m=m, n=n, kernel=kernel, N=N, M=M)


plan = layouts.extend(SCENARIOS, plan, layouts.s_c10)
