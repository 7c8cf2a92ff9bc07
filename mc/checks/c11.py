"""C11: (inverted) generational distance: value and derivatives are exact."""
import itertools

import numpy as np

from hvd.delta_p import GenerationalDistance, InvertedGenerationalDistance
from hvd.reference_set import ReferenceSet
from mc import layouts
from mc.assign import exchange
from mc.core import Result
from mc.toy import Toy, lattice

PROPERTY = "C11"
RULE = ("Every multiset of 1-3 approximation points and every set of 1-4 reference points from grids in 2 and 3 objectives "
        "(with zero distances and ties), exponents {1, 2, 3, 4, 1.5}, identity and nonlinear objectives, values/Jacobians "
        "supplied or computed, matched and unmatched inverted distance, all histories of length 3 of requests and replaced reference sets, and all "
        "histories of length 2-3 over one pair of arrays refilled in place (populations 1e-6 apart across a tie included)."
        " Lattice populations of every size up to 60 against as many, more and fewer reference points.")
ASSUMPTIONS = ["derivatives where the nearest neighbour is not unique (or at zero distance for exponents below 2, Hessians below 4) are outside the domain",
               "the inverted distance defines derivatives for exponent 2 only; with matching they are those of the sum of squared distances"]
G2 = [np.array(p) for p in itertools.product((0.0, 0.45, 1.3), (0.1, 0.75, 1.2))]
G3 = [np.array(p) for p in itertools.product((0.0, 0.8), (0.15, 1.1), (0.3, 0.9))]
GRID = {2: G2, 3: G3}
RG = {2: [np.array(p) for p in ((0.0, 0.1), (0.45, 0.75), (-0.2, 0.9), (0.6, -0.1), (1.3, 1.2))],
      3: [np.array(p) for p in ((0.0, 0.15, 0.3), (-0.2, 0.6, 0.1), (0.8, 1.1, 0.9), (0.5, -0.2, 0.4))]}
ETA = {1: {0: np.array([-1.0])}, 2: {0: np.array([-0.6, -0.8])}, 3: {0: np.array([-0.6, -0.8, -0.1])}, 4: {0: -np.ones(4) / 2}, 5: {0: -np.ones(5) / np.sqrt(5)}}


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.isfinite(a))) and bool(np.all(np.abs(a - b) <= tol * max(1.0, np.max(np.abs(b), initial=0))))


def dist(A, B):
    return np.linalg.norm(A[:, None] - B[None], axis=2)


def ties(D):
    S = np.sort(D, axis=1)
    return S.shape[1] > 1 and bool(np.any(S[:, 1] - S[:, 0] < 1e-12))


def gd_ref(Y, R, p, J, Hf):
    D = dist(Y, R)
    d = D.min(1)
    v = np.mean(d**p) ** (1 / p)
    if ties(D) or (p < 2 and np.any(d == 0)):
        return v, None, None
    N = len(Y)
    diff = Y - R[D.argmin(1)]
    g, H = [], []
    for i in range(N):
        JTd = J[i].T @ diff[i]
        core = J[i].T @ J[i] + np.einsum("m,mab->ab", diff[i], Hf[i])
        if p == 2:
            a, b = 1.0, 0.0
        elif d[i] == 0:
            a, b = 0.0, 0.0
        else:
            a, b = d[i] ** (p - 2), (p - 2) * d[i] ** (p - 4)
        g.append(p / N * a * JTd)
        H.append(p / N * (a * core + b * np.outer(JTd, JTd)))
    Hout = None if (p < 4 and p != 2 and np.any(d == 0)) else np.array(H)
    return v, np.array(g), Hout


def igd_ref(Y, R, p, J, Hf):
    D = dist(R, Y)
    v = np.mean(D.min(1) ** p) ** (1 / p)
    if ties(D) or p != 2:
        return v, None, None
    near = D.argmin(1)
    g, H = [], []
    for i in range(len(Y)):
        S = R[near == i]
        w = 2.0 / len(R)
        diff = (Y[i] - S).sum(0) if len(S) else np.zeros(Y.shape[1])
        g.append(w * J[i].T @ diff)
        H.append(w * (len(S) * J[i].T @ J[i] + np.einsum("m,mab->ab", diff, Hf[i])))
    return v, np.array(g), np.array(H)


def match_ref(Y, T, J, Hf):
    diff = Y - T
    v = np.mean(np.sum(diff**2, axis=1))
    g = np.array([2 * J[i].T @ diff[i] for i in range(len(Y))])
    H = np.array([2 * (J[i].T @ J[i] + np.einsum("m,mab->ab", diff[i], Hf[i])) for i in range(len(Y))])
    return v, g, H


def optimal(Y, T):
    if len(Y) > 6:
        return exchange(dist(Y, T), np.arange(len(Y))) > -1e-9
    c = lambda q: sum(np.linalg.norm(Y[i] - T[q[i]]) for i in range(len(Y)))
    return c(range(len(Y))) <= min(c(q) for q in itertools.permutations(range(len(Y)))) + 1e-9


def one(kind, p, X, Y, R, f, as_set, mode, res, ctx):
    N, m = Y.shape
    X0, Y0, R0 = X.copy(), Y.copy(), R.copy()
    J = np.array([f["jac"](x) for x in X])
    Hf = np.array([f["hess"](x) for x in X])
    ref = ReferenceSet(R, eta=ETA[m]) if as_set else R
    kw = {}
    if "Y" in mode:
        kw["Y"] = Y
    if "J" in mode:
        kw["Jacobian"] = J.copy()
    res.state()
    if kind == "gd":
        ind = GenerationalDistance(ref, p=p, **f)
        ev, eg, eH = gd_ref(Y, R, p, J, Hf)
    else:
        ind = InvertedGenerationalDistance(ref, p=p, matching=kind == "match", **f)
        if kind == "igd":
            ev, eg, eH = igd_ref(Y, R, p, J, Hf)
    v = float(ind.compute(Y=Y) if "Y" in mode else ind.compute(X=X))
    res.call()
    if kind == "match":
        T = np.asarray(ind.ref.reference_set)
        left = [tuple(r) for r in R]
        okT = T.shape == Y.shape
        for t in T if okT else []:
            if tuple(t) in left:
                left.remove(tuple(t))
            else:
                okT = False
        if not okT or not optimal(Y, T):
            res.fail("matching", f"{Y.tolist()} is matched to {T.tolist()} out of {R.tolist()}", ctx)
            return
        ev, eg, eH = match_ref(Y, T, J, Hf)
        c = [0.0, exchange(dist(Y, T), np.arange(N))] if N > 6 else sorted(
            sum(np.linalg.norm(Y[i] - T[q[i]]) for i in range(N)) for q in itertools.permutations(range(N)))
        if len(c) > 1 and c[1] - c[0] < 1e-9:
            eg = None  # the matching is not unique
    if not close(v, ev):
        res.fail(f"{kind}:value", f"value {v}, definition {ev}", ctx)
    if eg is None:
        res.skipped += 1
        return
    g = ind.compute_derivatives(X, compute_hessian=False, **kw)
    g2, H = ind.compute_derivatives(X, **kw)
    res.call(2)
    for a in (g, g2):
        if not close(a, eg):
            res.fail(f"{kind}:gradient", f"gradient {np.asarray(a).tolist()}, definition {eg.tolist()}", ctx)
            break
    if eH is not None and not close(H, eH):
        res.fail(f"{kind}:hessian", f"Hessian {np.asarray(H).tolist()}, definition {eH.tolist()}", ctx)
    if not (np.array_equal(X, X0) and np.array_equal(Y, Y0) and np.array_equal(R, R0)):
        res.fail("mutated", "inputs modified", ctx)
    res.outcome(f"{kind}{p}{v:.6f}")
    res.trace()


def ident(m):
    return dict(func=lambda x: x, jac=lambda x: np.eye(m), hess=lambda x: np.zeros((m, m, m)))


def s_grid(kind, m, N, M, ps):
    res = Result()
    f = ident(m)
    for Rs in itertools.combinations(range(len(RG[m])), M):
        R = np.array([RG[m][i] for i in Rs])
        for Ys in itertools.combinations_with_replacement(range(len(GRID[m])), N):
            Y = np.array([GRID[m][i] for i in Ys])
            for p in ps:
                one(kind, p, Y.copy(), Y, R.copy(), f, (sum(Ys) + sum(Rs)) % 2, "", res, dict(kind=kind, p=p, Y=Y, R=R))
            if res.full:
                return res
    res.sample(dict(kind=kind, Y=Y, R=R))
    return res


def s_map(kind, m, n, N, M, ps):
    res = Result()
    toy = Toy(m, n)
    f = dict(func=toy.func, jac=toy.jac, hess=toy.hess)
    pal = [np.resize(p, n) + 0.07 * np.arange(n) for p in ((0.2, 0.1), (0.6, -0.3), (-0.1, 0.5), (0.35, 0.35), (0.9, 0.2))]
    for tup in itertools.permutations(range(len(pal)), N):
        X = np.array([pal[i] for i in tup])
        Y = np.array([toy.func(x) for x in X])
        for Rs in itertools.combinations(range(len(RG[m])), M):
            R = np.array([RG[m][i] for i in Rs])
            for p, mode in itertools.product(ps, ("", "Y", "J", "YJ")):
                one(kind, p, X, Y, R.copy(), f, mode == "J", mode, res, dict(kind=kind, p=p, X=X, R=R, mode=mode))
            if res.full:
                return res
    return res


def s_sizes(kind, m, n, nmax, ps, variants, sizes=None):
    """lattice populations and reference sets of all sizes up to a bound in up to five objectives and variables"""
    res = Result()
    toy = Toy(m, n)
    f = dict(func=toy.func, jac=toy.jac, hess=toy.hess)
    for (N, M), v, p in itertools.product(sizes or list(itertools.product(range(1, nmax + 1), repeat=2)), variants, ps):
        if kind == "match" and M < N:
            continue
        X = lattice(N, n, v, -0.6, 1.2)
        R = lattice(M, m, v + 0.4, -0.3, 1.7)
        for mode in ("", "YJ"):
            one(kind, p, X, np.array([toy.func(x) for x in X]), R, f, N % 2, mode, res, dict(kind=kind, p=p, m=m, n=n, N=N, M=M, variant=v, mode=mode))
        if res.full:
            return res
    return res


def s_history(kind, p):
    """all histories of length 3 on one object of requests over two populations of different size and replacements of the
    reference set (by one of another size)"""
    res = Result()
    m = 2
    Rs = [np.array(RG[2][:4]), np.vstack([RG[2][:4], [[0.33, 0.41]]]) + 0.07]
    pops = [np.array([G2[i] for i in t]) + 0.02 for t in ((1, 5, 6), (6, 3))]
    f = ident(m)

    def make(r=0):
        ref = ReferenceSet(Rs[r].copy(), eta=ETA[m])
        if kind == "gd":
            return GenerationalDistance(ref, p=p, **f)
        return InvertedGenerationalDistance(ref, p=p, matching=kind == "match", **f)

    def ask(ind, op):
        k, q = op
        if k == "value":
            return [float(ind.compute(Y=pops[q]))]
        if k == "grad":
            return [ind.compute_derivatives(pops[q], compute_hessian=False)]
        return list(ind.compute_derivatives(pops[q]))

    ops = [(k, q) for k in ("value", "grad", "hess") for q in (0, 1)]
    fresh = {(r, o): ask(make(r), o) for o in ops for r in (0, 1)}
    for n in (1, 2, 3):
        for seq in itertools.product(ops + [("ref", 0), ("ref", 1)], repeat=n):
            ind, r = make(), 0
            for s, op in enumerate(seq):
                if op[0] == "ref":
                    r, ind.ref = op[1], ReferenceSet(Rs[op[1]].copy(), eta=ETA[m])
                    continue
                got = ask(ind, op)
                res.call()
                if not all(close(a, b, 1e-12) for a, b in zip(got, fresh[r, op])):
                    res.fail("history", f"request {op} after {seq[:s]} differs from a fresh one", dict(kind=kind, p=p, history=seq))
            res.state()
            res.trace()
    return res


def s_shared():
    """one reference set shared by a matched indicator and plain ones: the plain ones describe the current reference set"""
    res = Result()
    m = 2
    f = ident(m)
    for M, N in itertools.product((2, 3, 4, 5), (1, 2, 3)):
        if N > M:
            continue
        for Ys in itertools.combinations(range(len(G2)), N):
            Y = np.array([G2[i] for i in Ys]) + 0.01
            ref = ReferenceSet(np.array(RG[2][:M]), eta=ETA[m])
            ma = InvertedGenerationalDistance(ref, matching=True, **f)
            plain = InvertedGenerationalDistance(ref, **f)
            gd = GenerationalDistance(ref, **f)
            for step in ("before", "matched", "shifted"):
                if step == "matched":
                    ma.compute(Y=Y)
                if step == "shifted":
                    ref.shift(0.1)
                cur = np.array(ref.reference_set)
                J, Hf = np.tile(np.eye(m), (N, 1, 1)), np.zeros((N, m, m, m))
                for ind, r in ((plain, igd_ref(Y, cur, 2, J, Hf)), (gd, gd_ref(Y, cur, 2, J, Hf))):
                    res.state()
                    try:
                        v = float(ind.compute(Y=Y))
                        out = ind.compute_derivatives(Y) if r[1] is not None else None
                    except Exception as e:  # noqa: BLE001
                        res.fail("shared", f"{ind} raised {e!r} {step} the reference set was matched ({M} -> {N} points)", dict(Y=Y, M=M, step=step))
                        continue
                    res.call(2)
                    if not close(v, r[0]):
                        res.fail("shared", f"{ind} is {v}, definition {r[0]} ({step})", dict(Y=Y, M=M, step=step))
                    if out is not None and not (close(out[0], r[1]) and close(out[1], r[2])):
                        res.fail("shared", f"{ind} derivatives {out[0].tolist()}, definition {r[1].tolist()} ({step})", dict(Y=Y, M=M, step=step))
            res.trace()
    return res


def near_populations(toy, kind):
    """populations of two points: two of them 1e-6 apart on either side of a nearest-neighbour / matching tie, one elsewhere"""
    n = toy.n
    X = np.array([np.resize((0.2, 0.1), n), np.resize((0.6, -0.3), n)]) + 0.03 * np.arange(n)
    Y = np.array([toy.func(x) for x in X])
    v = np.zeros(toy.m)
    v[:2] = [0.3, -0.4]
    mid, d = Y.mean(0), (Y[1] - Y[0])
    w = np.zeros(toy.m)
    w[:2] = [-d[1], d[0]]
    if kind == "gd":
        R = [Y[0] + v, Y[0] - v, Y[1] + 2.0]
    elif kind == "igd":
        R = [mid + 0.3 * w, Y[0] - 0.2, Y[1] + 0.4]
    else:
        R = [mid + 0.8 * w, mid - 0.8 * w]
    pops = []
    for s in (1, -1):
        P = X.copy()
        P[0] += s * 1e-6 * np.resize((1.0, -0.4, 0.2), n)
        pops.append(P)
    pops.append(np.array([np.resize((-0.4, 0.5), n), np.resize((0.9, 0.25), n)]))
    return np.array(R), pops


def s_refill(kind, p, m, n, depth):
    """one pair of arrays refilled in place between the requests on one object"""
    res = Result()
    toy = Toy(m, n)
    f = dict(func=toy.func, jac=toy.jac, hess=toy.hess)
    R, pops = near_populations(toy, kind)
    allY = [np.array([toy.func(x) for x in P]) for P in pops]
    allJ = [np.array([toy.jac(x) for x in P]) for P in pops]
    allH = [np.array([toy.hess(x) for x in P]) for P in pops]
    want = []
    for Y, J, Hf in zip(allY, allJ, allH):
        if kind == "match":
            perms = [R[list(q)] for q in itertools.permutations(range(len(R)), len(Y))]
            want.append(match_ref(Y, min(perms, key=lambda T: np.linalg.norm(Y - T, axis=1).sum()), J, Hf))
        else:
            want.append((gd_ref if kind == "gd" else igd_ref)(Y, R, p, J, Hf))
    ops = [(q, what, mode) for q in range(3) for what in ("value", "grad", "hess") for mode in ("", "Y", "YJ")]
    ops = [o for o in ops if not (o[1] == "value" and o[2] == "YJ")]
    for seq in itertools.product(ops, repeat=depth):
        ref = ReferenceSet(R.copy(), eta=ETA[m])
        ind = GenerationalDistance(ref, p=p, **f) if kind == "gd" else InvertedGenerationalDistance(ref, p=p, matching=kind == "match", **f)
        X, Y, J = np.empty_like(pops[0]), np.empty_like(allY[0]), np.empty_like(allJ[0])
        for t, (q, what, mode) in enumerate(seq):
            X[:], Y[:], J[:] = pops[q], allY[q], allJ[q]
            ctx = dict(kind=kind, p=p, m=m, n=n, sequence=seq[: t + 1], X=X, R=R)
            kw = dict(Y=Y) if "Y" in mode else {}
            res.call()
            if what == "value":
                ok = close(float(ind.compute(Y=Y) if mode else ind.compute(X=X)), want[q][0])
            else:
                if "J" in mode:
                    kw["Jacobian"] = J
                o = ind.compute_derivatives(X, compute_hessian=what == "hess", **kw)
                ok = close(o, want[q][1]) if what == "grad" else (close(o[0], want[q][1]) and close(o[1], want[q][2]))
            if not ok:
                res.fail(f"{kind}:refilled", f"request {(what, mode)} after {seq[:t]} is not that of the current population", ctx)
            if not (np.array_equal(X, pops[q]) and np.array_equal(Y, allY[q]) and np.array_equal(J, allJ[q])):
                res.fail("mutated", "inputs modified", ctx)
        res.state()
        res.trace()
        if res.full:
            break
    return res


SCENARIOS = dict(sizes=s_sizes, grid=s_grid, map=s_map, history=s_history, shared=s_shared, refill=s_refill)


def plan(tier):
    th = tier == "thorough"
    yield "shared", {}
    for kind, m, n in itertools.product(("gd", "igd", "match"), (1, 2, 3, 4, 5), (1, 2, 3, 5)):
        yield "sizes", dict(kind=kind, m=m, n=n, nmax=(5 if kind == "match" else 9) + 2 * th, ps=[2] if kind == "match" else [1, 2, 3] if kind == "gd" else [2],
                            variants=[0, 1, 2, 3] if th else [0])
    for kind, (m, n) in itertools.product(("gd", "igd", "match"), ((2, 2), (3, 2))):
        yield "sizes", dict(kind=kind, m=m, n=n, nmax=0, ps=[2] if kind == "match" else [1, 2, 3] if kind == "gd" else [2], variants=[0],
                            sizes=[(N, N + k) for N in range(10, 61) for k in ((0, 3, 40) if kind == "match" else (0, 3, -4))])
    for kind, (m, n) in itertools.product(("gd", "igd", "match"), ((2, 2), (3, 2), (2, 3))):
        for p in (2,) if kind != "gd" else (1, 2, 3):
            yield "refill", dict(kind=kind, p=p, m=m, n=n, depth=3 if th and m == 2 else 2)
    for kind in ("gd", "igd", "match"):
        for p in (2,) if kind != "gd" else (1, 2, 3):
            yield "history", dict(kind=kind, p=p)
    for N, M, m, kind in itertools.product((1, 2, 3), (1, 2, 3, 4), (2, 3), ("gd", "igd", "match")):
        if kind == "match" and M < N:
            continue
        ps = [2] if kind == "match" else [1, 2, 3, 4, 1.5]
        yield "grid", dict(kind=kind, m=m, N=N, M=M, ps=ps)
    if th:
        for m, kind in itertools.product((2, 3), ("gd", "igd", "match")):
            yield "grid", dict(kind=kind, m=m, N=4, M=4, ps=[2] if kind == "match" else [1, 2, 3, 4])
    for (m, n), (N, M), kind in itertools.product(((2, 2), (3, 2), (2, 3)), ((1, 2), (2, 2), (2, 3), (3, 3)) + (((4, 4),) if th else ()),
                                                  ("gd", "igd", "match")):
        yield "map", dict(kind=kind, m=m, n=n, N=N, M=M, ps=[2] if kind == "match" else [1, 2, 3] if kind == "gd" else [2, 1])


plan = layouts.extend(SCENARIOS, plan, layouts.s_c11)
