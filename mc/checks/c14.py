"""C14: reported Pareto fronts and Pareto sets are the published optimal ones: attainable by feasible decisions, nondominated,
complete, with the requested number of points.

All problems x sizes x requested numbers of points; every returned point is inverted to a decision (mc/ref_fronts.py) and
evaluated with the independent formulas and with the real problem; domination is decided against a complete decision grid."""
import itertools
from unittest import mock

import numpy as np

from mc.checks.c13 import cls
from mc.core import Result
from mc.ref_fronts import front
from mc.ref_problems import REG, evaluate

PROPERTY = "C14"
RULE = ("Every benchmark problem with a local Pareto front or set x sizes x numbers of points: every returned point is inverted to the "
        "parameters of the published front, tested for the published region, re-evaluated with independent formulas and with the real "
        "objective and constraints at the optimal decision, compared with all other returned points and with a complete grid of decisions "
        "(optimal manifold, coordinate deviations, product levels); a complete parameter grid of the front must be covered. Random "
        "generators are driven through complete grids of random values; requests are repeated after their answers were overwritten.")
ASSUMPTIONS = ["IDTLZ2-4 (scaling ambiguity documented in the code) and fronts loaded from the internet (DTLZ5-7) are excluded",
               "documented smoothing (ZDT6, DTLZ6) is accepted up to 2%"]


class Grid:
    """stands in for numpy.random: the i-th call with shape (N, d) returns N points of a complete midpoint lattice"""

    def __init__(self):
        self.calls = 0

    def values(self, shape):
        self.calls += 1
        if shape is None or shape == ():
            return 0.5
        shape = (shape,) if np.isscalar(shape) else tuple(shape)
        N, d = shape[0], int(np.prod(shape[1:], dtype=int)) if len(shape) > 1 else 1
        if N == 0 or d == 0:
            return np.zeros(shape)
        m = max(1, int(np.ceil(N ** (1.0 / d) - 1e-9)))
        total = m**d
        idx = (np.arange(N) * total) // N if total > N else np.arange(N)
        out = np.zeros((N, d))
        for j in range(d):
            out[:, j] = ((idx // m**j) % m + 0.5) / m
        # distinct offsets per row keep degenerate symmetric rows apart
        return (out * 0.999 + 0.0005 + 1e-5 * np.sin(np.arange(N))[:, None]).reshape(shape)

    def patch(self):
        v = self.values
        return [mock.patch("numpy.random.rand", lambda *s: v(s)), mock.patch("numpy.random.random", lambda size=None: v(size)),
                mock.patch("numpy.random.random_sample", lambda size=None: v(size)), mock.patch("numpy.random.sample", lambda size=None: v(size)),
                mock.patch("numpy.random.uniform", lambda low=0.0, high=1.0, size=None: low + (np.asarray(high) - low) * v(size))]


def driven(fn, *a, **k):
    ps = Grid().patch()
    for q in ps:
        q.start()
    try:
        return fn(*a, **k)
    finally:
        for q in ps:
            q.stop()


def ref_obj(name, p, X):
    f = REG[name][0]
    extra = dict(k=p.k, xu=p.xu) if name.startswith("WFG") else {}
    return evaluate(f, X, p.n_obj, **extra)[0]


def image(name, p, fr, U):
    return fr.shape(U) if name.startswith("WFG") else ref_obj(name, p, fr.decide(U))


def close(a, b, tol):
    return np.all(np.isfinite(a), axis=1) & (np.max(np.abs(a - b) / np.maximum(1, np.abs(b)), axis=1) <= tol)


def feasible(p, X, tol=1e-6):
    ok = np.all((X >= p.xl - 1e-9) & (X <= p.xu + 1e-9), axis=1)
    if getattr(p, "n_ieq_constr", 0):
        g = p.ieq_constraint_batch(X).reshape(len(X), -1)
        ok &= np.all((g <= tol) | np.isnan(g), axis=1)
    if getattr(p, "n_eq_constr", 0):
        h = p.eq_constraint_batch(X).reshape(len(X), -1)
        ok &= np.all(np.abs(h) <= tol, axis=1)
    return ok


def dominated_by(F, G, margin):
    """a row of G is better than a row of F in every objective (beyond rounding of published constants) and by the margin in one"""
    for i in range(0, len(G), 4000):
        D = F[:, None] - G[None, i : i + 4000]
        hit = np.all(D >= 1e-9, axis=2) & np.any(D > margin, axis=2)
        if hit.any():
            a, b = np.argwhere(hit)[0]
            yield a, G[i + b]


def decision_grid(p, fr, name, deep):
    """optimal manifold (if invertible), deviations of each coordinate, a product grid / lattice of the box"""
    rng = p.xu - p.xl
    n = p.n_var
    parts = []
    if not name.startswith("WFG"):
        X = fr.decide(fr.grid(200 if deep else 60))
        parts.append(X)
        for i in range(n):
            for d in (-0.1, -0.01, 0.01, 0.1) if deep else (-0.02, 0.02):
                Z = X.copy()
                Z[:, i] += d * rng[i]
                parts.append(Z)
    lev = 5 if n <= 4 else 3 if n <= 6 else 2
    if n <= 10:
        parts.append(p.xl + np.array(list(itertools.product(np.linspace(0, 1, lev), repeat=n))) * rng)
    if not parts:
        return np.zeros((0, n))
    X = np.clip(np.vstack(parts), p.xl, p.xu)
    return X[feasible(p, X, 1e-9)]


def check_front(res, name, p, fr, F, N, ctx, spec, deep, grid_F):
    F = np.asarray(F, float)
    if F.ndim != 2 or F.shape[1] != p.n_obj or len(F) == 0:
        res.fail(f"{name}:front:shape", f"shape {F.shape}", ctx)
        return
    res.state(len(F))
    count = spec.get("count")
    if count and not count(N, len(F)):
        res.fail(f"{name}:front:count", f"{len(F)} points returned for N={N}", ctx)
    U, ok = fr.param(F)
    V = image(name, p, fr, U)
    good = ok & close(F, V, max(1e-7, 1e-7 if not name.startswith("CONV") else 1e-6))
    for i in np.nonzero(~good)[0][:1]:
        res.fail(f"{name}:front:off", f"{F[i].tolist()} is not a point of the published front ({'' if ok[i] else 'outside the region; '}"
                 f"nearest candidate {V[i].tolist()})", dict(ctx, row=int(i)))
    if not name.startswith("WFG"):
        X = fr.decide(U[good])
        R = p.objective_batch(X)
        res.call(2)
        bad = ~close(R, F[good], fr.tol_real) | ~feasible(p, X)
        for i in np.nonzero(bad)[0][:1]:
            res.fail(f"{name}:front:attained", f"{F[good][i].tolist()} is not attained at the feasible decision {X[i].tolist()}: objective "
                     f"{R[i].tolist()}, feasible {bool(feasible(p, X[i:i+1])[0])}", dict(ctx, x=X[i]))
    for a, g in dominated_by(F, F, 1e-7 if not name.startswith("WFG") else 1e-6):
        res.fail(f"{name}:front:dominated", f"{F[a].tolist()} is dominated by the returned point {g.tolist()}", ctx)
        break
    for a, g in dominated_by(F, grid_F, 2e-6 + fr.tol_real * (fr.tol_real > 1e-3)):
        res.fail(f"{name}:front:suboptimal", f"{F[a].tolist()} is dominated by the attainable point {g.tolist()}", ctx)
        break
    coverage(res, name, p, fr, F, N, ctx, spec, "front")
    res.trace()
    res.outcome(f"{name}{p.n_var}{len(F)}{np.round(F.sum(), 6)}")


def coverage(res, name, p, fr, F, N, ctx, spec, what):
    tol = spec.get("cover")
    if tol is None or N < 200:
        return
    T = image(name, p, fr, fr.grid(spec.get("dense", 400)))
    T = T[np.all(np.isfinite(T), axis=1)]
    span = np.maximum(T.max(0) - T.min(0), 1e-9)
    res.state(len(T))
    D = np.min(np.max(np.abs(T[:, None] - F[None]) / span, axis=2), axis=1)
    i = int(np.argmax(D))
    if D[i] > tol:
        res.fail(f"{name}:{what}:coverage", f"no returned point is near the optimal point {T[i].tolist()} (distance {D[i]:.3f} of the range, {len(F)} points)", ctx)
    e = spec.get("extreme")
    if e is not None and what == "front":
        lo, hi = np.abs(F.min(0) - T.min(0)) / span, np.abs(F.max(0) - T.max(0)) / span
        w = np.r_[lo, hi]
        lim = np.r_[[e[0]] * p.n_obj, [e[0]] * p.n_obj]
        if np.any(w > lim):
            res.fail(f"{name}:front:extreme", f"ranges {F.min(0).tolist()}..{F.max(0).tolist()}, published front {T.min(0).tolist()}..{T.max(0).tolist()}", ctx)


def check_set(res, name, p, fr, X, N, ctx, spec):
    X = np.asarray(X, float)
    if X.shape != (N, p.n_var) and not (name.startswith("WFG") and X.shape == (max(N, 2**p.k), p.n_var)):
        res.fail(f"{name}:set:shape", f"shape {X.shape} for N={N}", ctx)
        return
    res.state(len(X))
    ok = feasible(p, X)
    for i in np.nonzero(~ok)[0][:1]:
        res.fail(f"{name}:set:infeasible", f"{X[i].tolist()} is infeasible", dict(ctx, row=int(i)))
    F = ref_obj(name, p, X)
    U, reg = fr.param(F)
    if name == "DTLZ6" or name == "DTLZ5":
        U[:, 0] = X[:, 0]
    good = reg & close(F, image(name, p, fr, U), 1e-6 if not name.startswith("WFG") else 1e-5)
    for i in np.nonzero(~good & ok)[0][:1]:
        res.fail(f"{name}:set:off", f"the image {F[i].tolist()} of {X[i].tolist()} is not on the published front", dict(ctx, row=int(i)))
    R = p.objective_batch(X)
    res.call()
    for i in np.nonzero(~close(R, F, fr.tol_real))[0][:1]:
        res.fail(f"{name}:set:value", f"objective {R[i].tolist()} differs from the published {F[i].tolist()}", dict(ctx, row=int(i)))
    for a, g in dominated_by(F[good], F[good], 1e-6):
        res.fail(f"{name}:set:dominated", f"the image {F[good][a].tolist()} is dominated by that of another returned decision, {g.tolist()}", ctx)
        break
    coverage(res, name, p, fr, F, N, ctx, dict(spec, cover=spec.get("cover_set", spec.get("cover"))), "set")
    res.trace()
    res.outcome(f"set{name}{p.n_var}{np.round(X.sum(), 6)}")


eq = lambda N, n: n == N
SPEC = {}
for _z in ("ZDT1", "ZDT2", "ZDT4"):
    SPEC[_z] = dict(count=eq, cover=0.08, extreme=(1e-9,), setargs=("linear", "random"), cover_set=0.08)
SPEC["ZDT6"] = dict(count=eq, cover=0.02, extreme=(1e-6,), setargs=("linear", "random"), cover_set=0.12)
SPEC["ZDT3"] = dict(count=lambda N, n: n == 5 * max(1, N // 5), cover=0.2, extreme=(1e-6,), setargs=("linear", "random"), cover_set=0.2)
for _i in (1, 2, 3, 4, 7):
    SPEC[f"UF{_i}"] = dict(count=eq, cover=0.08, extreme=(1e-9,))
SPEC["UF5"] = dict(count=lambda N, n: n == 21, cover=1e-9, extreme=(1e-9,))
SPEC["UF6"] = dict(count=lambda N, n: n <= N, cover=0.01, extreme=(1e-9,))
for _i in (8, 10):
    SPEC[f"UF{_i}"] = dict(count=lambda N, n: n >= N, cover=0.12, extreme=(1e-9,), dense=15)
SPEC["UF9"] = dict(count=lambda N, n: n >= N // 3, cover=0.12, extreme=(1e-9,), dense=10)
SPEC["CF1"] = dict(count=lambda N, n: n == 21, cover=1e-9, extreme=(1e-9,))
SPEC["CF2"] = dict(count=lambda N, n: n <= N, cover=0.03, extreme=(1e-9,))
SPEC["CF3"] = dict(count=lambda N, n: n <= N, cover=0.03, extreme=(1e-9,))
for _i in (4, 5, 6, 7):
    SPEC[f"CF{_i}"] = dict(count=eq, cover=0.08, extreme=(0.02,))
SPEC["CF8"] = dict(count=lambda N, n: N <= n < N + 5, cover=0.06, extreme=(1e-9,), dense=60)
for _i in (9, 10):
    SPEC[f"CF{_i}"] = dict(count=lambda N, n: n <= N, cover=0.35, dense=9, big=(1000,))
for _i in range(1, 5):
    SPEC[f"DTLZ{_i}"] = dict(count=lambda N, n: n >= 100, args=(), cover=None, cover_set=0.4 if _i < 4 else None, dense=300, set=True)
    SPEC[f"Eq1DTLZ{_i}"] = dict(count=eq, cover=0.35 if _i < 4 else None, dense=300, set=True)
SPEC["IDTLZ1"] = dict(count=lambda N, n: n >= 100, args=(), cover_set=0.4, dense=300, set=True)
SPEC["Eq1IDTLZ1"] = dict(count=eq, cover=0.35, dense=300, set=True)
SPEC["DTLZ5"] = SPEC["DTLZ6"] = dict(nofront=True, set=True, cover_set=0.15)
SPEC["DTLZ7"] = dict(nofront=True, set=True, cover_set=0.4, dense=100)
for _i in range(1, 10):
    SPEC[f"WFG{_i}"] = dict(count=lambda N, n: n >= N, cover=(0.35 if _i == 3 else None), set=True, dense=100)
SPEC["CONV3"] = dict(count=eq, cover=0.3, random=True)
SPEC["CONV4"] = dict(count=eq, cover=0.4, random=True)
SPEC["CONV4_2F"] = dict(count=lambda N, n: n == max(N, 2), cover=0.4, random=True)
SPEC["DENT"] = dict(count=eq, cover=0.02, extreme=(1e-9,), set=True)


def s_problem(name, sizes, Ns, deep):
    res = Result()
    spec = SPEC[name]
    for n, M, k in sizes:
        kw = {}
        if n is not None:
            kw["n_var"] = n
        if M is not None:
            kw["n_obj"] = M
        if k is not None:
            kw["k"] = k
        p = cls(name)(**kw)
        fr = front(name, p)
        gX = decision_grid(p, fr, name, deep)
        gF = p.objective_batch(gX) if len(gX) else np.zeros((0, p.n_obj))
        res.call(len(gX))
        for N in Ns:
            ctx = dict(problem=name, n_var=p.n_var, n_obj=p.n_obj, k=k, N=N)
            if not spec.get("nofront"):
                args = spec.get("args", (N,))
                if name.startswith("Eq1"):
                    args = ()
                f = driven(p.get_pareto_front, *args, **(dict(N=N) if name.startswith("Eq1") else {}))
                res.call()
                check_front(res, name, p, fr, f, N if args != () or name.startswith("Eq1") else len(f), ctx, spec, deep, gF)
                if name == "ZDT3":
                    b = np.asarray(p.get_pareto_front(N, flatten=False))
                    if b.shape != (5, max(1, N // 5), 2) or not np.array_equal(b.reshape(-1, 2), f):
                        res.fail("ZDT3:front:blocks", f"blocks of shape {b.shape} differ from the flattened front", ctx)
            for kind in spec.get("setargs", ((None,) if spec.get("set") else ())):
                X = driven(p.get_pareto_set, N, **({} if kind is None else dict(kind=kind)))
                res.call()
                check_set(res, name, p, fr, X, N, dict(ctx, kind=kind), spec)
        again(res, name, p, spec, dict(problem=name, n_var=p.n_var, n_obj=p.n_obj, k=k))
    res.sample(ctx)
    return res


def again(res, name, p, spec, ctx):
    """every ordered pair of requests (front/set, numbers of points), with the first answer overwritten by its receiver"""
    asks = []
    for N in (6, 11):
        if not spec.get("nofront"):
            if name.startswith("Eq1"):
                asks.append((f"front N={N}", lambda N=N: driven(p.get_pareto_front, N=N)))
            else:
                asks.append((f"front {N}", lambda N=N: driven(p.get_pareto_front, *spec.get("args", (N,)))))
        for kind in spec.get("setargs", ((None,) if spec.get("set") else ())):
            asks.append((f"set {N} {kind}", lambda N=N, kind=kind: driven(p.get_pareto_set, N, **({} if kind is None else dict(kind=kind)))))
    first = {}
    for a, fn in asks:
        first[a] = np.array(fn(), float)
    for (a, fa), (b, fb) in itertools.product(asks, repeat=2):
        for what, fn in ((a, fa), (b, fb), (a, fa)):
            got = fn()
            res.call()
            res.state()
            if np.shape(got) != first[what].shape or not np.array_equal(np.asarray(got), first[what], equal_nan=True):
                res.fail(f"{name}:again", f"{what} changed after a request of {a} and {b}", dict(ctx, first=a, second=b))
                return
            if isinstance(got, np.ndarray) and got.flags.writeable:
                got[...] = 77.5
    res.trace()


SCENARIOS = dict(problem=s_problem)


def sizes(name, deep):
    if name in ("DENT", "CONV3", "CONV4", "CONV4_2F"):
        return [(None, None, None)]
    if name.startswith("ZDT"):
        return [(n, None, None) for n in ((2, 3, 4, 7, 30) if deep else (2, 5, 30))]
    if name.startswith("UF") or name.startswith("CF"):
        three = int(name[2:]) >= 8
        lo = 5 if three else (4 if name in ("CF6", "CF7") else 3)
        return [(n, None, None) for n in ((lo, lo + 1, lo + 2, 10, 30) if deep else (lo, 6, 7, 30))]
    if name.startswith("WFG"):
        s = [(8, 2, 4), (8, 3, 4)] + ([(10, 3, 6), (6, 2, 4)] + ([(8, 4, 6)] if int(name[3:]) > 2 else []) if deep else [])
        return s
    return [(M + k - 1, M, None) for M, k in ([(2, 1), (2, 3), (3, 2), (4, 2), (3, 5)] if deep else [(2, 2), (3, 2), (4, 1)])]


def plan(tier):
    deep = tier == "thorough"
    for name in SPEC:
        for s in sizes(name, deep):
            yield "problem", dict(name=name, sizes=[s], Ns=[10, 25, 256, 1000] + ([3, 7, 100, 333] if deep else []), deep=deep)
