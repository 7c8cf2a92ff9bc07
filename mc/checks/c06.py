"""C06: feasibility mask, active set and approximate first-order (KKT) test of an optimisation state."""
import itertools
from fractions import Fraction

import numpy as np

from hvd.base import State
from mc.core import Result

PROPERTY = "C06"
RULE = ("Feasibility/active set: every vector of constraint values over a grid straddling all thresholds for 0-2 "
        "equalities and 0-2 inequalities. KKT: every integer gradient configuration over {-1,0,1} of 1-3 "
        "objectives, 0-2 equalities and 0-3 inequalities (active or not, satisfied or not) in 1-2 variables, plus "
        "stationarity residuals and constraint values on both sides of every tolerance, compared with an exact "
        "rational Caratheodory decision.")
ASSUMPTIONS = ["constraint values within 1e-7 of a threshold are not probed",
               "the smallest nonzero stationarity residual of the integer configurations exceeds 0.1, far above the tolerances"]


def const_state(n_var, F, dF, H, dH, G, dG):
    """a State whose functions take prescribed values per point (point k has first coordinate k)"""
    n_eq, n_ieq = H.shape[1], G.shape[1]
    look = lambda A: (lambda x: A[int(round(x[0]))].copy())
    s = State(n_var, n_eq, n_ieq, look(F), look(dF), h=look(H) if n_eq else None, h_jac=look(dH) if n_eq else None,
              g=look(G) if n_ieq else None, g_jac=look(dG) if n_ieq else None)
    N = len(F)
    X = np.zeros((N, n_var + n_eq + n_ieq))
    X[:, 0] = np.arange(N)
    return s, X


HV = [0.0, 0.5e-4, -0.5e-4, 1.01e-4, -1.01e-4, 2e-3, -1.0, 3.0]
GV = [-1.0, -2e-3, -1.01e-4, -0.99e-4, -1e-6, 0.0, 1e-6, 0.99e-4, 1.01e-4, 1.0]


def s_feas(ne, ni):
    res = Result()
    pts = list(itertools.product(itertools.product(HV, repeat=ne), itertools.product(GV, repeat=ni)))
    H = np.array([p[0] for p in pts]).reshape(len(pts), ne)
    G = np.array([p[1] for p in pts]).reshape(len(pts), ni)
    N = len(pts)
    s, X = const_state(1, np.zeros((N, 2)), np.zeros((N, 2, 1)), H, np.zeros((N, ne, 1)), G, np.zeros((N, ni, 1)))
    for variant in ("batch", "one", "slice"):
        if variant == "one":
            for k in range(N):
                s.update_one(X[k], k)
        else:
            s.update(X)
            if variant == "slice":
                s = s[np.arange(N)[::-1]]
                H, G = H[::-1], G[::-1]
        res.call()
        feas, act = s.is_feasible(), s.active_indices
        for k in range(N):
            res.state()
            e = all(abs(h) <= 1e-4 for h in H[k]) and all(g < -1e-4 for g in G[k])
            a = [True] * ne + [g >= -1e-4 for g in G[k]]
            res.outcome(f"{e}{a}")
            if bool(feas[k]) != e:
                res.fail("feasible", f"equalities {H[k].tolist()} inequalities {G[k].tolist()}: reported {bool(feas[k])}, definition {e}", [H[k], G[k]])
            if act[k].tolist() != a:
                res.fail("active", f"equalities {H[k].tolist()} inequalities {G[k].tolist()}: active {act[k].tolist()}, definition {a}", [H[k], G[k]])
        res.trace()
    return res


def null_positive(cols):
    """exact: is there a strictly positive combination of the integer columns equal to 0, the columns having a
    one-dimensional kernel? (minimal support certificates)"""
    n = len(cols)
    A = [[Fraction(int(c[r])) for c in cols] for r in range(len(cols[0]))]
    piv, r = [], 0
    for c in range(n):
        p = next((i for i in range(r, len(A)) if A[i][c] != 0), None)
        if p is None:
            continue
        A[r], A[p] = A[p], A[r]
        A[r] = [v / A[r][c] for v in A[r]]
        for i in range(len(A)):
            if i != r and A[i][c] != 0:
                f = A[i][c]
                A[i] = [a - f * b for a, b in zip(A[i], A[r])]
        piv.append(c)
        r += 1
    free = [c for c in range(n) if c not in piv]
    if len(free) != 1:
        return False
    v = [Fraction(0)] * n
    v[free[0]] = Fraction(1)
    for i, c in enumerate(piv):
        v[c] = -A[i][free[0]]
    return all(x > 0 for x in v)


_memo = {}


def stationary(obj, eq, ineq, nv):
    key = (tuple(sorted(set(obj))), tuple(sorted(set(eq))), tuple(sorted(set(ineq))))
    if key not in _memo:
        cols = [(c, True) for c in key[0]] + [(c, False) for c in key[1]]
        cols += [(tuple(-x for x in c), False) for c in key[1]] + [(c, False) for c in key[2]]
        ok = False
        for k in range(1, nv + 2):
            for sub in itertools.combinations(cols, k):
                if any(o for _, o in sub) and null_positive([c for c, _ in sub]):
                    ok = True
                    break
            if ok:
                break
        # minimal certificates containing an objective column suffice (decompose a solution into extreme rays)
        _memo[key] = ok
    return _memo[key]


def s_kkt(nv, no, ne, ni, chunk, nchunks, gstates):
    """gstates: values of the inequality functions per inequality; all gradients over {-1,0,1}^nv"""
    res = Result()
    vecs = list(itertools.product((-1, 0, 1), repeat=nv))
    space = itertools.product(
        itertools.combinations_with_replacement(vecs, no),
        itertools.combinations_with_replacement(vecs, ne),
        itertools.product(itertools.product(vecs, gstates), repeat=ni),
    )
    todo = [c for q, c in enumerate(space) if q % nchunks == chunk]
    B = 400
    for b in range(0, len(todo), B):
        part = todo[b: b + B]
        N = len(part)
        dF = np.array([p[0] for p in part], dtype=float).reshape(N, no, nv)
        dH = np.array([p[1] for p in part], dtype=float).reshape(N, ne, nv)
        dG = np.array([[c[0] for c in p[2]] for p in part], dtype=float).reshape(N, ni, nv)
        G = np.array([[c[1] for c in p[2]] for p in part], dtype=float).reshape(N, ni)
        s, X = const_state(nv, np.zeros((N, no)), dF, np.zeros((N, ne)), dH, G, dG)
        s.update(X)
        got = s.check_KKT()
        res.call()
        res.trace()
        for k, p in enumerate(part):
            ok = all(c[1] <= 1e-4 for c in p[2]) and stationary(p[0], p[1], [c[0] for c in p[2] if c[1] >= -1e-4], nv)
            res.state()
            res.outcome(f"{ok}")
            if bool(got[k]) != ok:
                res.fail("kkt", f"objective gradients {p[0]} equality gradients {p[1]} inequalities (gradient, value) {p[2]}: "
                         f"reported {bool(got[k])}, exact decision {ok}", p)
    if todo:
        res.sample(dict(objectives=todo[-1][0], equalities=todo[-1][1], inequalities=todo[-1][2]))
    return res


def s_tol():
    """tolerances: residuals and constraint values on both sides, defaults and user-given"""
    res = Result()
    tols = [1e-6, 1e-4, 1e-2, 0.5]
    for st, ft, at in itertools.product(tols, [0.0] + tols, [0.0] + tols):
        rows = []
        for r in (0.0, 0.5 * st, 0.99 * st, 1.01 * st, 2 * st, 1.0 + st):
            for h in (0.0, 0.9 * ft, -0.9 * ft, 1.1 * ft + 1e-7, -1.1 * ft - 1e-7, np.nan):
                for g in (-1.0, -1.1 * at - 1e-7, -0.9 * at, 0.0, 0.9 * ft, 1.1 * ft + 1e-7, np.inf, np.nan):
                    for dg in ((1.0, 0.0), (-1.0, 0.0), (np.nan, 0.0)):
                        rows.append((r, h, g, dg))
        N = len(rows)
        # two objectives with gradients (r, +-1): residual r unless the inequality helps; equality gradient 0
        dF = np.array([[[r, 1.0], [r, -1.0]] for r, *_ in rows])
        H = np.array([[h] for _, h, _, _ in rows])
        G = np.array([[g] for _, _, g, _ in rows])
        dG = np.array([[dg] for *_, dg in rows])
        s, X = const_state(2, np.zeros((N, 2)), dF, H, np.zeros((N, 1, 2)), G, dG)
        s.update(X)
        got = s.check_KKT(st, ft, at)
        res.call()
        res.trace()
        for k, (r, h, g, dg) in enumerate(rows):
            res.state()
            if not (np.isfinite(h) and np.isfinite(g)) or abs(h) > ft or g > ft:
                e = False
            else:
                active = g >= -at
                if active and dg[0] != dg[0]:
                    e = False  # a non-finite gradient of an active constraint certifies nothing
                else:
                    e = r <= st or (active and dg[0] == -1.0)
            res.outcome(f"{e}")
            if bool(got[k]) != e:
                res.fail("kkt:tolerance", f"residual {r}, h={h}, g={g}, inequality gradient {dg}, tolerances "
                         f"(stationarity {st}, feasibility {ft}, active {at}): reported {bool(got[k])}, definition {e}",
                         [r, h, g, dg, st, ft, at])
    # contract errors
    s, X = const_state(1, np.zeros((1, 2)), np.zeros((1, 2, 1)), np.zeros((1, 0)), np.zeros((1, 0, 1)), np.zeros((1, 0)), np.zeros((1, 0, 1)))
    s.update(X)
    for k in range(3):
        t = [1e-4] * 3
        t[k] = -1e-9
        res.state()
        try:
            s.check_KKT(*t)
            res.fail("kkt:negative", f"negative tolerance #{k} accepted", t)
        except ValueError:
            pass
    s.update(X, compute_gradient=False)
    res.state()
    try:
        s.check_KKT()
        res.fail("kkt:nojac", "KKT test without objective Jacobians does not raise", None)
    except RuntimeError:
        pass
    return res


def s_dims():
    """larger problems with a planted certificate / a planted separating direction (up to 6 variables)"""
    res = Result()
    for nv, no, ne, ni in itertools.product((1, 2, 3, 4, 6), (1, 2, 3), (0, 1, 2), (0, 1, 2, 3)):
        if ne >= nv:
            continue
        rows, exp = [], []
        base = np.array([[((3 * i + 5 * j) % 7) - 3 for j in range(nv)] for i in range(12)], dtype=float)
        for kind in range(4):
            O, E, I = base[:no].copy(), base[no: no + ne].copy(), base[no + ne: no + ne + ni].copy()
            if kind == 0:  # stationary by construction: last objective = -(positive combination of the others)
                O[-1] = -(O[:-1].sum(0) + 2 * E.sum(0) - E.sum(0) * 5 + 3 * I.sum(0)) if no > 1 or ne or ni else 0
                exp.append(True)
            else:
                # a direction d with E d = 0, O d < 0 and I d <= 0 proves non-stationarity
                d = np.zeros(nv)
                d[kind % nv] = 1.0
                E[:, kind % nv] = 0
                O[:, kind % nv] = -1 - np.arange(no)
                I[:, kind % nv] = -np.arange(ni)
                exp.append(False)
            rows.append((O, E, I))
        N = len(rows)
        st = lambda q, n: np.array([r[q] for r in rows]).reshape(N, n, nv)
        s, X = const_state(nv, np.zeros((N, no)), st(0, no), np.zeros((N, ne)), st(1, ne), np.zeros((N, ni)), st(2, ni))
        s.update(X)
        got = s.check_KKT()
        res.call()
        res.trace()
        for k in range(N):
            res.state()
            res.outcome(str(exp[k]))
            if bool(got[k]) != exp[k]:
                res.fail("kkt:planted", f"{nv} variables, {no} objectives, {ne} equalities, {ni} inequalities: reported {bool(got[k])}, "
                         f"planted {exp[k]}", [rows[k][0], rows[k][1], rows[k][2]])
    return res


SCENARIOS = dict(feas=s_feas, kkt=s_kkt, tol=s_tol, dims=s_dims)


def plan(tier):
    for ne, ni in itertools.product(range(3), range(3)):
        if ne + ni:
            yield "feas", dict(ne=ne, ni=ni)
    yield "tol", {}
    yield "dims", {}
    gs = [-1.0, 0.0, 1.0]
    cfg = [(1, no, ne, ni, 1, gs) for no in (1, 2, 3) for ne in (0, 1) for ni in (0, 1, 2)]
    cfg += [(2, no, ne, ni, 1, gs) for no in (1, 2) for ne in (0, 1) for ni in (0, 1)]
    cfg += [(2, 3, 0, 1, 2, gs), (2, 1, 0, 2, 4, [0.0, -1.0]), (2, 2, 0, 2, 16, [0.0])]
    if tier == "thorough":
        cfg += [(2, 3, 1, 0, 4, gs), (2, 3, 1, 1, 24, [0.0, -1.0]), (2, 2, 0, 2, 48, [0.0, -1.0]), (2, 2, 1, 2, 64, [0.0]),
                (2, 1, 2, 1, 8, gs), (1, 2, 2, 3, 8, gs), (3, 1, 0, 1, 4, gs), (3, 2, 0, 1, 24, [0.0]), (3, 3, 0, 0, 8, [0.0]),
                (2, 3, 0, 2, 48, [0.0])]
    for nv, no, ne, ni, n, g in cfg:
        for c in range(n):
            yield "kkt", dict(nv=nv, no=no, ne=ne, ni=ni, chunk=c, nchunks=n, gstates=g)
