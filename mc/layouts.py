"""The same numbers in every memory layout: results never depend on it and the arrays of the caller are never changed."""
import itertools

import numpy as np

from mc.core import Result
from mc.toy import Cstr, Toy, lattice


def fortran(a):
    return np.asfortranarray(a)


def strided(a):
    b = np.full(tuple(2 * s for s in a.shape), 7.77)
    s = tuple(slice(None, None, 2) for _ in a.shape)
    b[s] = a
    return b[s]


def backwards(a):
    return a[::-1].copy()[::-1]


def readonly(a):
    a = a.copy()
    a.setflags(write=False)
    return a


LAYOUTS = (fortran, strided, backwards, readonly)


def flat(o):
    if isinstance(o, dict):
        return [y for k in sorted(o) for y in flat(o[k])]
    if isinstance(o, (list, tuple)):
        return [y for x in o for y in flat(x)]
    return [] if o is None else [np.asarray(o, float)]


def run(cases, pairs=True):
    """cases: (name, arrays, function of the arrays); every assignment of layouts to one or two arrays, and one layout for all"""
    res = Result()
    for name, arrays, fn in cases:
        arrays = [np.asarray(a, float) for a in arrays]
        base = flat(fn(*[a.copy() for a in arrays]))
        n = len(arrays)
        combos = {(l,) * n for l in LAYOUTS}
        for i, j in itertools.combinations_with_replacement(range(n), 2):
            if i != j and not pairs:
                continue
            for a, b in itertools.product(LAYOUTS, repeat=2) if i != j else ((x, x) for x in LAYOUTS):
                c = [np.copy] * n
                c[i], c[j] = a, b
                combos.add(tuple(c))
        for c in sorted(combos, key=lambda c: [f.__name__ for f in c]):
            given = [l(a) for l, a in zip(c, arrays)]
            ctx = dict(case=name, layouts=[f.__name__ for f in c])
            res.state()
            res.call()
            try:
                out = flat(fn(*given))
            except Exception as e:  # noqa: BLE001
                res.fail(f"layout:{type(e).__name__}", f"{name} with arrays {ctx['layouts']} raised {e!r}", ctx)
                continue
            if len(out) != len(base) or any(a.shape != b.shape or not np.allclose(a, b, rtol=1e-9, atol=1e-10, equal_nan=True) for a, b in zip(out, base)):
                res.fail("layout:value", f"{name} with arrays {ctx['layouts']}: {[o.tolist() for o in out]}, contiguous ones give {[o.tolist() for o in base]}", ctx)
            if any(not np.array_equal(a, b) for a, b in zip(given, arrays)):
                res.fail("layout:mutated", f"{name} changed an array of the caller", ctx)
            res.outcome(f"{name}{len(out)}")
        res.trace()
        res.sample(dict(case=name))
    return res


def toys(m=3, n=2, N=4):
    t = Toy(m, n)
    X = lattice(N, n, 0.3, -0.4, 1.2)
    return t, X, np.array([t.func(x) for x in X]), np.array([t.jac(x) for x in X])


def s_c01():
    from hvd import HypervolumeDerivatives
    from hvd.hypervolume import hypervolume
    from hvd.hypervolume_derivatives import hypervolume_improvement

    cases = []
    for m in (1, 2, 3, 4):
        Y, Z, r = lattice(6, m, 0.2, 0, 5), lattice(3, m, 0.6, 0, 5), np.full(m, 4.5)
        cases.append((f"value {m}", [Y, r], hypervolume))
        cases.append((f"improvement {m}", [Z[:1], Y, r], lambda z, Y, r: hypervolume_improvement(z[0], Y, r)))
        for s in (True, False):
            cases.append((f"object {m} {s}", [Y, r], lambda Y, r: HypervolumeDerivatives(m_of(Y), m_of(Y), r, minimization=s).compute(Y=Y)))
    return run(cases)


def m_of(Y):
    return np.shape(Y)[1]


def s_hv_derivatives(hessian):
    from hvd import HypervolumeDerivatives

    cases = []
    for m, n in ((2, 2), (2, 3), (3, 2), (4, 3)):
        t, X, Y, J = toys(m, n)
        r = Y.max(axis=0) + 1.0
        for mode in ("", "Y", "YJ"):
            def fn(X, Y, J, r, m=m, n=n, t=t, mode=mode):
                h = HypervolumeDerivatives(n, m, r, t.func, t.jac, t.hess)
                kw = {**(dict(Y=Y) if "Y" in mode else {}), **(dict(YdX=J) if "J" in mode else {})}
                out = h.compute_derivatives(X, compute_hessian=hessian, **kw)
                return out[-1] if hessian else out
            cases.append((f"derivatives {m} {n} {mode}", [X, Y, J, r], fn))
    return run(cases)


def s_c04():
    from hvd.utils import get_non_dominated, non_domin_sort

    cases = []
    for m in (2, 3, 4):
        X = lattice(9, m, 0.1, 0, 1)
        cases.append((f"sort {m}", [X], lambda X: [np.sort(v) for v in non_domin_sort(X, only_front_indices=True).values()]))
        cases.append((f"sort decisions {m}", [X], lambda X: [np.sort(v) for v in non_domin_sort(X ** 2, only_front_indices=True).values()]))
        cases.append((f"filter {m}", [X], get_non_dominated))
        cases.append((f"filter indices {m}", [X], lambda X: get_non_dominated(X, return_index=True)))
    return run(cases)


def s_c05():
    from hvd.base import State

    cases = []
    for m, n, kind in ((2, 2, "hg"), (3, 3, ""), (2, 3, "HG")):
        t, X, Y, J = toys(m, n, 5)
        cs = Cstr(kind, n)
        X = np.c_[X, np.ones((5, cs.ne + cs.ni))]

        def fn(X, x, t=t, cs=cs):
            kw = dict(h=cs.h, h_jac=cs.h_jac, h_hess=cs.h_hess, g=cs.g, g_jac=cs.g_jac, g_hess=cs.g_hess) if cs.ne else {}
            s = State(t.n, cs.ne, cs.ni, t.func, t.jac, **kw)
            s.update(X)
            s.update_one(x, 2)
            u = s[[3, 2, 0]]
            return [s.X, s.Y, s.J, s.cstr_value, s.cstr_grad, s.cstr_hess, u.X, u.Y, u.J, s.is_feasible(), s.check_KKT()]
        cases.append((f"state {m} {n} {kind}", [X, X[0] + 0.1], fn))
    return run(cases)


def s_c10():
    from hvd.mmd import MMD, MMDMatching

    cases = []
    for m, n in ((2, 2), (3, 2)):
        t, X, Y, J = toys(m, n, 3)
        R = lattice(3, m, 0.8, -0.3, 1.5)
        for cls in (MMD, MMDMatching):
            for mode in ("", "YJ"):
                def fn(X, Y, J, R, cls=cls, t=t, mode=mode):
                    ind = cls(t.n, t.m, R, t.func, t.jac, t.hess, theta=0.4)
                    kw = dict(Y=Y, jacobian=J) if mode else {}
                    return [ind.compute(X=X), ind.compute(Y=Y), ind.compute_derivatives(X, **kw)]
                if m == 2 or (mode and cls is MMD):
                    cases.append((f"{cls.__name__} {m} {n} {mode}", [X, Y, J, R], fn))
    return run(cases, pairs=False)


def s_c11():
    from hvd.delta_p import GenerationalDistance, InvertedGenerationalDistance

    cases = []
    for m, n in ((2, 2), (3, 2), (2, 3)):
        t, X, Y, J = toys(m, n, 4)
        R = lattice(5, m, 0.8, -0.3, 1.5)
        f = dict(func=t.func, jac=t.jac, hess=t.hess)
        for kind in ("gd", "igd", "match"):
            for mode in ("", "YJ"):
                def fn(X, Y, J, R, kind=kind, mode=mode, f=f):
                    ind = GenerationalDistance(R, p=2, **f) if kind == "gd" else InvertedGenerationalDistance(R, p=2, matching=kind == "match", **f)
                    kw = dict(Y=Y, Jacobian=J) if mode else {}
                    return [ind.compute(X=X), ind.compute(Y=Y), ind.compute_derivatives(X, **kw)]
                cases.append((f"{kind} {m} {n} {mode}", [X, Y, J, R], fn))
    return run(cases)


def s_c12():
    from hvd.reference_set import ReferenceSet

    cases = []
    for m in (2, 3):
        A, B = lattice(4, m, 0.1, 0, 1), lattice(3, m, 0.7, 0, 1) + 6
        Y = np.vstack([A[:2] + 0.1, B[:2] - 0.1])
        e = -np.ones(m) / np.sqrt(m)

        def fn(A, B, Y, e):
            r = ReferenceSet({0: A, 1: B}, eta={0: e, 1: e})
            r.match(Y)
            out = [r.reference_set.copy()]
            r.shift(0.1)
            r.match(Y)
            return out + [r.reference_set.copy()]

        def one(A, Y, e):
            r = ReferenceSet(A, eta=e)
            r.shift(0.05)
            r.match(Y)
            r.shift(0.1, indices=np.array([1]))
            r.match(Y)
            return r.reference_set.copy()

        def default(A, Y):
            r = ReferenceSet(A)
            r.shift(0.05)
            r.match(Y)
            return r.reference_set.copy()
        cases += [(f"two components {m}", [A, B, Y, e], fn), (f"one component {m}", [A, Y[:3], e], one), (f"default direction {m}", [A, Y[:3]], default)]
    return run(cases)


def s_c17():
    from hvd.rsg import RSG

    P = np.vstack([np.c_[np.linspace(0, 1, 8), np.linspace(1, 0, 8) ** 2], np.c_[np.linspace(3, 4, 7), np.linspace(-2, -3, 7)]])
    return run([("filling", [P], lambda P: RSG(P, Nf=20)), ("filling of rows in another order", [P[::-1]], lambda P: RSG(P, Nf=31))])


def s_c18():
    from hvd.utils import compute_chim, handle_box_constraint, precondition_hessian

    H = np.array([[1.0, 2, 0], [2, -3, 1], [0, 1, 0.5]])
    X = np.array([[2.3, -1.4, 0.5], [0.2, 0.9, 5.0]])
    lb, ub = np.zeros(3), np.array([1.0, 2.0, 3.0])
    return run([("preconditioning", [H], precondition_hessian), ("negative", [-H], precondition_hessian),
                ("reflection", [X[0], lb, ub], handle_box_constraint), ("reflection of a table", [X.T, lb, ub], handle_box_constraint),
                ("normal", [lattice(5, 3, 0.2, 0, 1)], compute_chim), ("normal 2", [lattice(5, 2, 0.2, 0, 1)], compute_chim)])


def s_optimiser(name):
    from hvd.gradient_based import Lara
    from hvd.mmd_newton import MMDNewton
    from hvd.newton import HVN, DpN
    from hvd.reference_set import ReferenceSet

    cases = []
    for m, n, kind in ((2, 2, "hg"), (3, 2, ""), (2, 3, "g"), (2, 2, "")):
        t, X, Y, J = toys(m, n, 3)
        cs = Cstr(kind, n)
        xl, xu = np.full(n, -1.5), np.full(n, 1.6)
        R = Y.max(axis=0) + 2.0 if name == "HVN" else lattice(3, m, 0.8, -0.3, 1.5)
        e = -np.ones(m) / np.sqrt(m)

        def fn(X, xl, xu, R, e, m=m, n=n, t=t, cs=cs):
            if name == "HVN":
                o = HVN(n, m, t.func, t.jac, t.hess, R, xl, xu, X0=X, max_iters=3, verbose=False, **cs.kwargs())
            elif name == "DpN":
                o = DpN(n, m, t.func, t.jac, t.hess, ReferenceSet(R, eta={0: e}), xl, xu, x0=X, max_iters=3, verbose=False, **cs.kwargs())
            elif name == "MMDNewton":
                o = MMDNewton(n, m, t.func, t.jac, t.hess, ReferenceSet(R, eta={0: e}), xl, xu, X0=X, max_iters=2, verbose=False,
                              **{k: v for k, v in cs.kwargs().items() if "hess" not in k})
            else:
                o = Lara(n, m, t.func, t.jac, xl, xu, X0=X, max_iters=3, verbose=False)
            out = o.run()
            return [out[0], out[1], o.history_R_norm]
        if (name != "MMDNewton" or (m, n) == (2, 2)) and (name != "Lara" or not kind):
            cases.append((f"{name} {m} {n} {kind}", [X, xl, xu, R, e], fn))
    return run(cases, pairs=name != "MMDNewton")


def extend(scenarios, plan, scenario, **kw):
    """add the layouts scenario to a check"""
    scenarios["layouts"] = lambda: scenario(**kw)

    def longer(tier):
        yield "layouts", {}
        yield from plan(tier)
    return longer
