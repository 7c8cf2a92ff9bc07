"""C26: starting populations."""
import itertools

import numpy as np

from mc.core import Result
from mc.toy import Cstr, Toy

PROPERTY = "C26"
RULE = (
    "Every optimiser x 1-4 variables x box (ranges of different scale and sign per variable, degenerate ranges, unbounded sides) x way of writing the bounds x constraint sets x "
    "population size x whether and how the population is given (every population of 1-3 points with coordinates on a lattice below, on, inside, above the box; arrays, lists, whole numbers, "
    "read-only, Fortran order), and every state of a family of random states for populations that are drawn: size, place in the box, projection, multipliers, values and "
    "derivatives of the initial state, and the caller's arrays."
)
ASSUMPTIONS = ["drawn populations are decided for 40 states of the random generator; that every variable uses its whole range is asked of their union"]
BOXES = {
    1: [([-1.0], [2.0]), ([3.0], [3.5])],
    2: [([-1.0, -0.5], [1.5, 1.0]), ([0.0, 0.0], [1.0, 1.0]), ([0.0, -30.0], [0.01, 70.0]), ([-7.0, 5.0], [-5.5, 5.25])],
    3: [([0.0, -30.0, 4.0], [1.0, 70.0, 4.5]), ([-3.0, -2.0, -1.0], [-2.0, 0.0, 0.0])],
    4: [([0.0, -1.0, 2.0, -4.0], [1.0, 1.0, 5.0, -3.0])],
}


def make(name, n, m, toy, cs, xl, xu, N, X0, default_N=False):
    from hvd.gradient_based import Lara
    from hvd.mmd_newton import MMDNewton
    from hvd.newton import HVN, DpN
    from hvd.reference_set import ReferenceSet

    kw = {}
    if cs.eq:
        kw.update(h=cs.h, h_jac=cs.h_jac)
    if cs.ieq:
        kw.update(g=cs.g, g_jac=cs.g_jac)
    hs = {**(dict(h_hessian=cs.h_hess) if cs.eq else {}), **(dict(g_hessian=cs.g_hess) if cs.ieq else {})}
    if not default_N:
        kw["N"] = N
    R = np.array([[-1.0 - 0.1 * i + 0.05 * j * i for j in range(m)] for i in range(max(N, 1))])
    e = {0: -np.ones(m) / np.sqrt(m)}
    if name == "HVN":
        return HVN(n, m, toy.func, toy.jac, toy.hess, np.full(m, 1e5), xl, xu, X0=X0, verbose=False, **kw, **hs)
    if name == "DpN":
        return DpN(n, m, toy.func, toy.jac, toy.hess, ReferenceSet(R, eta=e), xl, xu, x0=X0, verbose=False, **kw, **hs)
    if name == "MMD":
        return MMDNewton(n, m, toy.func, toy.jac, toy.hess, ReferenceSet(R, eta=e), xl, xu, X0=X0, verbose=False, matching=True, **kw)
    return Lara(n, m, toy.func, toy.jac, xl, xu, X0=X0, verbose=False, **kw)


def audit(res, o, name, n, m, toy, cs, want, N, xl, xu, ctx):
    """the initial state belongs to the population"""
    s = o.state
    P = np.asarray(s.primal)
    if P.shape != (N, n) or o.N != N or s.N != N:
        return res.fail(f"start:size:{name}", f"population of shape {P.shape}, size reported {o.N}/{s.N}, expected {N} x {n}", ctx)
    if not (np.all(P >= xl) and np.all(P <= xu)):
        return res.fail(f"start:box:{name}", f"initial points {P.tolist()} outside the box [{xl}, {xu}]", ctx)
    if want is not None and not np.array_equal(P, want):
        return res.fail(f"start:points:{name}", f"initial points {P.tolist()}, expected {want.tolist()}", ctx)
    lam = np.asarray(s.X)[:, n:]
    k = cs.ne + cs.ni
    if lam.shape != (N, k) or not np.allclose(lam, 1.0 / N if name == "HVN" else 0.0, rtol=0, atol=1e-15):
        return res.fail(f"start:multipliers:{name}", f"initial multipliers {lam.tolist()}", ctx)
    Y = np.array([toy.func(x) for x in P])
    J = np.array([toy.jac(x) for x in P])
    if not np.allclose(s.Y, Y, rtol=1e-12, atol=0) or not np.allclose(s.J, J, rtol=1e-12, atol=1e-300):
        return res.fail(f"start:values:{name}", "values or Jacobians of the initial state are not those of its points", ctx)
    if k:
        C = np.array([np.r_[cs.h(x) if cs.eq else [], cs.g(x) if cs.ieq else []] for x in P])
        if not np.allclose(s.cstr_value, C, rtol=1e-12, atol=1e-15):
            return res.fail(f"start:constraints:{name}", "constraint values of the initial state are not those of its points", ctx)
    return None


FORMS = {
    "arrays": lambda xl, xu: (np.array(xl), np.array(xu)),
    "lists": lambda xl, xu: (list(xl), list(xu)),
    "tuples": lambda xl, xu: (tuple(xl), tuple(xu)),
    "scalars": lambda xl, xu: (float(min(xl)), float(max(xu))),
    "mixed": lambda xl, xu: (float(min(xl)), np.array(xu)),
    "whole": lambda xl, xu: (np.floor(xl).astype(int), np.ceil(xu).astype(int)),
}


def effective(form, xl, xu, n):
    a, b = FORMS[form](xl, xu)
    return np.broadcast_to(np.asarray(a, float), n), np.broadcast_to(np.asarray(b, float), n)


def s_drawn(name, n, m, kind, box, form):
    """no population given: N points of the box, for every state of the generator; all of the box is used"""
    res = Result()
    toy, cs = Toy(m, n), Cstr(kind, n)
    xl0, xu0 = BOXES[n][box]
    xl, xu = effective(form, xl0, xu0, n)
    for N in (1, 2, 5, None):
        seen, sets = [], set()
        for seed in range(40):
            np.random.seed(seed)
            ctx = dict(optimiser=name, n=n, m=m, constraints=kind, box=[xl.tolist(), xu.tolist()], bounds=form, N=N, seed=seed)
            o = make(name, n, m, toy, cs, *FORMS[form](xl0, xu0), N if N else 5, None, default_N=N is None)
            res.call()
            res.state()
            if audit(res, o, name, n, m, toy, cs, None, N or 5, xl, xu, ctx) is not None or res.full:
                return res
            P = o.state.primal
            seen.append((P - xl) / (xu - xl))
            sets.add(P.tobytes())
        U = np.concatenate(seen)
        res.trace()
        if len(U) >= 40 and (np.any(U.min(0) > 0.4) or np.any(U.max(0) < 0.6)):
            res.fail(f"start:range:{name}", f"{len(U)} drawn points use only {U.min(0)} .. {U.max(0)} of the ranges", ctx)
        if len(sets) < 40:
            res.fail(f"start:draws:{name}", f"{len(sets)} different populations for 40 states of the generator", ctx)
        if N != 1 and len(np.unique(U, axis=0)) != len(U):
            res.fail(f"start:repeated:{name}", "a drawn point is repeated", ctx)
        for a, b in itertools.combinations(range(n), 2):  # coordinates are drawn one by one
            if np.allclose(U[:, a], U[:, b]):
                res.fail(f"start:diagonal:{name}", f"coordinates {a} and {b} are always the same share of their range", ctx)
        res.outcome(f"{name}{N}{n}")
    res.sample(dict(optimiser=name, n=n))
    return res


def s_given(name, n, m, kind, box, form, size, levels, style):
    """a population given: its projection on the box, size from the array, the caller's array stays as it was"""
    res = Result()
    toy, cs = Toy(m, n), Cstr(kind, n)
    xl0, xu0 = BOXES[n][box]
    xl, xu = effective(form, xl0, xu0, n)
    w = xu - xl
    L = [xl - 0.7 * w, xl, xl + 0.31 * w, xu, xu + 1.3 * w, xl + 0.77 * w][:levels]
    pts = [np.array([L[k][j] for j, k in enumerate(c)]) for c in itertools.product(range(len(L)), repeat=n)]
    idx = itertools.product(range(len(pts)), repeat=size) if len(pts) ** size <= 400 else (
        [(i * 7 + 3 * j * j) % len(pts) for j in range(size)] for i in range(len(pts)))
    for rows in idx:
        X = np.array([pts[i] for i in rows])
        if style == "whole":
            X = np.round(X).astype(int)
        keep = np.array(X)
        given = X.tolist() if style == "lists" else np.asfortranarray(X) if style == "fortran" else X
        if style == "readonly":
            given.setflags(write=False)
        ctx = dict(optimiser=name, n=n, m=m, constraints=kind, box=[xl.tolist(), xu.tolist()], bounds=form, given=style, points=keep)
        # N disagrees with the array on purpose, except for the reference sets which follow it
        o = make(name, n, m, toy, cs, *FORMS[form](xl0, xu0), size, given, default_N=name in ("HVN", "Lara"))
        res.call()
        res.state()
        if audit(res, o, name, n, m, toy, cs, np.clip(keep.astype(float), xl, xu), size, xl, xu, ctx) is not None and res.full:
            return res
        if style != "lists" and not np.array_equal(given, keep):
            res.fail(f"start:input:{name}", f"the caller's population became {np.asarray(given).tolist()}", ctx)
        if style not in ("lists", "readonly"):  # the caller goes on using the array
            before = np.array(o.state.X)
            given[:] = 0
            if not np.array_equal(before, o.state.X):
                res.fail(f"start:alias:{name}", "overwriting the caller's population changed the state", ctx)
        res.outcome(f"{name}{(keep < xl).any()}{(keep > xu).any()}")
    res.trace()
    res.sample(dict(optimiser=name, n=n, given=style))
    return res


def s_unbounded(name):
    """boxes with infinite sides: populations can be given, not drawn"""
    res = Result()
    for n, kind in itertools.product((1, 2, 3), ("",) if name == "Lara" else ("",)):
        toy, cs = Toy(2, n), Cstr(kind, n)
        for lo in itertools.product((-np.inf, -1.0), repeat=n):
            for up in itertools.product((np.inf, 2.0), repeat=n):
                xl, xu = np.array(lo), np.array(up)
                if np.isfinite(np.r_[xl, xu]).all():
                    continue
                X0 = np.array([[5.0, -7.0, 0.5][:n], [-3.0, 0.25, 9.0][:n]])
                ctx = dict(optimiser=name, n=n, box=[xl.tolist(), xu.tolist()])
                res.state()
                res.call()
                with np.errstate(all="ignore"):
                    try:
                        o = make(name, n, 2, toy, cs, xl, xu, 2, X0.copy())
                        audit(res, o, name, n, 2, toy, cs, np.clip(X0, xl, xu), 2, xl, xu, ctx)
                    except Exception as e:  # noqa: BLE001
                        res.fail(f"start:unbounded:{name}", f"a given population in a box with open sides raised {type(e).__name__}: {e}", ctx)
                    try:
                        make(name, n, 2, toy, cs, xl, xu, 2, None)
                        res.fail(f"start:unbounded:{name}", "a population was drawn from an unbounded box", ctx)
                    except Exception as e:  # noqa: BLE001
                        res.outcome(f"{type(e).__name__}")
    res.trace()
    res.sample(dict(optimiser=name))
    return res


SCENARIOS = dict(drawn=s_drawn, given=s_given, unbounded=s_unbounded)


def plan(tier):
    th = tier == "thorough"
    names = ("HVN", "DpN", "MMD", "Lara")
    for name in names:
        yield "unbounded", dict(name=name)
    for name, n in itertools.product(names, (1, 2, 3, 4)):
        for m, kind in itertools.product((2, 3), ("",) if name == "Lara" else ("", "hg") if not th else ("", "h", "g", "hg", "HG")):
            for box, form in itertools.product(range(len(BOXES[n])), FORMS):
                if m == 3 and not th and (kind or form not in ("arrays", "scalars")):
                    continue
                yield "drawn", dict(name=name, n=n, m=m, kind=kind, box=box, form=form)
                for size in (1, 2, 3):
                    styles = ("arrays", "fortran", "readonly", "whole", "lists") if form == "arrays" else ("arrays",)
                    for style in styles:
                        if not th and size == 3 and style != "arrays":
                            continue
                        yield "given", dict(name=name, n=n, m=m, kind=kind, box=box, form=form, size=size, levels={1: 6, 2: 6 if th else 5, 3: 5, 4: 4 if th else 3}[n], style=style)
