"""C15: the contract of a problem object: point and batch calls agree, shapes and constraint order are as documented,
configuration errors are rejected, and the pymoo adapters carry values, constraints and counts in both directions without
changing pymoo's backend.

Scenarios: every library problem and every small custom problem (numbers of variables, objectives, constraints, boundary
constraints) over decision grids; every invalid constructor argument; every sequence of factory calls, plain pymoo imports and
backend switches up to a depth in a purged interpreter state."""
import itertools
import sys
import warnings

import numpy as np

from mc.checks import c13
from mc.core import Result
from mc.ref_problems import REG

PROPERTY = "C15"
RULE = ("Every library problem x size x boundary-constraint switch and every custom problem with 1-3 variables, 1-3 objectives, 0-2 "
        "equality, 0-2 inequality constraints x batch sizes 1-4: values, Jacobians and Hessians of batch and point calls, boundary "
        "constraints, pymoo adapters; every invalid dimension/bound/parameter from a list; every sequence of factory calls, plain imports "
        "and backend switches up to a depth from purged pymoo modules; every pair of requests for Pareto sets and fronts through both adapters.")
ASSUMPTIONS = ["pymoo's problem modules can be purged from sys.modules to reach the not-yet-imported state",
               "custom problems are polynomials with closed-form derivatives"]


def arr(x):
    return np.array(x, float)


def same(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    with np.errstate(invalid="ignore"):
        return a.shape == b.shape and np.array_equal(np.isnan(a), np.isnan(b)) and bool(
            np.all((np.abs(a - b) <= tol * np.maximum(1, np.abs(b))) | np.isnan(b) | (a == b)))


def scaled(X, p):
    return p.xl + X * (p.xu - p.xl)


def agree(res, name, p, X, ctx, exact=None, only=None, order=2):
    """point/batch agreement, shapes and (optionally) exact values of every function the problem offers"""
    n, m = p.n_var, p.n_obj
    kinds = [("objective", "objective", m)]
    if getattr(p, "n_eq_constr", 0):
        kinds.append(("eq_constraint", "eq", p.n_eq_constr))
    if getattr(p, "n_ieq_constr", 0):
        kinds.append(("ieq_constraint", "ieq", p.n_ieq_constr))
    for val, pre, q in kinds:
        if only and pre not in only:
            continue
        for what, shape in ((val, (q,)), (f"{pre}_jacobian", (q, n)), (f"{pre}_hessian", (q, n, n)))[: order + 1]:
            keep = X.copy()
            B = np.asarray(getattr(p, what + "_batch")(X))
            P = [np.asarray(getattr(p, what)(x)) for x in X]
            res.call(len(X) + 1)
            if not np.array_equal(X, keep):
                res.fail(f"{name}:{what}:input", "the decision points were modified", ctx)
                return
            if B.size != len(X) * int(np.prod(shape)) or (what != val and B.shape != (len(X),) + shape) or len(B) != len(X):
                res.fail(f"{name}:{what}:batch_shape", f"batch result of shape {B.shape} for {len(X)} points, {shape} each", ctx)
                continue
            for i, v in enumerate(P):
                res.state()
                if v.size != int(np.prod(shape)) or (what != val and v.shape != shape):
                    res.fail(f"{name}:{what}:shape", f"result of shape {v.shape}, expected {shape}", dict(ctx, x=X[i]))
                    break
                if not same(v.reshape(shape), B[i].reshape(shape), 1e-7):
                    res.fail(f"{name}:{what}:batch", f"batch row {B[i].tolist()} differs from the point result {v.tolist()}", dict(ctx, x=X[i]))
                    break
                if exact is not None and not same(v.reshape(shape), exact[what](X[i]), 1e-9):
                    res.fail(f"{name}:{what}:value", f"{v.tolist()}, exact {exact[what](X[i]).tolist()}", dict(ctx, x=X[i]))
                    break
    res.trace()


def bounds_part(res, name, p, base, X, ctx):
    """boundary constraints: native ones first, then xl - x, then x - xu"""
    n, q = p.n_var, getattr(base, "n_ieq_constr", 0)
    if p.n_ieq_constr != q + 2 * n:
        res.fail(f"{name}:bounds:count", f"{p.n_ieq_constr} inequality constraints reported, {q + 2 * n} expected", ctx)
        return
    I = np.eye(n)
    for x in X:
        v = np.asarray(p.ieq_constraint(x)).ravel()
        native = np.asarray(base.ieq_constraint(x)).ravel() if q else np.zeros(0)
        J = p.ieq_jacobian(x)
        res.call(3)
        res.state()
        if not same(v, np.r_[native, p.xl - x, x - p.xu]):
            res.fail(f"{name}:bounds:value", f"constraint values {v.tolist()}, expected native {native.tolist()} then xl-x then x-xu", dict(ctx, x=x))
            return
        if not np.array_equal(J[q:], np.vstack([-I, I])) or (q and not same(J[:q], base.ieq_jacobian(x), 1e-7)):
            res.fail(f"{name}:bounds:jacobian", f"Jacobian of the bounds {J[q:].tolist()}", dict(ctx, x=x))
            return
    if np.any(p.ieq_hessian(X[0])[q:] != 0):
        res.fail(f"{name}:bounds:hessian", "nonzero Hessian of a bound", ctx)


def to_pymoo(res, name, p, X, ctx):
    a = p.as_pymoo_problem()
    neq, nieq = getattr(p, "n_eq_constr", 0), getattr(p, "n_ieq_constr", 0)
    if (a.n_var, a.n_obj, a.n_eq_constr, a.n_ieq_constr) != (p.n_var, p.n_obj, neq, nieq) or not (np.array_equal(a.xl, p.xl) and np.array_equal(a.xu, p.xu)):
        res.fail(f"{name}:pymoo:meta", f"dimensions {(a.n_var, a.n_obj, a.n_eq_constr, a.n_ieq_constr)} / bounds differ from the problem", ctx)
        return
    for Z in (X, X[:1], X[0]):
        out = a.evaluate(Z, return_as_dictionary=True)
        res.call()
        Z2 = np.atleast_2d(Z)
        want = dict(F=p.objective_batch(Z2))
        if neq:
            want["H"] = np.asarray(p.eq_constraint_batch(Z2)).reshape(len(Z2), neq)
        if nieq:
            want["G"] = np.asarray(p.ieq_constraint_batch(Z2)).reshape(len(Z2), nieq)
        for k, w in want.items():
            res.state()
            w = w if Z.ndim == 2 else w[0]
            if not same(out.get(k), w):
                res.fail(f"{name}:pymoo:{k}", f"pymoo evaluation of {k} differs from the problem's", dict(ctx, x=Z))
        for k in ("G", "H"):
            if k not in want and out.get(k) is not None and np.size(out[k]):
                res.fail(f"{name}:pymoo:{k}", f"unexpected constraint values {k}", ctx)
    res.trace()


# ---- library problems ----------------------------------------------------------------------------------
def s_library(name, sizes, N, deep):
    res = Result()
    C = c13.cls(name)
    for n, M, k in sizes:
        kw = {a: b for a, b in (("n_var", n), ("n_obj", M), ("k", k)) if b is not None}
        ctx = dict(problem=name, **kw)
        p = C(**kw)
        X = c13.points(p.xl, p.xu, False, "grid")
        X = X[:: max(1, len(X) // N)][:N].copy()
        agree(res, name, p, X, ctx)
        agree(res, name, p, X[:1], ctx, order=2 if deep else 0)
        to_pymoo(res, name, p, X, ctx)
        if "boundary_constraints" in C.__init__.__code__.co_varnames:
            q = C(boundary_constraints=True, **kw)
            bounds_part(res, name, q, p, X, ctx)
            agree(res, name, q, X[:2], dict(ctx, boundary=True), only=None if deep else ("ieq",), order=2 if deep else 1)
            to_pymoo(res, name, q, X[:2], dict(ctx, boundary=True))
            if p.n_ieq_constr != C(**kw).n_ieq_constr:
                res.fail(f"{name}:counts:shared", "constraint counts leak between instances", ctx)
        # other bounds are honoured
        if name not in ("DisConnected",):
            lo, hi = p.xl + 0.25 * (p.xu - p.xl), p.xl + 0.75 * (p.xu - p.xl)
            lo0, hi0 = lo.copy(), hi.copy()
            r = C(xl=lo, xu=hi, **kw)
            if not (np.array_equal(r.xl, lo0) and np.array_equal(r.xu, hi0)):
                res.fail(f"{name}:bounds:given", f"bounds {r.xl.tolist()}..{r.xu.tolist()} instead of the given ones", ctx)
            lo += 1
            if not np.array_equal(r.xl, lo0):
                res.fail(f"{name}:bounds:alias", "the problem shares the caller's bound array", ctx)
            res.state()
    res.outcome(name)
    res.sample(ctx)
    return res


# ---- custom problems -----------------------------------------------------------------------------------
def coefficients(n, q, salt):
    """q polynomials  c.x + x'Qx/2 + sum(d x^3)/6  with small integer coefficients"""
    c = np.array([[(3 * i + 2 * j + salt) % 5 - 2 for j in range(n)] for i in range(q)], float).reshape(q, n)
    Q = np.array([[[((i + 1) * (j + k + 1) + salt) % 4 - 1 + (j == k) for k in range(n)] for j in range(n)] for i in range(q)], float).reshape(q, n, n)
    Q = (Q + Q.transpose(0, 2, 1)) / 2
    d = np.array([[(i + 2 * j + salt) % 3 - 1 for j in range(n)] for i in range(q)], float).reshape(q, n)
    return c, Q, d


def poly(c, Q, d, xp):
    def f(x):
        return xp.stack([xp.dot(c[i], x) + xp.dot(x, xp.dot(Q[i], x)) / 2 + xp.sum(d[i] * x**3) / 6 for i in range(len(c))])

    return f


def exact_of(n, m, e, g):
    ex = {}
    for pre, val, q, salt in (("objective", "objective", m, 0), ("eq", "eq_constraint", e, 1), ("ieq", "ieq_constraint", g, 2)):
        if q == 0:
            continue
        c, Q, d = coefficients(n, q, salt)
        ex[val] = poly(c, Q, d, np)
        ex[f"{pre}_jacobian"] = lambda x, c=c, Q=Q, d=d: c + Q @ x + d * x**2 / 2
        ex[f"{pre}_hessian"] = lambda x, Q=Q, d=d: Q + np.array([np.diag(r * x) for r in d])
    return ex


def custom(n, m, e, g, boundary, scalar=False):
    import jax.numpy as jnp
    from hvd.problems import CMOP, MOP

    cs = {k: coefficients(n, q, s) for k, q, s in (("f", m, 0), ("h", e, 1), ("g", g, 2))}
    sq = (lambda v: v[0]) if scalar else (lambda v: v)
    ns = dict(_objective=lambda self, x: poly(*cs["f"], jnp)(x))
    if e:
        ns["_eq_constraint"] = lambda self, x: sq(poly(*cs["h"], jnp)(x))
    if g:
        ns["_ieq_constraint"] = lambda self, x: poly(*cs["g"], jnp)(x)
    base = CMOP if (e or g or boundary) else MOP
    T = type("Custom", (base,), ns)
    lo, hi = -1 - 0.5 * np.arange(n), 2.0 + np.arange(n)
    if base is MOP:
        return T(n, m, lo, hi)
    return T(n, m, lo, hi, n_eq_constr=e, n_ieq_constr=g, boundary_constraints=boundary)


def pymoo_custom(n, m, e, g, style):
    import jax.numpy as jnp
    from pymoo.core.problem import Problem

    cs = {k: coefficients(n, q, s) for k, q, s in (("F", m, 0), ("H", e, 1), ("G", g, 2)) if q}

    class Q(Problem):
        def __init__(self):
            super().__init__(n_var=n, n_obj=m, n_eq_constr=e, n_ieq_constr=g, xl=-1 - 0.5 * np.arange(n), xu=2.0 + np.arange(n))

        def _evaluate(self, X, out, *a, **k):
            import jax

            vals = {k: jax.vmap(poly(*c, jnp))(X) for k, c in cs.items()}
            if style == "return":
                return vals["F"]
            if style == "columns":
                vals = {k: jnp.column_stack([v[:, i] for i in range(v.shape[1])]) for k, v in vals.items()}
            for k, v in vals.items():
                out[k] = v

    return Q()


def s_custom(n, N, ms, cons, deep):
    from hvd.problems import MOP

    res = Result()
    X = arr(list(itertools.product((-0.75, 0.5, 1.25), repeat=n)))
    X = np.vstack([X, -1 - 0.5 * np.arange(n), 2.0 + np.arange(n)])[-N:]
    for m, (e, g) in itertools.product(ms, cons):
        ex = exact_of(n, m, e, g)
        plain = custom(n, m, e, g, False)
        for boundary in (False, True):
            p = custom(n, m, e, g, boundary)
            ctx = dict(n_var=n, n_obj=m, n_eq=e, n_ieq=g, boundary=boundary)
            exb = {k: v for k, v in ex.items() if not (boundary and k.startswith("ieq"))} or None
            full = {}
            lo, hi = plain.xl, plain.xu
            full.update(exb or {})
            if boundary:
                I = np.vstack([-np.eye(n), np.eye(n)])
                full["ieq_constraint"] = lambda x: np.r_[ex["ieq_constraint"](x) if g else np.zeros(0), lo - x, x - hi]
                full["ieq_jacobian"] = lambda x: np.vstack([ex["ieq_jacobian"](x) if g else np.zeros((0, n)), I])
                full["ieq_hessian"] = lambda x: np.concatenate([ex["ieq_hessian"](x) if g else np.zeros((0, n, n)), np.zeros((2 * n, n, n))])
            agree(res, "custom", p, X, ctx, full)
            to_pymoo(res, "custom", p, X, ctx)
            if e == 1 and not boundary:
                agree(res, "custom:scalar", custom(n, m, e, g, False, True), X[:3], dict(ctx, scalar=True), ex)
            # pymoo -> native
            for style in ("out", "columns")[: 2 if deep or not boundary else 1] + (("return",) if not e and not g else ()):
                src = pymoo_custom(n, m, e, g, style)
                a = MOP.from_pymoo(src, boundary_constraints=boundary)
                c2 = dict(ctx, style=style)
                if (a.n_var, a.n_obj, a.n_eq_constr, a.n_ieq_constr) != (n, m, e, g + 2 * n * boundary) or not (np.array_equal(a.xl, lo) and np.array_equal(a.xu, hi)):
                    res.fail("from_pymoo:meta", f"dimensions {(a.n_var, a.n_obj, a.n_eq_constr, a.n_ieq_constr)} or bounds are wrong", c2)
                agree(res, "from_pymoo", a, X[-3:], c2, full, order=2 if deep or style == "out" and not boundary else 1)
                if MOP.from_pymoo(a) is not a:
                    res.fail("from_pymoo:idempotent", "adapting a native problem does not return it", c2)
                to_pymoo(res, "from_pymoo", a, X[:2], c2)
            res.outcome(f"{n}{m}{e}{g}{boundary}")
            # default of from_pymoo: boundary constraints on
            if boundary and MOP.from_pymoo(pymoo_custom(n, m, e, g, "out")).n_ieq_constr != g + 2 * n:
                res.fail("from_pymoo:default", "boundary constraints are not on by default", ctx)
    res.sample(ctx)
    return res


# ---- rejected configurations ---------------------------------------------------------------------------
def raises(kind, f, *a, **k):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            f(*a, **k)
    except kind:
        return True
    except Exception:
        return False
    return False


def s_reject():
    import hvd.problems as P
    from hvd.problems import CMOP, MOP
    from hvd.problems.misc import DENT, ModifiedObjective

    res = Result()

    def must(tag, kind, f, *a, **k):
        res.state()
        res.call()
        if not raises(kind, f, *a, **k):
            res.fail(f"reject:{tag}", f"{tag} with {a} {k} is accepted or raises another error than {kind.__name__}", dict(args=repr(a), kwargs=repr(k)))

    def accept(tag, f, *a, **k):
        res.state()
        res.call()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return f(*a, **k)
        except Exception as ex:
            res.fail(f"accept:{tag}", f"{tag} with {a} {k} is rejected: {ex!r}", dict(args=repr(a), kwargs=repr(k)))

    T = type("T", (MOP,), dict(_objective=lambda self, x: x))
    TC = type("TC", (CMOP,), dict(_objective=lambda self, x: x, _eq_constraint=lambda self, x: x, _ieq_constraint=lambda self, x: x))
    bad = [0, -1, -7, True, False, np.bool_(True), 1.0, 2.5, np.float64(3), "2", None, [2], (2,), np.array([2, 2])]
    good = [1, 2, 5, np.int64(3), np.int32(2), np.uint8(4)]
    for C in (T, TC):
        for v in bad:
            must("n_var", ValueError, C, v, 2, 0.0, 1.0)
            must("n_obj", ValueError, C, 2, v, 0.0, 1.0)
        for v in good:
            q = accept("n_var", C, v, 2, 0.0, 1.0)
            if q is not None and (q.n_var != v or type(q.n_var) is not int or q.xl.shape != (v,)):
                res.fail("accept:n_var", f"n_var={v!r} stored as {q.n_var!r}", None)
            accept("n_obj", C, 2, v, 0.0, 1.0)
        for n in (1, 2, 3):
            for lo, hi in itertools.product((-1.0, 0.0, 1.0, "v"), repeat=2):
                a = np.arange(n) * 1.0 if lo == "v" else lo
                b = np.arange(n) * 1.0 + 0.5 if hi == "v" else hi
                valid = bool(np.all(np.broadcast_to(a, n) <= np.broadcast_to(b, n)))
                (accept if valid else lambda t, f, *k: must(t, ValueError, f, *k))("bounds", C, n, 2, a, b)
            for shape in ((n + 1,), (0,), (n, n) if n > 1 else (2, 2), (n, 1) if n > 1 else (3,)):
                must("bound_shape", ValueError, C, n, 2, np.zeros(shape), 1.0)
                must("bound_shape", ValueError, C, n, 2, 0.0, np.ones(shape))
            # one reversed bound among many
            for i in range(n):
                u = np.ones(n)
                u[i] = -0.5
                must("reversed", ValueError, C, n, 2, np.zeros(n), u)
    for e, g in itertools.product((-2, -1, 0, 1), repeat=2):
        if e < 0 or g < 0:
            must("counts", ValueError, TC, 2, 2, 0.0, 1.0, n_eq_constr=e, n_ieq_constr=g)
        else:
            accept("counts", TC, 2, 2, 0.0, 1.0, n_eq_constr=e, n_ieq_constr=g)
    for i in range(1, 8):
        for n in (1, 2):
            must(f"UF{i}", ValueError, getattr(P, f"UF{i}"), n_var=n)
        accept(f"UF{i}", getattr(P, f"UF{i}"), n_var=3)
    for i in range(8, 11):
        for n in (2, 3, 4):
            must(f"UF{i}", ValueError, getattr(P, f"UF{i}"), n_var=n)
        accept(f"UF{i}", getattr(P, f"UF{i}"), n_var=5)
    # WFG: every small (n_var, n_obj, k, l)
    for i in range(1, 10):
        C = getattr(P, f"WFG{i}")
        for n, M, k, l in itertools.product((4, 6, 7, 8), (1, 2, 3, 4), (2, 3, 4, 5, 6), (None, 1, 2, 3, 4)):
            ll = n - k if l is None else l
            valid = M >= 2 and k >= 4 and k % max(M - 1, 1) == 0 and k + ll == n and ll >= 1 and n >= M and not (i in (2, 3) and ll % 2)
            if valid:
                q = accept(f"WFG{i}", C, n_var=n, n_obj=M, k=k, l=l)
                if q is not None and (q.k, q.l) != (k, ll):
                    res.fail(f"accept:WFG{i}", f"k, l stored as {q.k}, {q.l}", None)
            else:
                must(f"WFG{i}", ValueError, C, n_var=n, n_obj=M, k=k, l=l)
    # fixed numbers of objectives / variables: overridden with a warning, silent otherwise
    fixed = [(c, "n_obj", 2) for c in ("ZDT1", "ZDT2", "ZDT3", "ZDT4", "ZDT6", *(f"UF{i}" for i in range(1, 8)), *(f"CF{i}" for i in range(1, 8)), "DENT")]
    fixed += [(c, "n_obj", 3) for c in ("UF8", "UF9", "UF10", "CF8", "CF9", "CF10", "CONV3")] + [("CONV4", "n_obj", 4), ("CONV4_2F", "n_obj", 4), ("DisConnected", "n_obj", 2)]
    fixed += [("DENT", "n_var", 2), ("CONV3", "n_var", 3), ("CONV4", "n_var", 4), ("CONV4_2F", "n_var", 4), ("DisConnected", "n_var", 2)]
    for c, key, val in fixed:
        C = c13.cls(c)
        for given in (None, 1, 2, 3, 99):
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                q = C() if given is None else C(**{key: given})
            res.state()
            res.call()
            n = sum(f"fixed {key}" in str(x.message) for x in w)
            if n != (given is not None) or getattr(q, key) != val:
                res.fail(f"fixed:{c}", f"{c}({key}={given}): {n} warnings, {key}={getattr(q, key)}", dict(problem=c, given=given))
    # adapters
    for o in (object(), 3, None, MOP, "zdt1"):
        must("from_pymoo", TypeError, MOP.from_pymoo, o)
    from hvd.problems._pymoo_wrapper import _PymooProblemAdapter
    for o in (object(), 3, None, MOP):
        must("to_pymoo", TypeError, _PymooProblemAdapter, o)
    from pymoo.core.problem import Problem

    class Plain(Problem):
        def __init__(self, bad):
            super().__init__(n_var=2, n_obj=1, n_eq_constr=1, n_ieq_constr=1, xl=-1, xu=1)
            self.bad = bad

        def _evaluate(self, X, out, *a, **k):
            for key in ("F", "G", "H"):
                Z = np.asarray(X) if key == self.bad else X
                out[key] = (Z**2).sum(axis=1)[:, None]

    for key in ("F", "G", "H"):
        must(f"traceable:{key}", TypeError, MOP.from_pymoo, Plain(key))
    accept("traceable", MOP.from_pymoo, Plain(None))
    for nm in ("", "zdt5", "wfg1", "DTLZ8", "dtlz", " zdt1"):
        must("factory", ValueError, P.get_pymoo_problem, nm)

    # modified objective: convex combination with the mean, constraints unchanged
    for m, g in itertools.product((1, 2, 3), (0, 1)):
        src = custom(2, m, 0, g, False).as_pymoo_problem()
        mo = ModifiedObjective(src)
        X = arr(list(itertools.product((-0.5, 0.25, 1.0), repeat=2)))
        o, b = mo.evaluate(X, return_as_dictionary=True), src.evaluate(X, return_as_dictionary=True)
        F = 0.98 * b["F"] + 0.02 * b["F"].mean(axis=1, keepdims=True)
        res.state(len(X))
        if not same(o["F"], F) or (g and not same(o["G"], b["G"])) or mo.n_ieq_constr != g:
            res.fail("modified:value", f"modified objective with {m} objectives", dict(m=m, g=g))
    res.trace()
    res.outcome("reject")
    res.sample(dict(bad=repr(bad)))
    return res


# ---- simplex directions --------------------------------------------------------------------------------
def s_directions(M, top):
    import math

    from hvd.problems.utils import generic_sphere, get_ref_dirs

    res = Result()
    for q in range(1, top + 1):
        d = get_ref_dirs(M, n_partitions=q)
        res.call()
        want = sorted(c for c in itertools.product(range(q + 1), repeat=M) if sum(c) == q)
        got = sorted(map(tuple, np.round(d * q, 9).tolist()))
        res.state(len(want))
        if d.shape != (len(want), M) or got != [tuple(map(float, c)) for c in want]:
            res.fail("directions:set", f"{len(d)} directions for {M} objectives and {q} partitions, {len(want)} expected", dict(M=M, partitions=q))
        s = generic_sphere(d)
        if not same(np.linalg.norm(s, axis=1), np.ones(len(d))) or np.any(np.abs(s * np.linalg.norm(d, axis=1)[:, None] - d) > 1e-12):
            res.fail("directions:sphere", "not the normalised directions", dict(M=M, partitions=q))
        n = math.comb(q + M - 1, M - 1)
        for pts in (n - 1, n, n + 1):
            if pts < 1 or M == 1:
                continue
            e = get_ref_dirs(M, n_points=pts)
            res.state()
            k = 1
            while math.comb(k + M - 1, M - 1) < pts:
                k += 1
            if len(e) != math.comb(k + M - 1, M - 1):
                res.fail("directions:points", f"{len(e)} directions for at least {pts} points", dict(M=M, n_points=pts))
    res.trace()
    res.outcome(f"{M}")
    res.sample(dict(M=M))
    return res


# ---- factory -------------------------------------------------------------------------------------------
def purge():
    for k in [k for k in sys.modules if k.startswith("pymoo.problems")]:
        del sys.modules[k]


FAMILY = dict(zdt1=("pymoo.problems.multi.zdt", "ZDT1"), bnh=("pymoo.problems.multi.bnh", "BNH"), dtlz2=("pymoo.problems.many.dtlz", "DTLZ2"))
OPS = ["get:zdt1", "get:bnh", "get:DTLZ2", "get:none", "import:zdt1", "import:dtlz2", "backend:jax.numpy", "backend:autograd.numpy", "block:zdt1"]


def s_factory(first, depth):
    """all sequences of factory calls, plain imports and backend switches"""
    import importlib

    import pymoo.gradient as gradient

    from hvd.problems import get_pymoo_problem

    res = Result()
    original = gradient.TOOLBOX
    saved = {k: v for k, v in sys.modules.items() if k.startswith("pymoo.problems")}
    try:
        for rest in itertools.product(OPS, repeat=depth - 1):
            seq = (first,) + rest
            if seq[-1].startswith(("backend", "block", "import")):
                continue  # covered by the prefix
            purge()
            gradient.activate("autograd.numpy" if original is None else original)
            for step, op in enumerate(seq):
                ctx = dict(sequence=seq[: step + 1])
                kind, arg = op.split(":")
                before = gradient.TOOLBOX
                res.call()
                if kind == "backend":
                    gradient.activate(arg)
                    continue
                if kind == "block":
                    if FAMILY[arg][0] not in sys.modules:
                        sys.modules[FAMILY[arg][0]] = None  # importing it fails from now on
                    continue
                if kind == "import":
                    if sys.modules.get(FAMILY[arg][0], 0) is None:
                        continue
                    importlib.import_module(FAMILY[arg][0])
                    continue
                mod = FAMILY.get(arg.lower(), (None,))[0]
                loaded = sys.modules.get(mod)
                backend = getattr(getattr(loaded, "anp", None), "__name__", None)
                expect = "ValueError" if mod is None else "RuntimeError" if loaded is not None and backend != "jax.numpy" else "ok"
                if expect == "ok" and loaded is None and ".multi." in mod and sys.modules.get("pymoo.problems.multi.zdt", 0) is None:
                    expect = ("ModuleNotFoundError", "ImportError")  # the package imports the blocked module
                try:
                    p = get_pymoo_problem(arg, **({} if "bnh" in arg else dict(n_var=4)))
                    got = "ok"
                except Exception as ex:
                    got, p = type(ex).__name__, None
                res.state()
                if got != expect and got not in expect:
                    res.fail("factory:outcome", f"{op} ends with {got}, expected {expect} (module loaded with {backend})", ctx)
                if gradient.TOOLBOX != before:
                    res.fail("factory:backend", f"{op} leaves pymoo's backend at {gradient.TOOLBOX} instead of {before}", ctx)
                    gradient.activate(before)
                if p is not None:
                    x = p.xl + np.linspace(0.2, 0.7, p.n_var) * (p.xu - p.xl)
                    J = p.objective_jacobian(x)
                    h = 1e-6
                    fd = np.array([(p.objective(x + h * e) - p.objective(x - h * e)) / (2 * h) for e in np.eye(p.n_var)]).T
                    if not np.allclose(J, fd, rtol=1e-4, atol=1e-4) or p.n_ieq_constr != (2 if "bnh" in arg else 0) + 2 * p.n_var:
                        res.fail("factory:value", f"{op}: wrong derivative or constraint count", ctx)
                res.outcome(f"{op}{got}")
            res.trace()
            res.sample(seq)
    finally:
        purge()
        sys.modules.update(saved)
        gradient.activate(original)
    return res


def s_registry(part):
    """every supported name: values and derivatives of the published problem, case-insensitive, bounds, constraint switch"""
    import pymoo.gradient as gradient

    from hvd.problems import get_pymoo_problem, pymoo_problem_names
    from mc.ref_problems import evaluate

    res = Result()
    purge()
    before = gradient.TOOLBOX
    names = pymoo_problem_names()
    want = {"bnh", "osy", "srn", "tnk", *(f"zdt{i}" for i in (1, 2, 3, 4, 6)), *(f"dtlz{i}" for i in range(1, 8))}
    if set(names) != want or len(names) != len(want):
        res.fail("registry:names", f"supported names {sorted(names)}", None)
    for nm in sorted(want)[part::4]:
        for boundary, spell in itertools.product((True, False), (nm, nm.upper(), nm.capitalize())):
            kw = {} if nm in ("bnh", "osy", "srn", "tnk") else dict(n_var=6) if nm.startswith("zdt") else dict(n_var=6, n_obj=3)
            p = get_pymoo_problem(spell, boundary_constraints=boundary, **kw)
            ctx = dict(name=spell, boundary=boundary)
            res.call()
            native = dict(bnh=2, osy=6, srn=2, tnk=2).get(nm, 0)
            if p.n_ieq_constr != native + 2 * p.n_var * boundary or gradient.TOOLBOX != before:
                res.fail("registry:counts", f"{p.n_ieq_constr} inequality constraints / backend {gradient.TOOLBOX}", ctx)
            X = c13.points(p.xl, p.xu, False, "grid")[::40][:12]
            if spell == nm:
                agree(res, "registry", p, X, ctx)
                to_pymoo(res, "registry", p, X, ctx)
            else:
                p.objective_batch(X)
            if nm.upper() in REG and spell == nm:
                V, G, H, ok = evaluate(REG[nm.upper()][0], X, p.n_obj)
                got = p.objective_batch(X)
                if nm != "dtlz7" and not c13.scaled_close(got, V, 1e-6).all():
                    res.fail("registry:value", f"objective values of {nm} differ from the published ones", ctx)
                Jg, Hg = p.objective_jacobian_batch(X), p.objective_hessian_batch(X)
                if nm != "dtlz7" and ok.any() and not (c13.scaled_close(Jg[ok], G[ok], 1e-5).all() and c13.scaled_close(Hg[ok], H[ok], 1e-4).all()):
                    res.fail("registry:derivative", f"derivatives of {nm}", ctx)
            elif spell == nm:
                x = X[0]
                v = dict(bnh=lambda x: [4 * x[0] ** 2 + 4 * x[1] ** 2, (x[0] - 5) ** 2 + (x[1] - 5) ** 2],
                         srn=lambda x: [2 + (x[0] - 2) ** 2 + (x[1] - 1) ** 2, 9 * x[0] - (x[1] - 1) ** 2], tnk=lambda x: [x[0], x[1]],
                         osy=lambda x: [-(25 * (x[0] - 2) ** 2 + (x[1] - 2) ** 2 + (x[2] - 1) ** 2 + (x[3] - 4) ** 2 + (x[4] - 1) ** 2), np.sum(x**2)])[nm](x)
                if not same(p.objective(x), arr(v), 1e-8):
                    res.fail("registry:value", f"objective of {nm} is {p.objective(x).tolist()}, published {v}", ctx)
            res.state()
        res.outcome(nm)
    res.trace()
    res.sample(dict(names=list(names)))
    return res


def s_fronts():
    """Pareto sets and fronts are handed through unchanged in both directions, with the arguments of the caller"""
    from pymoo.core.problem import Problem
    from pymoo.problems import get_problem

    from hvd.problems import get_pymoo_problem
    from hvd.problems.base import MOP

    res = Result()
    purge()

    class Native(Problem):
        def __init__(self):
            super().__init__(n_var=2, n_obj=2, xl=0.0, xu=1.0)

        def _evaluate(self, x, out, *a, **k):
            out["F"] = x

        def _calc_pareto_set(self, n=4, scale=1.0):
            return scale * np.c_[np.arange(n), -np.arange(n)]

        def _calc_pareto_front(self, n=4, scale=1.0):
            return 1 + scale * np.c_[np.arange(n), -np.arange(n)]

    class Offering(Native):
        def get_pareto_set(self, n=4, scale=1.0):
            return 100 + self._calc_pareto_set(n, scale)

        def get_pareto_front(self, n=4, scale=1.0):
            return 200 + self._calc_pareto_front(n, scale)

    class Own(MOP):
        def __init__(self):
            super().__init__(n_var=2, n_obj=2, xl=np.zeros(2), xu=np.ones(2))

        def _objective(self, x):
            return x

        def get_pareto_set(self, n=4, scale=1.0):
            return scale * np.c_[np.arange(n), -np.arange(n)]

        def get_pareto_front(self, n=4, scale=1.0):
            return 1 + self.get_pareto_set(n, scale)

    calls = [((), {}), ((2,), {}), ((3, 0.5), {}), ((), dict(n=5)), ((), dict(scale=2.0)), ((1,), dict(scale=-1.0))]
    for seq in itertools.product(calls, repeat=2):  # history of two requests
        for cls, off in ((Native, (0, 0)), (Offering, (100, 200))):
            inner = cls()
            w = MOP.from_pymoo(inner)
            own = Own()
            ad = own.as_pymoo_problem()
            for a, k in seq:
                res.call()
                base = Native._calc_pareto_set(inner, *a, **k)
                ctx = dict(problem=cls.__name__, sequence=str(seq))
                got = [w.get_pareto_set(*a, **k), w.get_pareto_front(*a, **k), ad.pareto_front(*a, **k)]
                want = [off[0] + base, off[1] + 1 + base, 1 + base]
                for g, v, nm in zip(got, want, ("get_pareto_set", "get_pareto_front", "pareto_front of the adapter")):
                    if not (np.shape(g) == v.shape and np.array_equal(g, v)):
                        res.fail("fronts:custom", f"{nm} returned {np.asarray(g).tolist()}, the problem's {v.tolist()}", ctx)
                res.state()
                res.outcome(f"{cls.__name__}{a}{k}")
    for nm in ("zdt1", "zdt2", "zdt3", "zdt4", "zdt6", "dtlz1", "dtlz2", "dtlz3", "dtlz4"):
        w = get_pymoo_problem(nm)
        nat = get_problem(nm)
        for kw in (({}, dict(n_pareto_points=8), dict(n_pareto_points=50)) if nm.startswith("zdt") else ({},)):
            try:
                want = nat._calc_pareto_front(**kw)
            except Exception as e:  # noqa: BLE001 - not offered by the installed pymoo
                res.skipped += 1
                res.outcome(type(e).__name__)
                continue
            res.call()
            res.state()
            got = w.get_pareto_front(**kw)
            if np.shape(got) != np.shape(want) or not np.allclose(got, want, rtol=0, atol=1e-12):
                res.fail("fronts:builtin", f"front of {nm} differs from that of the wrapped problem", dict(name=nm, arguments=kw))
    res.trace()
    res.sample(dict(calls=str(calls)))
    return res


SCENARIOS = dict(library=s_library, custom=s_custom, reject=s_reject, directions=s_directions, factory=s_factory, registry=s_registry, fronts=s_fronts)


def plan(tier):
    deep = tier == "thorough"
    yield "reject", {}
    yield "fronts", {}
    for part in range(4):
        yield "registry", dict(part=part)
    for n in (1, 2, 3):
        for m in (1, 2, 3) if deep else (1 + n % 3,):
            for c in itertools.product((0, 1, 2), repeat=2) if deep else ((0, 0), (1, 0), (0, 1), (2, 2)):
                yield "custom", dict(n=n, N=29 if deep else 5, ms=[m], cons=[list(c)], deep=deep)
    for M in range(1, 7):
        yield "directions", dict(M=M, top={1: 6, 2: 40, 3: 20, 4: 9, 5: 6, 6: 4}[M] if deep else {1: 4, 2: 12, 3: 8, 4: 5, 5: 3, 6: 3}[M])
    for op in OPS:
        yield "factory", dict(first=op, depth=4 if deep else 3)
    for name in REG:
        sz = [s for s in c13.sizes(name, deep)]
        if not deep:
            sz = sz[-1:] if "DTLZ" in name else sz[:1]
        for s in sz:
            yield "library", dict(name=name, sizes=[s], N=40 if deep else 6, deep=deep)
