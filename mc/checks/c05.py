"""C05: the cached quantities of an optimisation state always match its points.

Explicit-state exploration of the real `State` class: every operation sequence up to a depth over an
alphabet of updates, single-point updates, slices, copies, save/load and caller-side mutations is executed,
and after every operation each live object is compared field by field with an abstract model (the list of
rows it should hold + which derivatives were requested)."""
import itertools
import os
import shutil
import tempfile
from copy import deepcopy

import numpy as np

from hvd.base import State
from mc import layouts
from mc.core import Result
from mc.toy import Cstr, Toy, lattice

PROPERTY = "C05"
RULE = ("Every operation sequence up to the stated depth over the alphabet {population update with/without "
        "derivatives, resized update, update by an array of integers, single-point update of each row, slices by list/array/mask/slice/empty, deep copy, "
        "save+load, mutation of arrays handed in, mutation of a derived object} for every combination of "
        "constraint configuration (none/equality/inequality/both, 1-2 components, scalar-valued, with or "
        "without constraint Hessians) and callback style (plain function, whole numbers as integers, bound method with batch variant, method returning the stored arrays of equal requests), "
        "all live objects compared with the model after every operation."
        " Lattice populations of every size up to 64, and of 100.")
ASSUMPTIONS = ["populations of 1 to 3 points, 2 decision variables",
               "callbacks are deterministic; batch and point variants of a callback agree"]

NV = 2
PAL = np.array([[0.25, 0.5], [1.5, -0.5], [-0.75, 2.0], [1.0, 0.125], [0.0, 0.0], [0.99995, -1.25], [0.5, 1.0]])


# ---- reference functions (written point-wise, evaluated independently of the class) -------------------
def F(x):
    return np.array([x[0] ** 2 + 3 * x[1], x[0] * x[1] - x[1] ** 3])


def JF(x):
    return np.array([[2 * x[0], 3.0], [x[1], x[0] - 3 * x[1] ** 2]])


def hfun(n):
    return lambda x: np.array([x[0] + x[1] - 1, x[0] ** 2 * x[1]][:n])


def hjac(n):
    return lambda x: np.array([[1.0, 1.0], [2 * x[0] * x[1], x[0] ** 2]][:n])


def hhess(n):
    return lambda x: np.array([[[0.0, 0], [0, 0]], [[2 * x[1], 2 * x[0]], [2 * x[0], 0]]][:n])


def gfun(n):
    return lambda x: np.array([x[0] - 1, x[1] ** 2 - 1][:n])


def gjac(n):
    return lambda x: np.array([[1.0, 0.0], [0.0, 2 * x[1]]][:n])


def ghess(n):
    return lambda x: np.array([[[0.0, 0], [0, 0]], [[0.0, 0], [0, 2.0]]][:n])


class Owner:
    """callbacks as bound methods with batch variants; output arrays are freshly allocated or (memo) those of an equal request"""

    def __init__(self, ne, ni, scalar, memo=False):
        self.memo = {} if memo else None
        self._f = dict(f=F, j=JF, h=hfun(ne), hj=hjac(ne), hh=hhess(ne), g=gfun(ni), gj=gjac(ni), gh=ghess(ni))
        self.scalar = scalar
        for k in self._f:
            pass

    def _one(self, k, x):
        v = self._f[k](np.asarray(x))
        if self.memo is not None:
            v = self.memo.setdefault((k, np.shape(x), np.asarray(x).tobytes()), v)
        return v[0] if self.scalar and k in ("h", "g") and len(v) == 1 else v

    def _many(self, k, X):
        if self.memo is None:
            return np.array([self._f[k](r) for r in X])
        key = (k, np.shape(X), np.asarray(X).tobytes())
        if key not in self.memo:
            self.memo[key] = np.array([self._f[k](r) for r in X])
        return self.memo[key]

    def f(self, x):
        return self._one("f", x)

    def f_batch(self, X):
        return self._many("f", X)

    def j(self, x):
        return self._one("j", x)

    def j_batch(self, X):
        return self._many("j", X)

    def h(self, x):
        return self._one("h", x)

    def h_batch(self, X):
        return self._many("h", X)

    def hj(self, x):
        return self._one("hj", x)

    def hj_batch(self, X):
        return self._many("hj", X)

    def hh(self, x):
        return self._one("hh", x)

    def hh_batch(self, X):
        return self._many("hh", X)

    def g(self, x):
        return self._one("g", x)

    def g_batch(self, X):
        return self._many("g", X)

    def gj(self, x):
        return self._one("gj", x)

    def gj_batch(self, X):
        return self._many("gj", X)

    def gh(self, x):
        return self._one("gh", x)

    def gh_batch(self, X):
        return self._many("gh", X)


def build(cfg):
    ne, ni, hess, style = cfg
    if style in ("method", "scalar", "memo"):
        o = Owner(ne, ni, style == "scalar", style == "memo")
        cb = dict(func=o.f, jac=o.j, h=o.h, h_jac=o.hj, h_hess=o.hh, g=o.g, g_jac=o.gj, g_hess=o.gh)
    else:
        cb = dict(func=lambda x: F(x), jac=lambda x: JF(x), h=hfun(ne), h_jac=hjac(ne), h_hess=hhess(ne),
                  g=gfun(ni), g_jac=gjac(ni), g_hess=ghess(ni))
    if style == "whole":  # arrays of integers wherever the values are whole numbers

        def whole(f):
            def call(x):
                v = np.asarray(f(x))
                return v.astype(int) if np.array_equal(v, np.round(v)) else v

            return call

        cb = {k: whole(f) for k, f in cb.items()}
    if not ne:
        cb.update(h=None, h_jac=None, h_hess=None)
    if not ni:
        cb.update(g=None, g_jac=None, g_hess=None)
    if not hess:
        cb.update(h_hess=None, g_hess=None)
    return State(NV, ne, ni, cb.pop("func"), cb.pop("jac"), **cb)


class Model:
    def __init__(self, cfg):
        self.cfg = cfg
        self.rows = None
        self.J = self.H = True
        self.cnt = [0, 0, 0]
        self.data_only = False

    def copy(self):
        m = Model(self.cfg)
        m.rows, m.J, m.H, m.cnt, m.data_only = self.rows.copy(), self.J, self.H, list(self.cnt), self.data_only
        return m

    def count(self, n, J, H):
        ne, ni, hess, _ = self.cfg
        self.cnt[0] += n if J else 0
        self.cnt[1] += n if ne + ni else 0
        self.cnt[2] += n if (H and hess and ne + ni) else 0


def rows(idx, cfg, shift=0.0):
    nd = cfg[0] + cfg[1]
    X = PAL[list(idx)]
    return np.c_[X, (np.arange(len(X) * nd).reshape(len(X), nd) + 1.0) / 8 + shift]


def check(s, m, res, tag, hist):
    ne, ni, hess, _ = m.cfg
    X = m.rows
    P, D = X[:, :NV], X[:, NV:]
    N = len(X)

    def bad(what, got, exp):
        res.fail(f"state:{what}", f"{tag}: {what} is {np.asarray(got).tolist() if got is not None else None}, a fresh "
                 f"evaluation gives {np.asarray(exp).tolist()}", dict(config=m.cfg, history=hist))

    def cmp(what, got, exp):
        exp = np.asarray(exp)
        if got is None or np.shape(got) != exp.shape or not np.allclose(got, exp, rtol=1e-9, atol=1e-12):
            bad(what, got, exp)

    res.state()
    if s.N != N:
        bad("N", s.N, N)
        return
    cmp("X", s.X, X)
    cmp("primal", s.primal, P)
    cmp("dual", s.dual, D)
    cmp("Y", s.Y, [F(x) for x in P] if N else np.zeros((0, 2)))
    if m.J:
        cmp("J", s.J, [JF(x) for x in P] if N else np.zeros((0, 2, NV)))
    elif s.J is not None:
        bad("J", s.J, [])
    Hv = np.array([hfun(ne)(x) for x in P]).reshape(N, ne)
    Gv = np.array([gfun(ni)(x) for x in P]).reshape(N, ni)
    cmp("cstr_value", s.cstr_value, np.c_[Hv, Gv])
    cmp("H", s.H, Hv)
    cmp("G", s.G, Gv)
    act = np.c_[np.ones((N, ne), bool), Gv >= -1e-4]
    cmp("active_indices", s.active_indices, act)
    feas = np.all(np.abs(Hv) <= 1e-4, axis=1) & ~np.any(Gv >= -1e-4, axis=1)
    cmp("is_feasible", s.is_feasible(), feas)
    dH = np.array([hjac(ne)(x) for x in P]).reshape(N, ne, NV)
    dG = np.array([gjac(ni)(x) for x in P]).reshape(N, ni, NV)
    cmp("cstr_grad", s.cstr_grad, np.concatenate((dH, dG), axis=1))
    if m.H:
        z = np.zeros
        ddH = np.array([hhess(ne)(x) for x in P]).reshape(N, ne, NV, NV) if hess else z((N, ne, NV, NV))
        ddG = np.array([ghess(ni)(x) for x in P]).reshape(N, ni, NV, NV) if hess else z((N, ni, NV, NV))
        cmp("cstr_hess", s.cstr_hess, np.concatenate((ddH, ddG), axis=1))
    elif getattr(s, "cstr_hess", None) is not None:
        bad("cstr_hess", s.cstr_hess, [])
    cnt = [s.n_jac_evals, s.n_cstr_jac_evals, s.n_cstr_hess_evals]
    if cnt != m.cnt:
        bad("evaluation counters", cnt, m.cnt)
    res.outcome(f"N{N} J{m.J} H{m.H} act{int(act.sum())} feas{int(feas.sum())} cfg{m.cfg}")


UPD = [(0, 1, 2), (3, 4), (5,), (0, 1)]  # the last one is the initial population
OPS = (
    [("upd", k, J, H) for k, J, H in [(0, 1, 1), (1, 1, 1), (1, 1, 0), (1, 0, 1), (2, 0, 0), (2, 1, 1), (3, 1, 1)]]
    + [("int", (1, 0, 0, 2, 3, 1)), ("int", (0, 1))]  # whole numbers in an array of integers
    + [("one", 0, 6), ("one", -1, 3), ("one", -1, 5)]
    + [("slice", k) for k in ("rev", "first", "mask", "slice", "empty", "dup")]
    + [("copy",), ("saveload",), ("swap",), ("mut",)]
)


def pick(kind, N):
    return dict(rev=np.arange(N)[::-1], first=[0], mask=np.arange(N) % 2 == 0, slice=slice(0, max(1, N - 1)),
                empty=np.array([], dtype=int), dup=np.array([N - 1, 0, N - 1]))[kind]


def run_seq(cfg, seq, res, tmp):
    """cur: object operated upon; held: the previous one (must stay unaffected)."""
    s, m = build(cfg), Model(cfg)
    Xin = rows((0, 1), cfg)
    s.update(Xin)
    m.rows = Xin.copy()
    m.count(2, True, True)
    res.call()
    live = [(s, m)]
    last_in = Xin
    for step, op in enumerate(seq):
        s, m = live[-1]
        N = len(m.rows)
        if m.data_only and op[0] in ("upd", "int", "one", "saveload"):
            return False
        if op[0] == "upd":
            Xn = rows(UPD[op[1]], cfg, 0.5 * step)
            keep = Xn.copy()
            s.update(Xn, compute_gradient=bool(op[2]), compute_hessian=bool(op[3]))
            if not np.array_equal(Xn, keep):
                res.fail("state:input-mutated", "update modified the array it was given", dict(config=cfg, history=seq))
            last_in = Xn
            m.rows, m.J, m.H = keep, bool(op[2]), bool(op[3])
            m.count(len(keep), m.J, m.H)
        elif op[0] == "int":
            P = np.array(op[1]).reshape(-1, NV)
            Xn = np.c_[P, np.ones((len(P), cfg[0] + cfg[1]), dtype=int)]
            keep = Xn.astype(float)
            s.update(Xn)
            if not np.array_equal(Xn, keep):
                res.fail("state:input-mutated", "update modified the array it was given", dict(config=cfg, history=seq))
            last_in = Xn
            m.rows, m.J, m.H = keep, True, True
            m.count(len(keep), True, True)
        elif op[0] == "one":
            if N == 0:
                return False
            k = op[1] % N
            x = rows((op[2],), cfg, 0.25 + step)[0]
            keep = x.copy()
            s.update_one(x, k)
            last_in = x
            m.rows = m.rows.copy()
            m.rows[k] = keep
            m.count(1, m.J, m.H)
        elif op[0] == "slice":
            if N == 0:
                return False
            idx = pick(op[1], N)
            t, tm = s[idx], m.copy()
            tm.rows = m.rows[idx].copy()
            live.append((t, tm))
        elif op[0] == "copy":
            live.append((deepcopy(s), m.copy()))
        elif op[0] == "saveload":
            p = os.path.join(tmp, "s")
            s.save(p)
            t, tm = State.load(p + ".pkl"), m.copy()
            tm.data_only = True
            live.append((t, tm))
            os.remove(p + ".pkl")
        elif op[0] == "swap":  # go on with the oldest live object
            if len(live) < 2:
                return False
            live.append(live.pop(0))
        elif op[0] == "mut":  # the caller reuses the array it handed in
            last_in[...] = 77.0
        res.call()
        for q, (t, tm) in enumerate(live):
            check(t, tm, res, f"object {q} after {op}", list(seq[: step + 1]))
        if res.full:
            return True
    res.trace()
    return True


def s_seq(cfg, depth, first):
    res = Result()
    tmp = tempfile.mkdtemp(prefix="mc_c05_")
    try:
        for rest in itertools.product(range(len(OPS)), repeat=depth - 1):
            seq = [OPS[first]] + [OPS[i] for i in rest]
            if not run_seq(tuple(cfg), seq, res, tmp):
                res.skipped += 1
            elif not res.samples:
                res.sample(dict(config=cfg, history=seq))
            if res.full:
                break
    finally:
        shutil.rmtree(tmp)
    return res


def s_eval():
    """the evaluation adapter: every (ndim, style, output shape, number of rows) combination"""
    res = Result()
    o = Owner(1, 2, True)
    cases = {
        "f": (o.f, (lambda x: F(x)), (2,), lambda x: F(x)),
        "h": (o.h, (lambda x: hfun(1)(x)[0]), (1,), lambda x: hfun(1)(x)),
        "g": (o.g, gfun(2), (2,), lambda x: gfun(2)(x)),
        "gj": (o.gj, gjac(2), (2, 2), lambda x: gjac(2)(x)),
        "gh": (o.gh, ghess(2), (2, 2, 2), lambda x: ghess(2)(x)),
    }
    for name, (meth, fun, shape, ref) in cases.items():
        for f, shp, n, as_list in itertools.product((meth, fun, None), (shape, None), (None, 1, 2, 5), (0, 1)):
            if f is None and shp is None:
                try:
                    State.evaluate(None, PAL[:2])
                    res.fail("evaluate:none", "no error although neither a function nor a shape is given", [name, n])
                except ValueError:
                    pass
                res.state()
                continue
            x = PAL[0] if n is None else PAL[:n]
            arg = x.tolist() if as_list else x.copy()
            got = State.evaluate(f, arg, shp)
            res.call()
            res.state()
            if f is None:
                exp = np.zeros(shape if n is None else (n, *shape))
            else:
                exp = ref(x) if n is None else np.array([ref(r) for r in x])
                if shp is None and name == "h":
                    exp = exp[..., 0] if np.ndim(got) == np.ndim(exp) - 1 else exp
            if np.shape(got) != exp.shape or not np.allclose(got, exp):
                res.fail(f"evaluate:{name}", f"got {np.asarray(got).tolist()} expected {exp.tolist()}", dict(n=n, shape=shp))
            res.outcome(f"{name}{np.shape(got)}")
    for bad in (np.zeros(()), np.zeros((1, 2, 2))):
        try:
            State.evaluate(F, bad)
            res.fail("evaluate:ndim", f"no error for an input of {bad.ndim} dimensions", bad.ndim)
        except ValueError:
            pass
        res.state()
    return res


def s_sizes(m, n, kind, nmax, sizes=None):
    """lattice populations of every size up to a bound in up to five variables and objectives: update, every single-point
    update, subsets"""
    res = Result()
    toy, cs = Toy(m, n), Cstr(kind, n)
    kw = dict(h=cs.h, h_jac=cs.h_jac, h_hess=cs.h_hess) if cs.ne else {}
    if cs.ni:
        kw.update(g=cs.g, g_jac=cs.g_jac, g_hess=cs.g_hess)

    def check_all(s, X, ctx, what):
        P = X[:, :n]
        N = len(P)
        G = np.array([cs.g(x) for x in P]).reshape(N, cs.ni)
        want = dict(X=X, Y=[toy.func(x) for x in P], J=[toy.jac(x) for x in P], H=[cs.h(x) for x in P], G=G, dual=X[:, n:],
                    active_indices=np.c_[np.ones((N, cs.ne), bool), G >= -1e-4],
                    cstr_grad=[np.vstack([cs.h_jac(x), cs.g_jac(x)]) for x in P],
                    cstr_hess=[np.concatenate([cs.h_hess(x), cs.g_hess(x)]) for x in P])
        res.state()
        res.call()
        for k, w in want.items():
            got = getattr(s, k)
            if np.shape(got) != np.shape(w) or not np.allclose(got, w, rtol=1e-9, atol=1e-12):
                res.fail(f"sizes:{k}", f"{what}: {k} is {np.asarray(got).tolist()}, a fresh evaluation gives {np.asarray(w).tolist()}", ctx)
                return
        res.outcome(f"{N}{int(want['active_indices'].sum())}")

    for N in sizes or range(1, nmax + 1):
        X = np.c_[lattice(N, n, 0.2, -1.2, 1.3), np.arange(N * (cs.ne + cs.ni)).reshape(N, -1) / 7]
        new = np.c_[lattice(N, n, 0.9, -1.2, 1.3), np.arange(N * (cs.ne + cs.ni)).reshape(N, -1) / 5]
        ctx = dict(objectives=m, variables=n, constraints=kind, N=N)
        s = State(n, cs.ne, cs.ni, toy.func, toy.jac, **kw)
        s.update(X)
        check_all(s, X, ctx, "update")
        check_all(s[np.arange(N)[::-1]], X[::-1], ctx, "reversed")
        cur = X.copy()
        for k in range(N):
            s.update_one(new[k], k)
            cur[k] = new[k]
            if k in (0, N // 2, N - 1):
                check_all(s, cur, dict(ctx, updated=k), "single update")
        sub = s[np.arange(N) % 3 != 1]
        check_all(sub, cur[np.arange(N) % 3 != 1], ctx, "mask")
        s.update(X[: (N + 1) // 2])
        check_all(s, X[: (N + 1) // 2], ctx, "smaller update")
        check_all(sub, cur[np.arange(N) % 3 != 1], ctx, "mask after the update of the whole")
        res.trace()
        if res.full:
            break
    return res


SCENARIOS = dict(sizes=s_sizes, seq=s_seq, eval=s_eval)
CFGS = [(ne, ni, h, st) for ne in (0, 1, 2) for ni in (0, 1, 2) for h in (1, 0) for st in ("func", "method", "scalar")
        if not (ne + ni == 0 and h == 0) and not (st == "scalar" and 1 not in (ne, ni))]


def plan(tier):
    yield "eval", {}
    for m, n, kind in itertools.product((1, 2, 3, 5), (1, 2, 3, 5), ("", "h", "g", "HG", "hg")):
        if n > 1 or kind in ("", "h", "g"):
            yield "sizes", dict(m=m, n=n, kind=kind, nmax=12 if tier == "quick" else 30)
    for kind in ("", "h", "HG"):
        yield "sizes", dict(m=3, n=2, kind=kind, nmax=0, sizes=list(range(13, 65)) + [100])
    depth = 2 if tier == "quick" else 3
    for cfg in CFGS:
        for f in range(len(OPS)):
            yield "seq", dict(cfg=cfg, depth=depth, first=f)
    for cfg in ((1, 1, 1, "whole"), (0, 2, 1, "whole"), (1, 1, 1, "memo"), (0, 0, 1, "memo")):
        for f in range(len(OPS)):
            yield "seq", dict(cfg=cfg, depth=depth, first=f)
    deep = [(1, 1, 1, "func"), (0, 0, 1, "func")] if tier == "quick" else [(1, 1, 1, "func"), (0, 0, 1, "method"), (2, 1, 1, "method"), (0, 2, 0, "scalar")[:4]]
    for cfg in deep:
        if cfg[3] == "scalar":
            cfg = (0, 1, 0, "scalar")
        for f in range(len(OPS)):
            yield "seq", dict(cfg=cfg, depth=3 if tier == "quick" else 4, first=f)


plan = layouts.extend(SCENARIOS, plan, layouts.s_c05)
