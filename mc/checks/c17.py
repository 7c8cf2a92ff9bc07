"""C17: filling a two-objective reference set (RSG) and bootstrapping the reference set of a running optimiser.

RSG: every small point set of a lattice in every order, against an independent model of the components, the polyline and the
allotment.  Bootstrapping: every scripted history of populations up to a length, under every interval, on an optimiser whose
iterations are replaced by the script (all other state is real), and real runs against a twin driven by the model."""
import itertools
import math

import numpy as np

from hvd.bootstrap import bootstrap_reference_set
from hvd.mmd_newton import MMDNewton
from hvd.reference_set import ReferenceSet
from hvd.rsg import RSG
from mc import layouts
from mc.checks.c09 import chim
from mc.core import Result
from mc.toy import OutOfDomain, Toy, lattice

PROPERTY = "C17"
RULE = ("RSG: every set of up to 6 points of a lattice (each abscissa absent or one of the ordinates, optionally repeated) in every order up to 3 (4) points "
        "(beyond: one or two shuffled orders) x neighbourhood sizes x numbers of points; bootstrap: every history of populations of a palette up to the stated length x interval x "
        "filling mode x number of final iterates; real runs of the optimiser against a twin driven by the model."
        " RSG on bent pieces of every size up to 60 in one to three components with isolated points.")
ASSUMPTIONS = ["two objectives; points of a component with equal first objective are copies of each other", "at least one component of positive length",
               "neighbourhood radii and allotments that are undecided in floating point are outside the domain",
               "the bootstrapped population has distinct minimisers of the two objectives; at least as many non-dominated inliers as requested points remain"]


# -- reference model of RSG ------------------------------------------------------------------------------------------
def components(P, eps, minpts):
    """density-connected components, noise dropped; a border point that two components could claim -> OutOfDomain"""
    n = len(P)
    D = np.linalg.norm(P[:, None] - P[None], axis=2)
    if np.any(np.abs(D - eps) < 1e-9):
        raise OutOfDomain("radius")
    near = D <= eps
    core = near.sum(1) >= minpts
    lab = [None] * n
    out = []
    for s in range(n):
        if not core[s] or lab[s] is not None:
            continue
        comp, todo = {s}, [s]
        while todo:
            i = todo.pop()
            for j in range(n):
                if core[j] and near[i, j] and j not in comp:
                    comp.add(j)
                    todo.append(j)
        for i in comp:
            lab[i] = len(out)
        out.append(comp)
    full = [set(c) for c in out]
    for j in range(n):
        if not core[j]:
            owners = {lab[i] for i in range(n) if core[i] and near[i, j]}
            if len(owners) > 1:
                raise OutOfDomain("border point between two components")
            for o in owners:
                full[o].add(j)
    return [P[sorted(c)] for c in full]


def rsg_model(P, Nf, eps, minpts):
    rows = []
    comps = [c[np.argsort(c[:, 0], kind="stable")] for c in components(P, eps, minpts)]
    for c in comps:
        for a, b in zip(c, c[1:]):
            if abs(a[0] - b[0]) < 1e-9 and not np.array_equal(a, b):
                raise OutOfDomain("equal abscissae")
    segs = [[math.dist(a, b) for a, b in zip(c, c[1:])] for c in comps]
    total = math.fsum(v for s in segs for v in s)
    if comps and total == 0:
        raise OutOfDomain("no length")
    for c, s in zip(comps, segs):
        L = math.fsum(s)
        share = Nf * L / total
        exact = all(v == int(v) for q in segs for v in q)  # integer lengths: sums, shares of one half are exact
        frac = share - math.floor(share)
        if abs(frac - 0.5) < 1e-9 and not (exact and frac == 0.5):
            raise OutOfDomain("allotment")
        k = math.floor(share + 0.5)
        if k == 1 and L > 0:
            rows.append(("end", c[0], c[-1]))
            continue
        for q in range(k):
            t = L * q / (k - 1) if k > 1 else 0.0
            i, acc = 0, 0.0
            while i < len(s) and t > acc + s[i] and i < len(s) - 1:
                acc += s[i]
                i += 1
            while i < len(s) - 1 and s[i] == 0:
                i += 1
            w = 0.0 if not s or s[i] == 0 else min(1.0, (t - acc) / s[i])
            rows.append(("at", c[i] + w * (c[i + 1] - c[i]) if s else c[0]))
    return rows


def agrees(F, rows, tol=1e-7):
    """the filled set is the expected multiset of points"""
    F = np.asarray(F, float)
    if len(F) != len(rows):
        return False
    used = np.zeros(len(F), bool)
    for r in sorted(rows, key=lambda r: r[0]):  # "at" before "end"
        fit = [np.max(np.abs(F - q), axis=1) <= tol for q in r[1:]]
        free = np.nonzero(np.any(fit, axis=0) & ~used)[0]
        if len(free) == 0:
            return False
        used[free[0]] = True
    return True


def s_rsg(width, levels, repeat, Nfs, minpts, eps, scale, chunk=0, nchunks=1, full=3):
    res = Result()
    for q, cfg in enumerate(itertools.product(range(-1, levels), repeat=width)):
        if q % nchunks != chunk:
            continue
        base = [(i, y) for i, y in enumerate(cfg) if y >= 0]
        if not base:
            continue
        variants = [base] + ([base + [p] for p in base] if repeat else [])
        for pts in variants:
            P0 = np.array(pts, float) * scale
            perms = list(itertools.permutations(range(len(pts)))) if len(pts) <= full else [
                tuple(range(1, len(pts), 2)) + tuple(range(0, len(pts), 2))] + [tuple(range(len(pts)))[::-1]] * (full > 3)
            for Nf, mp in itertools.product(Nfs, minpts):
                try:
                    rows = rsg_model(P0, Nf, eps * scale, mp)
                except OutOfDomain:
                    res.skipped += 1
                    continue
                for pi in perms:
                    P = P0[list(pi)]
                    keep = P.copy()
                    res.state()
                    ctx = dict(points=P, Nf=Nf, minpts=mp, eps=eps * scale)
                    try:
                        F = RSG(P, Nf, eps=eps * scale, minpts=mp)
                    except Exception as e:  # noqa: BLE001
                        res.fail(f"rsg:{type(e).__name__}", f"RSG raised {e!r}", ctx)
                        continue
                    res.call()
                    if not np.array_equal(P, keep):
                        res.fail("rsg:mutated", "the points passed in were modified", ctx)
                    if F.ndim != 2 or F.shape[1] != 2 or not agrees(F, rows):
                        res.fail("rsg:rows", f"filled set {F.tolist()}, expected {[tuple(map(list, r[1:])) for r in rows]}", ctx)
                    res.outcome(f"{len(F)} {len(rows)} {sum(r[0] == 'end' for r in rows)}")
                if res.full:
                    return res
    res.trace(res.states)
    return res


def s_rsg_large(sizes):
    """long bent pieces of one to three components at uneven distances plus isolated points, in three row orders"""
    res = Result()
    for N, parts in itertools.product(sizes, (1, 2, 3)):
        t = np.cumsum(0.02 + 0.08 * lattice(N, 1, 0.1 * parts, 0.0, 1.0)[:, 0]) + 2.0 * (np.arange(N) * parts // N)
        P0 = np.vstack([np.c_[t, 0.05 * np.sin(7 * t) + 0.002 * t**2], [[-9.0, 7.0], [60.0, -4.0]]])
        for Nf, mp in itertools.product((1, 2, 7, N, 3 * N, 250), (2, 3)):
            try:
                rows = rsg_model(P0, Nf, 0.25, mp)
            except OutOfDomain:
                res.skipped += 1
                continue
            for pi in (np.arange(N + 2), np.arange(N + 2)[::-1], np.argsort(np.modf(np.arange(N + 2) * 0.618)[0])):
                P = P0[pi]
                res.state()
                res.call()
                F = RSG(P, Nf, eps=0.25, minpts=mp)
                if F.ndim != 2 or F.shape[1] != 2 or not agrees(F, rows):
                    res.fail("rsg:rows", f"filled set {F.tolist()}, expected {[tuple(map(list, r[1:])) for r in rows]}", dict(points=P, Nf=Nf, minpts=mp, eps=0.25))
                res.outcome(f"{len(F)} {parts}")
        if res.full:
            break
    res.trace(res.states)
    return res


# -- bootstrap -------------------------------------------------------------------------------------------------------
class Plane:
    """identity problem: the population is its image"""

    @staticmethod
    def func(x):
        return np.array(x, float)

    @staticmethod
    def jac(x):
        return np.eye(2)

    @staticmethod
    def hess(x):
        return np.zeros((2, 2, 2))

    @staticmethod
    def get_pareto_front(*a, **k):
        return np.array([[0.0, 1.0], [1.0, 0.0]])


def line(n, x0, y0, dx, dy, bend=0.0):
    i = np.arange(n)
    return np.c_[x0 + dx * i, y0 - dy * i + bend * i * i]


POPS = [
    line(8, 0.1, 0.9, 0.055, 0.05, 0.001),
    np.r_[line(4, 0.1, 0.9, 0.05, 0.052, 0.002), line(4, 0.6, 0.4, 0.045, 0.05, 0.003)],  # two components
    np.r_[line(7, 0.05, 0.8, 0.051, 0.049, 0.0015), [[0.9, 0.95]]],  # one dominated outlier
    np.r_[line(6, 0.02, 0.7, 0.05, 0.043, 0.002), [[0.75, 0.1], [0.8, 0.06]]][[3, 0, 6, 1, 7, 5, 2, 4]],  # unordered, long gap
]
PUSH = 0.04


class Scripted(MMDNewton):
    """the optimiser with its iterations replaced by a script; all its other state is real"""

    script: list = ()

    def newton_iteration(self):
        self.seen.append((self.ref.reference_set.copy(), self.indicator.ref.reference_set.copy(), self.indicator.beta))
        self.state.update(self.script[self.iter_count + 1].copy())
        self.iter_count += 1

    def log(self):
        self.logged += 1


def relaxed(Y):
    return 0.95 * Y + 0.05 * Y.mean(axis=1)[:, None]


def filled(Y, N, with_rsg):
    """bootstrapped reference set (rows as in rsg_model) and its shift direction"""
    Z = relaxed(Y)
    if with_rsg:
        rows = rsg_model(Z, N, 0.08, 2)
        if any(r[0] == "end" for r in rows):
            raise OutOfDomain("single representative")
        Z = np.array([r[1] for r in rows]).reshape(-1, 2)
    if len(Z) == 0:
        raise OutOfDomain("empty")
    S = np.sort(Z, axis=0)
    a = Z.argmin(axis=0)
    if len(set(a)) < Z.shape[1] or np.any(S[1] - S[0] < 1e-9):
        raise OutOfDomain("extreme points")
    return Z, chim(Z)


def same_set(A, B, tol=1e-7):
    A, B = np.asarray(A, float), np.asarray(B, float)
    return A.shape == B.shape and agrees(A, [("at", b) for b in B], tol)


def check_result(res, out, pool, N, ctx):
    """pool: list of (X, Y) iterates whose non-dominated inliers are represented"""
    from sklearn.neighbors import LocalOutlierFactor

    Xs, Ys = [], []
    for X, Y in pool:
        k = [i for i in range(len(Y)) if not any(np.all(Y[j] <= Y[i]) and np.any(Y[j] < Y[i]) for j in range(len(Y)))]
        X, Y = X[k], Y[k]
        if len(Y) < 2:
            raise OutOfDomain("too few points")
        k = LocalOutlierFactor(n_neighbors=3).fit_predict(Y) == 1
        Xs.append(X[k])
        Ys.append(Y[k])
    Xs, Ys = np.concatenate(Xs), np.concatenate(Ys)
    if len(Xs) < N:
        raise OutOfDomain("too few candidates")
    X0, Y0 = out[0], out[1]
    if X0.shape != (N, Xs.shape[1]) or Y0.shape != (N, Ys.shape[1]):
        res.fail("boot:size", f"{X0.shape} and {Y0.shape} points returned, {N} requested", ctx)
        return
    Z, W = np.c_[Xs, Ys], np.c_[X0, Y0]
    idx = [[i for i in range(len(Z)) if np.array_equal(Z[i], w)] for w in W]
    if any(not i for i in idx):
        res.fail("boot:member", f"returned a pair that is not a non-dominated inlier of the last iterates: {[w.tolist() for w, i in zip(W, idx) if not i]}", ctx)
        return
    if len(np.unique(Z, axis=0)) == len(Z):
        if len(np.unique(W, axis=0)) != N:
            res.fail("boot:copies", "a candidate is returned more than once", ctx)
            return
        med = [i[0] for i in idx]
        D = np.linalg.norm(Ys[:, None] - Ys[None], axis=2)
        A = D[:, med]
        S = np.sort(A, axis=1)
        if N > 1 and np.any(S[:, 1] - S[:, 0] < 1e-9):
            return
        lab = A.argmin(1)
        for c in range(N):
            m = np.nonzero(lab == c)[0]
            cost = D[np.ix_(m, m)].sum(1)
            if cost[list(m).index(med[c])] > cost.min() + 1e-9:
                res.fail("boot:medoid", f"representative {med[c]} is not the medoid of its group", ctx)
                return


def s_history(length, intervals, with_rsg, last_ns, pops, chunk=0, nchunks=1):
    res = Result()
    N = 8
    for q, hist in enumerate(itertools.product(range(len(pops)), repeat=length)):
        if q % nchunks != chunk:
            continue
        script = [POPS[pops[p]] - PUSH * t for t, p in enumerate(hist)] + [POPS[0] - PUSH * length]
        for interval, last_n in itertools.product(intervals, last_ns):
            ctx = dict(history=[pops[p] for p in hist], interval=interval, last_n=last_n, with_rsg=with_rsg)
            ref0 = line(8, 0.0, 0.8, 0.1, 0.1)
            eta0 = np.array([-0.6, -0.8])
            caller = ref0.copy()
            opt = Scripted(2, 2, Plane.func, Plane.jac, Plane.hess, ReferenceSet(ref0, eta={0: eta0}), xl=-5, xu=5, N=N, X0=script[0].copy(),
                           max_iters=length, verbose=False, matching=False)
            opt.script, opt.seen, opt.logged = script, [], 0
            beta = opt.indicator.beta = 0.3
            initial = opt.ref
            # model
            expect, lst, cur, push = [], [], caller, eta0
            try:
                for i in range(length):
                    if i and i % interval == 0:
                        Z, eta = filled(script[i], N, with_rsg)
                        lst.append(Z)
                        cur, push = Z + 0.05 * eta, eta
                        beta *= 0.8
                    expect.append((cur, beta))
            except OutOfDomain as e:
                res.skipped += 1
                res.outcome(f"skip {e}")
                continue
            res.state()
            pool = [(s, s) for s in script[max(0, length - last_n):length]]
            try:
                probe = Result()
                check_result(probe, (np.zeros((N, 2)),) * 2, pool, N, ctx)
            except OutOfDomain as e:
                res.skipped += 1
                res.outcome(f"skip {e}")
                continue
            try:
                out = bootstrap_reference_set(opt, Plane(), interval=interval, with_rsg=with_rsg, plot=False, last_n=last_n)
            except Exception as e:  # noqa: BLE001
                res.fail(f"boot:{type(e).__name__}", f"raised {e!r}", ctx)
                if res.full:
                    return res
                continue
            res.call(length)
            if opt.iter_count != length or opt.logged != length:
                res.fail("boot:iterations", f"{opt.iter_count} iterations and {opt.logged} log entries for a budget of {length}", ctx)
                continue
            for t, ((r, ri, b), (er, eb)) in enumerate(zip(opt.seen, expect)):
                if not same_set(r, er) or not same_set(ri, er):
                    res.fail("boot:reference", f"iteration {t} ran with the reference set {r.tolist()} (indicator: {ri.tolist()}), expected {er.tolist()}", ctx)
                    break
                if not np.isclose(b, eb, rtol=1e-12):
                    res.fail("boot:beta", f"iteration {t} ran with the spread weight {b}, expected {eb}", ctx)
                    break
            if len(out[3]) != len(lst) or any(not same_set(a, b) for a, b in zip(out[3], lst)):
                res.fail("boot:list", f"list of bootstrapped sets {[np.asarray(a).tolist() for a in out[3]]}, expected {[a.tolist() for a in lst]}", ctx)
            if (out[2] is not opt.ref) or (not lst and out[2] is not initial):
                res.fail("boot:returned", "the returned reference set is not the one in force at the end", ctx)
            if not np.array_equal(caller, ref0):
                res.fail("boot:mutated", "the reference set passed in was modified", ctx)
            try:  # further shifts of the set in force follow its own normal
                opt.ref.shift(0.1)
                if not same_set(opt.ref.reference_set, cur + 0.1 * push) or not same_set(opt.indicator.ref.reference_set, cur + 0.1 * push):
                    res.fail("boot:shift", f"shifting the final reference set gives {opt.ref.reference_set.tolist()}, expected {(cur + 0.1 * push).tolist()}", ctx)
            except Exception as e:  # noqa: BLE001
                res.fail("boot:shift", f"shifting the final reference set raised {e!r}", ctx)
            check_result(res, out, pool, N, ctx)
            res.trace()
            res.outcome(f"{len(lst)} {len(out[0])}")
            res.sample(ctx)
            if res.full:
                return res
    return res


def s_real(matching, precond, pal, budgets, intervals):
    """the real optimiser: same trajectory as a twin whose reference set is replaced by hand at the prescribed iterations"""
    res = Result()
    toy = Toy(2)
    rng = [(0.55, -0.13), (0.31, 0.42), (-0.2, 0.52), (0.9, 0.7), (0.15, -0.45), (1.1, 0.2)]
    X0 = np.array([rng[i] for i in pal])
    N = len(X0)

    def build(T):
        Y0 = np.array([toy.func(x) for x in X0])
        return MMDNewton(2, 2, toy.func, toy.jac, toy.hess, ReferenceSet(Y0 - np.array([0.3, 0.4]), eta={0: np.array([-0.6, -0.8])}), xl=[-1.0, -1.5],
                         xu=[2.0, 1.5], X0=X0.copy(), max_iters=T, verbose=False, preconditioning=precond, matching=matching)

    class P:
        def get_pareto_front(self, *a, **k):
            return np.zeros((1, 2))

    for T, interval, last_n in itertools.product(budgets, intervals, (1, 2)):
        ctx = dict(matching=matching, precondition=precond, points=list(pal), budget=T, interval=interval, last_n=last_n)
        a, b = build(T), build(T)
        pool, lst = [], []
        try:
            for i in range(T):
                pool.append((b.state.primal.copy(), b.state.Y.copy()))
                if i and i % interval == 0:
                    Z, eta = filled(b.state.Y, N, False)
                    lst.append(Z)
                    b.ref = b.indicator.ref = ReferenceSet(Z + 0.05 * eta, eta={0: eta})
                    if hasattr(b.indicator, "beta"):
                        b.indicator.beta *= 0.8
                b.newton_iteration()
                b.log()
            check_result(Result(), (np.zeros((N, 2)),) * 2, pool[-last_n:], N, ctx)
        except (OutOfDomain, AssertionError) as e:
            res.skipped += 1
            res.outcome(f"skip {e}")
            continue
        res.state(T)
        try:
            out = bootstrap_reference_set(a, P(), interval=interval, with_rsg=False, plot=False, last_n=last_n)
        except Exception as e:  # noqa: BLE001
            res.fail(f"real:{type(e).__name__}", f"raised {e!r}", ctx)
            continue
        res.call(T)
        if len(a.history_X) != T or any(not np.allclose(x, y, atol=1e-9) for x, y in zip(a.history_X, b.history_X)):
            res.fail("real:trajectory", "the trajectory differs from a run with the same reference sets", ctx)
        if len(out[3]) != len(lst) or any(not same_set(x, y) for x, y in zip(out[3], lst)):
            res.fail("real:list", "bootstrapped sets differ from the relaxed populations", ctx)
        check_result(res, out, pool[-last_n:], N, ctx)
        res.trace()
        res.outcome(f"{T} {interval}")
    return res


def s_files(length, intervals, first):
    """files: exactly those asked for, in the working directory, holding every iterate and every bootstrapped set"""
    import os
    import shutil
    import tempfile

    res = Result()
    N = 8
    here = os.getcwd()
    for hist in itertools.product(range(3), repeat=length - 1):
        hist = (first,) + hist
        script = [POPS[p] - PUSH * t for t, p in enumerate(hist)] + [POPS[0] - PUSH * length]
        for interval, with_rsg, pop, refs in itertools.product(intervals, (False, True), (False, True, None), (False, True, None)):
            ctx = dict(history=list(hist), interval=interval, with_rsg=with_rsg, save_population=pop, save_reference_set=refs)
            opt = Scripted(2, 2, Plane.func, Plane.jac, Plane.hess, ReferenceSet(line(8, 0.0, 0.8, 0.1, 0.1), eta={0: np.array([-0.6, -0.8])}), xl=-5, xu=5,
                           N=N, X0=script[0].copy(), max_iters=length, verbose=False, matching=False)
            opt.script, opt.seen, opt.logged = script, [], 0
            opt.indicator.beta = 0.3
            try:
                for i in range(interval, length, interval):
                    filled(script[i], N, with_rsg)
                check_result(Result(), (np.zeros((N, 2)),) * 2, [(s, s) for s in script[:length]][-3:], N, ctx)
            except OutOfDomain as e:
                res.skipped += 1
                res.outcome(f"skip {e}")
                continue
            kw = {}
            if pop is not None:
                kw["save_population"] = pop
            if refs is not None:
                kw["save_reference_set"] = refs
            tmp = tempfile.mkdtemp(prefix="c17_")
            try:
                os.chdir(tmp)
                out = bootstrap_reference_set(opt, Plane(), interval=interval, with_rsg=with_rsg, plot=False, **kw)
                got = {f: np.loadtxt(f, delimiter=",", ndmin=2) for f in sorted(os.listdir(tmp))}
            except Exception as e:  # noqa: BLE001
                res.fail(f"files:{type(e).__name__}", f"raised {e!r}", ctx)
                continue
            finally:
                os.chdir(here)
                shutil.rmtree(tmp)
            res.call(length)
            res.state()
            want = []
            if pop:
                want += [(f"iteration{i}.csv", k, script[i]) for i in range(length) for k in "XY"]
            if refs:
                want += [(f"iteration{i}.csv", "ref", Z) for i, Z in zip(range(interval, length, interval), out[3])]
            if len(got) != len(want):
                res.fail("files:names", f"wrote {list(got)}, expected {len(want)} files", ctx)
            for end, start, A in want:
                f = [n for n in got if n.startswith(start + "_") and n.endswith(end) and not n[: -len(end)][-1:].isdigit()]
                if len(f) != 1 or got[f[0]].shape != A.shape or not np.allclose(got[f[0]], A, rtol=0, atol=1e-12):
                    res.fail("files:content", f"{start}..{end}: {f} does not hold the points of that iteration", ctx)
                    break
            res.outcome(f"{len(got)}")
            if res.full:
                return res
    res.trace()
    res.sample(dict(length=length))
    return res


SCENARIOS = {"rsg_large": s_rsg_large, "files": s_files, "rsg": s_rsg, "history": s_history, "real": s_real}


def plan(tier):
    thorough = tier == "thorough"
    items = [("files", dict(length=4 if thorough else 3, intervals=(1, 2), first=k)) for k in range(3)]
    for mp, eps in itertools.product(([1, 2], [3, 4]), (1.2, 1.5, 2.1)):
        items.append(("rsg", dict(width=4, levels=2, repeat=True, Nfs=[1, 2, 3, 5, 8, 11] if thorough else [1, 2, 5, 8], minpts=mp, eps=eps, scale=1.0, full=4 if thorough else 3)))
        items.append(("rsg", dict(width=5, levels=3, repeat=False, Nfs=[2, 7], minpts=mp, eps=eps, scale=0.0625, full=4 if thorough else 2)))
    for c in range(8):
        items.append(("rsg", dict(width=6, levels=2, repeat=False, Nfs=[1, 3, 4, 9], minpts=[2, 3], eps=1.5, scale=1.0, chunk=c, nchunks=8, full=2)))
    if thorough:
        for c, eps in itertools.product(range(16), (1.5, 2.5)):
            items.append(("rsg", dict(width=7, levels=3, repeat=False, Nfs=[3, 10], minpts=[2], eps=eps, scale=0.25, chunk=c, nchunks=16)))
            items.append(("rsg", dict(width=5, levels=3, repeat=True, Nfs=[1, 2, 3, 4, 5, 6, 17], minpts=[1, 2, 3], eps=eps, scale=1.0, chunk=c, nchunks=16)))
    for c in range(6):
        items.append(("rsg_large", dict(sizes=list(range(8, 121 if thorough else 61))[c::6])))
    for rsg in (False, True):
        items.append(("history", dict(length=1, intervals=[1, 2], with_rsg=rsg, last_ns=[1, 3], pops=[0, 1, 2, 3])))
        items.append(("history", dict(length=2, intervals=[1, 2, 3], with_rsg=rsg, last_ns=[1, 2, 3], pops=[0, 1, 2, 3])))
        for c in range(2):
            items.append(("history", dict(length=3, intervals=[1, 2, 3], with_rsg=rsg, last_ns=[1, 2, 3], pops=[0, 1, 2, 3], chunk=c, nchunks=2)))
        n = 12 if thorough else 4
        for c in range(n):
            items.append(("history", dict(length=5 if thorough else 4, intervals=[1, 2, 3, 4], with_rsg=rsg, last_ns=[2, 4] if thorough else [3],
                                          pops=[0, 1, 2, 3] if thorough else [0, 1, 3], chunk=c, nchunks=n)))
    for mt, pc in itertools.product((False, True), (False, True)):
        items.append(("real", dict(matching=mt, precond=pc, pal=[0, 1, 2, 3], budgets=[2, 4] if thorough else [4], intervals=[1, 2, 3] if thorough else [1, 2])))
        if thorough:
            items.append(("real", dict(matching=mt, precond=pc, pal=[5, 2, 0, 4, 1, 3], budgets=[3, 5], intervals=[1, 2, 3])))
    return items


plan = layouts.extend(SCENARIOS, plan, layouts.s_c17)
