"""C16: the evolutionary algorithms shipped with the package (SMS-EMOA, constraint-aware MOEA/D).

Selection, tournament and replacement are transitions of a population; every small population of an objective/violation
grid is put through the real operators and compared with a model; complete runs are monitored generation by generation."""
import itertools

import numpy as np

from hvd.moea import SMSEMOA, ConstraintAwareMOEAD
from hvd.moea import sms_emoa as S
from mc.core import Result
from mc.ref_hv import grid_hv
from mc.toy import lattice

PROPERTY = "C16"
RULE = ("Survival: every multiset of 2-5 points of a 2-objective grid x every violation pattern x every number of survivors, sequences for small "
        "sizes, and 3-objective populations; tournament: every pair of (objectives, violation); replacement: every neighbourhood state x offspring x "
        "relaxation level; Monte-Carlo formulas: every boolean domination matrix up to 3 points x 4 samples; runs: problems x sizes x seeds, every "
        "generation."
        " Survival of curved two-objective populations of every size up to 30.")
ASSUMPTIONS = ["ties of the least contribution are outside the domain; in three or more objectives only populations whose least contribution is "
               "smaller by ten standard deviations of the estimator are decided", "the MOEA base classes of pymoo are trusted"]


class Prob:
    """what the survival operator asks of a problem"""

    def __init__(self, m, constrained):
        self.n_obj, self.c = m, constrained

    def has_constraints(self):
        return self.c


def population(F, CV=None, X=None):
    from pymoo.core.population import Population

    F = np.asarray(F, float)
    pop = Population.new("X", np.arange(len(F), dtype=float)[:, None] if X is None else X, "F", F)
    G = np.zeros((len(F), 1)) if CV is None else np.asarray(CV, float)[:, None]
    pop.set("G", G, "H", np.zeros((len(F), 0)))
    return pop


def uid(ind):
    return int(ind.X[0])


def dominates(a, b):
    return np.all(a <= b) and np.any(a < b)


def layers(F):
    left, out = list(range(len(F))), []
    while left:
        f = [i for i in left if not any(dominates(F[j], F[i]) for j in left)]
        out.append(f)
        left = [i for i in left if i not in f]
    return out


def hv(P, r):
    """inclusion-exclusion (few points)"""
    if len(P) > 5:
        return grid_hv(np.minimum(P, r), r)
    tot = 0.0
    P = [np.minimum(p, r) for p in P]
    for k in range(1, len(P) + 1):
        for c in itertools.combinations(P, k):
            tot += (-1) ** (k + 1) * np.prod(r - np.max(c, axis=0))
    return tot


def contributions(P, r):
    a = hv(P, r)
    return np.array([a - hv(P[:i] + P[i + 1:], r) for i in range(len(P))])


def model_survivors(F, CV, n, ideal, nadir, eps, constrained, tol):
    """list of (set of uids of each complete part in order); None when undecided.  tol: least gap between contributions"""
    N = len(F)
    n = min(n, N)
    feas = [i for i in range(N) if not constrained or CV[i] <= 0]
    inf = [i for i in range(N) if i not in feas]
    out, rank = [], {}
    if feas:
        Ff = F[feas]
        lo = Ff.min(0) if ideal is None else ideal
        up = Ff.max(0) if nadir is None else nadir
        for k, fr in enumerate(layers(Ff)):
            if len(out) >= n:
                break
            fr = list(fr)
            for i in fr:
                rank[feas[i]] = k
            if len(out) + len(fr) > n:
                w = np.where(up == lo, 1.0, up - lo)
                Z = [(Ff[i] - lo) / w if True else 0 for i in fr]
                r = np.full(F.shape[1], 1.0 + eps)
                while len(out) + len(fr) > n:
                    c = contributions(Z, r)
                    o = np.sort(c)
                    t = tol(Z, r)
                    if o[1] - o[0] <= t:
                        return None, None
                    d = int(c.argmin())
                    fr.pop(d)
                    Z.pop(d)
            out += [feas[i] for i in fr]
    rest = sorted(inf, key=lambda i: CV[i])
    k = n - len(out)
    if 0 < k < len(rest) and CV[rest[k]] == CV[rest[k - 1]]:
        return None, None
    if k > 0:
        out += rest[:k]
    return out, rank


def exact_tol(Z, r):
    return 1e-9


def mc_tol(samples):
    def tol(Z, r):
        V = np.prod(r - np.min(Z, axis=0))
        return 10 * V * np.sqrt(0.5 / samples)  # both estimates have standard deviation at most V/2/sqrt(samples)
    return tol


def judge(res, F, CV, n, eps, constrained, ideal=None, nadir=None, tol=exact_tol, survival=None, how="do"):
    F, CV = np.asarray(F, float), np.asarray(CV, float)
    ctx = dict(F=F, CV=CV, n_survive=n, eps=eps, constrained=constrained, ideal=ideal, nadir=nadir)
    m = F.shape[1]
    want, rank = model_survivors(F, CV, n, ideal, nadir, eps, constrained, tol)
    pop = population(F, CV if constrained else None)
    sv = survival or S.LeastHypervolumeContributionSurvival(eps=eps)
    res.state()
    try:
        got = sv.do(Prob(m, constrained), pop, n_survive=n, ideal=ideal, nadir=nadir)
    except Exception as e:  # noqa: BLE001
        res.fail(f"survival:{type(e).__name__}", f"raised {e!r}", ctx)
        return
    res.call()
    ids = [uid(i) for i in got]
    if len(ids) != min(n, len(F)) or len(set(ids)) != len(ids):
        res.fail("survival:count", f"survivors {ids}, {min(n, len(F))} distinct ones expected", ctx)
        return
    if not np.array_equal(pop.get("F"), F) or [uid(i) for i in pop] != list(range(len(F))):
        res.fail("survival:mutated", "the merged population was modified", ctx)
    for i in got:
        u = uid(i)
        if not np.array_equal(i.F, F[u]):
            res.fail("survival:mutated", "a survivor carries other objectives", ctx)
        if rank is not None and u in rank and i.get("rank") != rank[u]:
            res.fail("survival:rank", f"rank {i.get('rank')} instead of {rank[u]}", ctx)
    # structural part, always decided
    if constrained:
        nf = sum(CV[u] <= 0 for u in ids)
        if nf != min(n, int(np.sum(CV <= 0))):
            res.fail("survival:feasible", f"{nf} feasible survivors", ctx)
        bad = [u for u in ids if CV[u] > 0]
        if bad and max(CV[u] for u in bad) > min([CV[u] for u in range(len(F)) if CV[u] > 0 and u not in ids], default=np.inf):
            res.fail("survival:violation", "a less violated individual was dropped", ctx)
    fs = [u for u in range(len(F)) if not constrained or CV[u] <= 0]
    room = min(n, len(fs))
    for L in layers(F[fs]):
        L = [fs[i] for i in L]
        k = sum(u in ids for u in L)
        if k != min(len(L), room):
            res.fail("survival:layer", f"{k} of {len(L)} individuals of a layer survive, {min(len(L), room)} expected", ctx)
            return
        room -= k
    if want is None:
        res.skipped += 1
        return
    res.trace()
    if sorted(ids) != sorted(want):
        res.fail("survival:choice", f"survivors {sorted(ids)}, expected {sorted(want)}", ctx)
    res.outcome(f"{sorted(ids)}")
    res.sample(ctx)


def s_survive2(size, top, chunk, nchunks, ordered, cvs, eps_list):
    res = Result()
    grid = list(itertools.product(range(top), repeat=2))
    it = itertools.product(grid, repeat=size) if ordered else itertools.combinations_with_replacement(grid, size)
    for q, P in enumerate(it):
        if q % nchunks != chunk:
            continue
        if not ordered:  # a fixed shuffle: neither sorted nor reversed
            P = [P[(3 * i + 1) % size] for i in range(size)] if size % 3 else [P[(2 * i + 1) % size] if size % 2 else P[-1 - i] for i in range(size)]
        for CV in (itertools.product((0, 1, 2), repeat=size) if cvs else ((0,) * size,)):
            for n, eps in itertools.product(range(1, size + 1), eps_list):
                judge(res, np.array(P) * [1.0, 2.0], CV, n, eps, bool(cvs))
                if not cvs and q % 7 == 0:
                    judge(res, np.array(P) * [1.0, 2.0], CV, n, eps, False, ideal=np.array([-0.5, 0.3]), nadir=np.array([2.2, 2.5]))
            if res.full:
                return res
    return res


def s_large(sizes, dx):
    """two objectives, large populations: curved fronts with dominated points behind, some of them infeasible"""
    res = Result()
    for N in sizes:
        t = lattice(N, 1, dx, 0.0, 1.0)[:, 0]
        F = np.c_[t, (1 - t) ** 2] * (1.0 + 0.15 * (np.arange(N) % 3))[:, None]
        CV = np.where(np.arange(N) % 4 == 1, 0.01 + t, 0.0)
        for n in sorted({1, 2, N // 4 + 1, N // 2, N - 1, N}):
            for eps, con in ((10.0, False), (0.4, True)):
                judge(res, F, CV, n, eps, con)
            judge(res, F, CV, n, 0.4, False, ideal=np.array([-0.5, -0.3]), nadir=np.array([2.2, 2.5]))
        if res.full:
            break
    return res


def s_survive3(m, chunk, nchunks, top):
    """three and four objectives: the least contributor by a wide margin has to go"""
    res = Result()
    np.random.seed(3)
    grid = [g for g in itertools.product(range(top), repeat=m)]
    for q, P in enumerate(itertools.combinations(grid, 3)):
        if q % nchunks != chunk:
            continue
        for eps in (0.1, 0.5):
            for n in (1, 2):
                # far outlier that carries most of the volume / a nearly dominated point
                F = np.array([(0.0,) * (m - 1) + (top * 2.0,)] + [tuple(g) for g in P], float)
                judge(res, F, (0,) * 4, n + 1, eps, False, tol=mc_tol(2000))
        judge(res, np.array(P, float), (0, 1, 0), 2, 0.5, True, tol=mc_tol(2000))
        if res.full:
            break
    return res


def s_formulas(N, samples):
    """Monte-Carlo estimates for every domination matrix, and the estimator object for small sets"""
    res = Result()
    for bits in itertools.product((False, True), repeat=N * samples):
        dom = np.array(bits).reshape(N, samples)
        if not dom.any():
            continue
        nd = dom.sum(0)
        V = 2.5
        res.state()
        res.call(2)
        want = V * np.mean(nd > 0)
        if getattr(S, "hv_monte_carlo", None) is None:
            return res
        for kw in ({}, dict(n_dom=nd)):
            got = float(S.hv_monte_carlo(dom, V, **kw))
            if not np.isclose(got, want):
                res.fail("mc:hv", f"estimate {got}, {want} expected", dict(dom=dom))
            # expected loss when k points (this one included) are removed at random: (1/c) prod (k-j)/(N-j)
            for k in range(1, N + 1):
                w = np.zeros(N + 1)
                for c in range(1, N + 1):
                    w[c] = np.prod([(k - j) / (N - j) for j in range(1, c)]) / c
                c = np.asarray(S.hvc_monte_carlo(dom, V, k=k, **kw))
                ref = [V * np.sum(w[nd[dom[i]]]) / samples for i in range(N)]
                if not np.allclose(c, ref):
                    res.fail("mc:hvc", f"contributions {c.tolist()}, expected {ref}", dict(dom=dom, k=k))
        res.outcome(f"{nd.tolist()}")
    res.trace()
    res.sample(dict(N=N, samples=samples))
    return res


def s_estimator(m):
    """adding and deleting points: estimates within ten standard deviations, bookkeeping exact"""
    res = Result()
    np.random.seed(11)
    grid = list(itertools.product((0.0, 0.5, 1.0), repeat=m))
    cls = getattr(S, "ApproximateMonteCarloHypervolume", None)
    if cls is None:
        return res
    for P in itertools.islice(itertools.combinations(grid, 3), 0, None, 7 if m == 3 else 400):
        r = np.full(m, 1.5)
        e = cls(r).add(np.array(P))
        Q = [np.array(p) for p in P]
        V = np.prod(r - np.min(P, axis=0))
        t = 10 * V * np.sqrt(0.25 / 2000)
        for step in range(3):
            res.state()
            res.call()
            c = contributions(Q, r)
            if abs(float(e.hv) - hv(Q, r)) > t or np.any(np.abs(np.asarray(e.hvc) - c) > t) or not np.array_equal(e.F, Q):
                res.fail("mc:estimate", f"volume {float(e.hv)} / contributions {np.asarray(e.hvc).tolist()}; exact {hv(Q, r)}, {c.tolist()} (+-{t})", dict(P=P, step=step))
                break
            if step < 2:
                k = (step + len(Q)) % len(Q)
                e.delete(k)
                Q.pop(k)
        res.trace()
    res.outcome(f"{m}")
    res.sample(dict(m=m))
    return res


def s_tournament():
    res = Result()
    pts = [((a, b), cv) for a in (0, 1, 2) for b in (0, 1, 2) for cv in (0.0, 1.0, 2.5)]
    for (fa, ca), (fb, cb) in itertools.product(pts, repeat=2):
        pop = population([(9, 9), fb, fa], [9, cb, ca])
        seen = set()
        ctx = dict(a=(fa, ca), b=(fb, cb))
        for seed in range(24):
            np.random.seed(seed)
            out = S.cv_and_dom_tournament(pop, np.array([[2, 1], [1, 2]]))
            res.call()
            out = np.asarray(out)
            if out.shape != (2, 1) or not set(out.ravel().tolist()) <= {1, 2}:
                res.fail("tournament:shape", f"returned {out.tolist()}", ctx)
                break
            seen |= {("first", int(out[0, 0])), ("second", int(out[1, 0]))}
        res.state()
        if ca > 0 or cb > 0:
            win = 2 if ca < cb else 1 if cb < ca else None
        else:
            win = 2 if dominates(np.array(fa), np.array(fb)) else 1 if dominates(np.array(fb), np.array(fa)) else None
        won = {w for _, w in seen}
        if win is not None and won != {win} or win is None and len(seen) != 4:
            res.fail("tournament:winner", f"winners {sorted(seen)}, expected {win or 'either'} (individual 2 = a)", ctx)
        res.outcome(f"{win}")
        res.trace()
    for bad in (1, 3):
        try:
            S.cv_and_dom_tournament(population([(0, 0)] * 4), np.zeros((2, bad), int))
            res.fail("tournament:parents", f"{bad} parents accepted", None)
        except ValueError:
            pass
    res.sample(dict(pairs=len(pts) ** 2))
    return res


class Progress:
    def __init__(self, perc):
        self.perc = perc


def cheb(F, w, z):
    return np.max(np.abs(F - z) * w, axis=-1)


def pbi(F, w, z, theta=5.0):
    w = w / np.linalg.norm(w, axis=-1, keepdims=True)
    d1 = np.sum((F - z) * w, axis=-1)
    return d1 + theta * np.linalg.norm(F - (z + d1[..., None] * w), axis=-1)


def replaced(F, CV, offF, offCV, W, z, eps, constrained):
    """indices (into the neighbourhood) the offspring replaces; None when a comparison is too close"""
    dec = cheb if F.shape[1] == 2 else pbi
    a, b = dec(F, W, z), dec(np.tile(offF, (len(F), 1)), W, z)
    out = []
    for i in range(len(F)):
        va, vb = (max(CV[i] - eps, 0.0), max(offCV - eps, 0.0)) if constrained else (0.0, 0.0)
        if va > 0 or vb > 0:
            if abs(va - vb) < 1e-9 and va != vb:
                return None
            if (va > 0) != (vb > 0):
                # the parameter-less penalty puts every violated individual behind every other one
                if vb == 0 or va == 0:
                    better = vb == 0
            else:
                better = vb < va
        else:
            if 0 < abs(a[i] - b[i]) < 1e-9:
                return None
            better = b[i] < a[i]
        if better:
            out.append(i)
    return out


def s_replace(m, constrained, perc_until, deep=False):
    from pymoo.core.problem import Problem

    res = Result()
    W = np.array([(0.0, 1.0), (0.5, 0.5), (1.0, 0.0)]) if m == 2 else np.array([(1.0, 0, 0), (0, 1.0, 0), (0, 0, 1.0)]) * 0.8 + 0.2 / 3
    alg = ConstraintAwareMOEAD(W, n_neighbors=2, perc_eps_until=perc_until)
    alg.setup(Problem(n_var=1, n_obj=m, n_ieq_constr=int(constrained), xl=0.0, xu=1.0), termination=("n_gen", 10), seed=1)
    pts = [(0.1, 0.9), (0.6, 0.5), (0.95, 0.05)] if m == 2 else [(0.1, 0.4, 0.9), (0.7, 0.3, 0.5), (0.2, 0.8, 0.15)]
    offs = [(0.3, 0.3), (0.05, 0.97), (0.8, 0.8)] if m == 2 else [(0.2, 0.3, 0.3), (0.05, 0.9, 0.9), (0.9, 0.1, 0.2)]
    cvs = ((0.0, 0.02, 0.4, 1.0, 2.0) if deep else (0.0, 0.02, 1.0, 2.0)) if constrained else (0.0,)
    perfect = np.zeros(m)
    alg.ideal = perfect
    for order in itertools.permutations(range(3)):
        F = np.array([pts[i] for i in order])
        for CV in itertools.product(cvs, repeat=3):
            for off, oc in itertools.product(offs, cvs):
                for max_cv, perc in ((None, 0.3), (1.6, 0.0), (1.6, 0.5 * perc_until), (1.6, perc_until), (1.6, 1.0)) if constrained else ((None, 0.5),):
                    if constrained and (sum(CV) + oc + order[0]) % 2 and max_cv is None:
                        continue
                    alg.max_cv, alg.termination = max_cv, Progress(perc)
                    eps = 0.0 if max_cv is None else max(0.0, 1 - perc / perc_until) * max_cv
                    for k in range(3):
                        pop = population(F, CV if constrained else None)
                        new = population([off], [oc] if constrained else None, X=np.array([[77.0]]))[0]
                        alg.pop = pop
                        N = np.argsort(np.linalg.norm(W - W[k], axis=1), kind="quicksort")[:2]
                        N = np.asarray(alg.neighbors[k]) if set(alg.neighbors[k]) else N
                        want = replaced(F[N], np.array(CV)[N], np.array(off), oc, W[N], perfect, eps, constrained)
                        res.state()
                        if want is None:
                            res.skipped += 1
                            continue
                        alg._replace(k, new)
                        res.call()
                        got = [i for i in range(3) if uid(alg.pop[i]) == 77]
                        exp = sorted(int(N[i]) for i in want)
                        ctx = dict(F=F, CV=CV, off=off, off_cv=oc, max_cv=max_cv, perc=perc, k=k, relaxation=eps)
                        if got != exp:
                            res.fail("replace:choice", f"replaced {got}, expected {exp}", ctx)
                        keep = [i for i in range(3) if i not in got]
                        if any(uid(alg.pop[i]) != i or not np.array_equal(alg.pop[i].F, F[i]) for i in keep):
                            res.fail("replace:others", "an individual that should stay changed", ctx)
                        res.outcome(f"{exp}")
                        if res.full:
                            return res
    res.trace()
    # neighbourhoods: nearest directions, itself included; population size; default decomposition
    for k in range(3):
        d = np.linalg.norm(W - W[k], axis=1)
        nb = list(alg.neighbors[k])
        if k not in nb or len(nb) != 2 or max(d[nb]) > np.sort(d)[1] + 1e-12 or alg.pop_size != 3:
            res.fail("replace:neighbours", f"neighbours of direction {k} are {nb}", None)
    res.sample(dict(m=m, constrained=constrained))
    return res


def s_moead(name, m, parts, seed, n_neighbors, n_gen, perc_until):
    """complete runs: one call = one generation, every replacement as modelled, ideal point and relaxation as documented"""
    import hvd.problems as P
    from hvd.problems.utils import get_ref_dirs

    res = Result()
    kw = dict(n_var=4) if not name.startswith("CF") else dict(n_var=4)
    if name.startswith("DTLZ"):
        kw = dict(n_var=m + 1, n_obj=m)
    prob = getattr(P, name)(**kw).as_pymoo_problem()
    W = get_ref_dirs(m, n_partitions=parts)
    log = []

    class Watch(ConstraintAwareMOEAD):
        def _replace(self, k, off):
            pre = (self.pop.get("F").copy(), self.pop.get("CV")[:, 0].copy(), np.array(self.ideal, float), list(self.pop), self.termination.perc)
            super()._replace(k, off)
            log.append((k, off, pre, list(self.pop)))

    alg = Watch(W, n_neighbors=n_neighbors, perc_eps_until=perc_until)
    alg.setup(prob, termination=("n_gen", n_gen), seed=seed)
    N, gen, seen, max_cv = len(W), 0, None, None
    constrained = prob.has_constraints()
    ctx = dict(problem=name, seed=seed, directions=N)
    while alg.has_next():
        log.clear()
        gen += 1
        alg.next()
        res.call()
        ctx["generation"] = gen
        if alg.n_gen - 1 != gen or alg.evaluator.n_eval != gen * N or len(alg.pop) != N:
            res.fail("moead:generation", f"call {gen}: {alg.n_gen - 1} generations and {alg.evaluator.n_eval} evaluations", ctx)
            return res
        if gen == 1:
            seen = alg.pop.get("F").min(0)
            if constrained:
                max_cv = float(np.mean(alg.pop.get("CV")))
        if sorted(k for k, *_ in log) != (list(range(N)) if gen > 1 else []):
            res.fail("moead:sweep", f"replacements for {[k for k, *_ in log]}", ctx)
        for k, off, (F, CV, z, before, perc), after in log:
            res.state()
            seen = np.minimum(seen, off.F)
            if not np.array_equal(z, seen):
                res.fail("moead:ideal", f"ideal point {z.tolist()}, best values seen {seen.tolist()}", ctx)
            nb = alg.neighbors[k]
            eps = max(0.0, 1 - perc / perc_until) * max_cv if constrained else 0.0
            want = replaced(F[nb], CV[nb], off.F, off.CV[0], W[nb], z, eps, constrained)
            if want is None:
                res.skipped += 1
                continue
            got = [i for i in range(N) if after[i] is not before[i]]
            exp = sorted(int(nb[i]) for i in want if before[nb[i]] is not off)
            if got != exp or any(after[i] is not off for i in got):
                res.fail("moead:replace", f"replaced {got}, expected {exp}", ctx)
            res.outcome(f"{len(exp)}{eps > 0}")
        if res.full:
            break
    if gen != n_gen:
        res.fail("moead:budget", f"stopped after {gen} of {n_gen} generations", ctx)
    res.trace()
    res.sample(ctx)
    return res


def s_sms(name, m, pop_size, seed, n_gen, normal, n_off):
    """complete runs: every environmental selection is re-decided from the merged population"""
    import hvd.problems as P

    res = Result()
    kw = dict(n_var=m + 1, n_obj=m) if name.startswith("DTLZ") else dict(n_var=4)
    prob = getattr(P, name)(**kw).as_pymoo_problem()
    calls = []

    class Watch(S.LeastHypervolumeContributionSurvival):
        def do(self, problem, pop, *a, n_survive=None, **k):
            out = super().do(problem, pop, *a, n_survive=n_survive, **k)
            calls.append((pop, out, n_survive, k.get("ideal"), k.get("nadir")))
            return out

    alg = SMSEMOA(pop_size=pop_size, survival=Watch(), normalize=normal, n_offsprings=n_off)
    alg.setup(prob, termination=("n_gen", n_gen), seed=seed)
    gen = 0
    ctx = dict(problem=name, seed=seed, pop_size=pop_size, normalize=normal)
    prev = None
    con = prob.has_constraints()
    tol = exact_tol if m == 2 else mc_tol(2000)
    while alg.has_next():
        calls.clear()
        try:
            alg.next()
        except Exception as e:  # noqa: BLE001
            res.fail(f"sms:{type(e).__name__}", f"generation {gen + 1} raised {e!r}", ctx)
            return res
        gen += 1
        res.call()
        if len(alg.pop) != pop_size and con is False and gen > 1 and len(alg.pop) < pop_size and not calls:
            res.fail("sms:size", f"{len(alg.pop)} individuals", ctx)
        for pop, out, n, ideal, nadir in calls[-1:]:
            F, CV = pop.get("F"), pop.get("CV")[:, 0]
            res.state()
            if n != pop_size:
                res.fail("sms:size", f"{n} survivors requested", ctx)
            if prev is not None and normal:
                if ideal is None or not np.allclose(ideal, prev.min(0)) or not np.allclose(nadir, prev.max(0)):
                    res.fail("sms:bounds", "normalisation bounds are not those of the current population", ctx)
            if len(F) <= 9:
                want, _ = model_survivors(F, CV, n, ideal, nadir, 10.0, con, tol)
                pos = {id(i): j for j, i in enumerate(pop)}
                got = sorted(pos[id(i)] for i in out)
                if want is None:
                    res.skipped += 1
                elif got != sorted(want):
                    res.fail("sms:choice", f"survivors {got}, expected {sorted(want)}", ctx)
            res.outcome(f"{len(F)}{len(out)}")
            if list(alg.pop) != list(out):
                res.fail("sms:population", "the population is not the selected one", ctx)
        prev = alg.pop.get("F").copy()
        if res.full:
            break
    if gen != n_gen:
        res.fail("sms:budget", f"stopped after {gen} of {n_gen} generations", ctx)
    res.trace()
    res.sample(ctx)
    return res


def s_dynamic(m, depth, by_keyword):
    """all histories of adding (one or two points) and deleting: value and contributions are those of the current points"""
    from hvd.exact import DynamicHypervolume
    from mc.ref_hv import grid_hv

    res = Result()
    ref = np.full(m, 4.0)
    pts = [np.roll([1.0, 3.0, 2.0], k)[:m] for k in range(2)] + [np.full(m, 3.0), np.r_[0.5, np.full(m - 1, 3.5)]]
    value = lambda r, F: float(grid_hv(F, r)) if len(F) else 0.0
    contrib = lambda r, F: np.array([value(r, F) - value(r, np.delete(F, k, 0)) for k in range(len(F))])
    ops = [("add", (k,)) for k in range(len(pts))] + [("add", (0, 3)), ("add", (2, 2))] + [("delete", k) for k in range(3)]
    for seq in itertools.product(ops, repeat=depth):
        cur, start = [], 0
        if by_keyword and seq[0][0] == "add":
            cur = [pts[k] for k in seq[0][1]]
            hv, start = DynamicHypervolume(ref, F=np.array(cur), func_hv=value, func_hvc=contrib), 1
        else:
            hv = DynamicHypervolume(ref, func_hv=value, func_hvc=contrib)
        ok = True
        for t, (op, a) in enumerate(seq):
            if t >= start:
                res.call()
                if op == "add":
                    r = hv.add(np.array([pts[k] for k in a]))
                    cur = cur + [pts[k] for k in a]
                else:
                    if a >= len(cur):
                        ok = False
                        break
                    r = hv.delete(a)
                    cur = cur[:a] + cur[a + 1 :]
                ok = r is hv
            F = np.array(cur).reshape(-1, m)
            if not (ok and np.array_equal(hv.F, F) and np.isclose(hv.hv, value(ref, F)) and np.allclose(hv.hvc, contrib(ref, F))):
                res.fail("dynamic", f"points {np.asarray(hv.F).tolist()} value {hv.hv} contributions {hv.hvc}, expected {F.tolist()} "
                         f"{value(ref, F)} {contrib(ref, F).tolist()}", dict(m=m, history=seq[: t + 1]))
                break
        res.state()
        res.trace()
        res.outcome((len(cur), round(value(ref, np.array(cur).reshape(-1, m)), 6)))
        if res.full:
            break
    res.sample(dict(m=m, history=seq))
    return res


SCENARIOS = dict(large=s_large, dynamic=s_dynamic, survive2=s_survive2, survive3=s_survive3, formulas=s_formulas, estimator=s_estimator, tournament=s_tournament, replace=s_replace,
                 moead=s_moead, sms=s_sms)


def plan(tier):
    th = tier == "thorough"
    yield "tournament", {}
    for m, kw in itertools.product((2, 3), (False, True)):
        yield "dynamic", dict(m=m, depth=4 if th and m == 2 else 3, by_keyword=kw)
    for N, s in ((1, 3), (2, 4), (3, 3)) + (((3, 4),) if th else ()):
        yield "formulas", dict(N=N, samples=s)
    for m in (3, 4):
        yield "estimator", dict(m=m)
    eps = (10.0, 0.4)
    for c in range(6):
        yield "large", dict(sizes=list(range(6, 51 if th else 31))[c::6], dx=0.1)
    yield "survive2", dict(size=2, top=3, chunk=0, nchunks=1, ordered=True, cvs=True, eps_list=eps)
    yield "survive2", dict(size=3, top=2, chunk=0, nchunks=1, ordered=True, cvs=True, eps_list=(0.4,))
    for c in range(8):
        yield "survive2", dict(size=3, top=3 if not th else 4, chunk=c, nchunks=8, ordered=True, cvs=False, eps_list=eps)
        yield "survive2", dict(size=4, top=4, chunk=c, nchunks=8, ordered=False, cvs=False, eps_list=(10.0,) if not th else eps)
        if th:
            yield "survive2", dict(size=5, top=4, chunk=c, nchunks=8, ordered=False, cvs=False, eps_list=(0.4,))
            yield "survive2", dict(size=4, top=2, chunk=c, nchunks=8, ordered=True, cvs=True, eps_list=(0.4,))
        else:
            yield "survive2", dict(size=5, top=3, chunk=c, nchunks=8, ordered=False, cvs=False, eps_list=(0.4,))
        yield "survive3", dict(m=3, chunk=c, nchunks=8, top=2 if not th else 3)
        yield "survive3", dict(m=4, chunk=c, nchunks=8, top=2)
    for m, con, pu in itertools.product((2, 3), (False, True), (0.8, 0.5)):
        yield "replace", dict(m=m, constrained=con, perc_until=pu, deep=th)
    for name, m, parts in (("ZDT1", 2, 4), ("CF1", 2, 4), ("CF4", 2, 5), ("DTLZ2", 3, 2), ("CF2", 2, 3)):
        for seed in range(12 if th else 3):
            yield "moead", dict(name=name, m=m, parts=parts, seed=seed, n_neighbors=2 + seed % 3, n_gen=12 if th else 8, perc_until=0.8 if seed % 2 else 0.5)
    for name, m in (("ZDT1", 2), ("ZDT3", 2), ("CF1", 2), ("CF4", 2), ("DTLZ2", 3)):
        for seed in range(12 if th else 3):
            for normal in (True, False):
                for n_off in (None, 1):
                    yield "sms", dict(name=name, m=m, pop_size=4, seed=seed, n_gen=14 if th else 8, normal=normal, n_off=n_off)
