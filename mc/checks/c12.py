"""C12: the reference set as a state machine (partition, component matching, point matching, shifting)."""
import itertools

import numpy as np

from hvd.reference_set import ReferenceSet
from mc import layouts
from mc.assign import two_best
from mc.core import Result
from mc.toy import lattice

PROPERTY = "C12"
RULE = ("Every operation sequence up to the stated depth over {match with four populations, shift all / one / last / none, "
        "freeze, unfreeze} for every configuration of components (one to three; equal or larger than the clusters; partition "
        "given, automatic, with unused components), shift directions (default, per component, common array); every "
        "reference set reached is compared with an independent model."
        " Matchings of 30, 40 and 45 points in one to three components.")
ASSUMPTIONS = ["populations of one size per object; matchings with a tie of the optimal cost are outside the domain",
               "components with more points than the cluster: the initial choice of representatives is only required to consist of distinct "
               "members of the component (and to be its medoid for a single representative)"]


class OutOfDomain(Exception):
    pass


class Model:
    def __init__(self, comps, Y_idx, eta):
        self.comps = [c.copy() for c in comps]
        self.Y_idx = Y_idx
        self.eta = eta
        self.cur = None  # matched targets in population order
        self.owner = None
        self.medoids = {}  # component -> list of representatives (unordered)
        self.frozen = False

    def partition(self, Y):
        if len(self.comps) == 1:
            return [np.arange(len(Y))]
        if self.Y_idx is None:
            D = np.array([[min(np.linalg.norm(y - r) for r in c) for y in Y] for c in self.comps])
            S = np.sort(D, axis=0)
            if np.any(S[1] - S[0] < 1e-9):
                raise OutOfDomain
            lab = D.argmin(0)
            self.Y_idx = [np.nonzero(lab == i)[0] for i in range(len(self.comps)) if np.any(lab == i)]
        return [np.array(i) for i in self.Y_idx]

    def components(self, clusters, Y):
        n, m = len(self.comps), len(clusters)
        if n == 1:
            return [(0, clusters[0])]
        dh = [[max(min(np.linalg.norm(r - y) for y in Y[j]) for r in c) for j in clusters] for c in self.comps]
        tot = sorted((sum(dh[p[j]][j] for j in range(m)), p) for p in itertools.permutations(range(n), m))
        if len(tot) > 1 and tot[1][0] - tot[0][0] < 1e-9:
            raise OutOfDomain
        return [(tot[0][1][j], clusters[j]) for j in range(m)]

    def match(self, Y, real):
        """returns False when nothing may change"""
        if self.frozen and self.cur is not None:
            return
        new, owner = np.zeros_like(Y), np.zeros(len(Y), int)
        for c, idx in self.components(self.partition(Y), Y):
            pool = self.medoids.get(c)
            if pool is None or len(pool) != len(idx):
                if len(self.comps[c]) == len(idx):
                    pool = self.comps[c].copy()
                elif len(idx) == 1:
                    D = [sum(np.linalg.norm(a - b) for b in self.comps[c]) for a in self.comps[c]]
                    if sorted(D)[1] - sorted(D)[0] < 1e-9:
                        raise OutOfDomain
                    pool = self.comps[c][[int(np.argmin(D))]]
                else:  # read the choice back from the object and validate it
                    pool = real[idx]
                    left = list(self.comps[c])
                    for t in pool:
                        k = next((q for q, r in enumerate(left) if np.allclose(r, t, rtol=0, atol=1e-9)), None)
                        if k is None:
                            raise AssertionError(f"representatives {pool.tolist()} are not distinct members of component {c}")
                        left.pop(k)
            D = np.linalg.norm(Y[idx][:, None] - pool[None], axis=2)
            cost = two_best(D)
            if len(cost) > 1 and cost[1][0] - cost[0][0] < 1e-9:
                raise OutOfDomain
            new[idx] = pool[list(cost[0][1])]
            owner[idx] = c
            self.medoids[c] = new[idx].copy()
        self.cur, self.owner = new, owner
        self.idx_of = {c: np.nonzero(owner == c)[0] for c in set(owner)}

    def shift(self, c, indices):
        if self.cur is None:
            self.comps = [k + c * e for k, e in zip(self.comps, self.eta)]
            return
        for i in range(len(self.cur)) if indices is None else indices:
            self.cur[i] = self.cur[i] + c * self.eta[self.owner[i]]
        for k in set(self.owner):
            self.medoids[k] = self.cur[self.owner == k].copy()

    def view(self):
        return np.concatenate(self.comps) if self.cur is None else self.cur


def chim(R):
    Z = R[R.argmin(axis=0)]
    n = -np.abs(np.linalg.svd(Z[1:] - Z[0])[2][-1])
    return n / np.linalg.norm(n)


A2 = np.array([[0.0, 1.0], [0.31, 0.62], [0.77, 0.05], [1.3, -0.4]])
B2 = np.array([[5.0, 6.1], [5.4, 5.2], [6.3, 4.9]])
C2 = np.array([[-7.0, 2.0], [-6.2, 1.1]])
A3 = np.array([[0.0, 1.0, 0.9], [0.31, 0.62, 0.4], [0.77, 0.05, 0.8], [0.6, 0.5, -0.3]])
B3 = A3[:3] + np.array([4.0, 5.0, 4.5])


def configs():
    """name -> components, Y_idx, eta mode, four populations"""
    def pops(base):
        base = np.asarray(base, float)
        n = len(base)
        d = np.arange(base.size).reshape(base.shape)
        return [base + 0.11, base[::-1] + 0.07 * np.cos(d), base - 0.13 * np.sin(d), np.roll(base, 1, axis=0) + 0.4]

    def swaps(parts):
        """populations that exchange clusters: rows of part k near component order"""
        base = np.concatenate(parts)
        d = np.arange(base.size).reshape(base.shape)
        return [base + 0.11, base + 0.07 * np.cos(d), base - 0.13 * np.sin(d), base + 0.21 * np.cos(2 * d)]

    out = {}
    for mode in ("dict", "default", "array"):
        out[f"one-{mode}"] = ([A2[:3]], None, mode, pops(A2[:3]))
        out[f"one-big-{mode}"] = ([A2], None, mode, pops(A2[:2]))
        out[f"one-3d-{mode}"] = ([A3[:3]], None, mode, pops(A3[:3]))
        out[f"two-auto-{mode}"] = ([A2[:2], B2[:2]], None, mode, swaps([A2[:2], B2[:2]]))
        out[f"two-auto-mixed-{mode}"] = ([A2[:2], B2[:1]], None, "dict" if mode == "default" else mode, swaps([B2[:1], A2[:2]]))
        out[f"two-given-{mode}"] = ([A2[:2], B2[:2]], [[2, 0], [1, 3]], mode,
                                    [p[[1, 2, 0, 3]] for p in swaps([A2[:2], B2[:2]])])
        out[f"two-given-crossed-{mode}"] = ([A2[:2], B2[:2]], [[0, 1], [2, 3]], mode, swaps([B2[:2], A2[:2]]))
        out[f"three-auto-{mode}"] = ([A2[:2], B2[:2], C2[:2]], None, mode, swaps([C2[:2], A2[:2], B2[:2]]))
        out[f"unused-{mode}"] = ([C2[:2], A2[:2], B2[:2]], None, mode, swaps([B2[:2], A2[:2]]))
        out[f"unused-given-{mode}"] = ([C2[:2], A2[:2], B2[:2]], [[0, 2], [1, 3]], mode, [p[[0, 2, 1, 3]] for p in swaps([A2[:2], B2[:2]])])
        out[f"unused-one-{mode}"] = ([A2, B2[:3]], None, mode, swaps([B2[:2]]))
        out[f"big-3d-{mode}"] = ([A3, B3], None, mode, swaps([B3[:2], A3[:2]]))
        out[f"single-rep-{mode}"] = ([A2, B2[:3]], None, mode, swaps([A2[:1], B2[1:2]]))
        # reference points stored as whole numbers: shifts are fractions all the same
        IA, IB = np.array([[0, 10], [3, 6], [8, 1]]), np.array([[50, 61], [54, 52]])
        out[f"one-whole-{mode}"] = ([IA], None, mode, pops(IA))
        out[f"one-big-whole-{mode}"] = ([IA], None, mode, pops(IA[:2]))
        out[f"two-auto-whole-{mode}"] = ([IA[:2], IB], None, mode, swaps([IA[:2], IB]))
    # larger sets in more objectives
    for m, N, k in ((2, 8, 1), (3, 9, 1), (5, 6, 1), (4, 7, 2), (5, 9, 3), (2, 40, 1), (3, 30, 2), (3, 45, 3)):
        comps = [lattice(N // k, m, 0.3 * i, 0.0, 1.0) + 7.0 * i for i in range(k)]
        out[f"large-{m}-{N}-{k}"] = (comps, None, "dict", swaps(comps))
    return out


CONF = configs()
OPS = [("match", 0), ("match", 1), ("match", 2), ("match", 3), ("shift", 0.08, None), ("shift", 0.05, (0,)), ("shift", -0.03, (-1, 0)),
       ("shift", 0.3, ()), ("freeze",), ("unfreeze",)]


def run_seq(name, seq, res):
    comps, Y_idx, mode, pops = CONF[name]
    m = comps[0].shape[1]
    base = [np.array([-0.6, -0.8, -0.3, -0.7, -0.2][:m]), np.array([-0.9, -0.2, -0.5, -0.1, -0.6][:m]), np.array([-0.1, -0.95, -0.4, -0.3, -0.5][:m])][: len(comps)]
    if mode == "default":
        eta, arg = [chim(c) for c in comps], None
    elif mode == "array":
        eta, arg = [base[0]] * len(comps), base[0].copy()
    else:
        eta, arg = base, {i: e.copy() for i, e in enumerate(base)}
    given = [c.copy() for c in comps]
    src = given[0] if len(given) == 1 else {i: c for i, c in enumerate(given)}
    r = ReferenceSet(src, eta=arg, Y_idx=None if Y_idx is None else [list(i) for i in Y_idx])
    mod = Model([np.asarray(c, float) for c in comps], None if Y_idx is None else [np.array(i) for i in Y_idx], eta)
    for k, op in enumerate(seq):
        ctx = dict(config=name, history=list(seq[: k + 1]))
        N = len(pops[0])
        if op[0] == "match":
            Y = pops[op[1]].copy()
            keep = Y.copy()
            r.match(Y)
            if not np.array_equal(Y, keep):
                res.fail("mutated", "match modified the population", ctx)
            try:
                mod.match(keep, np.asarray(r.reference_set))
            except OutOfDomain:
                return False
            except AssertionError as e:
                res.fail("representatives", str(e), ctx)
                return True
        elif op[0] == "shift":
            idx = op[2]
            if idx is not None:
                idx = [i % N for i in idx]
            r.shift(op[1], None if idx is None else np.array(idx, int))
            mod.shift(op[1], idx)
        else:
            r.re_match = op[0] == "unfreeze"
            mod.frozen = op[0] == "freeze"
        res.call()
        res.state()
        got, exp = np.asarray(r.reference_set), mod.view()
        if got.shape != exp.shape or not np.allclose(got, exp, atol=1e-10):
            res.fail("reference", f"reference set {got.tolist()}, model {exp.tolist()}", ctx)
            return True
        if r.N != len(exp):
            res.fail("N", f"N={r.N}, {len(exp)} points", ctx)
        res.outcome(f"{name}{np.round(got, 3).tolist()}")
    for a, b in zip(given, comps):
        if not np.array_equal(a, b):
            res.fail("mutated", "the reference set of the caller was modified", dict(config=name, history=seq))
    if isinstance(src, dict) and any(src[i] is not given[i] for i in src):
        res.fail("mutated", "the reference set of the caller was replaced", dict(config=name, history=seq))
    res.trace()
    return True


def s_seq(name, depth, first):
    res = Result()
    for rest in itertools.product(range(len(OPS)), repeat=depth - 1):
        seq = [OPS[first]] + [OPS[i] for i in rest]
        if not run_seq(name, seq, res):
            res.skipped += 1
        if res.full:
            break
    res.sample(dict(config=name, history=seq))
    return res


def s_match_grid(m, M, N, chunk, nchunks, repeat=True):
    """single component: matching every population of a grid to every reference subset"""
    res = Result()
    perms = np.array(list(itertools.permutations(range(N))))
    G = [np.array(p) for p in (itertools.product((0.0, 0.45, 1.3), (0.1, 0.75, 1.2)) if m == 2 else itertools.product((0.0, 0.8), (0.15, 1.1), (0.3, 0.9)))]
    eta = {0: -np.ones(m) / np.sqrt(m)}
    for q, Rs in enumerate(itertools.combinations(range(len(G)), M)):
        if q % nchunks != chunk:
            continue
        R = np.array([G[i] for i in Rs]) + 0.017 * np.arange(M)[:, None]
        for Ys in (itertools.combinations_with_replacement if repeat else itertools.combinations)(range(len(G)), N):
            Y = np.array([G[i] for i in Ys])
            r = ReferenceSet(R.copy(), eta=eta)
            for rep in range(2 if repeat else 1):
                r.match(Y)
                T = np.asarray(r.reference_set)
                left = [tuple(x) for x in R]
                ok = T.shape == Y.shape
                for t in T if ok else []:
                    if tuple(t) in left:
                        left.remove(tuple(t))
                    else:
                        ok = False
                D = np.linalg.norm(Y[:, None] - T[None], axis=2) if ok else None
                if not ok or np.trace(D) > D[np.arange(N), perms].sum(1).min() + 1e-9:
                    res.fail("grid", f"{Y.tolist()} matched to {T.tolist()} of {R.tolist()}", dict(Y=Y, R=R))
                res.call()
            res.state()
            res.trace()
            res.outcome(str(np.round(T, 2).tolist()))
            if res.full:
                return res
    return res


SCENARIOS = dict(seq=s_seq, grid=s_match_grid)


def plan(tier):
    th = tier == "thorough"
    for m, N, n in ((2, 5, 8), (3, 5, 4)) + (((2, 6, 8), (3, 6, 4), (2, 7, 8)) if th else ()):
        for c in range(n):
            yield "grid", dict(m=m, M=N, N=N, chunk=c, nchunks=n, repeat=False)
    for M, N, n in ((1, 1, 1), (2, 2, 1), (3, 3, 2), (3, 2, 2), (3, 1, 1)) + (((4, 4, 16), (4, 3, 16), (5, 2, 8)) if th else ()):
        for m in (2, 3):
            for c in range(n):
                yield "grid", dict(m=m, M=M, N=N, chunk=c, nchunks=n)
    for name in CONF:
        for f in range(len(OPS)):
            yield "seq", dict(name=name, depth=2 + th if name.startswith("large") else 4 if th else 3, first=f)


plan = layouts.extend(SCENARIOS, plan, layouts.s_c12)
