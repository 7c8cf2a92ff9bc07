"""C04  Non-dominated sorting equals iterated removal of the nondominated subset."""
import itertools
import math

import numpy as np

from mc import layouts
from mc.core import Result
from mc.hv_plan import chunks
from mc.toy import lattice

PROPERTY = "C04"
RULE = (
    "All subsets / multisets / sequences of coordinate grids (ties, duplicates) and all order types of N points in "
    "2..5 objectives; the fronts returned by the real code are compared with naive peeling."
    " Lattice sets of 50 to 200 points with and without ties in three row orders."
)
ASSUMPTIONS = ["the sort only compares objective values, so grid representatives decide every order type covered"]


def peel_masks(dom):
    """dom[i] = bit mask of the rows dominating row i -> front index per row"""
    n = len(dom)
    left = (1 << n) - 1
    front = [0] * n
    k = 0
    while left:
        cur = 0
        for i in range(n):
            if left >> i & 1 and not (dom[i] & left):
                cur |= 1 << i
                front[i] = k
        left &= ~cur
        k += 1
    return front


def dom_masks(Y):
    Y = np.asarray(Y)
    le = np.all(Y[:, None, :] <= Y[None, :, :], axis=2)
    lt = np.any(Y[:, None, :] < Y[None, :, :], axis=2)
    D = le & lt  # D[j, i]: j dominates i
    return [int(sum(1 << j for j in range(len(Y)) if D[j, i])) for i in range(len(Y))]


def groups(front):
    out = {}
    for i, f in enumerate(front):
        out.setdefault(f, []).append(i)
    return out


def check_one(res, Y, front, full=True, key="fronts"):
    from hvd.utils import get_non_dominated, non_domin_sort

    want = groups(front)
    Y0 = Y.copy()
    got = non_domin_sort(Y, only_front_indices=True)
    res.call()
    g = {int(k): sorted(int(i) for i in v) for k, v in got.items()}
    if g != want:
        res.fail(key, f"got {g}, expected {want}", dict(Y=Y0))
        return
    if full:
        got = non_domin_sort(Y)
        res.call()
        g = {int(k): sorted(tuple(map(float, d)) for d in v) for k, v in got.items()}
        w = {k: sorted(tuple(map(float, Y0[i])) for i in v) for k, v in want.items()}
        if g != w:
            res.fail("fronts-decisions", f"got {g}, expected {w}", dict(Y=Y0))
        idx = get_non_dominated(Y, return_index=True)
        sub = get_non_dominated(Y)
        res.call(2)
        if sorted(int(i) for i in idx) != want[0]:
            res.fail("nondominated-subset", f"got {list(map(int, idx))}, expected {want[0]}", dict(Y=Y0))
        elif not np.array_equal(sub, Y0[np.asarray(idx)]):
            res.fail("nondominated-rows", f"rows {sub.tolist()} do not match indices {list(map(int, idx))}", dict(Y=Y0))
        if not np.array_equal(Y, Y0):
            res.fail("input-modified", "input changed in place", dict(Y=Y0))


def subsets(shape, lo, hi, full=True):
    res = Result()
    pts = np.array(list(itertools.product(*[range(s) for s in shape])), float)
    D = dom_masks(pts)
    for b in range(max(lo, 1), hi):
        idx = [i for i in range(len(pts)) if b >> i & 1]
        dom = [sum(1 << a for a, j in enumerate(idx) if D[i] >> j & 1) for i in idx]
        front = peel_masks(dom)
        res.state()
        res.trace()
        res.outcome(tuple(len(v) for v in groups(front).values()))
        check_one(res, pts[idx], front, full)
        if res.full:
            break
    res.sample(dict(grid=shape, subset=b))
    return res


def sized_subsets(shape, size, first, full=False):
    res = Result()
    pts = np.array(list(itertools.product(*[range(s) for s in shape])), float)
    D = dom_masks(pts)
    for f in first:
        for rest in itertools.combinations(range(f + 1, len(pts)), size - 1):
            idx = (f,) + rest
            dom = [sum(1 << a for a, j in enumerate(idx) if D[i] >> j & 1) for i in idx]
            front = peel_masks(dom)
            res.state()
            res.trace()
            res.outcome(tuple(len(v) for v in groups(front).values()))
            check_one(res, pts[list(idx)], front, full)
            if res.full:
                return res
    res.sample(dict(grid=shape, size=size, first=first))
    return res


def sequences(shape, size, first):
    """ordered, with repeated rows: the mapping back to row indices"""
    res = Result()
    pts = np.array(list(itertools.product(*[range(s) for s in shape])), float)
    for f in first:
        for rest in itertools.product(range(len(pts)), repeat=size - 1):
            Y = pts[[f] + list(rest)]
            front = peel_masks(dom_masks(Y))
            res.state()
            res.trace()
            res.outcome(tuple(front))
            check_one(res, Y, front)
            if res.full:
                return res
    res.sample(dict(Y=Y))
    return res


def order_types(m, N, first, full=False):
    """rank permutations on every axis, canonical rows sorted by the first axis"""
    res = Result()
    P = list(itertools.permutations(range(N)))
    less = {p: [sum(1 << j for j in range(N) if p[j] < p[i]) for i in range(N)] for p in P}
    base = np.arange(N)
    lb = less[tuple(base)]
    for f in first:
        for rest in itertools.product(P, repeat=m - 2):
            axes = (P[f],) + rest
            dom = list(lb)
            for p in axes:
                lp = less[p]
                for i in range(N):
                    dom[i] &= lp[i]
            front = peel_masks(dom)
            Y = np.array((tuple(base),) + axes, float).T
            res.state()
            res.trace()
            res.outcome(tuple(front))
            check_one(res, Y, front, full)
            if res.full:
                return res
    res.sample(dict(Y=Y))
    return res


def representations(size, first):
    """same content through other containers / objective maps / values: list of tuples, mapped decisions,
    infinities, negative and tiny values"""
    from hvd.utils import is_dominate, non_domin_sort

    res = Result()
    pts = list(itertools.product(range(3), range(3)))
    values = [
        {0: -np.inf, 1: 0.0, 2: np.inf},
        {0: -1.0, 1: -1.0 + 2**-52, 2: 5e-324},
        {0: 0, 1: 1, 2: 10**9},
    ]
    for f in first:
        for rest in itertools.product(range(len(pts)), repeat=size - 1):
            rows = [pts[i] for i in (f,) + rest]
            front = peel_masks(dom_masks(rows))
            want = groups(front)
            res.state()
            res.trace()
            res.outcome(tuple(front))
            variants = [rows]
            variants += [[tuple(v[c] for c in r) for r in rows] for v in values]
            for V in variants:
                got = {int(k): sorted(map(int, v)) for k, v in non_domin_sort(V, only_front_indices=True).items()}
                res.call()
                if got != want:
                    res.fail("representation", f"got {got}, expected {want}", dict(rows=V))
            # decisions with an objective map (maximise second component of a dict decision)
            dec = [dict(id=i, a=r[0], b=-r[1]) for i, r in enumerate(rows)]
            for flag in (False, True):
                got = non_domin_sort(dec, get_objectives=lambda d: (d["a"], -d["b"]), only_front_indices=flag)
                res.call()
                if flag:
                    g = {int(k): sorted(map(int, v)) for k, v in got.items()}
                else:
                    g = {int(k): sorted(d["id"] for d in v) for k, v in got.items()}
                if g != want:
                    res.fail("mapped-decisions", f"got {g}, expected {want}", dict(rows=rows, indices=flag))
            if size == 2:
                a, b = rows
                for x, y in ((a, b), (b, a)):
                    e = all(p <= q for p, q in zip(x, y)) and x != y
                    res.call()
                    if bool(is_dominate(x, y)) != e:
                        res.fail("dominance", f"is {x} better than {y}: expected {e}", dict(rows=rows))
            if res.full:
                return res
    res.sample(dict(rows=rows))
    return res


def families(m, nmax):
    res = Result()
    for N in range(1, nmax + 1):
        r = np.arange(N)
        perms = [r, r[::-1], np.argsort(r % 2, kind="stable"), np.argsort(r % 3, kind="stable"), r // 2, r % 3, (r * 7) % 11]
        for combo in itertools.product(range(len(perms)), repeat=m):
            if m > 2 and len(set(combo)) < 2:
                continue
            Y = np.stack([perms[c] for c in combo], axis=1).astype(float)
            front = peel_masks(dom_masks(Y))
            res.state()
            res.trace()
            res.outcome((N, max(front)))
            check_one(res, Y, front, full=N % 5 == 0)
            if res.full:
                return res
    res.sample(dict(m=m, Y=Y))
    return res


def large(m, sizes):
    """large sets in general position and with coarse (tied) values, in three row orders"""
    res = Result()
    for N, levels, order in itertools.product(sizes, (0, 7, 3, -1, -3), (0, 1, 2)):
        Y = lattice(N, m, 0.2 * m, 0.0, 1.0)
        if levels > 0:
            Y = np.floor(Y * levels)
        if levels < 0:  # a staircase: as many fronts as points, or a third of it
            Y = 0.9 * Y + (np.arange(N) // -levels)[np.arange(N) * 7 % N if N % 7 else slice(None), None]
        Y = (Y, Y[np.argsort(Y[:, 0], kind="stable")], Y[np.argsort(-Y.sum(1), kind="stable")])[order]
        front = peel_masks(dom_masks(Y))
        res.state()
        res.trace()
        res.outcome((N, levels, max(front)))
        check_one(res, Y, front)
        if res.full:
            break
    res.sample(dict(m=m, N=N))
    return res


SCENARIOS = dict(
    large=large,
    subsets=subsets,
    sized_subsets=sized_subsets,
    sequences=sequences,
    order_types=order_types,
    representations=representations,
    families=families,
)


def plan(tier):
    deep = tier == "thorough"
    P = []
    for size, k in ((1, 1), (2, 1), (3, 2), (4, 9)):
        for c in chunks(9, k):
            P.append(("representations", dict(size=size, first=c)))
    for shape, full in (((3, 3), True), ((2, 2, 2), True), ((4, 4), False), ((2, 2, 2, 2), False)) + (
        (((3, 3, 2), False), ((5, 4), False)) if deep else ()
    ):
        n = int(np.prod(shape))
        k = 1 if n <= 10 else 16
        for i in range(k):
            P.append(("subsets", dict(shape=list(shape), lo=(1 << n) * i // k, hi=(1 << n) * (i + 1) // k, full=full)))
    for shape, sizes in (((3, 3, 3), (2, 3, 4) + ((5, 6) if deep else ())), ((3, 3, 2), (7, 8, 9)), ((2,) * 5, (2, 3, 4) + ((5,) if deep else ())), ((3, 3, 3, 3), (2, 3) + ((4,) if deep else ()))):
        n = int(np.prod(shape))
        for s in sizes:
            for c in chunks(n - s + 1, 1 if s < 3 else 14):
                P.append(("sized_subsets", dict(shape=list(shape), size=s, first=c, full=s < 4)))
    for shape, size in (((3, 3), 4), ((2, 2, 2), 4), ((2, 2, 2), 5) if deep else ((2, 2, 2), 3), ((2, 2, 2, 2), 3)):
        n = int(np.prod(shape))
        for c in chunks(n, 8):
            P.append(("sequences", dict(shape=list(shape), size=size, first=c)))
    for m, N in ((2, 6), (2, 7), (3, 5), (3, 6), (4, 4), (5, 3)) + (((4, 5), (5, 4), (2, 8)) if deep else ()):
        f = math.factorial(N)
        for c in chunks(f, 1 if f ** (m - 1) < 2000 else 24):
            P.append(("order_types", dict(m=m, N=N, first=c)))
    P += [("families", dict(m=2, nmax=40)), ("families", dict(m=3, nmax=22 if not deep else 40)), ("families", dict(m=4, nmax=9 if not deep else 16))]
    for m in (2, 3, 5):
        for N in (50, 101, 200) + ((300, 500) if deep else ()):
            P.append(("large", dict(m=m, sizes=[N])))
    return P


plan = layouts.extend(SCENARIOS, plan, layouts.s_c04)
