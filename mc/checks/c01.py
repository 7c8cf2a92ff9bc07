"""C01  The hypervolume value is the measure of the dominated region."""
import itertools

import numpy as np

from mc import layouts
from mc.core import Result
from mc.ref_hv import CellHV, grid_hv
from mc.toy import lattice

PROPERTY = "C01"
RULE = (
    "Complete enumeration of small integer point sets (all multisets / sequences / subsets of coordinate grids that "
    "reach below, onto and beyond the reference point, all order types of N points in m objectives, all call "
    "histories on one object); every set is valued by the real code and by counting unit cells."
    " Curved fronts with dominated points of every size up to 120 (2 objectives), 64 (3), 24 (4), 12 (5), 8 (6) in three row orders, and of 250 and 500 points."
)
ASSUMPTIONS = [
    "coordinates are small integers (exact in float64) optionally scaled/translated by powers of two",
    "agreement within 1e-9 relative",
]


def _ne(a, b):
    return not (abs(float(a) - b) <= 1e-9 * max(1.0, abs(b)))


def _mods():
    from hvd.hypervolume import hypervolume

    return hypervolume


def multisets(m, hi, ref, size, first, ordered=False):
    """all multisets (sequences if ordered) of `size` grid points in {0..hi}^m, chunked by the first point"""
    hv = _mods()
    res = Result()
    oracle = CellHV(ref)
    pts = list(itertools.product(range(hi + 1), repeat=m))
    refa = np.asarray(ref, float)
    base = [np.array(p, float) for p in pts]
    # points beyond the reference have no cells
    mask = [oracle.mask(p) if all(c <= r for c, r in zip(p, ref)) else 0 for p in pts]
    for f in first:
        if ordered:
            it = itertools.product(range(len(pts)), repeat=size - 1)
        else:
            it = itertools.combinations_with_replacement(range(f, len(pts)), size - 1)
        for rest in it:
            idx = (f,) + rest
            Y = np.array([base[i] for i in idx])
            Y0 = Y.copy()
            v = hv(Y, refa)
            mm = 0
            for i in idx:
                mm |= mask[i]
            e = mm.bit_count()
            res.state()
            res.call()
            res.trace()
            res.outcome(e)
            if _ne(v, e):
                res.fail("value", f"hypervolume={v!r}, measure={e}", dict(Y=Y0, ref=ref))
            if not np.array_equal(Y, Y0):
                res.fail("input-modified", "the point set was modified in place", dict(Y=Y0, ref=ref))
            if res.full:
                return res
    res.sample(dict(points=[pts[i] for i in idx], ref=ref, value=e))
    return res


def sequences(shape, size, first):
    """all sequences (every row order, repetition allowed) of `size` points of a full grid inside the reference"""
    hv = _mods()
    res = Result()
    pts = list(itertools.product(*[range(n) for n in shape]))
    oracle = CellHV(list(shape))
    masks = [oracle.mask(p) for p in pts]
    base = np.array(pts, float)
    refa = np.asarray(shape, float)
    n = len(pts)
    for f in first:
        for rest in itertools.product(range(n), repeat=size - 1):
            idx = (f,) + rest
            v = hv(base[list(idx)], refa)
            mm = 0
            for i in idx:
                mm |= masks[i]
            e = mm.bit_count()
            if _ne(v, e):
                res.fail("value", f"hypervolume={v!r}, measure={e}", dict(Y=base[list(idx)], ref=list(shape)))
                if res.full:
                    return res
        k = n ** (size - 1)
        res.state(k)
        res.call(k)
        res.trace(k)
        res.outcome((f, e))
    res.sample(dict(grid=shape, sequence=[pts[i] for i in idx], value=e))
    return res


def order_types(m, N, first, variants=False):
    """all arrangements: an independent permutation of the ranks 0..N-1 on every axis (row order included)"""
    hv = _mods()
    res = Result()
    P = list(itertools.permutations(range(N)))
    ref = [N] * m
    oracle = CellHV(ref)
    refa = np.full(m, float(N))
    for f in first:
        for rest in itertools.product(P, repeat=m - 1):
            Y = np.array((P[f],) + rest, float).T
            e = oracle(Y.astype(int))
            v = hv(Y, refa)
            res.state()
            res.call()
            res.trace()
            res.outcome(e)
            if _ne(v, e):
                res.fail("value", f"hypervolume={v!r}, measure={e}", dict(Y=Y, ref=ref))
            if variants:
                # affine images with exact arithmetic, zero reference, plain lists
                for s, t in ((1.0, -float(N)), (2.0**-20, 0.0), (2.0**20, -3.0 * 2**20), (0.5, 7.0)):
                    w = hv(Y * s + t, refa * s + t)
                    res.call()
                    if _ne(w / s**m, e):
                        res.fail("affine", f"scaled value {w / s**m!r} != {e}", dict(Y=Y, s=s, t=t, ref=ref))
                w = hv(Y.tolist(), list(ref))
                res.call()
                if _ne(w, e):
                    res.fail("list-input", f"{w!r} != {e}", dict(Y=Y, ref=ref))
                for d in range(m):  # unequal reference extents
                    r2 = refa.copy()
                    r2[d] += 2 + d
                    w = hv(Y, r2)
                    res.call()
                    g = grid_hv(Y, r2)
                    if _ne(w, g):
                        res.fail("value", f"{w!r} != {g}", dict(Y=Y, ref=r2))
            if res.full:
                return res
    res.sample(dict(Y=Y, ref=ref, value=e))
    return res


def subsets(shape, lo, hi):
    """all subsets (as bit masks lo..hi-1) of a full grid: many points at once, all ties"""
    hv = _mods()
    res = Result()
    pts = np.array(list(itertools.product(*[range(s) for s in shape])), float)
    ref = list(shape)
    oracle = CellHV(ref)
    masks = [oracle.mask(p) for p in pts]
    refa = np.asarray(ref, float)
    for b in range(lo, hi):
        idx = [i for i in range(len(pts)) if b >> i & 1]
        v = hv(pts[idx], refa)
        mm = 0
        for i in idx:
            mm |= masks[i]
        e = mm.bit_count()
        res.state()
        res.call()
        res.trace()
        res.outcome(e)
        if _ne(v, e):
            res.fail("value", f"hypervolume={v!r}, measure={e}", dict(Y=pts[idx], ref=ref))
            if res.full:
                return res
    res.sample(dict(grid=shape, subset=b, value=e))
    return res


def families(m, nmax):
    """every size 1..nmax of structured sets: sorted / reversed / interleaved / rotated ranks per axis,
    layered copies (dominated ones) and repeated rows"""
    hv = _mods()
    res = Result()
    for N in range(1, nmax + 1):
        r = np.arange(N)
        perms = [r, r[::-1], np.argsort(r % 2, kind="stable"), np.argsort(r % 3, kind="stable"), np.roll(r, N // 2)]
        for combo in itertools.product(range(len(perms)), repeat=m - 1):
            Y = np.stack([r] + [perms[c] for c in combo], axis=1).astype(float)
            for ref in ([N] * m, [N + 1 + k for k in range(m)]):
                ref = np.asarray(ref, float)
                v = hv(Y, ref)
                e = grid_hv(Y, ref)
                res.state()
                res.call()
                res.trace()
                res.outcome((N, e))
                if _ne(v, e):
                    res.fail("value", f"hypervolume={v!r}, measure={e}", dict(Y=Y, ref=ref))
            Z = np.vstack([Y, Y[::2], Y[: N // 2] + 1])
            v, e = hv(Z, np.full(m, N + 1.0)), grid_hv(Y, np.full(m, N + 1.0))
            res.state()
            res.call()
            if _ne(v, e):
                res.fail("dominated-copies", f"hypervolume={v!r}, measure={e}", dict(Y=Z, ref=[N + 1] * m))
            if res.full:
                return res
    res.sample(dict(m=m, N=N))
    return res


def fronts(m, sizes):
    """large curved fronts (lattice points pushed to the sphere) with dominated points in between, in three row orders"""
    hv = _mods()
    res = Result()
    for N in sizes:
        Y = 0.1 + lattice(N, m, 0.3 * m, 0.0, 1.0)
        if m > 1:
            Y /= np.linalg.norm(Y, axis=1)[:, None]
        Y[::3] *= 1.15
        for q, ref in enumerate((np.full(m, 1.3), 1.05 + 0.1 * np.arange(m), np.full(m, 0.75))):
            e = grid_hv(Y, ref)
            for order in (np.arange(N), np.argsort(Y[:, 0]), np.argsort(-Y[:, -1])):
                v = hv(Y[order], ref)
                res.state()
                res.call()
                res.trace()
                if _ne(v, e):
                    res.fail("value", f"hypervolume={v!r}, measure={e}", dict(Y=Y[order], ref=ref))
            if q == 0 and N <= 60:
                w = hv(Y + 5.0, ref + 5.0)
                res.call()
                if _ne(w, e):
                    res.fail("value", f"hypervolume of the translated set={w!r}, measure={e}", dict(Y=Y + 5.0, ref=ref + 5.0))
            res.outcome((N, e))
        if res.full:
            break
    res.sample(dict(m=m, N=N))
    return res


def histories(m, depth):
    """all sequences of `depth` evaluations from an alphabet of point sets on ONE object (state carry-over)"""
    from hvd.hypervolume import HyperVolume
    from hvd import HypervolumeDerivatives

    res = Result()
    N = 3
    ref = np.full(m, float(N))
    oracle = CellHV([N] * m)
    r = np.arange(N)
    alphabet = [
        np.zeros((0, m)),
        np.full((1, m), float(N + 1)),  # beyond the reference
        np.full((1, m), 1.0),
        np.stack([r if k % 2 == 0 else r[::-1] for k in range(m)], axis=1).astype(float),
        np.stack([np.roll(r, k) for k in range(m)], axis=1).astype(float),
        np.vstack([np.zeros((1, m)), np.ones((2, m))]),
    ]
    want = [oracle([p for p in A.astype(int) if np.all(p <= N)]) for A in alphabet]
    for seq in itertools.product(range(len(alphabet)), repeat=depth):
        obj = HyperVolume(ref)
        ind = HypervolumeDerivatives(m, m, ref)
        mx = HypervolumeDerivatives(m, m, -ref, minimization=False)
        for step, s in enumerate(seq):
            v = obj.compute(alphabet[s])
            res.call()
            if _ne(v, want[s]):
                res.fail("history", f"after {seq[:step]} value {v!r} != {want[s]}", dict(m=m, seq=seq, step=step))
            if len(alphabet[s]):
                w = ind.compute(Y=alphabet[s])
                w2 = ind.compute(X=alphabet[s])
                # identical problem stated as maximisation
                w3 = mx.compute(X=-alphabet[s])
                w4 = mx.compute(Y=-alphabet[s])
                res.call(4)
                for tag, x in (("Y", w), ("X", w2), ("max-X", w3), ("max-Y", w4)):
                    if _ne(x, want[s]):
                        res.fail(f"indicator-{tag}", f"{x!r} != {want[s]} after {seq[:step]}", dict(m=m, seq=seq))
        res.state()
        res.trace()
        res.outcome(tuple(want[s] for s in seq))
        if res.full:
            break
    res.sample(dict(m=m, sequence=seq))
    return res


def improvement(m, hi, size, first):
    """hypervolume improvement of one point over a front = HV(front + point) - HV(front)"""
    from hvd.hypervolume_derivatives import hypervolume_improvement

    res = Result()
    pts = list(itertools.product(range(hi + 1), repeat=m))
    ref = [hi] * m
    oracle = CellHV(ref)
    for f in first:
        for rest in itertools.combinations(range(len(pts)), size):
            front = np.array([pts[i] for i in rest], float).reshape(size, m)
            x = np.array(pts[f], float)
            v = hypervolume_improvement(x, front, np.asarray(ref, float))
            e = oracle([pts[f]] + [pts[i] for i in rest]) - oracle([pts[i] for i in rest])
            res.state()
            res.call()
            res.trace()
            res.outcome(e)
            if _ne(v, e):
                res.fail("improvement", f"{v!r} != {e}", dict(x=x, front=front, ref=ref))
                if res.full:
                    return res
    res.sample(dict(x=pts[f], front=[pts[i] for i in rest], ref=ref, value=e))
    return res


SCENARIOS = dict(
    multisets=multisets,
    sequences=sequences,
    order_types=order_types,
    subsets=subsets,
    families=families,
    fronts=fronts,
    histories=histories,
    improvement=improvement,
)


def chunks(n, k):
    step = max(1, -(-n // k))
    return [list(range(i, min(n, i + step))) for i in range(0, n, step)]


def plan(tier):
    deep = tier == "thorough"
    P = []
    for m in (1, 2, 3, 4):
        P.append(("histories", dict(m=m, depth=3 if not deep else 4)))
    import math

    P.append(("multisets", dict(m=1, hi=4, ref=[3], size=1, first=list(range(5)))))
    P.append(("multisets", dict(m=1, hi=4, ref=[3], size=3, first=list(range(5)), ordered=True)))
    for m, hi, ref in ((2, 4, [3, 3]), (2, 4, [4, 2]), (3, 3, [2, 2, 2]), (3, 3, [3, 2, 3]), (4, 2, [2, 2, 1, 2]), (5, 2, [2, 1, 2, 2, 2])):
        n = (hi + 1) ** m
        sizes = {2: (1, 2, 3), 3: (1, 2, 3), 4: (1, 2), 5: (1, 2)}[m]
        if deep:
            sizes = {2: (1, 2, 3, 4), 3: (1, 2, 3), 4: (1, 2, 3), 5: (1, 2)}[m]
        for s in sizes:
            k = 1 if s == 1 else 12
            for c in chunks(n, k):
                P.append(("multisets", dict(m=m, hi=hi, ref=ref, size=s, first=c)))
        if m == 2:
            for c in chunks(n, 6):
                P.append(("multisets", dict(m=m, hi=hi, ref=ref, size=3, first=c, ordered=True)))
    for m, N, var in ((2, 2, 1), (2, 3, 1), (2, 4, 1), (2, 5, 0), (3, 2, 1), (3, 3, 1), (3, 4, 0), (4, 2, 1), (4, 3, 0), (5, 2, 1), (5, 3, 0), (6, 2, 0)):
        f = math.factorial(N)
        for c in chunks(f, 1 if f ** m < 3000 else 12):
            P.append(("order_types", dict(m=m, N=N, first=c, variants=bool(var))))
    # every row order of points with ties
    for shape, size in (((3, 3, 3), 3), ((2, 2, 2, 3), 3), ((2, 2, 2, 2), 4), ((3, 3, 3, 3), 3), ((2, 2, 2, 2, 3), 3), ((2, 3, 3), 4),
                        ((2, 2, 2, 3, 2), 3), ((2, 2, 2, 2, 2, 2), 3)) + (
            (((2, 2, 2, 3), 4), ((2, 2, 2, 3, 3), 3), ((2, 2, 3, 2, 2), 3), ((2, 2, 2, 2, 2), 4), ((2, 2, 2, 2, 2, 3), 3), ((2,) * 7, 3), ((4, 3, 3, 4), 3), ((3, 3, 2), 5)) if deep else ()):
        n = math.prod(shape)
        for c in chunks(n, 8 if n ** size < 100000 else 24 if n ** size < 800000 else 64):
            P.append(("sequences", dict(shape=list(shape), size=size, first=c)))
    # fixed row order on the first axis for the larger ones
    for m, N in ((3, 5), (4, 4)) + (((3, 6), (4, 5)) if deep else ()):
        P.append(("order_types", dict(m=m, N=N, first=[0])))
    for shape in ((4, 4), (3, 2, 2), (2, 2, 2, 2)) + (((3, 3, 2), (3, 2, 2, 2)) if deep else ()):
        n = 1
        for s in shape:
            n *= s
        n = min(n, 20)
        if shape == (3, 2, 2, 2):
            continue
        k = 16 if n > 12 else 1
        for i in range(k):
            P.append(("subsets", dict(shape=list(shape), lo=(1 << n) * i // k, hi=(1 << n) * (i + 1) // k)))
    if not deep:
        P.append(("subsets", dict(shape=[3, 3, 2], lo=0, hi=1 << 14)))
    P.append(("families", dict(m=2, nmax=40)))
    P.append(("families", dict(m=3, nmax=14 if not deep else 24)))
    P.append(("families", dict(m=4, nmax=6 if not deep else 9)))
    for m, top, more, beyond in ((1, 60, 100, ()), (2, 120, 160, (250, 500)), (3, 64, 100, (80, 120)), (4, 24, 32, ()), (5, 12, 15, ()), (6, 8, 9, ())):
        every = range(1, (more if deep else top) + 1)
        for c in range(4):
            P.append(("fronts", dict(m=m, sizes=list(every[c::4]))))
        for N in beyond:
            P.append(("fronts", dict(m=m, sizes=[N])))
    for m, hi, size in ((1, 4, 2), (2, 3, 2), (2, 3, 3), (3, 2, 2)):
        n = (hi + 1) ** m
        for c in chunks(n, 1 if n < 8 else 6):
            P.append(("improvement", dict(m=m, hi=hi, size=size, first=c)))
    return P


plan = layouts.extend(SCENARIOS, plan, layouts.s_c01)
