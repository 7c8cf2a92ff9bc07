"""Independent references for the hypervolume: cell bit masks, inclusion-exclusion, exact derivatives."""
from __future__ import annotations

import itertools

import numpy as np


def cells_mask(point, ref):
    """bit mask of the unit cells [c, c+1) (integer coordinates) between `point` and `ref`;
    the cells are indexed in the box [0, ref)."""
    m = 0
    strides, s = [], 1
    for r in ref:
        strides.append(s)
        s *= int(r)
    ranges = [range(max(0, int(p)), int(r)) for p, r in zip(point, ref)]
    for c in itertools.product(*ranges):
        m |= 1 << sum(a * b for a, b in zip(c, strides))
    return m


class CellHV:
    """HV of integer points with coordinates >= 0 by counting unit cells."""

    def __init__(self, ref):
        self.ref = tuple(int(r) for r in ref)
        self.cache = {}

    def mask(self, p):
        p = tuple(int(v) for v in p)
        if p not in self.cache:
            self.cache[p] = cells_mask(p, self.ref)
        return self.cache[p]

    def __call__(self, points):
        m = 0
        for p in points:
            m |= self.mask(p)
        return m.bit_count()


def grid_hv(Y, ref):
    """HV by coordinate compression, any float coordinates, any number of points (small m)."""
    Y = np.asarray(Y, float).reshape(-1, len(ref))
    ref = np.asarray(ref, float)
    Y = Y[np.all(Y <= ref, axis=1)]
    if len(Y) == 0:
        return 0.0
    axes = [np.unique(np.r_[Y[:, k], ref[k]]) for k in range(len(ref))]
    widths = [np.diff(a) for a in axes]
    covered = np.zeros([len(w) for w in widths], dtype=bool)
    for y in Y:
        sl = tuple(slice(int(np.searchsorted(axes[k], y[k])), None) for k in range(len(ref)))
        covered[sl] = True
    vol = covered.astype(float)
    for w in reversed(widths):
        vol = vol @ w if vol.ndim > 0 else vol
    return float(vol)


def exact_derivatives(Y, ref, hessian=True):
    """Value, gradient (N,m) and Hessian (N*m,N*m) of the hypervolume at points in general position
    that strictly dominate `ref`, by inclusion-exclusion (exact for integers in float64)."""
    Y = np.asarray(Y, float)
    ref = np.asarray(ref, float)
    N, m = Y.shape
    val = 0.0
    grad = np.zeros((N, m))
    H = np.zeros((N * m, N * m))
    for size in range(1, N + 1):
        sign = 1.0 if size % 2 == 1 else -1.0
        for S in itertools.combinations(range(N), size):
            S = np.array(S)
            a = S[np.argmax(Y[S], axis=0)]  # the point that sets the lower corner on each axis
            e = ref - Y[a, np.arange(m)]
            val += sign * np.prod(e)
            for k in range(m):
                ek = np.prod(np.delete(e, k))
                grad[a[k], k] -= sign * ek
                if hessian:
                    for l in range(m):
                        if l != k:
                            H[a[k] * m + k, a[l] * m + l] += sign * np.prod(np.delete(e, [k, l]))
    return val, grad, H


def grid_derivatives(Y, ref, hessian=True):
    """Gradient (N,m) and Hessian (N*m,N*m) at points in general position that do not touch `ref`, read off the grid of
    all coordinates: faces of cells covered by one point only, edges of cells covered by one point or exactly two."""
    Y, ref = np.asarray(Y, float), np.asarray(ref, float)
    N, m = Y.shape
    grad, H = np.zeros((N, m)), np.zeros((N * m, N * m))
    rows = np.nonzero(np.all(Y < ref, axis=1))[0]
    A = Y[rows]
    axes = [np.r_[np.sort(A[:, k]), ref[k]] for k in range(m)]
    widths = [np.diff(a) for a in axes]
    pos = np.array([[int(np.searchsorted(axes[k], y[k])) for k in range(m)] for y in A]).reshape(-1, m)
    count = np.zeros([len(w) for w in widths], dtype=int)
    for p in pos:
        count[tuple(slice(i, None) for i in p)] += 1

    def measure(lower, fixed, n):
        """of the cells covered by exactly n points, at or above `lower`, on the fixed indices of some axes"""
        s = count[tuple(fixed[k] if k in fixed else slice(lower[k], None) for k in range(m))] == n
        v = s.astype(float)
        for k in reversed([k for k in range(m) if k not in fixed]):
            v = v @ widths[k][lower[k]:]
        return float(v)

    for a, i in enumerate(rows):
        for k in range(m):
            grad[i, k] = -measure(pos[a], {k: pos[a, k]}, 1)
            for l in range(m if hessian else 0):
                if l == k:
                    continue
                H[i * m + k, i * m + l] = measure(pos[a], {k: pos[a, k], l: pos[a, l]}, 1)
                for b, j in enumerate(rows):
                    if pos[b, k] < pos[a, k] and pos[a, l] < pos[b, l]:
                        h = -measure(np.maximum(pos[a], pos[b]), {k: pos[a, k], l: pos[b, l]}, 2)
                        H[i * m + k, j * m + l] = H[j * m + l, i * m + k] = h
    return grad, H


def nondominated_mask(Y):
    """rows not dominated by another row (duplicates do not dominate each other)"""
    Y = np.asarray(Y)
    le = np.all(Y[:, None, :] <= Y[None, :, :], axis=2)
    lt = np.any(Y[:, None, :] < Y[None, :, :], axis=2)
    return ~np.any(le & lt, axis=0)


def peel(Y):
    """front index of every row by iterated removal of the nondominated rows"""
    Y = np.asarray(Y)
    front = np.full(len(Y), -1)
    left = np.arange(len(Y))
    k = 0
    while len(left):
        nd = nondominated_mask(Y[left])
        front[left[nd]] = k
        left = left[~nd]
        k += 1
    return front


def perms(n):
    return list(itertools.permutations(range(n)))
