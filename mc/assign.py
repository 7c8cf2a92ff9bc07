"""The two best assignments of a square cost matrix: dynamic programming over subsets (exhaustive, no heuristics), for
larger matrices shortest augmenting paths and the least exchange cycle."""
import numpy as np


def _subsets(D):
    N = len(D)
    best = {0: [(0.0, ())]}
    for i in range(N):
        new = {}
        for mask, two in best.items():
            for j in range(N):
                if not mask >> j & 1:
                    new.setdefault(mask | 1 << j, []).extend((c + D[i][j], p + (j,)) for c, p in two)
        best = {k: sorted(v)[:2] for k, v in new.items()}
    return best[(1 << N) - 1]


def exchange(D, p):
    """least total change of the cost over the cycles of exchanges of an assignment (negative: it is not optimal)"""
    D, p = np.asarray(D, float), np.asarray(p)
    W = D[:, p] - D[np.arange(len(D)), p][:, None]  # row i takes over the column of row j
    np.fill_diagonal(W, np.inf)
    for k in range(len(W)):
        W = np.minimum(W, W[:, [k]] + W[[k]])
    return float(np.min(np.diag(W)))


def _paths(D):
    D = np.asarray(D, float)
    N = len(D)
    owner = [-1] * N  # column -> row
    for r in range(N):  # cheapest augmenting path (Bellman-Ford)
        d, back = D[r].copy(), [r] * N
        changed = True
        while changed:
            changed = False
            for j in range(N):
                if owner[j] >= 0:
                    i = owner[j]
                    n = d[j] - D[i, j] + D[i]
                    for q in np.nonzero(n < d - 1e-12)[0]:
                        d[q], back[q], changed = n[q], i, True
        j = min((q for q in range(N) if owner[q] < 0), key=lambda q: d[q])
        while True:
            i = back[j]
            j2 = owner.index(i) if i != r else None
            owner[j] = i
            if j2 is None:
                break
            j = j2
    p = [0] * N
    for j, i in enumerate(owner):
        p[i] = j
    return p


def two_best(D):
    """[(cost, columns)] of the (at most) two least assignments of the rows of the square matrix D; for more than nine rows
    the second entry carries the cost only"""
    if len(D) <= 9:
        return _subsets(D)
    p = _paths(D)
    c = float(sum(D[i][j] for i, j in enumerate(p)))
    e = exchange(D, p)
    assert e > -1e-9
    return [(c, tuple(p)), (c + e, None)]
