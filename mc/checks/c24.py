"""C24: stored runs are loaded as a consistent, row-aligned start (scripts/utils.py read_reference_set_data)."""
import itertools
import random
import shutil
import sys
import tempfile
from pathlib import Path

import numpy as np

from mc.core import REPO, Result

PROPERTY = "C24"
RULE = ("Every label sequence of up to 3-4 individuals (outliers, unused and surplus clusters) x every number (1-3) and size of the "
        "stored reference components x every pattern of present / missing / undefined shift directions, written to a scratch "
        "folder among decoys of other runs, loaded by the real code and compared with a direct reading of the rules.")
ASSUMPTIONS = ["stored runs have at least one individual that is no outlier and a file for every reference component",
               "the random subset of components of 3000 points or more is only required to be distinct members"]
NAME, ALG, RUN, GEN = "ZDT1", "NSGA-II", 3, 200


def loader():
    if str(REPO) not in sys.path:
        sys.path.insert(0, str(REPO))
    import matplotlib

    matplotlib.use("Agg")
    from scripts.utils import read_reference_set_data

    return read_reference_set_data


def write(path, a):
    a = np.atleast_2d(np.asarray(a))
    Path(path).write_text("\n".join(",".join(repr(v) if isinstance(v, float) else str(v) for v in row.tolist()) for row in a) + "\n")


def stem(d, run=RUN, alg=ALG):
    return f"{d}/{NAME}_{alg}_run_{run}_"


def store_reference(d, sizes, eta, run=RUN, alg=ALG, gen=GEN, off=0.0):
    """`eta`: per component "given", "missing" or "nan"; returns the components and directions"""
    s = stem(d, run, alg)
    K = len(sizes)
    write(f"{s}component_id_gen{gen}.csv", [[k + 1 for k in range(K) for _ in range(sizes[k])]])
    comps, etas = {}, {}
    for k in range(K):
        r = np.array([[off + k + 0.125 * i, off + 2.0 * k - 0.25 * i] for i in range(sizes[k])])
        write(s + (f"ref_gen{gen}.csv" if K == 1 else f"ref_{k + 1}_gen{gen}.csv"), r)
        comps[k] = r
        f = Path(f"{s}eta_{k + 1}_gen{gen}.csv")
        f.unlink(missing_ok=True)
        if eta[k] != "missing":
            e = np.array([-0.5 - k + off, -0.75 + k if eta[k] == "given" else np.nan])
            write(f, [e])
            etas[k] = e
    return comps, etas


def store_population(d, labels, run=RUN, alg=ALG, gen=GEN, off=0.0):
    s = stem(d, run, alg)
    N = len(labels)
    x = np.array([[off + 0.5 * i, 1.0 + i, -0.25 * i] for i in range(N)])
    y = np.array([[off + 3.0 + i, 7.0 - i] for i in range(N)])
    write(f"{s}lastpopu_x_gen{gen}.csv", x)
    write(f"{s}lastpopu_y_gen{gen}.csv", y)
    write(f"{s}lastpopu_labels_gen{gen}.csv", np.array(labels).reshape(-1, 1))
    return x, y


def rule(comps, etas, x, y, labels):
    """the stated rules, read literally"""
    keep = [i for i, l in enumerate(labels) if l >= 1]
    used = sorted({labels[i] for i in keep})
    groups = {l: [i for i in keep if labels[i] == l] for l in used}
    # shift directions: the preceding one replaces a missing one, unless there is none
    eta = {}
    for k in range(len(comps)):
        if eta is None:
            break
        if k in etas:
            eta[k] = etas[k]
        elif k - 1 in eta:
            eta[k] = eta[k - 1]
        else:
            eta = None
    if eta is not None and any(np.isnan(e).any() for e in eta.values()):
        eta = None
    if len(used) > len(comps) or max(len(g) for g in groups.values()) > min(len(c) for c in comps.values()):
        comps = {0: np.vstack([comps[k] for k in sorted(comps)])}
        eta = None
        keep = keep[: len(comps[0])]
        groups = {1: keep}
    pos = {i: p for p, i in enumerate(keep)}
    return comps, x[keep], y[keep], [[pos[i] for i in groups[l]] for l in sorted(groups)], eta


def judge(res, load, d, comps, etas, x, y, labels, ctx):
    res.state()
    res.call()
    try:
        ref, x0, y0, idx, eta = load(d, NAME, ALG, RUN, GEN)
    except Exception as e:
        return res.fail("raised", f"{type(e).__name__}: {e}", ctx)
    wref, wx, wy, widx, weta = rule(comps, etas, x, y, labels)
    res.trace()
    res.outcome((len(wref), len(wx), len(widx), weta is None))
    if not (np.array_equal(x0, wx) and np.array_equal(y0, wy)):
        res.fail("population", f"decisions {np.asarray(x0).tolist()} objectives {np.asarray(y0).tolist()}, expected {wx.tolist()} {wy.tolist()}", ctx)
    elif [list(map(int, g)) for g in idx] != widx:
        res.fail("clusters", f"{[list(map(int, g)) for g in idx]}, expected {widx}", ctx)
    if sorted(ref) != sorted(wref) or not all(np.array_equal(ref[k], wref[k]) for k in wref):
        res.fail("reference", f"components { {k: np.asarray(v).tolist() for k, v in ref.items()} }", ctx)
    if (eta is None) != (weta is None) or (eta is not None and (sorted(eta) != sorted(weta) or not all(np.array_equal(eta[k], weta[k]) for k in weta))):
        res.fail("direction", f"shift directions {eta}, expected {weta}", ctx)


def scratch():
    return tempfile.mkdtemp(prefix="c24-")


def s_labels(sizes, n, eta=None):
    """all label sequences of length n"""
    res = Result()
    load = loader()
    d = scratch()
    try:
        # decoys: other run, algorithm, generation
        for kw in (dict(run=RUN + 1), dict(run=33), dict(alg="MOEAD"), dict(gen=GEN + 1), dict(gen=20)):
            store_reference(d, (1, 1, 1, 1), ["given"] * 4, off=50.0, **kw)
            store_population(d, (1, 2, 3, 4, 1), off=50.0, **kw)
        eta = eta or ["given"] * len(sizes)
        comps, etas = store_reference(d, sizes, eta)
        for labels in itertools.product((-1, 0, 1, 2, 3)[: 4 + (len(sizes) > 1)], repeat=n):
            if max(labels) < 1:
                continue
            x, y = store_population(d, labels)
            judge(res, load, d, comps, etas, x, y, labels, dict(sizes=sizes, labels=labels, eta=eta))
            if res.full:
                break
    finally:
        shutil.rmtree(d)
    res.sample(dict(sizes=sizes, labels=labels))
    return res


def s_directions(K):
    """all patterns of present, missing and undefined shift directions; clusters that merge and that do not"""
    res = Result()
    load = loader()
    for eta in itertools.product(("given", "missing", "nan"), repeat=K):
        d = scratch()
        try:
            comps, etas = store_reference(d, (3, 2, 4)[:K], eta)
            for labels in ((1,), (1, 1, 0), tuple(range(1, K + 1)), (1, 1, 1, 1, 1), (K, -1, 1, K), (K + 1, 1) + tuple(range(1, K + 1))):
                x, y = store_population(d, labels)
                judge(res, load, d, comps, etas, x, y, labels, dict(K=K, eta=eta, labels=labels))
        finally:
            shutil.rmtree(d)
    return res


def s_large(sizes):
    """components around the limit of 3000 points"""
    res = Result()
    load = loader()
    d = scratch()
    try:
        comps, etas = store_reference(d, sizes, ["given"] * len(sizes))
        x, y = store_population(d, (1, 1, 0, 1))
        for seed in range(3):
            random.seed(seed)
            ref, x0, y0, idx, eta = load(d, NAME, ALG, RUN, GEN)
            res.state()
            res.call()
            for k, n in enumerate(sizes):
                a = np.asarray(ref[k])
                rows = {tuple(r) for r in a}
                if n < 3000 and not np.array_equal(a, comps[k]):
                    res.fail("reference", f"a component of {n} points is not the stored one", dict(sizes=sizes))
                if a.shape != (min(n, 3000), 2) or len(rows) != len(a) or not rows <= {tuple(r) for r in comps[k]}:
                    res.fail("sample", f"component of {n}: {a.shape}, {len(rows)} distinct", dict(sizes=sizes))
            if len(x0) != 3 or [list(map(int, g)) for g in idx] != [[0, 1, 2]]:
                res.fail("population", f"{x0.tolist()} {idx}", dict(sizes=sizes))
            res.trace()
            res.outcome(len(ref))
    finally:
        shutil.rmtree(d)
    return res


SCENARIOS = dict(labels=s_labels, directions=s_directions, large=s_large)


def plan(tier):
    th = tier == "thorough"
    for K in (1, 2, 3):
        yield "directions", dict(K=K)
        for sizes in itertools.product((1, 2, 4) if K == 1 or th else (1, 3), repeat=K):
            for n in (1, 2, 3) + ((4,) if th or K == 1 else ()):
                yield "labels", dict(sizes=sizes, n=n)
    for sizes in ((2999,), (3000,), (3001,), (3002, 4)):
        yield "large", dict(sizes=sizes)
