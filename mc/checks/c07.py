"""C07: the backtracking line search accepts the largest halving that decreases the residual.

The merit function is the environment: every answer sequence it can give (enough decrease / too little /
none / increase / NaN / inf at each attempt) is enumerated, for every step bound and residual scale."""
import itertools

import numpy as np

from hvd.line_search import backtracking_line_search
from mc.core import Result

PROPERTY = "C07"
RULE = ("Every sequence of merit answers {0, half, just enough, just too little, equal, twice, NaN, inf} until the first acceptance "
        "(complete tree of six attempts) x step bounds x residual shapes and scales, plus merit functions of the step "
        "(descending, ascending, valley of every width) evaluated in closed loop.")
ASSUMPTIONS = ["sufficient decrease is 1e-5 times the step; acceptance is probed at 1e-4 and 1e-6 times the step"]

# "+" / "-" : a decrease slightly above / below the sufficient one (1e-5 times the step), 1e-4 resp. 1e-6 times the step
GOOD = [0.0, 0.5, "+"]
BAD = ["-", 1.0, 2.0, float("nan"), float("inf")]
TRIES = 6


def reference(answers, smax):
    """smallest number of halvings with an accepted answer"""
    for k, a in enumerate(answers):
        if a in GOOD:
            return smax / 2**k, k + 1
    return None, len(answers)


def s_tree(first, smaxes, scales):
    res = Result()
    seqs = []
    if first in GOOD:
        seqs = [[first]]
    else:
        for n in range(0, TRIES - 1):
            for mid in itertools.product(BAD, repeat=n):
                for g in GOOD:
                    seqs.append([first, *mid, g])
        seqs += [[first, *m] for m in itertools.product(BAD, repeat=TRIES - 1)]
    for seq in seqs:
        exp, ncall = reference(seq, 1.0)
        for smax, (shape, scale) in itertools.product(smaxes, scales):
            R = np.full(shape, scale / np.sqrt(np.prod(shape)))
            keep = R.copy()
            phi0 = np.linalg.norm(R)
            calls = []

            def phi(a, calls=calls):
                calls.append(float(a))
                if len(calls) > len(seq):
                    calls.append("extra")
                    return 0.0
                v = seq[len(calls) - 1]
                return (1 - 1e-4 * a if v == "+" else 1 - 1e-6 * a if v == "-" else v) * phi0

            got = float(backtracking_line_search(R, phi, max_step_size=smax))
            res.state()
            res.call(len(calls))
            res.outcome(f"{got / smax:.3g}:{len(calls)}")
            ctx = dict(answers=[repr(a) for a in seq], max_step=smax, residual=scale, tried=calls)
            want = [smax / 2**k for k in range(ncall)]
            if len(calls) != len(want) or "extra" in calls or not np.allclose(calls, want, rtol=1e-12):
                res.fail("tries", f"steps tried {calls}, expected {want}", ctx)
            if exp is not None:
                if not np.isclose(got, exp * smax, rtol=1e-12):
                    res.fail("accepted", f"returned {got}, the first halving with sufficient decrease is {exp * smax}", ctx)
            elif not (0 < got <= smax / 2 ** (TRIES - 1) * (1 + 1e-12)):
                res.fail("exhausted", f"returned {got} after all attempts failed", ctx)
            if not np.array_equal(R, keep):
                res.fail("mutated", "residual modified", ctx)
            res.trace()
            if res.full:
                return res
    res.sample(dict(answers=[repr(a) for a in seqs[-1]], max_steps=smaxes))
    return res


def s_loop():
    """closed loop: residual r(s) of a known shape; the accepted step is the first halving inside the good region"""
    res = Result()
    for smax in (1, 1.0, 0.75, 0.3, 1e-2, 1e-6):
        for num in range(1, 140):
            edge = num / 64.0  # decrease iff s < edge
            for shape in ((1,), (3, 2), (2, 5)):
                R = np.ones(shape)
                n0 = np.linalg.norm(R)
                seen = []

                def phi(s):
                    seen.append(s)
                    return n0 * (1 - 0.5 * s) if s < edge else n0 * (1 + s)

                got = float(backtracking_line_search(R, phi, max_step_size=smax))
                ks = [k for k in range(TRIES) if smax / 2**k < edge]
                res.state()
                res.call(len(seen))
                res.outcome(f"{got / smax:.4g}")
                if ks:
                    if not np.isclose(got, smax / 2 ** ks[0], rtol=1e-12):
                        res.fail("loop", f"bound {smax}, decrease for s < {edge}: returned {got}", [smax, edge])
                elif not 0 < got <= smax / 2 ** (TRIES - 1):
                    res.fail("loop", f"bound {smax}, decrease for s < {edge}: returned {got}", [smax, edge])
                res.trace()
    # residual at machine precision: the full step is taken after one evaluation whatever the merit says
    for smax, a, r in itertools.product((1.0, 0.5, 0.01), (0.0, 1.0, 1e3, float("nan")), (0.0, 2.2e-16, 1e-12)):
        calls = []

        def phi(s):
            calls.append(s)
            return a

        got = float(backtracking_line_search(np.array([[r, 0.0]]), phi, max_step_size=smax))
        res.state()
        if got != smax or len(calls) != 1:
            res.fail("converged", f"residual {r}: returned {got} after {len(calls)} evaluations, bound {smax}", [smax, repr(a), r])
    # default bound is the full step
    if float(backtracking_line_search(np.ones((2, 2)), lambda s: 0.1)) != 1:
        res.fail("default", "default step bound is not 1", None)
    return res


SCENARIOS = dict(tree=s_tree, loop=s_loop)


def plan(tier):
    yield "loop", {}
    smaxes = [1.0, 0.3] if tier == "quick" else [1.0, 0.75, 0.5, 0.3, 0.125, 1e-2, 1e-3, 1e-6]
    scales = [[(1,), 1.0], [(2, 3), 1e4]] if tier == "quick" else [[(1,), 1.0], [(2, 3), 1e-5], [(3, 1), 1e6], [(2, 2), 1e-2]]
    for f in GOOD + BAD[:3]:
        for sm in smaxes:
            yield "tree", dict(first=f, smaxes=[sm], scales=scales)
    for f in (float("nan"), float("inf")):
        for sm in smaxes:
            yield "tree", dict(first=f, smaxes=[sm], scales=scales)
