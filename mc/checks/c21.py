"""C21: optimisers are isolated from each other and deterministic.

A run alone is the specification; every interleaving of two runs (at the granularity of iterations: all of them; at the
granularity of calls of the user's functions: all schedules with at most two preemptions, under a controlled scheduler),
every fault in the user's functions of a neighbour, shared inputs, budgets and verbosity histories are explored on the real code."""
import contextlib
import io
import itertools
import logging
import sys
import threading

import numpy as np

from hvd.delta_p import GenerationalDistance, InvertedGenerationalDistance
from hvd.gradient_based import Lara
from hvd.mmd_newton import MMDNewton
from hvd.newton import HVN, DpN
from hvd.reference_set import ReferenceSet
from mc.core import Result
from mc.toy import Cstr, Toy

PROPERTY = "C21"
RULE = ("Every ordered pair of optimiser kinds (hypervolume, generational distance / inverted / both, discrepancy matched and plain, steepest descent; "
        "constraint sets) x every interleaving of their constructions and iterations; every schedule with at most two preemptions at calls of the user's "
        "functions; every call position of a fault in a neighbour; shared input objects; every budget up to a bound (prefix property, run() against single steps, "
        "resumption, states of the global random generator); every history of verbose/quiet constructions.")
ASSUMPTIONS = ["the two optimisers do not share a ReferenceSet object", "compiled kernel derivatives of discrepancy optimisers with equal parameters are shared to "
               "save compilation time (they are pure functions)", "a thread switch happens only at calls of the user's functions"]
COMPILED = {}
PTS = [[(0.55, -0.13), (0.31, 0.42), (0.9, 0.15)], [(0.25, 0.33), (0.72, -0.31), (0.1, 0.6)]]
TARGETS = {2: [[(0.2, 0.1), (0.05, 0.35), (0.4, 0.0)], [(0.1, 0.2), (0.3, 0.05), (0.0, 0.5)]],
           3: [[(0.2, 0.1, 0.1), (0.05, 0.35, 0.2), (0.4, 0.0, 0.3)], [(0.1, 0.2, 0.3), (0.3, 0.05, 0.1), (0.0, 0.5, 0.2)]]}
KINDS = ["hv", "hv-h", "hv-g", "hv3", "hv-g+", "dp", "dp+", "gd-h", "igd-g", "mmdm", "mmdm-h+", "mmd", "lara", "lara3+"]  # +: methods of a problem object


def parts(kind):
    name, _, c = kind.rstrip("+").partition("-")
    m = 3 if name.endswith("3") else 2
    return name.rstrip("3"), m, c


class Counter(list):
    """shared by an object and its copies"""

    def __deepcopy__(self, memo):
        return self

    __copy__ = __deepcopy__


class Problem:
    """a user's problem object: functions of one point and of a batch, with a hook before every call"""

    def __init__(self, m, c, v, hook):
        self.toy, self.con, self.calls, self.hook = Toy(m, cubic=0.05 + 0.03 * v), Cstr(c), 0, hook
        self.toy.C = self.toy.C + 0.01 * v
        self.counter = Counter([self, 0])

    def _at(self, f, x):
        self.calls += 1
        if self is not self.counter[0]:
            self.counter[1] += 1  # called on a copy of the user's object
        if self.hook is not None:
            self.hook(self.calls)
        return np.stack([f(r) for r in x]) if np.ndim(x) == 2 else f(x)

    def objective(self, x):
        return self._at(self.toy.func, x)

    def objective_jacobian(self, x):
        return self._at(self.toy.jac, x)

    def objective_hessian(self, x):
        return self._at(self.toy.hess, x)

    def eq_constraint(self, x):
        return self._at(self.con.h, x)

    def eq_jacobian(self, x):
        return self._at(self.con.h_jac, x)

    def eq_hessian(self, x):
        return self._at(self.con.h_hess, x)

    def ieq_constraint(self, x):
        return self._at(self.con.g, x)

    def ieq_jacobian(self, x):
        return self._at(self.con.g_jac, x)

    def ieq_hessian(self, x):
        return self._at(self.con.g_hess, x)

    objective_batch, objective_jacobian_batch, objective_hessian_batch = objective, objective_jacobian, objective_hessian
    eq_constraint_batch, eq_jacobian_batch, eq_hessian_batch = eq_constraint, eq_jacobian, eq_hessian
    ieq_constraint_batch, ieq_jacobian_batch, ieq_hessian_batch = ieq_constraint, ieq_jacobian, ieq_hessian


class Hooked:
    """the functions a user passes in: plain functions, or methods of a problem object"""

    def __init__(self, m, c, v, hook, methods):
        p = self.problem = Problem(m, c, v, hook)
        give = (lambda f: f) if methods else (lambda f: lambda x: f(x))
        self.func, self.jac, self.hess = give(p.objective), give(p.objective_jacobian), give(p.objective_hessian)
        named = dict(h=p.eq_constraint, h_jac=p.eq_jacobian, h_hessian=p.eq_hessian, g=p.ieq_constraint, g_jac=p.ieq_jacobian, g_hessian=p.ieq_hessian)
        self.cs = {n: give(named[n]) for n in p.con.kwargs()}

    @property
    def calls(self):
        return self.problem.calls


def inputs(kind, v, n=2):
    """the objects a user passes in (fresh copies)"""
    name, m, c = parts(kind)
    T = np.array(TARGETS[m][v][:n])
    front = np.array(TARGETS[m][1 - v])
    return dict(X0=np.array(PTS[v][:n]), T=T, eta={0: -np.ones(m) / np.sqrt(m)}, nadir=np.array([9.0 + v] * m), xl=np.array([-1.0, -1.5]),
                xu=np.array([2.0, 1.5]), metrics=dict(GD=GenerationalDistance(front), IGD=InvertedGenerationalDistance(front)))


def build(kind, v, iters, hook=None, given=None, verbose=False, X0=None):
    name, m, c = parts(kind)
    p = Hooked(m, c, v, hook, kind.endswith("+"))
    u = given if given is not None else inputs(kind, v)
    X0 = u["X0"] if X0 is None else X0
    common = dict(xl=u["xl"], xu=u["xu"], max_iters=iters, verbose=verbose, metrics=u["metrics"])
    if name == "hv":
        o = HVN(2, m, p.func, p.jac, p.hess, u["nadir"], X0=X0, N=len(X0), preconditioning=v == 1, **common, **p.cs)
    elif name in ("dp", "gd", "igd"):
        typ = {"dp": "deltap", "gd": "gd", "igd": "igd"}[name]
        o = DpN(2, m, p.func, p.jac, p.hess, ReferenceSet(u["T"], eta=u["eta"]), x0=X0, N=len(X0), type=typ, preconditioning=v == 1, **common, **p.cs)
    elif name in ("mmd", "mmdm"):
        cs = {k: f for k, f in p.cs.items() if "hess" not in k}
        o = MMDNewton(2, m, p.func, p.jac, p.hess, ReferenceSet(u["T"], eta=u["eta"]), X0=X0, N=len(X0), matching=name == "mmdm",
                      preconditioning=v == 1, **common, **cs)
        key = (name, m, len(X0), getattr(o.indicator, "beta", None), getattr(o.indicator, "theta", None))
        names = [a for a in ("_kernel_gradient", "_kernel_hessian") if a in vars(o.indicator)]
        if key in COMPILED:
            for a in names:
                setattr(o.indicator, a, COMPILED[key].get(a, getattr(o.indicator, a)))
        else:
            COMPILED[key] = {a: getattr(o.indicator, a) for a in names}
    else:
        o = Lara(2, m, p.func, p.jac, X0=X0, N=len(X0), **common)
    o._probe = p
    return o


def step(o):
    next(getattr(o, a) for a in ("newton_iteration", "iterate", "iteration") if hasattr(o, a))()
    o.log()


def snapshot(o):
    X = np.asarray(o.state.X, float)
    out = dict(X=X.tolist(), Y=np.asarray(o.state.Y, float).tolist(), iterations=o.iter_count)
    for a in ("history_X", "history_Y", "history_R_norm", "history_indicator_value"):
        if hasattr(o, a):
            out[a] = [np.asarray(h, float).tolist() for h in getattr(o, a)]
    out["metrics"] = {k: [float(x) for x in h] for k, h in o.history_metrics.items()}
    if isinstance(o, (DpN, MMDNewton)):
        out["targets"] = np.asarray(o.ref.reference_set, float).tolist()
        out["medoids"] = {str(k): np.asarray(h, float).tolist() for k, h in sorted(o.history_medoids.items())}
    return out


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    try:
        a, b = np.asarray(a, float), np.asarray(b, float)
    except (ValueError, TypeError):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-11, equal_nan=True)


def differs(a, b):
    return [k for k in a if not same(a[k], b.get(k))]


ALONE = {}


def alone(kind, v, iters):
    """snapshots after construction and after every iteration of an undisturbed run"""
    key = (kind, v, iters)
    if key not in ALONE:
        o = build(kind, v, iters)
        seq = [snapshot(o)]
        for _ in range(iters):
            step(o)
            seq.append(snapshot(o))
        ALONE[key] = seq, o._probe.calls
    return ALONE[key]


# -- interleavings of iterations ---------------------------------------------------------------------------------------
def s_interleave(pairs, iters, shared):
    res = Result()
    for ka, kb in pairs:
        va, vb = 0, 1
        sa, sb = alone(ka, va, iters)[0], alone(kb, vb if not shared else va, iters)[0]
        if shared:
            vb = va
        n = iters + 1
        for pos in itertools.combinations(range(2 * n), n):
            given = inputs(ka, va) if shared else None
            keep = inputs(ka, va) if shared else None
            obj, cnt = [None, None], [0, 0]
            ctx = dict(first=ka, second=kb, order="".join("A" if i in pos else "B" for i in range(2 * n)), shared=shared)
            res.state()
            for i in range(2 * n):
                w = 0 if i in pos else 1
                kind, v, seq = ((ka, va, sa), (kb, vb, sb))[w]
                try:
                    if cnt[w] == 0:
                        obj[w] = build(kind, v, iters, given=given)
                    else:
                        step(obj[w])
                except Exception as e:  # noqa: BLE001
                    res.fail(f"interleave:{type(e).__name__}", f"optimiser {'AB'[w]} raised {e!r} at its step {cnt[w]}", ctx)
                    break
                res.call()
                bad = differs(seq[cnt[w]], snapshot(obj[w]))
                cnt[w] += 1
                if bad:
                    res.fail("interleave", f"optimiser {'AB'[w]} ({kind}) differs from its run alone after its step {cnt[w] - 1} in {bad}", ctx)
                    break
                other = obj[1 - w]
                if other is not None and differs(((ka, sa), (kb, sb))[1 - w][1][cnt[1 - w] - 1], snapshot(other)):
                    res.fail("interleave:passive", f"a step of optimiser {'AB'[w]} changed the other one", ctx)
                    break
            if shared:
                bad = [k for k in keep if k not in ("metrics", "eta") and not np.array_equal(keep[k], given[k])]
                if bad or not np.array_equal(keep["eta"][0], given["eta"][0]) or sorted(given["metrics"]) != sorted(keep["metrics"]):
                    res.fail("interleave:inputs", f"shared input objects were modified: {bad}", ctx)
            res.trace()
            if res.full:
                return res
        res.outcome(f"{ka} {kb}")
    return res


# -- schedules at the granularity of calls of the user's functions -----------------------------------------------------------
class Scheduler:
    """two threads of which exactly one runs; switches happen only at calls of the user's functions"""

    def __init__(self, bodies, plan):
        # plan: [(thread, calls to let it make before it is preempted, or None: until it ends)]
        self.go = [threading.Semaphore(0), threading.Semaphore(0)]
        self.back = threading.Semaphore(0)
        self.left = [0, 0]
        self.done = [False, False]
        self.error = [None, None]
        self.bodies = bodies
        self.plan = plan

    def hook(self, w):
        def h(_):
            if self.left[w] is not None:
                if self.left[w] == 0:
                    self.back.release()
                    self.go[w].acquire()
                if self.left[w] is not None:
                    self.left[w] -= 1

        return h

    def _body(self, w):
        self.go[w].acquire()
        try:
            self.bodies[w](self.hook(w))
        except BaseException as e:  # noqa: BLE001
            self.error[w] = e
        self.done[w] = True
        self.back.release()

    def run(self):
        ts = [threading.Thread(target=self._body, args=(w,), daemon=True) for w in (0, 1)]
        for t in ts:
            t.start()
        for w, k in self.plan + [(0, None), (1, None)]:
            if self.done[w]:
                continue
            self.left[w] = k
            self.go[w].release()
            self.back.acquire()
        for t in ts:
            t.join()


def s_schedule(ka, kb, iters, chunk=0, nchunks=1, stride=1):
    res = Result()
    (sa, na), (sb, nb) = alone(ka, 0, iters), alone(kb, 1, iters)
    plans = []
    for f, (n1, n2) in ((0, (na, nb)), (1, (nb, na))):
        for k1 in range(0, n1, stride):
            for k2 in list(range(0, n2, stride))[1:] + [None]:
                plans.append([(f, k1), (1 - f, k2)] + ([(f, None)] if k2 is not None else []))
    for q, plan in enumerate(plans):
        if q % nchunks != chunk:
            continue
        out = [None, None]

        def body(w):
            kind, v = ((ka, 0), (kb, 1))[w]

            def run(hook):
                o = build(kind, v, iters, hook=hook)
                for _ in range(iters):
                    step(o)
                out[w] = snapshot(o)

            return run

        s = Scheduler([body(0), body(1)], plan)
        s.run()
        res.state()
        res.call(2 * iters)
        res.trace()
        ctx = dict(first=ka, second=kb, schedule=plan)
        for w in (0, 1):
            if s.error[w] is not None:
                res.fail(f"schedule:{type(s.error[w]).__name__}", f"thread {'AB'[w]} raised {s.error[w]!r}", ctx)
            else:
                bad = differs((sa, sb)[w][-1], out[w])
                if bad:
                    res.fail("schedule", f"thread {'AB'[w]} ({(ka, kb)[w]}) differs from its run alone in {bad}", ctx)
        if res.full:
            break
    res.outcome(f"{ka} {kb} calls {na} {nb}")
    return res


# -- faults of a neighbour -----------------------------------------------------------------------------------------------
class Fault(Exception):
    pass


def s_fault(pairs, iters):
    """a neighbour whose user functions raise at the k-th call, for every k: later and surrounding runs are undisturbed"""
    res = Result()
    for ka, kb in pairs:
        sa, na = alone(ka, 0, iters)
        sb, _ = alone(kb, 1, iters)
        for k in range(1, na + 1):
            ctx = dict(failing=ka, neighbour=kb, call=k)

            def hook(i):
                if i == k:
                    raise Fault

            res.state()
            b = build(kb, 1, iters)  # constructed before, continued after the fault
            step(b)
            raised = False
            try:
                o = build(ka, 0, iters, hook=hook)
                for _ in range(iters):
                    step(o)
            except Fault:
                raised = True
            except Exception as e:  # noqa: BLE001
                res.fail(f"fault:{type(e).__name__}", f"the exception of the user's function was replaced by {e!r}", ctx)
                continue
            if not raised:
                res.fail("fault:swallowed", "the exception of the user's function was swallowed", ctx)
                continue
            for _ in range(iters - 1):
                step(b)
            o2 = build(ka, 0, iters)
            for _ in range(iters):
                step(o2)
            res.call(2 * iters)
            if differs(sb[-1], snapshot(b)):
                res.fail("fault:neighbour", "the neighbour differs from its run alone after the fault", ctx)
            if differs(sa[-1], snapshot(o2)):
                res.fail("fault:fresh", "a new optimiser after the fault differs from its run alone", ctx)
            res.trace()
            if res.full:
                return res
        res.outcome(f"{ka} {kb} {na}")
    return res


# -- budgets, resumption, randomness -----------------------------------------------------------------------------------
def s_budget(kinds, iters):
    res = Result()
    for kind, v in itertools.product(kinds, (0, 1)):
        seq = alone(kind, v, iters)[0]
        for b in range(iters + 1):
            for seed in (None, 0, 12345):
                ctx = dict(kind=kind, variant=v, budget=b, seed=seed)
                res.state()
                if seed is not None:
                    np.random.seed(seed)
                try:
                    o = build(kind, v, b)
                    out = o.run()
                except Exception as e:  # noqa: BLE001
                    res.fail(f"budget:{type(e).__name__}", f"raised {e!r}", ctx)
                    continue
                res.call(b)
                got = snapshot(o)
                k = got["iterations"]
                if k > b:
                    res.fail("budget:exceeded", f"{k} iterations for a budget of {b}", ctx)
                    continue
                bad = differs(seq[k], got)
                if bad:
                    res.fail("budget:prefix", f"run() with a budget of {b} differs from the first {k} single steps in {bad}", ctx)
                if not same(np.asarray(out[1]), got["Y"]) or not same(np.asarray(out[0]), np.array(got["X"])[:, :2]):
                    res.fail("budget:returned", "run() does not return the final population", ctx)
                # resume
                if k == b:
                    o.max_iters = iters
                    o.run()
                    k2 = o.iter_count
                    bad = differs(seq[k2], snapshot(o))
                    if bad:
                        res.fail("budget:resume", f"resumed at {b}, differs from the uninterrupted run after {k2} iterations in {bad}", ctx)
                n = o._probe.problem.counter[1]
                if n:
                    res.fail("budget:copied", f"{n} evaluations were made on copies of the user's problem object", ctx)
                res.trace()
        res.outcome(kind)
        if res.full:
            return res
    return res


# -- verbosity ----------------------------------------------------------------------------------------------------------
def s_verbose(kinds, length, cross):
    res = Result()
    seqs = itertools.product(itertools.product(kinds if cross else [None], (False, True)), repeat=length)
    names = [c.__name__ for c in (HVN, DpN, MMDNewton, Lara)]
    for seq in seqs:
        for base in ([None] if cross else kinds):
            hist = [(k or base, vb) for k, vb in seq]
            if cross and len({k for k, _ in hist}) < 2:
                continue
            for n in list(logging.root.manager.loggerDict):
                if any(n == c or n.startswith(c) for c in names):
                    logging.getLogger(n).handlers.clear()
            ctx = dict(history=hist)
            res.state()
            buf, objs, marks = io.StringIO(), [], []
            old = sys.stdout
            sys.stdout = buf
            try:
                for k, vb in hist:
                    a = len(buf.getvalue())
                    objs.append(build(k, 0, 2, verbose=vb))
                    marks.append((k, vb, "construction", len(buf.getvalue()) - a))
                for o, (k, vb) in zip(objs, hist):
                    for t in range(2):
                        a = len(buf.getvalue())
                        step(o)
                        marks.append((k, vb, f"iteration {t}", len(buf.getvalue()) - a))
            finally:
                sys.stdout = old
            res.call(len(marks))
            for k, vb, what, n in marks:
                if not vb and n:
                    res.fail("verbose:noise", f"{k} with verbose=False printed {n} characters during its {what}", ctx)
                if vb and not n and what != "construction":
                    res.fail("verbose:silent", f"{k} with verbose=True printed nothing during its {what}", ctx)
            res.trace()
            res.outcome(str([vb for _, vb in hist]))
            if res.full:
                return res
    return res


SCENARIOS = {"interleave": s_interleave, "schedule": s_schedule, "fault": s_fault, "budget": s_budget, "verbose": s_verbose}


def plan(tier):
    th = tier == "thorough"
    items = []
    for k in KINDS:
        items.append(("budget", dict(kinds=[k], iters=5 if th else 3)))
        items.append(("interleave", dict(pairs=[[k, k]], iters=3 if th else 2, shared=True)))
        items.append(("fault", dict(pairs=[[k, k]] + [[k, o] for o in ("hv-g", "dp", "mmdm", "lara") if o != k], iters=2)))
    for k in KINDS:
        others = KINDS
        items.append(("interleave", dict(pairs=[[k, o] for o in others], iters=3 if th else 2, shared=False)))
    same_class = {"hv": ["hv-h", "hv-g+", "hv3"], "dp+": ["gd-h", "igd-g"], "mmd": ["mmdm", "mmdm-h+"]}
    pairs = [(k, k) for k in KINDS] + [(a, b) for a, l in same_class.items() for b in l] + [("hv-g", "igd-g"), ("dp", "mmdm"), ("mmd", "dp"), ("lara", "hv")]
    if th:
        pairs = list(itertools.product(KINDS, repeat=2))
    for a, b in pairs:
        items.append(("schedule", dict(ka=a, kb=b, iters=2, stride=1 if th else 3)))
    items.append(("verbose", dict(kinds=["hv", "hv-g", "dp", "mmdm", "mmd", "lara"], length=3, cross=False)))
    items.append(("verbose", dict(kinds=["hv", "dp", "mmdm", "lara"], length=2, cross=True)))
    return items
