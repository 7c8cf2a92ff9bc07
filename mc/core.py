"""Shared machinery of the bounded model checker.

A check module (mc/checks/cXX.py) defines

    PROPERTY    = "C01"
    SCENARIOS   = {name: function(**args) -> Result}
    plan(tier)  -> list of (scenario name, args dict); args must be JSON-serialisable
    RULE / ASSUMPTIONS : texts that go to the evidence file

Every scenario enumerates *completely* the finite space its arguments describe, driving the real code
imported from /repo, and compares each state it reaches with an independent reference.  The runner
distributes the work items over processes (order of the plan = order of reporting, simplest first),
merges the counters, filters the known findings, writes a replayable artefact per violation and the
evidence file.
"""
from __future__ import annotations

import hashlib
import importlib
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HVD_REPO", "/repo")

ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "MPLBACKEND": "Agg",
    "JAX_PLATFORMS": "cpu",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
    "TF_CPP_MIN_LOG_LEVEL": "3",
    "PYTHONWARNINGS": "ignore",
}


class Violation(Exception):
    """raised by helpers inside a scenario; caught per case"""


class Result:
    """Counters of one work item."""

    MAX_VIOL = 5

    def __init__(self):
        self.states = 0  # distinct inputs / object states whose property was evaluated
        self.transitions = 0  # calls of real code that move from one state to the next / produce an answer
        self.traces = 0  # complete executions replayed on the real code and compared with the reference
        self.outcomes: set = set()  # distinct observed outcomes (vacuity indicator)
        self.samples: list = []
        self.violations: list = []
        self.n_violations = 0
        self.skipped = 0  # inputs outside the stated domain
        self.capped = False

    # -- recording ------------------------------------------------------------------------------------
    def state(self, n=1):
        self.states += n

    def call(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, o):
        if len(self.outcomes) < 2000:
            self.outcomes.add(o if isinstance(o, str) else repr(o))

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def fail(self, key, message, case=None):
        """key identifies the failing site/input family (used to match known findings)."""
        self.n_violations += 1
        if sum(v["key"] == key for v in self.violations) < self.MAX_VIOL:
            self.violations.append({"key": key, "message": str(message)[:2000], "case": jsonable(case)})

    @property
    def full(self):
        return self.n_violations > 200

    def dump(self):
        return dict(
            states=self.states,
            transitions=self.transitions,
            traces=self.traces,
            outcomes=sorted(self.outcomes),
            samples=jsonable(self.samples),
            violations=self.violations,
            n_violations=self.n_violations,
            skipped=self.skipped,
            capped=self.capped,
        )


def jsonable(o):
    import numpy as np

    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating, float)):
        f = float(o)
        return f if f == f and abs(f) != float("inf") else repr(f)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, (str, int, bool)) or o is None:
        return o
    return repr(o)


def setup_paths():
    for p in (os.path.join(VERIF, "mc"), REPO):
        if p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, REPO)
    sys.path.insert(0, VERIF)


def load(prop):
    setup_paths()
    return importlib.import_module(f"mc.checks.{prop.lower()}")


def run_item(prop, name, args):
    """Executed in a worker."""
    t0 = time.time()
    cwd = os.getcwd()
    try:
        mod = load(prop)
        import warnings

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res = mod.SCENARIOS[name](**args)
        out = res.dump()
    except BaseException as e:  # the code under test (or the harness) blew up on a legal input
        if isinstance(e, (KeyboardInterrupt, SystemExit)) and not isinstance(e, SystemExit):
            raise
        r = Result()
        r.fail(f"{name}:exception:{type(e).__name__}", traceback.format_exc()[-1800:], args)
        out = r.dump()
    finally:
        if os.getcwd() != cwd:
            os.chdir(cwd)
    out["wall"] = time.time() - t0
    return out


def known_findings(prop):
    path = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [e for e in data.get("findings", []) if e["property"] == prop]


def main_run(prop, tier, seed, jobs=None, budget=None, only=None):
    from concurrent.futures import ProcessPoolExecutor
    import multiprocessing as mp

    t0 = time.time()
    mod = load(prop)
    items = list(mod.plan(tier))
    if only:
        items = [(n, a) for n, a in items if n in only]
    jobs = jobs or min(os.cpu_count() or 1, 8, max(1, len(items)))
    results = [None] * len(items)
    capped = False
    ctx = mp.get_context("spawn")
    exe = ProcessPoolExecutor(max_workers=jobs, mp_context=ctx)
    pool_err = None
    try:
        futs = {}
        # a window keeps the submission order = simplest first and allows a budget cut
        from concurrent.futures import wait, FIRST_COMPLETED

        it = iter(enumerate(items))
        done_iter = False
        pending = set()
        while True:
            while not done_iter and len(pending) < 2 * jobs:
                if budget and time.time() - t0 > budget:
                    capped = True
                    done_iter = True
                    break
                try:
                    i, (n, a) = next(it)
                except StopIteration:
                    done_iter = True
                    break
                f = exe.submit(run_item, prop, n, a)
                futs[f] = i
                pending.add(f)
            if not pending:
                break
            done, pending = wait(pending, return_when=FIRST_COMPLETED)
            for f in done:
                results[futs[f]] = f.result()
    except Exception as e:  # a worker died (crash of the interpreter, OOM): fall back to isolated runs
        pool_err = e
    finally:
        exe.shutdown(wait=pool_err is None, cancel_futures=True)
    if pool_err is not None:
        import subprocess

        for i, (n, a) in enumerate(items):
            if results[i] is None:
                p = subprocess.run(
                    [sys.executable, os.path.join(VERIF, "mc", "run.py"), prop, "--item", json.dumps([n, a])],
                    capture_output=True,
                    text=True,
                )
                lines = [l for l in p.stdout.splitlines() if l.startswith("RESULT ")]
                if lines:
                    results[i] = json.loads(lines[-1][7:])
                else:
                    r = Result()
                    r.fail(f"{n}:worker-died", f"worker exited {p.returncode}: {p.stderr[-1500:]}", a)
                    results[i] = r.dump()
    total = dict(states=0, transitions=0, traces=0, n_violations=0, skipped=0)
    outcomes, samples, viols, per = set(), [], [], {}
    for (n, a), r in zip(items, results):
        if r is None:
            continue
        for k in total:
            total[k] += r[k]
        capped |= r["capped"]
        outcomes.update(f"{n}:{o}" for o in r["outcomes"])
        p = per.setdefault(n, dict(items=0, states=0, transitions=0, traces=0, outcomes=set(), wall=0.0))
        p["items"] += 1
        for k in ("states", "transitions", "traces"):
            p[k] += r[k]
        p["outcomes"].update(r["outcomes"])
        p["wall"] += r.get("wall", 0)
        if p["items"] == 1 and r["samples"]:
            samples.append({"scenario": n, "case": r["samples"][0]})
        for v in r["violations"]:
            viols.append(dict(v, scenario=n, args=a))
    known = known_findings(prop)
    kn_hits, fresh = {}, []
    for v in viols:
        m = next((e for e in known if e["key"] == v["key"]), None)
        if m is not None:
            kn_hits.setdefault(m["key"], m)
        else:
            fresh.append(v)
    for e in kn_hits.values():
        print(f"KNOWN-FINDING: property={prop} {e['what']}")
    rdir = os.path.join(VERIF, "replays", prop)
    printed, seen = 0, {}
    for v in fresh:
        seen[v["key"]] = seen.get(v["key"], 0) + 1
        if seen[v["key"]] > 2 or printed >= 12:
            continue
        os.makedirs(rdir, exist_ok=True)
        h = hashlib.sha1(json.dumps([v["key"], v["case"], v["args"]], sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(rdir, f"{h}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, **v, replay=f"/opt/venv/bin/python /verif/mc/run.py {prop} --replay {path}"), f, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"   [{v['scenario']}] {v['key']}: {v['message'][-700:]}")
        if v["case"] is not None:
            print(f"   case: {json.dumps(v['case'])[:600]}")
        printed += 1
    wall = time.time() - t0
    if not only:
        ev = dict(
            property=prop,
            tier=tier,
            seed=int(seed),
            level="model_checking",
            coverage=dict(
                states=total["states"],
                transitions=total["transitions"],
                traces_validated_against_impl=total["traces"],
                samples=samples[:12],
                exhaustive=not capped,
                rule=getattr(mod, "RULE", ""),
                distinct_outcomes=len(outcomes),
                out_of_domain_skipped=total["skipped"],
                work_items=len([r for r in results if r is not None]),
                per_scenario={
                    n: dict(
                        items=p["items"],
                        states=p["states"],
                        transitions=p["transitions"],
                        traces=p["traces"],
                        distinct_outcomes=len(p["outcomes"]),
                        cpu_s=round(p["wall"], 1),
                    )
                    for n, p in per.items()
                },
            ),
            assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
            wall_s=round(wall, 2),
            violations=len(fresh),
        )
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    for n, p in per.items():
        print(
            f"{prop} {n}: items={p['items']} states={p['states']} transitions={p['transitions']} "
            f"traces={p['traces']} outcomes={len(p['outcomes'])} cpu={p['wall']:.1f}s"
        )
    print(
        f"{prop} tier={tier} states={total['states']} transitions={total['transitions']} traces={total['traces']} "
        f"outcomes={len(outcomes)} skipped={total['skipped']} violations={len(fresh)} known={len(kn_hits)} "
        f"exhaustive={not capped} wall={wall:.1f}s"
    )
    return 1 if fresh else 0
