"""C22: every module works when it is the first one imported, and all derivatives are in double precision whatever was imported before."""
import itertools
import json
import os
import subprocess
import sys

from mc.core import REPO, Result

PROPERTY = "C22"
RULE = ("Every module of the package as the first one imported x every prelude (nothing; jax imported; jax imported and used; the environment variable set to "
        "disable; a second module first), each history in a fresh interpreter, followed by probes of precision and of a derivative on the real code.")
ASSUMPTIONS = ["precision is probed by the default floating type of jax, and by Jacobians and Hessians of a problem and an indicator against central differences "
               "in double precision"]

PRELUDES = {
    "nothing": "",
    "jax imported": "import jax\n",
    "jax.numpy imported": "import jax.numpy as jnp\n",
    "jax used": "import jax, jax.numpy as jnp\n_ = jax.jit(lambda x: x * 2.0)(jnp.ones(3)).block_until_ready()\n",
    "disabled in the environment": "import os\nos.environ['JAX_ENABLE_X64'] = 'False'\n",
    "disabled, jax imported": "import os\nos.environ['JAX_ENABLE_X64'] = '0'\nimport jax\n",
}

PROBE = r'''
import json, sys
out = {}
try:
    import importlib
    importlib.import_module(FIRST)
    out["imported"] = True
    import jax, jax.numpy as jnp, numpy as np
    out["default"] = str(jnp.ones(1).dtype)
    out["array"] = str(jnp.asarray(np.ones(2)).dtype)
    if LEVEL:
        from hvd.problems import DTLZ2, ZDT1
        from hvd.mmd import MMD
        p = DTLZ2(n_var=4) if LEVEL == 1 else ZDT1(n_var=4)
        x = np.array([0.31, 0.57, 0.23, 0.71])
        J = np.asarray(p.objective_jacobian(x)); out["jac"] = str(J.dtype)
        h = 1e-5
        f = lambda z: np.asarray(p.objective(z), dtype=np.float64)
        D = np.stack([(f(x + h * e) - f(x - h * e)) / (2 * h) for e in np.eye(4)], axis=1)
        out["jac_error"] = float(np.max(np.abs(J - D)))
        R = np.asarray(p.objective_jacobian(x + 1e-9)) - J
        H = np.asarray(p.objective_hessian(x)); out["hess"] = str(H.dtype)
        out["fine"] = float(np.max(np.abs(R / 1e-9 - H.sum(axis=-1))) / max(1.0, np.max(np.abs(H))))
        Y = np.array([[0.3, 0.7], [0.6, 0.2]]); T = np.array([[0.1, 0.5], [0.5, 0.1]])
        m = MMD(2, 2, T, theta=1.0)
        a = float(m.compute(Y=Y)); b = float(m.compute(Y=Y + 1e-9))
        g = m._kernel_gradient(jnp.asarray(Y), jnp.asarray(T)) if hasattr(m, "_kernel_gradient") else None
        out["mmd"] = None if g is None else str(g.dtype)
        out["mmd_change"] = a - b
except BaseException as e:
    out["error"] = repr(e)
print("PROBE " + json.dumps(out))
'''


def modules():
    mods = []
    base = os.path.join(REPO, "hvd")
    for d, ds, fs in os.walk(base):
        ds[:] = sorted(x for x in ds if x != "__pycache__")
        for f in sorted(fs):
            if f.endswith(".py"):
                m = os.path.relpath(os.path.join(d, f), REPO)[:-3].replace(os.sep, ".")
                mods.append(m[: -len(".__init__")] if m.endswith(".__init__") else m)
    return mods


def child(prelude, first, level):
    env = {k: v for k, v in os.environ.items() if k not in ("JAX_ENABLE_X64",)}
    env.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu", MPLBACKEND="Agg")
    code = prelude + f"FIRST = {first!r}\nLEVEL = {level}\n" + PROBE
    p = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, env=env, timeout=300, cwd="/")
    lines = [l for l in p.stdout.splitlines() if l.startswith("PROBE ")]
    if not lines:
        return dict(error=f"interpreter ended with {p.returncode}: {p.stderr[-800:]}")
    return json.loads(lines[-1][6:])


def judge(res, out, ctx, level):
    if "error" in out:
        res.fail("import", f"failed: {out['error']}", ctx)
        return
    for k in ("default", "array"):
        if out[k] != "float64":
            res.fail("precision", f"{k} floating type is {out[k]}", ctx)
            return
    if level:
        if out["jac"] != "float64" or out["hess"] != "float64" or out["mmd"] not in (None, "float64"):
            res.fail("precision", f"derivative types {out['jac']}, {out['hess']}, {out['mmd']}", ctx)
        if out["jac_error"] > 1e-7 or out["fine"] > 1e-3:
            res.fail("precision:value", f"Jacobian error {out['jac_error']}, resolution of small differences {out['fine']}", ctx)
    res.outcome(json.dumps({k: v for k, v in out.items() if isinstance(v, (str, bool))}))


def s_first(preludes, mods, level):
    res = Result()
    for pre, m in itertools.product(preludes, mods):
        ctx = dict(before=pre, first=m)
        res.state()
        out = child(PRELUDES[pre], m, level)
        res.call()
        judge(res, out, ctx, level)
        res.trace()
        res.sample(dict(ctx, observed=out))
    return res


def s_pair(pairs):
    res = Result()
    for a, b in pairs:
        ctx = dict(order=[a, b])
        res.state()
        judge(res, child(f"import {a}\n", b, 0), ctx, 0)
        res.call()
        res.trace()
    return res


SCENARIOS = {"first": s_first, "pair": s_pair}


def plan(tier):
    th = tier == "thorough"
    mods = modules()
    items = [("first", dict(preludes=[p], mods=["hvd", "hvd.mmd", "hvd.problems"], level=1)) for p in PRELUDES]
    items += [("first", dict(preludes=["jax imported"], mods=[m], level=1 if th else 0)) for m in mods]
    items += [("first", dict(preludes=["nothing"], mods=mods[i::8], level=1 if th else 0)) for i in range(8)]
    if th:
        items += [("first", dict(preludes=[p], mods=mods[i::8], level=2)) for p in PRELUDES for i in range(8)]
        pairs = [(a, b) for a, b in itertools.permutations(mods, 2)]
        items += [("pair", dict(pairs=pairs[i::40])) for i in range(40)]
    return items
