#!/opt/venv/bin/python
"""run.py PROP [--tier quick|thorough] [--replay FILE] [--only scenario,..]"""
import argparse
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
if sys.path[1:] and os.path.abspath(sys.path[1]) == HERE:
    del sys.path[1]
from mc import core  # noqa: E402

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--item")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--budget", type=float)
    a = ap.parse_args()
    changed = any(os.environ.get(k) != v for k, v in core.ENV.items())
    if changed and not os.environ.get("MC_REEXEC"):
        env = dict(os.environ, **core.ENV, MC_REEXEC="1", HOME=os.environ.get("HOME", "/root"))
        env["PYTHONPATH"] = core.REPO
        os.execve("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.abspath(__file__)] + sys.argv[1:], env)
    if a.prop == "SELFTEST":
        core.setup_paths()
        import glob
        import hvd  # noqa: F401
        mods = sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(os.path.join(HERE, "checks", "c*.py")))
        for m in mods:
            mod = core.load(m)
            n = [len(list(mod.plan(t))) for t in ("quick", "thorough")]
            print(m, "scenarios", len(mod.SCENARIOS), "work items quick/thorough", n)
        sys.exit(0)
    if a.item:
        name, args = json.loads(a.item)
        print("RESULT " + json.dumps(core.run_item(a.prop, name, args)))
        sys.exit(0)
    if a.replay:
        with open(a.replay) as f:
            v = json.load(f)
        r = core.run_item(v["property"], v["scenario"], v["args"])
        hits = [x for x in r["violations"] if x["key"] == v["key"]] or r["violations"]
        for x in hits[:3]:
            print(x["key"], x["message"], json.dumps(x["case"]), sep="\n")
        print("reproduced" if hits else "not reproduced on the current tree")
        sys.exit(1 if hits else 0)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.exit(core.main_run(a.prop, a.tier, seed, jobs=a.jobs, budget=a.budget, only=a.only and a.only.split(",")))
