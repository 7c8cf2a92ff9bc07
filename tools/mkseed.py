#!/usr/bin/env python3
"""mkseed.py DEFS.py [ids...]: builds /verif/seeded/<id>/ from definitions and validates each in a scratch copy
(patched: stable tests pass, demo fails; unpatched: demo passes). DEFS.py defines SEEDS = [dict(id, property, edits=[(file,
old, new)], demo, needs, breaks)]."""
import json
import os
import runpy
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = "/verif/seeded"
ENV = dict(os.environ, HOME="/root", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", JAX_PLATFORMS="cpu",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO = '#!/bin/bash\ncd "${PWD}"\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg JAX_PLATFORMS=cpu PYTHONPATH="$PWD"\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def one(s):
    W = f"/tmp/seedw/{s['id']}"
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs("/tmp/seedw", exist_ok=True)
    shutil.copytree("/repo", W, symlinks=True)
    D = f"{V}/{s['id']}"
    try:
        os.makedirs(D, exist_ok=True)
        open(f"{D}/demo.py", "w").write(s["demo"].lstrip("\n"))
        open(f"{D}/demo.sh", "w").write(DEMO)
        os.chmod(f"{D}/demo.sh", 0o755)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(f"{D}/meta.json", "w"), indent=1)
        demo = lambda: subprocess.run(["bash", f"{D}/demo.sh"], cwd=W, env=ENV, capture_output=True, text=True, timeout=300)
        a = demo()
        if a.returncode != 0:
            return s["id"], "DEMO FAILS UNPATCHED", a.stderr[-600:]
        for f, old, new in s["edits"]:
            t = open(f"{W}/{f}").read()
            if t.count(old) != 1:
                return s["id"], f"old text occurs {t.count(old)} times", f
            open(f"{W}/{f}", "w").write(t.replace(old, new))
        d = subprocess.run(["git", "diff"], cwd=W, capture_output=True, text=True).stdout
        open(f"{D}/patch.diff", "w").write(d)
        b = demo()
        if b.returncode == 0:
            return s["id"], "DEMO PASSES PATCHED", ""
        j = f"/tmp/seedw/{s['id']}.xml"
        subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_seed", "--timeout=300",
                        "-o", "junit_family=xunit2", f"--junitxml={j}", "tests"], cwd=W, capture_output=True,
                       env=dict(ENV, PYTHONPATH=f"{W}:/opt/vp/pytest_plugins"))
        o = f"/tmp/seedw/{s['id']}.json"
        subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", o, f"junit:{j}"], capture_output=True)
        miss = STABLE - set(json.load(open(o))["passed"])
        if miss:
            return s["id"], f"TESTS CATCH IT ({len(miss)})", sorted(miss)[:3]
        return s["id"], "ok", (b.stderr.strip().splitlines() or [""])[-1][:160]
    finally:
        shutil.rmtree(W, ignore_errors=True)


if __name__ == "__main__":
    S = runpy.run_path(sys.argv[1])["SEEDS"]
    if sys.argv[2:]:
        S = [s for s in S if s["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, S):
            print(*r, flush=True)
            if r[1] != "ok":
                shutil.rmtree(f"{V}/{r[0]}", ignore_errors=True)
