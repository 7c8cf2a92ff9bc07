#!/usr/bin/env python3
"""catch.py [seed ids...]: which planted bugs does the quick check of their property catch? (scratch copies, one at a time)"""
import glob, json, os, shutil, subprocess, sys, time
ids = sys.argv[1:] or sorted(os.path.basename(d) for d in glob.glob("/verif/seeded/*"))
for i in ids:
    D = f"/verif/seeded/{i}"
    p = json.load(open(f"{D}/meta.json"))["property"]
    W = f"/tmp/catchw/{i}"
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs("/tmp/catchw", exist_ok=True)
    shutil.copytree("/repo", W, symlinks=True)
    r = subprocess.run(["git", "apply", f"{D}/patch.diff"], cwd=W, capture_output=True, text=True)
    if r.returncode:
        print(i, p, "PATCH DOES NOT APPLY", r.stderr[:200]); continue
    t = time.time()
    r = subprocess.run(["/opt/venv/bin/python", "mc/run.py", p, "--tier", "quick"], cwd="/verif", env=dict(os.environ, HVD_REPO=W), capture_output=True, text=True)
    hit = f"VIOLATION property={p}" in r.stdout
    why = [l.strip() for l in r.stdout.splitlines() if l.startswith("   [")]
    J = "/verif/tools/caught.json"
    book = json.load(open(J)) if os.path.exists(J) else {}
    book[i] = (p + ": " + why[0].split("]")[0].strip(" [") if why else p) if hit and r.returncode == 1 else "missed"
    json.dump(dict(sorted(book.items())), open(J, "w"), indent=1)
    print(i, p, "CAUGHT" if hit and r.returncode == 1 else f"MISSED rc={r.returncode}", f"{time.time()-t:.0f}s", why[0][:110] if why else "", flush=True)
    shutil.rmtree(W, ignore_errors=True)
