#!/usr/bin/env python3
"""refac.py FILE GROUP|id [checks...]: apply behaviour-preserving edits to a scratch copy; run the tests and the checks there."""
import os, sys, subprocess, runpy, shutil
R = runpy.run_path(sys.argv[1])["R"]
sel = sys.argv[2]; checks = sys.argv[3:] or [f"C{n:02d}" for n in range(1, 27)]
D = f"/tmp/refac-{sel}"; V = f"/tmp/refacv-{sel}"
subprocess.run(["rm", "-rf", D, V], check=True)
subprocess.run(["cp", "-a", "/repo", D], check=True)
os.makedirs(V)
subprocess.run(f"cp -a /verif/mc /verif/check /verif/known_findings.txt {V}/", shell=True, check=True)
for i, (g, edits) in R.items():
    if g != sel and i != sel: continue
    for f, old, new in edits:
        s = open(f"{D}/{f}").read()
        if s.count(old) != 1:
            print(i, "NO MATCH", s.count(old), old[:70]); continue
        open(f"{D}/{f}", "w").write(s.replace(old, new))
env = dict(os.environ, PYTHONPATH=D, PYTHONDONTWRITEBYTECODE="1")
if "notests" not in checks:
    t = subprocess.run("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --continue-on-collection-errors -n 8 tests 2>&1 | tail -5", shell=True, cwd=D, env=env, text=True, capture_output=True)
    print(t.stdout, flush=True)
for p in checks:
    if p == "notests": continue
    r = subprocess.run([V + "/check", p], env=dict(os.environ, QMAT_REPO=D), text=True, capture_output=True)
    print(sel, p, r.returncode, flush=True)
    if r.returncode: print(r.stdout[-2500:], r.stderr[-500:], flush=True)
subprocess.run(["rm", "-rf", D, V])
