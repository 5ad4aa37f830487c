#!/usr/bin/env python3
"""catch.py [ids...]: run the check of its property (or with --all every check) against each planted bug, in a scratch copy."""
import os, sys, subprocess, json, shutil
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir("/verif/seeded"))
every = "--all" in sys.argv
for i in ids:
    d = f"/verif/seeded/{i}"
    prop = json.load(open(d + "/meta.json"))["property"]
    shutil.rmtree("/tmp/catch", ignore_errors=True)
    subprocess.run("cp -a /repo /tmp/catch/", shell=True, check=True)
    subprocess.run(["git", "-C", "/tmp/catch", "apply", d + "/patch.diff"], check=True)
    todo = [f"C{n:02d}" for n in range(1, 27)] if every else [prop]
    res = []
    for p in todo:
        # a copy of the machinery so that evidence and replays of /verif stay those of /repo
        subprocess.run("rm -rf /tmp/catchv; mkdir /tmp/catchv; cp -a /verif/mc /verif/check /verif/known_findings.txt /tmp/catchv/", shell=True, check=True)
        r = subprocess.run(["/tmp/catchv/check", p], env=dict(os.environ, QMAT_REPO="/tmp/catch"), text=True, capture_output=True, timeout=1500)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        first = next((l.strip() for l in r.stdout.splitlines() if l.startswith("   ")), "")
        if r.returncode != 0 or p == prop:
            res.append(f"{p}:rc={r.returncode},{len(v)}" + (f" [{first[:140]}]" if p == prop else ""))
        if r.returncode not in (0, 1):
            print(r.stdout[-1500:], r.stderr[-500:])
    print(i, "|", " ; ".join(res), flush=True)
shutil.rmtree("/tmp/catch", ignore_errors=True); shutil.rmtree("/tmp/catchv", ignore_errors=True)
