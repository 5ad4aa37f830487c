#!/usr/bin/env python3
"""mutcheck.py IN.jsonl OUT.jsonl: runs the checks on the mutants that the existing tests let pass, until one catches it."""
import os, sys, subprocess, json
MAP = {"lagrange.py": "C14 C15 C16 C23 C25 C01 C24", "nodes.py": "C01 C02 C10 C25", "qcoeff/__init__.py": "C07 C18 C06 C20 C24 C21", "qcoeff/collocation.py": "C02 C03 C01 C07 C10 C20 C06",
       "qdelta/__init__.py": "C09 C10 C20 C08 C25 C24", "qdelta/algebraic.py": "C12 C23 C08", "qdelta/diag.py": "C13 C10 C09 C08 C25 C24", "qdelta/mincoeffs.py": "C13 C10 C20", "qdelta/timestepping.py": "C11 C10 C25 C08",
       "utils/__init__.py": "C20 C10 C23 C21", "utils/num.py": "C23 C12 C19", "utils/sdc.py": "C17 C26 C19 C25", "__init__.py": "C20 C10"}
done = {(r["file"], r["line"], r["d"]) for r in map(json.loads, open(sys.argv[2]))} if os.path.exists(sys.argv[2]) else set()
D, V = "/tmp/mutrepo", "/tmp/mutverif"
subprocess.run(["rm", "-rf", "/tmp/mutrepo", "/tmp/mutverif"]); subprocess.run(["cp", "-a", "/repo", D]); os.makedirs(V)
subprocess.run(f"cp -a /verif/mc /verif/check /verif/known_findings.txt {V}/", shell=True, check=True)
for m in [json.loads(l) for l in open(sys.argv[1])]:
    if not m["alive"] or (m["file"], m["line"], m["d"]) in done or "print(" in m["d"]: continue
    p = f"{D}/qmat/{m['file']}"
    orig = open(f"/repo/qmat/{m['file']}").read()
    open(p, "w").write(m["src"])
    res = ""
    for c in MAP[m["file"]].split():
        try:
            r = subprocess.run([V + "/check", c], env=dict(os.environ, QMAT_REPO=D, VERIF_TIER="quick"), text=True, capture_output=True, timeout=600)
            if r.returncode:
                v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
                res = f"{c} rc={r.returncode} {len(v)} {(r.stdout + r.stderr)[-150:] if not v else ''}"; break
        except subprocess.TimeoutExpired:
            res = f"{c} timeout"; break
    open(p, "w").write(orig)
    print("CAUGHT" if res else "MISSED", m["file"], m["line"], m["d"][:150], "|", res, flush=True)
    open(sys.argv[2], "a").write(json.dumps(dict(file=m["file"], line=m["line"], d=m["d"], res=res)) + "\n")
subprocess.run(["rm", "-rf", "/tmp/mutrepo", "/tmp/mutverif"])
