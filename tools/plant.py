#!/usr/bin/env python3
"""plant.py FILE.py [ids...]: confirm planted bugs in a scratch copy and keep them under /verif/seeded/<id>/.
FILE defines BUGS = {id: dict(property, edits=[(file, old, new)], demo=python text, needs, breaks)}.
Confirmed: applies, touches only original lines, existing tests pass, demo passes without and fails with the change."""
import os, sys, subprocess, json, shutil, runpy, xml.etree.ElementTree as ET
PY = "/opt/venv/bin/python"
SCR = "/tmp/plant"
BASE = "7461b1d"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MPLBACKEND="Agg")


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    ids = sys.argv[2:] or list(bugs)
    good = set(json.load(open("/opt/vp/BASELINE.json")).get("passing", [])) or None
    for i in ids:
        b = bugs[i]
        dst = f"/verif/seeded/{i}"
        if os.path.exists(dst + "/meta.json") and not sys.argv[2:]:
            continue
        shutil.rmtree(SCR, ignore_errors=True)
        sh(f"cp -a /repo {SCR}")
        ok = True
        for f, old, new in b["edits"]:
            p = f"{SCR}/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                print(i, "EDIT DOES NOT MATCH", s.count(old), old[:60]); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        diff = sh("git diff", cwd=SCR).stdout
        # removed lines must be original ones
        for f in {e[0] for e in b["edits"]}:
            blame = sh(f"git blame -s HEAD -- {f}", cwd=SCR).stdout.splitlines()
            d = sh(f"git diff -U0 -- {f}", cwd=SCR).stdout.splitlines()
            for l in d:
                if l.startswith("@@"):
                    a = l.split()[1][1:].split(",")
                    st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    for q in range(st - 1, st - 1 + n):
                        if not blame[q].lstrip("^").startswith(BASE) and blame[q].split(")", 1)[1].strip():
                            print(i, "touches an added line:", blame[q])
                            ok = False
        os.makedirs("/tmp/plantdemo", exist_ok=True)
        open("/tmp/plantdemo/demo.py", "w").write(b["demo"].strip() + "\n")
        demo = '#!/bin/bash\n# run in the repository; exit 0 when the property holds\nexport PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'
        open("/tmp/plantdemo/demo.sh", "w").write(demo)
        r0 = sh("timeout 250 bash /tmp/plantdemo/demo.sh", cwd="/repo", env=ENV)
        r1 = sh("timeout 250 bash /tmp/plantdemo/demo.sh", cwd=SCR, env=ENV)
        if r0.returncode != 0 or r1.returncode == 0:
            print(i, "DEMO", r0.returncode, r1.returncode, r0.stdout[-300:], r1.stdout[-300:])
            continue
        t = sh(f"{PY} -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --randomly-seed=1 --randomly-dont-reorganize -n 8 --junitxml=/tmp/plant.xml tests", cwd=SCR, env=dict(ENV, PYTHONPATH=SCR))
        fails = [c.get("classname") + "::" + c.get("name") for c in ET.parse("/tmp/plant.xml").iter("testcase") if c.find("failure") is not None or c.find("error") is not None]
        if fails:
            print(i, "TESTS FAIL", len(fails), fails[:4])
            continue
        if not ok:
            continue
        os.makedirs(dst, exist_ok=True)
        open(dst + "/patch.diff", "w").write(diff)
        shutil.copy("/tmp/plantdemo/demo.py", dst); shutil.copy("/tmp/plantdemo/demo.sh", dst)
        os.chmod(dst + "/demo.sh", 0o755)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(dst + "/meta.json", "w"), indent=1)
        print(i, "kept;", t.stdout.strip().splitlines()[-1], "| demo:", r1.stdout.strip().splitlines()[-1][:150] if r1.stdout.strip() else "")
    shutil.rmtree(SCR, ignore_errors=True)


main()
