#!/usr/bin/env python3
"""mutate.py OUT.jsonl [stride offset]: systematic single-site mutants of /repo (not the Butcher tables); records those the existing tests let pass."""
import ast, random, os, sys, subprocess, json, copy, shutil
from concurrent.futures import ThreadPoolExecutor
FILES = ["lagrange.py", "nodes.py", "qcoeff/__init__.py", "qcoeff/collocation.py", "qdelta/__init__.py", "qdelta/algebraic.py", "qdelta/diag.py",
         "qdelta/mincoeffs.py", "qdelta/timestepping.py", "utils/__init__.py", "utils/num.py", "utils/sdc.py", "__init__.py"]
OUT = sys.argv[1]; STRIDE, OFF = (int(v) for v in (sys.argv[2:4] or (1, 0)))
W = int(os.environ.get("W", "6"))
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv, ast.MatMult: ast.Mult}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def mutants(src):
    base = ast.parse(src)
    T = (ast.BinOp, ast.AugAssign, ast.Compare, ast.BoolOp, ast.Constant, ast.UnaryOp, ast.If, ast.IfExp, ast.Call, ast.Assign, ast.Assert, ast.Raise, ast.Expr)
    for i, b in enumerate(ast.walk(base)):
        if not isinstance(b, T) or isinstance(b, ast.Constant) and type(b.value) not in (int, float, bool): continue
        for op in range(6):
            t = ast.parse(src)
            node = list(ast.walk(t))[i]
            d = None
            if isinstance(node, ast.BinOp) and op == 0 and type(node.op) in BIN:
                d = f"{ast.unparse(node)}"; node.op = BIN[type(node.op)](); d += " -> " + ast.unparse(node)
            elif isinstance(node, ast.AugAssign) and op == 0 and type(node.op) in BIN:
                d = f"{ast.unparse(node)}"; node.op = BIN[type(node.op)](); d += " -> " + ast.unparse(node)
            elif isinstance(node, ast.Compare) and op == 0:
                d = f"{ast.unparse(node)}"; node.ops[0] = CMP[type(node.ops[0])](); d += " -> " + ast.unparse(node)
            elif isinstance(node, ast.BoolOp) and op == 0:
                d = f"{ast.unparse(node)}"; node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And(); d += " -> " + ast.unparse(node)
            elif isinstance(node, ast.Constant) and op < 2 and type(node.value) in (int, float, bool):
                d = f"{node.value} -> "; v = node.value
                node.value = (not v) if isinstance(v, bool) else v + (1 if op == 0 else -1)
                if isinstance(v, bool) and op: continue
                d += f"{node.value}"
            elif isinstance(node, ast.UnaryOp) and op == 0 and isinstance(node.op, (ast.USub, ast.Not)):
                d = f"{ast.unparse(node)}"; node.op = ast.UAdd() if isinstance(node.op, ast.USub) else ast.Not()
                if isinstance(node.op, ast.Not): node.operand = ast.UnaryOp(ast.Not(), node.operand)
                d += " -> " + ast.unparse(node)
            elif isinstance(node, ast.If) and op < 2:
                d = f"if {ast.unparse(node.test)} -> {bool(op)}"; node.test = ast.Constant(bool(op))
            elif isinstance(node, ast.IfExp) and op < 2:
                d = f"{ast.unparse(node)} -> {bool(op)}"; node.test = ast.Constant(bool(op))
            elif isinstance(node, ast.Call) and op == 2 and node.keywords:
                d = f"{ast.unparse(node)}"; node.keywords.pop(); d += " -> " + ast.unparse(node)
            elif isinstance(node, ast.Call) and op == 3 and isinstance(node.func, ast.Attribute) and node.func.attr in ("copy", "conj", "ravel"):
                d = f"{ast.unparse(node)} -> without call"
                for p in ast.walk(t):
                    for f, v in ast.iter_fields(p):
                        if v is node: setattr(p, f, node.func.value)
                        elif isinstance(v, list) and node in v: v[v.index(node)] = node.func.value
            elif isinstance(node, (ast.Assign, ast.AugAssign, ast.Assert, ast.Raise)) or isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
                if op != 5: continue
                d = f"removed: {ast.unparse(node)[:100]}"
                line = node.lineno
                for p in ast.walk(t):
                    for f in ("body", "orelse", "handlers", "finalbody"):
                        v = getattr(p, f, None)
                        if isinstance(v, list) and node in v: v[v.index(node)] = ast.copy_location(ast.Pass(), node)
                yield line, d, t
                continue
            if d:
                yield getattr(node, "lineno", 0), d, t


def main():
    todo = []
    for f in FILES:
        src = open(f"/repo/qmat/{f}").read()
        seen = set()
        for line, d, t in mutants(src):
            s = ast.unparse(ast.fix_missing_locations(t))
            if s in seen: continue
            seen.add(s)
            if f == "utils/sdc.py" and line > 165: continue     # table of special cases for the tests
            todo.append((f, line, d, s))
    print(len(todo), "mutants", flush=True)
    random.Random(1).shuffle(todo)
    todo = todo[OFF::STRIDE]
    done = {(r["file"], r["line"], r["d"]) for r in map(json.loads, open(OUT))} if os.path.exists(OUT) else set()
    free = list(range(W))
    for w in free:
        subprocess.run(["rm", "-rf", f"/tmp/mut{w}"]); subprocess.run(["cp", "-a", "/repo", f"/tmp/mut{w}"])
    stable = set(json.load(open("/opt/vp/BASELINE.json")).get("passing", []))

    def one(m):
        f, line, d, s = m
        if (f, line, d) in done: return
        w = free.pop()
        D = f"/tmp/mut{w}"
        p = f"{D}/qmat/{f}"
        orig = open(f"/repo/qmat/{f}").read()
        try:
            open(p, "w").write(s)
            env = dict(os.environ, PYTHONPATH=D, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MPLBACKEND="Agg")
            try:
                r = subprocess.run("timeout 240 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --randomly-seed=1 --randomly-dont-reorganize tests 2>&1 | tail -3", shell=True, cwd=D, env=env, text=True, capture_output=True)
                out = r.stdout
            finally:
                open(p, "w").write(orig)
            last = out.strip().splitlines()[-1] if out.strip() else ""
            fails = int(last.split(" failed")[0].split()[-1]) if " failed" in last else 0
            err = "error" in last or "passed" not in last
            open(OUT, "a").write(json.dumps(dict(file=f, line=line, d=d, alive=not err and fails == 0, res=last, src=s if not err and fails == 0 else None)) + "\n")
        finally:
            free.append(w)
    with ThreadPoolExecutor(W) as ex: list(ex.map(one, todo))
    for w in range(W): subprocess.run(["rm", "-rf", f"/tmp/mut{w}"])


main()
