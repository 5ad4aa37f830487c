"""Run as a script in a fresh interpreter: executes histories of import statements, each in a forked copy of a process that never imported qmat.
Reads JSON (list of lists of statements) from stdin, writes the observations."""
import sys, os, json, importlib, hashlib, traceback

MODULES = ["qmat", "qmat.qcoeff", "qmat.qcoeff.butcher", "qmat.qcoeff.collocation", "qmat.qdelta", "qmat.qdelta.algebraic", "qmat.qdelta.diag", "qmat.qdelta.timestepping",
           "qmat.qdelta.mincoeffs", "qmat.lagrange", "qmat.nodes", "qmat.utils", "qmat.utils.num", "qmat.utils.sdc"]
STATEMENTS = [f"import {m}" for m in MODULES] + [f"from {m} import *" for m in ("qmat", "qmat.qcoeff", "qmat.qdelta", "qmat.utils", "qmat.qcoeff.butcher", "qmat.qdelta.diag", "qmat.lagrange")]
# what the documentation names
NAMES = {"qmat": ["genQCoeffs", "genQDeltaCoeffs", "Q_GENERATORS", "QDELTA_GENERATORS"], "qmat.qcoeff": ["genQCoeffs", "Q_GENERATORS", "QGenerator", "register"], "qmat.qdelta": ["genQDeltaCoeffs", "QDELTA_GENERATORS", "QDeltaGenerator", "register"],
         "qmat.lagrange": ["LagrangeApproximation"], "qmat.nodes": ["NodesGenerator"], "qmat.utils.num": ["numericalOrder"], "qmat.qcoeff.butcher": ["RK", "RK_SCHEMES"], "qmat.qcoeff.collocation": ["Collocation"]}


def observe(seq):
    import warnings
    warnings.simplefilter("ignore")
    out = {"errors": []}
    ns = {}
    for s in seq:
        try:
            exec(s, ns)
            if s.startswith("from "):
                m = sys.modules[s.split()[1]]
                miss = [n for n in getattr(m, "__all__", []) if not hasattr(m, n)]
                if miss:
                    out["errors"].append(f"{s}: {miss} announced but missing")
                miss = [n for n in NAMES.get(s.split()[1], []) if n not in ns and s.split()[1] in ("qmat",)]
                if miss:
                    out["errors"].append(f"{s}: does not give {miss}")
        except ModuleNotFoundError as e:
            if str(e.name) in MODULES[8:11] + MODULES[5:8] + MODULES[12:]:
                continue                      # reorganised package
            out["errors"].append(f"{s}: {type(e).__name__}: {e}")
        except BaseException as e:
            out["errors"].append(f"{s}: {type(e).__name__}: {e}")
    if out["errors"]:
        return out
    # from here on: the library as any program sees it afterwards
    import qmat
    from qmat import Q_GENERATORS as Q, QDELTA_GENERATORS as D
    qc, qd = importlib.import_module("qmat.qcoeff"), importlib.import_module("qmat.qdelta")
    bu = importlib.import_module("qmat.qcoeff.butcher")
    if Q is not qc.Q_GENERATORS or D is not qd.QDELTA_GENERATORS:
        out["errors"].append("two copies of a registry")
    out["registries"] = {r: {n: c.__name__ for n, c in d.items()} for r, d in (("Q", Q), ("RK", bu.RK_SCHEMES), ("D", D))}
    for r, d in (("Q", Q), ("RK", bu.RK_SCHEMES), ("D", D)):
        for n, c in d.items():
            m = sys.modules.get(c.__module__)
            if m is None or getattr(m, c.__name__, None) is not c:
                out["errors"].append(f"{r} {n} is not the class {c.__module__}.{c.__name__} of the loaded module")
    for n, c in bu.RK_SCHEMES.items():
        if Q.get(n) is not c:
            out["errors"].append(f"RK {n} is not the Q-generator {n}")
    for m, names in NAMES.items():
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError:
            continue
        miss = [n for n in names if not hasattr(mod, n)]
        if miss:
            out["errors"].append(f"{m}: {miss} missing")
    import numpy as np
    ans = []

    def put(*a):
        ans.append([np.round(np.asarray(x, dtype=float), 10).tolist() for x in a])
    put(*qmat.genQCoeffs("RK4")); put(*qmat.genQCoeffs("ESDIRK53", embedded=True, padding="LEFT"))
    put(*qmat.genQCoeffs("Collocation", nNodes=3, nodeType="LEGENDRE", quadType="RADAU-RIGHT"))
    for n in ("BE", "LU", "MIN-SR-S", "MIN-SR-FLEX", "Jumper", "TRAP"):
        put(qmat.genQDeltaCoeffs(n, nSweeps=2, qGen=Q["Collocation"](3, "LEGENDRE", "RADAU-RIGHT")))
    out["answers"] = ans
    return out


def main():
    repo = os.environ["QMAT_REPO"]
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent-qmat-verif-pycache"
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or ".") not in (os.path.realpath(repo), os.path.dirname(os.path.abspath(__file__)))]
    sys.path.insert(0, repo)
    import numpy, scipy.optimize, scipy.linalg, scipy.sparse, scipy.interpolate, scipy.special, warnings, inspect, pkgutil
    assert not any(m == "qmat" or m.startswith("qmat.") for m in sys.modules)
    seqs = json.load(sys.stdin)
    res = []
    for s in seqs:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            sys.stdout = open(os.devnull, "w")
            try:
                o = observe(s)
            except BaseException:
                o = {"errors": [traceback.format_exc()[-600:]]}
            data = json.dumps(o).encode()
            while data:
                data = data[os.write(w, data):]
            os._exit(0)
        os.close(w)
        buf = b""
        while True:
            c = os.read(r, 1 << 16)
            if not c:
                break
            buf += c
        os.close(r)
        os.waitpid(pid, 0)
        res.append(json.loads(buf or b'{"errors": ["died"]}'))
    sys.stdout.write(json.dumps(res))


if __name__ == "__main__":
    main()
