"""Objects of the library as data: how to build one, and what can be asked. Importable without qmat (restoring in a fresh process)."""
import sys, pickle
import numpy as np


def build(spec):
    kind = spec[0]
    if kind == "nodes":
        from qmat.nodes import NodesGenerator
        return NodesGenerator(spec[1], spec[2])
    if kind == "lagrange":
        from qmat.lagrange import LagrangeApproximation
        return LagrangeApproximation(list(spec[1]), **dict(spec[2]))
    if kind == "Q":
        from qmat import Q_GENERATORS
        return Q_GENERATORS[spec[1]](**dict(spec[2]))
    if kind == "QDelta":
        from qmat import QDELTA_GENERATORS, Q_GENERATORS
        return QDELTA_GENERATORS[spec[1]](qGen=Q_GENERATORS["Collocation"](*spec[2]))
    raise ValueError(kind)


T = (0.2, 0.75, 1.)
REQUESTS = {
    "nodes": [("call", "getNodes", (4,), ()), ("call", "getNodes", (2,), ()), ("call", "getNodes", (1,), ()), ("call", "getTridiagCoefficients", (3,), ()), ("get", "quadType"), ("get", "nodeType")],
    "lagrange": [("call", "getInterpolationMatrix", (T,), ()), ("call", "getInterpolationMatrix", (T,), (("duplicates", False),)), ("call", "getIntegrationMatrix", (((0, 1), (0.5, 0.25)),), ()), ("call", "getDerivativeMatrix", (), (("order", 2),)),
                 ("call", "getDerivativeMatrix", (), (("order", "BOTH"),)), ("get", "weights"), ("apply", (0.3, 0.6), True)],
    "Q": [("get", "nodes"), ("get", "weights"), ("get", "Q"), ("get", "S"), ("get", "hCoeffs"), ("get", "order"), ("get", "weightsEmbedded"), ("call", "genCoeffs", (), (("form", "N2N"), ("hCoeffs", True))), ("get", "rightIsNode"), ("call", "solveDahlquist", (-1, 1, 1, 2), ())],
    "QDelta": [("call", "getQDelta", (), ()), ("call", "getQDelta", (2,), ()), ("call", "getQDelta", (4,), ()), ("call", "getQDelta", (0,), ()), ("call", "genCoeffs", ((1, 2),), (("form", "N2N"), ("dTau", True))), ("get", "dTau"), ("get", "size")],
}


def ask(obj, req):
    """the answer (a copy of it), after which the caller has overwritten what it received"""
    try:
        if req[0] == "get":
            return freeze(getattr(obj, req[1]))        # attributes belong to the object
        elif req[0] == "apply":
            r = obj(np.array(req[1]), fValues=np.arange(1., 1 + len(obj.points)) ** 2)
        else:
            r = getattr(obj, req[1])(*[list(a) if isinstance(a, tuple) else a for a in req[2]], **dict(req[3]))
    except Exception as e:
        return ("RAISED", type(e).__name__)
    obs = freeze(r)
    spoil(r)
    return obs


def ruin(obj):
    """overwrite every array the object shows"""
    for a in ("nodes", "weights", "Q", "S", "T", "Tinv", "hCoeffs", "weightsEmbedded", "dTau", "A", "b", "c", "b2", "points", "uniquePoints", "fValues", "zeros"):
        try:
            spoil(getattr(obj, a))
        except Exception:
            pass


def freeze(r):
    if isinstance(r, np.ndarray):
        return np.array(r)
    if isinstance(r, (list, tuple)):
        return tuple(freeze(x) for x in r)
    if isinstance(r, np.generic):
        return r.item()
    return r


def spoil(r):
    if isinstance(r, np.ndarray):
        try:
            r[...] = -77.7
        except ValueError:
            pass
    elif isinstance(r, (list, tuple)):
        for x in r:
            spoil(x)


def restore():
    """in a process that never imported qmat: {key: (pickle, kind)} -> {key: answers}, each in its own forked copy of that process"""
    import os
    todo = pickle.load(sys.stdin.buffer)
    out = {}
    for key, (data, kind) in todo.items():
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                import warnings
                warnings.simplefilter("ignore")
                assert not any(m.split(".")[0] == "qmat" for m in sys.modules)
                obj = pickle.loads(data)
                res = [ask(obj, q) for q in REQUESTS[kind]]
            except Exception as e:
                res = ("RAISED", type(e).__name__, str(e)[:300])
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
            os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            buf = f.read()
        os.waitpid(pid, 0)
        out[key] = pickle.loads(buf) if buf else ("DIED",)
    sys.stdout.buffer.write(pickle.dumps(out))


if __name__ == "__main__":
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent-qmat-verif-pycache"
    sys.path.insert(0, sys.argv[1])
    import scipy.optimize, scipy.linalg, scipy.sparse, scipy.interpolate, scipy.special, json
    restore()
