"""C21 non-interference of public calls. A state is the complete Python-level state of the library and the ambient state of the process after
a history of calls; the caller overwrites all it received and all it gave. (1) every ordered pair (and chain) of calls, each in a forked copy of a
fresh process, every answer against the one of a fresh process; (2) breadth-first search over the states: when the search closes, histories of any
length over the alphabet are covered."""
import inspect, itertools, warnings, os, sys, subprocess
import numpy as np
from .. import exact as X, state as S
from ..core import *
from ..boot import REPO

PROPERTY = "C21"
BOUNDS = {"quick": "alphabet of 171 public calls (accepted and refused) over all modules; all ordered pairs; three permuted passes over the whole alphabet in one process; state space search until closed (cap 400 states); import of every module in a fresh interpreter; 58 calls with array-like arguments x all combinations of 13 forms of the arguments (memory layouts, write protection, lists, tuples, repeated and NaN entries, other types)",
          "thorough": "all ordered triples over a 44-call sub-alphabet, cap 4000 states, 40 permuted passes"}
ASSUMPTIONS = ["state outside Python objects (C libraries, lru cache contents) is seen only through its effect on later results",
               "rounding differences up to 1e-11 are not differences"]


def clean(r):
    """observation of a result; objects are observed through their public attributes"""
    if isinstance(r, (np.ndarray, np.generic)):
        return np.array(r)
    if hasattr(r, "toarray"):
        return ("sparse", np.array(r.toarray()))
    if isinstance(r, (list, tuple)):
        return type(r)(clean(x) for x in r)
    if isinstance(r, dict):
        return {k: clean(v) for k, v in r.items()}
    if isinstance(r, (str, int, float, complex, bool, type(None))):
        return r
    if isinstance(r, type):
        return ("class", r.__name__)
    out = {"type": type(r).__name__}
    for a in ("nodes", "weights", "Q", "S", "T", "Tinv", "hCoeffs", "weightsEmbedded", "order", "nNodes", "points", "uniquePoints", "dTau", "size", "zeros", "fValues"):
        try:
            out[a] = clean(getattr(r, a))
        except AttributeError:
            pass
        except Exception as e:
            out[a] = ("RAISED", type(e).__name__)
    return out


def spoil(r):
    """the caller overwrites everything it can reach"""
    if hasattr(r, "toarray"):
        spoil(r.data)
    elif isinstance(r, (np.ndarray, list, tuple, dict)):
        scribble(r)
    elif hasattr(r, "__dict__") and not isinstance(r, type) and type(r).__module__.startswith("qmat"):
        for a in ("nodes", "weights", "Q", "S", "T", "Tinv", "hCoeffs", "weightsEmbedded", "points", "uniquePoints", "dTau", "zeros", "fValues", "A", "b", "c", "b2", "coeffs"):
            try:
                scribble(getattr(r, a))
            except Exception:
                pass


def alphabet():
    """[(name, make arguments, call)]"""
    import qmat
    from qmat import genQCoeffs, genQDeltaCoeffs, Q_GENERATORS as QG, QDELTA_GENERATORS as DG
    from qmat.qcoeff.collocation import Collocation
    from qmat.qcoeff.butcher import RK_SCHEMES
    from qmat.lagrange import LagrangeApproximation as LA, computeFejerRule, getSparseInterpolationMatrix
    from qmat.nodes import NodesGenerator
    from qmat.utils import num, sdc, getClasses
    P = [0.1, 0.35, 0.5, 0.9, 1.25]
    DUP = [0.5, 0.1, 0.5, 0.9, 0.1]
    QM = [[0.3, -0.1, 0.05], [0.4, 0.25, -0.05], [0.35, 0.45, 0.2]]
    ops = []

    def add(name, make, fn):
        ops.append((name, make, fn))
    arr = lambda *xs: (lambda: [np.array(x) if isinstance(x, list) else x for x in xs])
    lst = lambda *xs: (lambda: [list(x) if isinstance(x, list) else x for x in xs])
    # nodes
    for nt in X.NODE_TYPES:
        add(f"nodes {nt}", lambda: [], lambda nt=nt: [NodesGenerator(nt, q).getNodes(n) for q in X.QUAD_TYPES for n in (5, 2, 3)])
    add("nodes shared object", lambda: [], lambda: (lambda g: [g.getNodes(4), g.getNodes(2), g.getTridiagCoefficients(3), g.getOrthogPolyCoefficients(4)])(NodesGenerator("CHEBY-3", "RADAU-RIGHT")))
    add("nodes refused", lambda: [], lambda: NodesGenerator("LEGENDRE", "LOBATTO").getNodes(1))
    add("nodes bad name", lambda: [], lambda: NodesGenerator("CHEBY-9", "LOBATTO"))
    add("nodes bad type", lambda: [], lambda: NodesGenerator("LEGENDRE", "RADAU"))
    # Lagrange
    for w in ("AUTO", "FAST", "STABLE", "CHEBFUN"):
        add(f"lagrange {w}", arr(P, [0.1, 0.2, 3.]), lambda p, t, w=w: (lambda g: [g, g.weights, g.getInterpolationMatrix(t), g.getIntegrationMatrix([(0, 1), (0.35, 0.1)]), g.getDerivativeMatrix()])(LA(p, weightComputation=w)))
    add("lagrange overflow", lambda: [np.linspace(0, 1, 130) * 1e-6], lambda p: LA(p).getInterpolationMatrix([5e-7, 1e-8]))
    add("lagrange ZERO scaled", lst(P), lambda p: LA(p, "STABLE", scaleWeights=True, scaleRef="ZERO"))
    add("lagrange fValues", arr(P, [1., 2., 0., 1., 1.], [[0.1, 0.2], [0.5, 1.]]), lambda p, f, t: (lambda g: [g(t), g(0.3), g(t, f * 2)])(LA(p, fValues=f)))
    add("lagrange duplicates", arr(DUP, [0.2, 0.5]), lambda p, t: [[g.getInterpolationMatrix(t), g.getIntegrationMatrix([(0, 1)]), g.getDerivativeMatrix(), g.getDerivativeMatrix(2), g.getInterpolationMatrix(t, duplicates=False)]
                                                                    for g in (LA(p), LA(p, duplicates="USE_RIGHT"))])
    for nq in ("FEJER", "LEGENDRE_NUMPY", "LEGENDRE_SCIPY"):
        add(f"lagrange integration {nq}", arr(P, [[0., 1.], [1., .5]]), lambda p, i, nq=nq: LA(p).getIntegrationMatrix(i, numQuad=nq))
    add("lagrange derivatives both", arr(P), lambda p: list(LA(p).getDerivativeMatrix(order="ALL")))
    add("lagrange derivation deprecated", arr(P), lambda p: LA(p).getDerivationMatrix())
    add("lagrange bad weights", arr(P), lambda p: LA(p, weightComputation="NO"))
    add("lagrange bad scale", arr(P), lambda p: LA(p, "STABLE", scaleRef="NO"))
    add("lagrange bad duplicates", arr(DUP), lambda p: LA(p, duplicates="NO"))
    add("lagrange bad fValues", arr(P, [1., 2.]), lambda p, f: LA(p, fValues=f))
    add("lagrange bad quadrature", arr(P), lambda p: LA(p).getIntegrationMatrix([(0, 1)], numQuad="NO"))
    add("lagrange bad order", arr(P), lambda p: LA(p).getDerivativeMatrix(order=3))
    add("lagrange bad times", arr(P), lambda p: LA(p).getInterpolationMatrix(0.5))
    add("lagrange bad times 2-d", arr(P, [[0.1, 0.2]]), lambda p, t: LA(p).getInterpolationMatrix(t))
    add("lagrange bad intervals", arr(P, [0.1, 0.2]), lambda p, i: LA(p).getIntegrationMatrix(i))
    add("lagrange bad intervals shape", arr(P, [[0.1, 0.2, 0.3]]), lambda p, i: LA(p).getIntegrationMatrix(i, "LEGENDRE_NUMPY"))
    add("lagrange bad values shape", arr(P, [1., 2.]), lambda p, f: LA(p)(0.2, f))
    add("lagrange bad text", lambda: [["a", "b"]], lambda p: LA(p))
    add("lagrange no values", arr(P), lambda p: LA(p)(0.2))
    add("fejer 5", lambda: [], lambda: computeFejerRule(5))
    add("fejer 6", lambda: [], lambda: computeFejerRule(6))
    add("sparse", arr([0., .1, .3, .6, .7, 1.], [0.05, 0.3, 0.95]), lambda a, b: getSparseInterpolationMatrix(a, b, 3))
    add("sparse periodic", arr([0., .1, .3, .6, .7], [0.05, 0.3, 0.95, 1.2, -.1]), lambda a, b: getSparseInterpolationMatrix(a, b, 4, gridPeriod=1))
    add("sparse refused", arr([0., .1], [0.05]), lambda a, b: getSparseInterpolationMatrix(a, b, 3))
    add("fejer refused", lambda: [], lambda: computeFejerRule("x"))
    add("sparse text", lambda: [], lambda: getSparseInterpolationMatrix(np.array(["a", "b"]), np.array([0.05]), 1))
    # Q-coefficients
    for nt in X.NODE_TYPES:
        add(f"collocation {nt}", lambda: [], lambda nt=nt: [Collocation(n, nt, qt) for qt in X.QUAD_TYPES for n in (3, 2, 5)])
    add("collocation interval", lambda: [], lambda: [Collocation(3, "LEGENDRE", "RADAU-RIGHT", 1, 3), Collocation(2, "EQUID", "LOBATTO", -1, 0.5), Collocation(1, "LEGENDRE", "GAUSS", tRight=2)])
    add("collocation refused", lambda: [], lambda: Collocation(1, "LEGENDRE", "LOBATTO"))
    for i, (a, k) in enumerate((((3, "LEGENDRE", "RADAU"), {}), ((3, "LEG", "GAUSS"), {}), ((0, "LEGENDRE", "GAUSS"), {}), (("3", "LEGENDRE", "GAUSS"), {}), ((3, "LEGENDRE", "GAUSS", "a"), {}), ((3,), {}), ((3, "LEGENDRE", "GAUSS"), dict(nope=1)))):
        add(f"collocation refused {i}", lambda: [], lambda a=a, k=k: Collocation(*a, **k))
    add("collocation embedded refused", lambda: [], lambda: Collocation(3, "LEGENDRE", "GAUSS").genCoeffs(embedded=True))
    add("collocation generic refused", lambda: [], lambda: genQCoeffs("coll", nNodes=3, nodeType="LEGENDRE", quadType="GAUSS", form="Z2Z"))
    add("dahlquist refused", lambda: [], lambda: Collocation(3, "LEGENDRE", "GAUSS").solveDahlquist(-1, 1, 1, 0))
    add("dahlquist embedded refused", lambda: [], lambda: QG["RK4"]().errorDahlquist(-1, 1, 1, 2, useEmbeddedWeights=True))
    add("collocation generic", lambda: [], lambda: [genQCoeffs("coll", nNodes=3, nodeType="LEGENDRE", quadType="GAUSS", form=f, hCoeffs=h) for f in ("Z2N", "N2N") for h in (False, True)])
    add("collocation dahlquist", lambda: [], lambda: (lambda c: [c.solveDahlquist(-1 + 1j, 1, 2, 3), c.errorDahlquist(1j, 2, 1, 4)])(Collocation(3, "CHEBY-1", "LOBATTO")))
    add("getInstance", lambda: [], lambda: [c.getInstance() for c in getClasses(QG).values()])
    names = list(getClasses(RK_SCHEMES))
    for i in range(0, len(names), 6):
        add(f"rk {names[i]}...", lambda: [], lambda i=i: [f() for n in names[i:i + 6] for f in (lambda: QG[n](), lambda: QG[n](padding="BOTH"), lambda: genQCoeffs(n, form="N2N"))])
    for p in ("LEFT", "RIGHT", "BOTH"):
        add(f"rk padding {p}", lambda: [], lambda p=p: [RK_SCHEMES[n](padding=p) for n in names])
    add("rk embedded", lambda: [], lambda: [genQCoeffs(n, embedded=True, hCoeffs=True, padding=p) for n in ("ESDIRK53", "CASHKARP", "HEUN") if n in QG for p in (None, "LEFT", "BOTH")])
    add("rk embedded refused", lambda: [], lambda: genQCoeffs("RK4", embedded=True))
    add("rk bad padding", lambda: [], lambda: QG["RK4"](padding="TOP"))
    add("rk dahlquist", lambda: [], lambda: [QG[n]().solveDahlquist(-1, 1, 1, 2) for n in ("RK4", "SDIRK2", "BE")] + [QG["ESDIRK53"]().errorDahlquist(-1, 1, 1, 2, useEmbeddedWeights=True)])
    add("q unknown name", lambda: [], lambda: genQCoeffs("NOPE"))
    add("q unknown form", lambda: [], lambda: genQCoeffs("RK4", form="N2Z"))
    # QDelta
    coll = lambda *a: (lambda: [Collocation(*(a or (3, "LEGENDRE", "RADAU-RIGHT")))])
    for n in getClasses(DG):
        add(f"qdelta {n}", coll(), lambda c, n=n: [genQDeltaCoeffs(n, qGen=c), genQDeltaCoeffs(n, nSweeps=4, form="N2N", dTau=True, qGen=c)])
        add(f"qdelta object {n}", coll(), lambda c, n=n: (lambda g: [g.getQDelta(1), g.getQDelta(2), g.getSDelta(1), g.genCoeffs(k=[1, 2, 3], dTau=True), g])(DG[n](qGen=c)))
    add("qdelta flex large", coll(4, "CHEBY-2", "LOBATTO"), lambda c: [genQDeltaCoeffs(n, nSweeps=6, qGen=c) for n in ("MIN-SR-FLEX", "MIN-SR-S", "MIN-SR-NS")])
    add("qdelta sr-s many", lambda: [], lambda: [DG["MIN-SR-S"](nNodes=n, nodeType=t, quadType=q).getQDelta() for n in (2, 5, 3) for t in ("LEGENDRE", "EQUID") for q in ("GAUSS", "RADAU-RIGHT", "LOBATTO")])
    add("qdelta alg", arr(QM), lambda q: [genQDeltaCoeffs(n, Q=q) for n in ("LU", "LU2", "GS", "QPar", "PIC", "EXACT", "LDU", "MIN")])
    add("qdelta time", arr([0.2, 0.7, 1.]), lambda x: [genQDeltaCoeffs(n, nodes=x, dTau=True, tLeft=t) for n in ("BE", "FE", "TRAP", "BEPAR", "TRAPAR", "SOE") for t in (0, 0.1, -1)])
    add("qdelta time list", lst([0.2, 0.7, 1.]), lambda x: [genQDeltaCoeffs(n, nodes=x, dTau=True) for n in ("BE", "FE", "TRAP", "SOE")])
    add("qdelta list", lambda: [["BE", "LU", "MIN-SR-FLEX"], Collocation(4, "LEGENDRE", "RADAU-RIGHT")], lambda l, c: genQDeltaCoeffs(l, nSweeps=5, qGen=c, dTau=True))
    add("qdelta list one", lambda: [["FE"], Collocation(3, "EQUID", "LOBATTO")], lambda l, c: genQDeltaCoeffs(l, nSweeps=3, qGen=c, dTau=True))
    add("qdelta override", coll(), lambda c: [genQDeltaCoeffs("BE", qGen=c, nodes=[0.5, 0.6, 0.7], tLeft=0.25), DG["LU"](np.eye(3), qGen=c).getQDelta()])
    add("qdelta coll deprecated", coll(), lambda c: genQDeltaCoeffs("BE", coll=c))
    for nm, kw in (("unknown", dict(qDeltaType="NOPE")), ("bad form", dict(qDeltaType="BE", form="Q2N")), ("bad sweeps", dict(qDeltaType="BE", nSweeps=0)), ("empty list", dict(qDeltaType=[])), ("long list", dict(qDeltaType=["BE", "LU"], nSweeps=1)),
                   ("list unknown", dict(qDeltaType=["BE", "NOPE"])), ("both", dict(qDeltaType="BE", coll=None)), ("not qgen", dict(qDeltaType="BE", qGen=3))):
        add(f"qdelta refused {nm}", coll(), lambda c, kw=kw: genQDeltaCoeffs(**{**dict(qGen=c), **kw}))
    add("qdelta refused k", coll(), lambda c: DG["MIN-SR-FLEX"](qGen=c).getQDelta(0))
    add("qdelta refused table", lambda: [], lambda: DG["MIN3"](nNodes=11, nodeType="EQUID", quadType="GAUSS").getQDelta())
    add("qdelta bad parameters", coll(), lambda c: [DG["BE"]()] )
    add("qdelta bad matrix", lambda: [np.ones((2, 3))], lambda q: [DG[n](Q=q).getQDelta() for n in ("LU", "LDU")])
    add("qdelta bad qgen", lambda: [], lambda: DG["LU"](qGen="x"))
    add("qdelta bad list index", coll(), lambda c: DG["MIN-SR-FLEX"](qGen=c).genCoeffs([1, 2, 0]))
    add("qdelta bad form object", coll(), lambda c: DG["LU"](qGen=c).genCoeffs(form="X", dTau=True))
    add("qdelta bad nodes", lambda: [], lambda: DG["MIN-SR-S"](nNodes=2, nodeType="LEGENDRE", quadType="NOPE").getQDelta())
    # utils
    add("numericalOrder", arr([2, 4, 8], [1e-1, 2.5e-2, 6.25e-3]), lambda n, e: num.numericalOrder(n, e))
    add("numericalOrder list", lst([2, 4, 8], [1e-1, 2.5e-2, 6.25e-3]), lambda n, e: num.numericalOrder(n, e))
    add("numericalOrder refused", arr([2, 4, 8], [1e-1, 2.5e-2]), lambda n, e: num.numericalOrder(n, e))
    add("numericalOrder bad values", arr([2, 4, 0], [1e-1, 0., -1.]), lambda n, e: num.numericalOrder(n, e))
    add("ldu singular", arr([[0., 2., 3.], [1., 1., 1.], [2., 2., 2.]]), lambda a: num.lduFactorization(a))
    add("extrapolation refused", arr([0., 0., 1.], [1.5, 2.]), lambda a, b: num.getExtrapolationMatrix(a, b))
    add("extrapolation bad degree", arr([0., 1.], [1.5, 2.]), lambda a, b: num.getExtrapolationMatrix(a, b, pOrder=-2))
    add("ldu", arr(QM), lambda a: num.lduFactorization(a))
    add("ldu refused", arr([[1., 2., 3.], [1., 1., 1.]]), lambda a: num.lduFactorization(a))
    add("extrapolation", arr([0., 0.5, 1.], [1.5, 2.]), lambda a, b: [num.getExtrapolationMatrix(a, b), num.getExtrapolationMatrix(a, b, pOrder=1)])
    add("extrapolation list", lst([0., 0.5, 1.], [1.5, 2.]), lambda a, b: [num.getExtrapolationMatrix(a, b), num.getExtrapolationMatrix(a, b, pOrder=1)])
    add("sdc", lambda: [np.array(QM), np.tril(np.array(QM)), np.array([.2, .3, .5]), ["residuals", "errors"]], lambda q, d, w, m: [sdc.solveDahlquistSDC(-1, 1, 1, 2, 3, q, d, weights=w, monitors=m), sdc.solveDahlquistSDC(1j, 2, 1, 2, 0, q, d), sdc.errorDahlquistSDC(-1, 1, 1, 2, 2, q, d)])
    add("sdc sweeps", lambda: [np.array(QM), np.array([np.tril(np.array(QM))] * 2)], lambda q, d: sdc.solveDahlquistSDC(-1, 1, 1, 2, 2, q, d, monitors=["errors"]))
    add("sdc refused", lambda: [np.array(QM), np.eye(2)], lambda q, d: sdc.solveDahlquistSDC(-1, 1, 1, 2, 2, q, d))
    add("sdc bad monitors", lambda: [np.array(QM), np.tril(np.array(QM)), ["residuals", "other"]], lambda q, d, m: sdc.solveDahlquistSDC(-1, 1, 1, 2, 2, q, d, monitors=m))
    add("sdc bad sweeps", lambda: [np.array(QM), np.zeros((2, 3, 3))], lambda q, d: sdc.errorDahlquistSDC(-1, 1, 1, 2, 3, q, d))
    add("sdc singular", lambda: [np.array(QM), np.eye(3)], lambda q, d: sdc.solveDahlquistSDC(2, 1, 1, 2, 2, q, d, monitors=["residuals"]))
    add("sdc bad weights", lambda: [np.array(QM), np.eye(3), np.ones(2)], lambda q, d, w: sdc.solveDahlquistSDC(-1, 1, 1, 2, 2, q, d, weights=w, monitors=["errors"]))
    add("sdc order refused", coll(), lambda c: sdc.getOrderSDC(c, 2, "NOPE", "LASTNODE"))
    add("sdc order refused strategy", coll(), lambda c: sdc.getOrderSDC(c, 2, "BE", "NOPE"))
    add("sdc order", coll(), lambda c: [sdc.getOrderSDC(c, k, n, s) for k in range(4) for n in ("BE", "FE", "TRAP") for s in ("LASTNODE", "QUADRATURE")])
    return ops


def perform(op):
    """one call: (observation, what it did to its surroundings or None)"""
    name, make, fn = op
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        args = make()
        seen = clean(args)
        amb0 = S.ambient()
        res = None
        try:
            res = fn(*args)
            obs = clean(res)
        except Exception as e:
            obs = ("RAISED", type(e).__name__)
        amb1 = S.ambient()
        bad = None
        if amb0 != amb1:
            bad = f"ambient state changed: {[k for k in amb0 if amb0[k] != amb1[k]]}"
        elif not S.same(clean(args), seen, 0):
            bad = "arguments were modified"
        spoil(res)
        for a in args:
            spoil(a)
    return obs, bad


FORMS = ("array", "reversed array", "read-only array", "strided view", "negative stride", "fortran", "list", "reversed list", "tuple", "repeated entry", "NaN entry", "float32", "integers")


def formed(x, form):
    """(argument in the given form, object holding its memory)"""
    a = np.array(x, dtype=float)
    if form == "reversed array":
        a = a[::-1].copy()
    elif form == "read-only array":
        a.flags.writeable = False
    elif form == "strided view":
        b = np.full(tuple(2 * n for n in a.shape), 55.)
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return b[tuple(slice(None, None, 2) for _ in a.shape)], b
    elif form == "negative stride":
        b = a[::-1].copy()
        return b[::-1], b
    elif form == "fortran":
        a = np.asfortranarray(a)
    elif form in ("list", "reversed list"):
        a = a.tolist()[::-1 if form[0] == "r" else 1]
    elif form == "tuple":
        a = tuple(tuple(r) if isinstance(r, list) else r for r in a.tolist())
    elif form == "repeated entry":
        a = a.copy(); a.flat[-1] = a.flat[0]
    elif form == "NaN entry":
        a = a.copy(); a.flat[0] = np.nan
    elif form == "float32":
        a = a.astype(np.float32)
    elif form == "integers":
        a = np.round(10 * a).astype(int)
    return a, a


def formcalls():
    """{name: (array-like arguments, call)}: everything public which takes array-likes"""
    from qmat import genQDeltaCoeffs, genQCoeffs, QDELTA_GENERATORS as DG, Q_GENERATORS as QG
    from qmat.lagrange import LagrangeApproximation as LA, getSparseInterpolationMatrix as sparse
    from qmat.nodes import NodesGenerator
    from qmat.utils import num, sdc
    QM = [[0.3, -0.1, 0.05], [0.4, 0.25, -0.05], [0.35, 0.45, 0.2]]
    P, V, T = [.1, .35, .5, .9], [1., 2., -1., .5], [.2, .35, 1.5]
    out = {}
    for w in ("AUTO", "FAST", "STABLE", "CHEBFUN"):
        out[f"lagrange {w}"] = ([P], lambda p, w=w: (lambda g: [g.weights, g.getDerivativeMatrix("ALL")])(LA(p, w)))
    out["lagrange right"] = ([P], lambda p: (lambda g: [g.weights, g.getDerivativeMatrix()])(LA(p, duplicates="USE_RIGHT")))
    out["lagrange interpolation"] = ([P, T], lambda p, t: LA(p).getInterpolationMatrix(t))
    for q in ("FEJER", "LEGENDRE_NUMPY", "LEGENDRE_SCIPY"):
        out[f"lagrange integration {q}"] = ([P, [[0., 1.], [.7, .2]]], lambda p, i, q=q: LA(p).getIntegrationMatrix(i, q))
    out["lagrange values"] = ([P, V, [[.2, .35], [.5, 3.]]], lambda p, f, t: LA(p)(t, f))
    out["lagrange stored values"] = ([P, V], lambda p, f: (lambda g: [g([.2, .5]), g(.1), g.getInterpolationMatrix([.2])])(LA(p, fValues=f)))
    out["sparse"] = ([P, T], lambda a, b: sparse(a, b, 2))
    out["sparse periodic"] = ([P, T], lambda a, b: sparse(a, b, 3, gridPeriod=1.25))
    out["orthogonal polynomials"] = ([T, [0., .1, .2], [1., .3, .2]], lambda t, a, b: NodesGenerator().evalOrthogPoly(t, a, b))
    for n in ("BE", "FE", "TRAP", "BEPAR", "TRAPAR", "SOE", "MIN-SR-NS", "Jumper", "FlexJumper", "DNODES-2"):
        out[f"qdelta {n}"] = ([[.2, .7, 1.]], lambda x, n=n: genQDeltaCoeffs(n, nodes=x, nSweeps=2, form="N2N", dTau=True))
        out[f"qdelta object {n}"] = ([[.2, .7, 1.]], lambda x, n=n: (lambda g: [g.getQDelta(), g.getQDelta(2), g.dTau, g.getSDelta()])(DG[n](x)))
    for n in ("LU", "LU2", "GS", "QPar", "PIC", "EXACT", "LDU"):
        out[f"qdelta {n}"] = ([QM], lambda q, n=n: genQDeltaCoeffs(n, Q=q, nSweeps=2, dTau=True))
        out[f"qdelta object {n}"] = ([QM], lambda q, n=n: (lambda g: [g.getQDelta(), g.getSDelta(), g.dTau, g.genCoeffs(k=[1])])(DG[n](q)))
    out["order"] = ([[2., 4., 8.], [.1, .03, .002]], lambda n, e: num.numericalOrder(n, e))
    out["ldu"] = ([QM], lambda a: num.lduFactorization(a))
    out["extrapolation"] = ([P, T], lambda a, b: num.getExtrapolationMatrix(a, b))
    out["extrapolation degree"] = ([P, T], lambda a, b: num.getExtrapolationMatrix(a, b, 1))
    L = np.tril(QM)
    for nm, m in (("", None), (" residuals", ["residuals"]), (" both", ["residuals", "errors"])):
        out["sdc" + nm] = ([QM, L, [.2, .3, .5]], lambda q, d, w, m=m: sdc.solveDahlquistSDC(-1, 2., 1, 2, 2, q, d, weights=w, monitors=m))
    out["sdc sweeps"] = ([QM, [L, 2 * L]], lambda q, d: sdc.solveDahlquistSDC(1j, 2., 1, 2, 2, q, d))
    out["sdc error"] = ([QM, L, [1., .5, .25]], lambda q, d, u: sdc.errorDahlquistSDC(-1, 1., 1, 2, 2, q, d, uNum=u))
    out["dahlquist error"] = ([[1., .5, .25]], lambda u: QG["RK4"]().errorDahlquist(-1, 1., 1, 2, uNum=u))
    return out


def formcall(case):
    """one call with arguments in given forms: (observation, what is wrong or None)"""
    fn, vals, forms = case
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        both = [formed(v, f) for v, f in zip(vals, forms)]
        args = [a for a, _ in both]
        before = [(clean(m), getattr(m, "flags", None) and str(m.flags), getattr(a, "shape", None)) for a, m in both]

        def touched():
            return any(not S.same(clean(m), b, 0) or (getattr(m, "flags", None) and str(m.flags)) != f or getattr(a, "shape", None) != sh for (a, m), (b, f, sh) in zip(both, before))
        amb0 = S.ambient()
        res = None
        try:
            res = fn(*args)
            obs = clean(res)
        except Exception as e:
            obs = ("RAISED", type(e).__name__)
        if S.ambient() != amb0:
            return obs, "ambient state changed"
        if touched():
            return obs, "arguments were modified"
        spoil(res)
        return obs, "the result shares its memory with an argument" if touched() else None


SUB = ["nodes LEGENDRE", "nodes EQUID", "nodes refused", "lagrange AUTO", "lagrange overflow", "lagrange fValues", "lagrange duplicates", "lagrange bad duplicates", "fejer 5", "sparse periodic", "collocation LEGENDRE", "collocation CHEBY-3", "collocation interval", "collocation generic", "getInstance", "rk FE...", "rk embedded refused", "rk padding LEFT", "rk padding BOTH", "rk embedded", "rk dahlquist", "q unknown form",
       "qdelta BE", "qdelta MIN_SR_FLEX", "qdelta object MIN_SR_FLEX", "qdelta object LU", "qdelta MIN", "qdelta MIN3", "qdelta FlexJumper", "qdelta object SOE", "qdelta flex large", "qdelta alg", "qdelta time", "qdelta list", "qdelta list one",
       "qdelta override", "qdelta coll deprecated", "qdelta refused k", "qdelta refused bad form", "numericalOrder", "ldu", "extrapolation", "sdc", "sdc order"]
MODULES = ("qmat", "qmat.nodes", "qmat.lagrange", "qmat.qcoeff", "qmat.qcoeff.collocation", "qmat.qcoeff.butcher", "qmat.qdelta", "qmat.qdelta.algebraic", "qmat.qdelta.diag", "qmat.qdelta.mincoeffs", "qmat.qdelta.timestepping", "qmat.utils",
                "qmat.utils.num", "qmat.utils.sdc")


def tasks(quick):
    baseline(alphabet(), NPROC)
    for m in MODULES:
        yield ("import", m)
    for n in sorted(formcalls()):
        yield ("forms", n)
    yield ("closure", 400 if quick else 4000)
    n = len(alphabet())
    for s in range(3 if quick else 40):
        yield ("pass", s)
    for i in range(n):
        yield ("pairs", i, quick)
    if not quick:
        for a in SUB:
            for b in SUB:
                yield ("triples", a, b)


_BASE = {}


def baseline(ops, nproc=1):
    """answers of fresh processes"""
    if all(o[0] in _BASE for o in ops):
        return _BASE
    for i, r in fork_map(lambda op: perform(op), ops, nproc=nproc):
        if r and isinstance(r[0], str) and r[0] in ("DIED", "TIMEOUT"):
            raise RuntimeError(f"{ops[i][0]}: {r}")
        _BASE[ops[i][0]] = r
    return _BASE


def run(task, rec):
    if task[0] == "import":
        return imports(rec, task[1])
    if task[0] == "forms":
        vals, fn = formcalls()[task[1]]
        plain = {}
        for forms in itertools.product(FORMS, repeat=len(vals)):
            obs, bad = formcall((fn, vals, forms))
            rec.state((task[1], forms)); rec.step(); rec.trace()
            rec.outcome(repr(obs)[:200])
            key = f"{task[1]} arguments as {forms}"
            rec.expect(bad is None, key, bad)
            plain[forms] = obs
        # the place in memory and the write protection of arrays do not matter
        same = {"read-only array": "array", "strided view": "array", "negative stride": "array", "fortran": "array"}
        for forms, obs in plain.items():
            ref = tuple(same.get(f, f) for f in forms)
            if ref != forms:
                rec.expect(S.same(obs, plain[ref]), f"{task[1]} arguments as {forms}", f"answers something else than with {ref}", got=repr(obs)[:300], expected=repr(plain[ref])[:300])
        return
    ops = alphabet()
    if task[0] == "pairs":
        i = task[1]
        a = ops[i]
        base = baseline(ops)
        rec.keepall = True
        rec.state((a[0],)); rec.step(); rec.trace()
        rec.expect(base[a[0]][1] is None, a[0], base[a[0]][1])
        perform(a)
        rec.outcome(repr(base[a[0]][0])[:400])
        for j, r in fork_map(perform, ops, nproc=1):
            rec.state((a[0], ops[j][0])); rec.step(2); rec.trace()
            if isinstance(r[0], str) and r[0] in ("DIED", "TIMEOUT"):
                raise RuntimeError(f"{a[0]}, {ops[j][0]}: {r}")
            obs, bad = r
            key = f"{a[0]} ; {ops[j][0]}"
            if rec.expect(S.same(obs, base[ops[j][0]][0]), key, "the second call answers something else than in a fresh process", got=repr(obs)[:300], fresh=repr(base[ops[j][0]][0])[:300]) and base[ops[j][0]][1] is None:
                rec.expect(bad is None, key, bad)
            if len(rec.viol) >= 4:
                raise Stop()
        rec.sample(f"{a[0]} followed by each of the {len(ops)} calls")
    elif task[0] == "triples":
        d = {o[0]: o for o in ops}
        sub = [d[n] for n in SUB if n in d]
        if task[1] not in d or task[2] not in d:
            return
        base = baseline(sub)
        for n in task[1:]:
            perform(d[n])
        for j, r in fork_map(perform, sub, nproc=1):
            rec.state((task[1], task[2], sub[j][0])); rec.step(3); rec.trace()
            if isinstance(r[0], str) and r[0] in ("DIED", "TIMEOUT"):
                raise RuntimeError(f"{task}, {sub[j][0]}: {r}")
            rec.expect(S.same(r[0], base[sub[j][0]][0]), f"{task[1]} ; {task[2]} ; {sub[j][0]}", "the third call answers something else than in a fresh process")
    elif task[0] == "pass":
        base = baseline(ops)
        # a fixed family of orders: stride permutations, forwards and backwards
        n, s = len(ops), task[1]
        stride = [k for k in range(1, n) if np.gcd(k, n) == 1][(s * 7) % max(1, sum(np.gcd(k, n) == 1 for k in range(1, n)))]
        order = [(i * stride + s) % n for i in range(n)]
        for rnd, o in enumerate((order, order[::-1])):
            for i in o:
                obs, _ = perform(ops[i])
                rec.state((task, rnd, i)); rec.step()
                rec.expect(S.same(obs, base[ops[i][0]][0]), f"pass {s} stride {stride} round {rnd} {ops[i][0]}", "answers something else than in a fresh process")
        rec.trace(2)
    else:
        base = baseline(ops)

        def make():
            return {}

        def judge(name, obs):
            return None if S.same(obs[0], base[name][0]) else "answers something else than in a fresh process"
        closed = S.search(rec, make, [(o[0], lambda env, o=o: perform(o)) for o in ops], judge, depth=6, key="closure", nproc=1, maxstates=task[1])
        rec.sample(f"state space of the library under the whole alphabet: closed {closed}, {len(rec.states)} states")
        rec.extra["library_states"] = len(rec.states)


CODE = """
import sys, os, random, warnings
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-qmat-verif-pycache"
sys.path.insert(0, {verif!r})
import numpy as np, scipy.optimize, scipy.linalg, scipy.sparse, scipy.interpolate, scipy.special
os.environ["QMAT_REPO"] = {repo!r}
from mc import state as S
before = S.ambient()
sys.path.insert(0, {repo!r})
import {mod}
after = S.ambient()
print([k for k in before if before[k] != after[k]])
"""


def imports(rec, mod):
    """importing any module does not touch the ambient state"""
    from ..boot import VERIF
    r = subprocess.run([sys.executable, "-c", CODE.format(verif=VERIF, repo=REPO, mod=mod)], capture_output=True, text=True, cwd="/")
    rec.state(mod); rec.step(); rec.trace()
    if r.returncode:
        if "No module named" in r.stderr and mod not in ("qmat", "qmat.lagrange", "qmat.nodes", "qmat.qcoeff", "qmat.qdelta", "qmat.utils"):
            return                       # reorganised package
        rec.fail(f"import {mod}", "cannot be imported first", stderr=r.stderr[-1500:])
    else:
        rec.expect(r.stdout.strip() == "[]", f"import {mod}", f"changes ambient state {r.stdout.strip()}")
