"""C25 only the values of the arguments matter: full product of storage forms (container, memory layout, element type) over the arguments of every public call."""
import itertools, warnings
import numpy as np
from .. import exact as X, usergens
from ..core import *

PROPERTY = "C25"
BOUNDS = {"quick": "about 100 calls covering every public function and class taking numbers or arrays; every argument alone in every storage form, every pair of arguments in every pair of forms, all arguments in the same form; "
                   "forms of arrays: list, tuple, list of numpy scalars, Fortran order, strided, reversed and transposed views, read-only, unaligned, byte-swapped, subclass, int32, int64, float32, and for interpolation, collocation intervals, time-stepping nodes and SDC matrices also int8, int16, uint8 to uint64; forms of numbers: int, float, numpy scalars of these types, 0-d arrays; forms of counts: int, int32, int64",
          "thorough": "as quick with every triple of arguments"}
ASSUMPTIONS = ["the answers for float64 arrays in C order and Python numbers are judged by the other properties", "single precision and 8 or 16 bit arguments may lower the precision of the result (as numpy functions of them do), not more: 1% of the largest value of the answer"]
TOL, LOOSE = 1e-11, 1e-2


class Sub(np.ndarray):
    pass


def unaligned(a):
    buf = np.zeros(a.nbytes + 1, dtype=np.uint8)
    out = np.frombuffer(buf.data, dtype=a.dtype, count=a.size, offset=1).reshape(a.shape)
    out = np.ndarray(a.shape, a.dtype, buf, 1)
    out[...] = a
    return out


def strided(a):
    big = np.full(tuple(2 * s for s in a.shape), 77.)
    v = big[tuple([slice(None, None, 2)] * a.ndim)]
    v[...] = a
    return v


def exact_as(a, dt):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            return bool(np.all(a.astype(dt).astype(float) == a)) and (dt is not bool or set(np.unique(a)) <= {0., 1.})
        except (TypeError, ValueError, OverflowError):
            return False


DTYPES = [np.int64, np.int32, np.int16, np.int8, np.uint64, np.uint32, np.uint16, np.uint8, np.float32]
WIDE = [np.int64, np.int32, np.float32]
SMALL = ("interpolation", "integration", "derivatives", "evaluation", "duplicates", "sparse", "Collocation", "SDC", "extrapolation", "QDelta BE nodes", "QDelta FE nodes", "QDelta TRAP nodes", "QDelta BEPAR nodes", "QDelta TRAPAR nodes")
LOW = (np.int16, np.int8, np.uint16, np.uint8, np.float32)        # numpy functions of these give half or single precision


def tup(x):
    return tuple(tup(i) for i in x) if isinstance(x, list) else x


def array_forms(a, lists=True, small=False):
    """(name, maker of a new object with these values, loose) for one array argument"""
    a = np.array(a, dtype=float)
    out = [("array", lambda: a.copy(), False), ("fortran", lambda: np.asfortranarray(a.copy()), False), ("strided", lambda: strided(a), False),
           ("reversed view", lambda: a[::-1].copy()[::-1], False), ("transposed view", lambda: a.T.copy().T, False), ("read-only", lambda: X.readonly(a.copy()), False),
           ("unaligned", lambda: unaligned(a), False), ("byte-swapped", lambda: a.astype(">f8"), False), ("subclass", lambda: a.copy().view(Sub), False)]
    if lists:
        out += [("list", lambda: a.tolist(), False), ("tuple", lambda: tup(a.tolist()), False), ("list of rows", lambda: [r.copy() if a.ndim > 1 else r for r in a], False)]
        if exact_as(a, np.int64):
            out += [("ints", lambda: a.astype(int).tolist(), False), ("mixed", lambda: tuple(a.astype(int).tolist()[:-1] + a.tolist()[-1:]), False)]
    for dt in DTYPES if small else WIDE:
        if exact_as(a, dt):
            out.append((np.dtype(dt).name, lambda dt=dt: a.astype(dt), dt in LOW))
            if dt is np.int32:
                out.append(("int32 fortran", lambda dt=dt: np.asfortranarray(a.astype(dt)), False))
    return out


def number_forms(x, whole=False, small=False):
    """forms of one number"""
    if isinstance(x, complex):
        return [("complex", lambda: x, False), ("complex128", lambda: np.complex128(x), False), ("0-d", lambda: np.array(x), False), ("complex64", lambda: np.complex64(x), True)]
    a = np.array(x, dtype=float)
    out = [] if whole else [("float", lambda: float(x), False), ("float64", lambda: np.float64(x), False)]
    if exact_as(a, np.int64):
        out = [("int", lambda: int(x), False)] + out
    for dt in WIDE[:2] if whole else DTYPES if small else WIDE:
        if exact_as(a, dt):
            out.append((np.dtype(dt).name, lambda dt=dt: dt(x), dt in LOW))
    if not whole:
        out.append(("0-d", lambda: np.array(float(x)), False))
        if exact_as(a, np.int64):
            out.append(("0-d int", lambda: np.array(int(x)), False))
    return out


A, L, N, W, C = "array", "array only", "number", "whole", "complex number"      # kinds of arguments


def calls():
    """(name, function of the arguments by name, {argument: (kind, plain value)})"""
    import qmat
    from qmat import genQCoeffs, genQDeltaCoeffs, QDELTA_GENERATORS as DG, Q_GENERATORS as QG
    from qmat.qcoeff.collocation import Collocation
    from qmat.lagrange import LagrangeApproximation as LA, getSparseInterpolationMatrix, computeFejerRule
    from qmat.nodes import NodesGenerator
    from qmat.utils import num, sdc
    out = []

    def add(name, fn, **args):
        out.append((name, fn, args))

    for nt, qt in (("LEGENDRE", "GAUSS"), ("CHEBY-2", "RADAU-RIGHT"), ("EQUID", "LOBATTO"), ("CHEBY-4", "RADAU-LEFT")):
        add(f"getNodes {nt} {qt}", lambda n, nt=nt, qt=qt: NodesGenerator(nt, qt).getNodes(n), n=(W, 5))
        if nt != "EQUID":
            add(f"recurrence {nt} {qt}", lambda n, t, nt=nt, qt=qt: (lambda g, ab: [ab, g.evalOrthogPoly(t, *ab)])(NodesGenerator(nt, qt), NodesGenerator(nt, qt).getOrthogPolyCoefficients(n)), n=(W, 4), t=(L, [-1, 0, 1]))
            add(f"tridiag {nt} {qt}", lambda n, nt=nt, qt=qt: NodesGenerator(nt, qt).getTridiagCoefficients(n), n=(W, 4))
        for a, b in ((0, 1), (-3, 2), (100, 120), (2, 0.5)):
            if a < b:
                add(f"Collocation {nt} {qt} on [{a},{b}]", lambda n, tLeft, tRight, nt=nt, qt=qt: (lambda c: [c.nodes, c.weights, c.Q, c.S, c.hCoeffs, c.order, c.rightIsNode, c.nNodes, c.genCoeffs("N2N", True)])(Collocation(n, nt, qt, tLeft, tRight)), n=(W, 4), tLeft=(N, a), tRight=(N, b))
        add(f"genQCoeffs {nt} {qt}", lambda n, tLeft, tRight, nt=nt, qt=qt: genQCoeffs("coll", nNodes=n, nodeType=nt, quadType=qt, tLeft=tLeft, tRight=tRight), n=(W, 3), tLeft=(N, 1), tRight=(N, 3))
    pts = {"ints": ([0, 3, 1, 7], [2, 5, 1], [[0, 2], [7, 0], [1, 1]]), "large": ([100, 120, 90, 127], [110, 100, 99], [[90, 127], [120, 100]]), "halves": ([0.5, 1, 0.25, 4], [2, 0.5], [[0.5, 2], [1, 0.25]]), "one": ([3], [3, 1], [[0, 2]]),
           "big": ([0, 200, 255, 60, 130], [128, 255, 3], [[0, 255], [200, 130]]), "negative": ([-100, 100, 50, -128, 127], [-128, 127, 0], [[-128, 127], [127, -100]])}
    modes = [dict(), dict(weightComputation="FAST"), dict(weightComputation="STABLE", scaleRef="ZERO"), dict(weightComputation="CHEBFUN", scaleWeights=True)]
    for pn, (p, t, iv) in pts.items():
        for m in modes if pn in ("ints", "big") else modes[:1]:
            add(f"interpolation {pn} {m}", lambda points, times, m=m: (lambda a: [a.getInterpolationMatrix(times), a.weights, a.nPoints, a.nUniquePoints, a.hasDuplicates])(LA(points, **m)), points=(A, p), times=(A, t))
            for rule in ("FEJER", "LEGENDRE_NUMPY", "LEGENDRE_SCIPY"):
                if rule == "FEJER" or m == {}:
                    add(f"integration {pn} {m} {rule}", lambda points, intervals, m=m, rule=rule: LA(points, **m).getIntegrationMatrix(intervals, rule), points=(A, p), intervals=(A, iv))
            add(f"derivatives {pn} {m}", lambda points, m=m: (lambda a: [a.getDerivativeMatrix(1), a.getDerivativeMatrix(2), a.getDerivationMatrix()])(LA(points, **m)), points=(A, p))
        add(f"evaluation {pn}", lambda points, fValues, t: [LA(points, fValues=fValues)(t), LA(points)(t, fValues)], points=(A, p), fValues=(A, list(range(2, 2 + len(p)))), t=(A, t))
    for st in ("USE_LEFT", "USE_RIGHT"):
        add(f"duplicates {st}", lambda points, times, intervals, st=st: (lambda a: [a.getInterpolationMatrix(times), a.getIntegrationMatrix(intervals), a.getDerivativeMatrix(2), a.getInterpolationMatrix(times, duplicates=False)])(LA(points, duplicates=st)), points=(A, [2, 0, 2, 5, 0]), times=(A, [1, 2, 6]), intervals=(A, [[0, 5], [3, 1]]))
    for o in (1, 2, 3, 4):
        add(f"sparse order {o}", lambda x, y, o=o: getSparseInterpolationMatrix(x, y, o).toarray(), x=(A, [0, 1, 2, 3, 5, 8]), y=(A, [0, 4, 2, 7, 1]))
        add(f"sparse periodic order {o}", lambda x, y, period, o=o: getSparseInterpolationMatrix(x, y, o, period).toarray(), x=(A, [0, 1, 2, 3, 5, 7]), y=(A, [0, 4, 2, 7, 6]), period=(N, 8))
    add("sparse orders", lambda x, y, order: getSparseInterpolationMatrix(x, y, order).toarray(), x=(A, [100, 90, 120, 127]), y=(A, [125, 95]), order=(W, 3))
    add("Fejer", lambda n: list(computeFejerRule(n)), n=(W, 6))
    # numerical utilities
    add("numericalOrder", lambda n, err: num.numericalOrder(n, err), n=(A, [10, 20, 40, 100]), err=(A, [1, 0.25, 0.0625, 0.015625]))
    add("numericalOrder few", lambda n, err: num.numericalOrder(n, err), n=(A, [1, 2, 4]), err=(A, [64.5, 16.125, 4.03125]))
    add("LDU", lambda M: list(num.lduFactorization(M)), M=(L, [[4, 2, 1], [8, 7, 3], [4, 20, 100]]))
    for p in (None, 1, 2):
        add(f"extrapolation {p}", lambda x, t, p=p: num.getExtrapolationMatrix(x, t, p), x=(A, [0, 1, 3, 4]), t=(A, [5, 2]))
    add("extrapolation order", lambda x, t, p: num.getExtrapolationMatrix(x, t, p), x=(A, [1, 2, 3, 4, 5]), t=(A, [6]), p=(W, 2))
    # Dahlquist solver
    for n in ("RK4", "BE", "ESDIRK53", "GAUSS-LG"):
        mk = (lambda n=n: QG[n].getInstance())
        for lam in (-2, 1j, -0.5 + 2j):
            add(f"solveDahlquist {n} {lam}", lambda lam, u0, tEnd, nSteps, mk=mk: [mk().solveDahlquist(lam, u0, tEnd, nSteps), mk().errorDahlquist(lam, u0, tEnd, nSteps)], lam=(C, lam), u0=(C, 3), tEnd=(N, 2), nSteps=(W, 5))
        add(f"errorDahlquist {n}", lambda lam, u0, tEnd, nSteps, uNum, mk=mk: mk().errorDahlquist(lam, u0, tEnd, nSteps, uNum=uNum), lam=(C, -1), u0=(C, 1), tEnd=(N, 2), nSteps=(W, 2), uNum=(L, [1, 0.5, 0.25]))
    Q2, D2, w2 = [[3, -1], [4, 1]], [[2, 0], [1, 1]], [2, 1]
    for u in ("last", "quadrature"):
        for dn, D in (("constant", D2), ("variable", [D2, [[1, 0], [0, 2]], [[2, 0], [0, 2]]])):
            def s(lam, u0, tEnd, nSteps, nSweeps, Q, QDelta, weights=None):
                r = [sdc.solveDahlquistSDC(lam, u0, tEnd, nSteps, nSweeps, Q, QDelta, weights), sdc.errorDahlquistSDC(lam, u0, tEnd, nSteps, nSweeps, Q, QDelta, weights)]
                sol, mon = sdc.solveDahlquistSDC(lam, u0, tEnd, nSteps, nSweeps, Q, QDelta, weights, monitors=["residuals"])
                return r + [sol, mon["residuals"]]
            for lam in (-1, 1j):
                add(f"SDC {u} {dn} {lam}", s, lam=(C, lam), u0=(C, 2), tEnd=(N, 1), nSteps=(W, 2), nSweeps=(W, 3), Q=(L, Q2), QDelta=(L, D), **(dict(weights=(L, w2)) if u == "quadrature" else {}))
    # methods defined by the user
    from qmat.qcoeff import QGenerator, register as registerQ
    from qmat.qcoeff.butcher import RK, registerRK
    count = itertools.count()

    def everything(g):
        r = [g.nodes, g.weights, g.Q, g.S, g.T, g.Tinv, g.hCoeffs, g.nNodes, g.rightIsNode, g.genCoeffs("N2N", True), g.solveDahlquist(-1, 1, 1, 2), g.errorDahlquist(1j, 1, 1, 2), genQCoeffs(type(g).__name__)]
        for n in ("LU", "BE", "TRAP", "GS", "QPar", "MIN-SR-NS"):
            r += [genQDeltaCoeffs(n, nSweeps=2, dTau=True, qGen=g), genQDeltaCoeffs(n, form="N2N", qGen=g)]
        return r

    def rk(A, b, c, b2=None):
        cls = registerRK(type(f"Forms{next(count)}", (RK,), dict(A=A, b=b, c=c, b2=b2, order=property(lambda self: 1), orderEmbedded=property(lambda self: 1))))
        r = []
        for pad in (None, "LEFT", "BOTH"):
            g = cls(padding=pad)
            r += [g.A, g.b, g.c, g.S, g.hCoeffs, g.genCoeffs("N2N", True), g.solveDahlquist(-1, 1, 1, 2)] + ([g.weightsEmbedded, g.solveDahlquist(-1, 1, 1, 2, useEmbeddedWeights=True), g.genCoeffs(embedded=True)] if b2 is not None else [])
        return r + everything(cls())

    def user(nodes, Q, weights):
        class U(QGenerator):
            nodes = Q = weights = None
            order = property(lambda self: 1)

            @classmethod
            def getInstance(cls):
                return cls()
        for a, v in (("nodes", nodes), ("Q", Q), ("weights", weights)):
            setattr(U, a, property(lambda self, v=v: v))
        U.__name__ = U.__qualname__ = f"Forms{next(count)}"
        return everything(registerQ(U)())
    add("user table", rk, A=(A, [[1, 0], [1, 1]]), b=(A, [3, 1]), c=(A, [1, 2]))
    add("user table halves", rk, A=(A, [[0.5, 0, 0], [0.25, 0.5, 0], [0.5, 1, 0.5]]), b=(A, [0.5, 1, 0.5]), c=(A, [0.5, 0.75, 2]), b2=(A, [0, 0.5, 0.5]))
    add("user table embedded", rk, A=(A, [[4, 0], [1, 100]]), b=(A, [100, 1]), c=(A, [4, 101]), b2=(A, [1, 0]))
    add("user generator", user, nodes=(L, [1, 3]), Q=(L, [[3, 1], [1, 200]]), weights=(L, [100, 3]))
    add("user generator right", user, nodes=(L, [0.5, 1]), Q=(L, [[0.25, 0.25], [0.5, 0.5]]), weights=(L, [0.5, 0.5]))
    # the largest values the small types can hold
    for n in (64, 100, 127, 200, 255):
        for nt, qt in (("CHEBY-1", "GAUSS"), ("LEGENDRE", "RADAU-RIGHT"), ("LEGENDRE", "LOBATTO"), ("EQUID", "GAUSS"), ("EQUID", "LOBATTO")):
            add(f"{n} nodes {nt} {qt}", lambda n, nt=nt, qt=qt: NodesGenerator(nt, qt).getNodes(n), n=(W, n))
            if nt != "EQUID":
                add(f"order of {n} nodes {nt} {qt}", lambda n, nt=nt, qt=qt: (lambda c: [c.order, c.nodes])(Collocation(n, nt, qt)), n=(W, n))
        add(f"Fejer {n}", lambda n: list(computeFejerRule(n)), n=(W, n))
        add(f"{n} steps", lambda n: (lambda g: [g.solveDahlquist(-1, 1, 1, n), g.errorDahlquist(1j, 1, 1, n)])(QG["RK4"]()), n=(W, n))
        add(f"sweep {n}", lambda k: [DG[d](qGen=Collocation(3, "LEGENDRE", "RADAU-RIGHT")).getQDelta(k) for d in ("BE", "MIN-SR-FLEX", "FlexJumper", "Jumper", "LU")], k=(W, n))
        add(f"{n} SDC steps", lambda n, k: [sdc.solveDahlquistSDC(-1, 1, 1, n, k, np.eye(2) / 2, np.eye(2)), sdc.errorDahlquistSDC(-1, 1, 1, n, k, np.eye(2) / 2, np.eye(2))], n=(W, n), k=(W, 2))
        add(f"{n} SDC sweeps", lambda k: [sdc.solveDahlquistSDC(-1, 1, 1, 2, k, np.eye(2) / 2, np.eye(2)), sdc.solveDahlquistSDC(-1, 1, 1, 2, k, np.eye(2) / 2, np.eye(2), monitors=["residuals"])[1]["residuals"]], k=(W, n))
        add(f"order of {n} sweeps", lambda k: [sdc.getOrderSDC(Collocation(4, "LEGENDRE", "RADAU-RIGHT"), k, qd, u) for qd in ("BE", "TRAP") for u in ("QUADRATURE", "LASTNODE")], k=(W, n))
    def s(Q, QDelta, weights, nSweeps):
        return [sdc.solveDahlquistSDC(lam, 1, 1, 2, nSweeps, Q, QDelta, weights) for lam in (-1, 1j)] + [sdc.solveDahlquistSDC(-1, 1, 1, 1, nSweeps, Q, QDelta, monitors=["residuals"])[1]["residuals"], sdc.errorDahlquistSDC(-1, 1, 1, 2, nSweeps, Q, QDelta, weights)]
    for i, (Qb, Db) in enumerate(((([1, 0], [1, 1]), [[2, 0], [3, 2]]), ([[100, -100], [-120, 3]], [[-100, 100], [50, -50]]), ([[200, 3], [1, 2]], [[255, 0], [100, 100]]))):
        add(f"SDC large {i}", s, Q=(L, Qb), QDelta=(L, Db), weights=(L, [100, 127]), nSweeps=(W, 2))
    for u in ("QUADRATURE", "LASTNODE"):
        add(f"getOrderSDC {u}", lambda n, k, u=u: [sdc.getOrderSDC(Collocation(n, "LEGENDRE", "RADAU-RIGHT"), k, qd, u) for qd in ("BE", "TRAP", "TRAPAR")], n=(W, 3), k=(W, 2))
    # QDelta approximations
    nodes, Q3 = [1, 2, 4], [[6, 1, 2], [3, 5, 1], [4, 2, 7]]
    ask = lambda g: [g.getQDelta(), g.getQDelta(2), g.getSDelta(2), g.genCoeffs([1, 3, 4], "N2N"), g.dTau, g.size]
    done = set()
    for n, cls in DG.items():
        if cls in done:
            continue
        done.add(cls)
        names = _params(cls)
        both = {}
        if "Q" in names:
            both["Q"] = (A if _lists(cls) else L, Q3)
        if "nodes" in names:
            both["nodes"] = (A, nodes)
        if "tLeft" in names:
            both["tLeft"] = (N, 1)
        if "nNodes" in names:
            if n in ("MIN", "MIN-Speck") or cls.__name__ == "MIN":
                continue
            both["nNodes"] = (W, 3)
        more = dict(nodeType="LEGENDRE", quadType="RADAU-RIGHT") if "nNodes" in names else {}
        add(f"QDelta {n}", lambda cls=cls, more=more, **kw: ask(cls(**kw, **more)), **both)
        add(f"genQDeltaCoeffs {n}", lambda n=n, more=more, **kw: [genQDeltaCoeffs(n, dTau=True, **kw, **more), genQDeltaCoeffs([n], nSweeps=4, **kw, **more)], **both)
        if "nNodes" in names or n in ("BE", "LU", "TRAP"):
            add(f"QDelta {n} sweep index", lambda k, l, cls=cls: (lambda g: [g.getQDelta(k), g.getSDelta(k), g.genCoeffs(k), g.genCoeffs(l)])(cls(qGen=Collocation(3, "LEGENDRE", "RADAU-RIGHT"))), k=(W, 2), l=(A, [1, 2, 4]))
    for n in ("BE", "FE", "TRAP", "BEPAR", "TRAPAR"):
        for tl, nd in ((100, [110, 120, 127]), (-100, [-50, 100]), (0.5, [1, 2]), (0, [1, 200, 255]), (-128, [0, 127])):
            add(f"QDelta {n} nodes {nd} from {tl}", lambda nodes, tLeft, n=n: ask(DG[n](nodes, tLeft)), nodes=(A, nd), tLeft=(N, tl))
    return out


def _params(cls):
    import inspect
    try:
        return set(inspect.signature(cls.__init__).parameters) - {"self", "args", "kwargs"} or _given(cls)
    except (TypeError, ValueError):
        return _given(cls)


def _given(cls):
    from qmat.qcoeff.collocation import Collocation
    return set(cls.extractParams(Collocation(3, "LEGENDRE", "RADAU-RIGHT")))


def _lists(cls):
    return True


def forms_of(name, kind, v):
    small = name.startswith(SMALL)      # where differences of small or unsigned integers are documented not to overflow
    if kind in (A, L):
        return array_forms(v, kind == A, small)
    if kind == W:
        return number_forms(v, True)
    return number_forms(v, False, small)


def flat(r):
    """answer as a list of plain arrays"""
    if isinstance(r, (list, tuple)):
        return [x for i in r for x in flat(i)]
    return [np.array(r)]


def same(got, exp, tol):
    got, exp = flat(got), flat(exp)
    if len(got) != len(exp):
        return "another number of results"
    top = max([float(np.abs(e[np.isfinite(e)]).max(initial=0)) for e in exp]) if tol > TOL else 0
    for g, e in zip(got, exp):
        if g.shape != e.shape:
            return f"shape {g.shape} instead of {e.shape}"
        try:
            g = g.astype(complex)
        except (TypeError, ValueError):
            return f"result of type {g.dtype}"
        e = e.astype(complex)
        sc = max(top, float(np.abs(e[np.isfinite(e)]).max(initial=0))) or 1.
        if not np.array_equal(np.isfinite(g), np.isfinite(e)) or np.abs((g - e)[np.isfinite(e)]).max(initial=0) > tol * sc:
            return f"other values: {np.array2string(g.real if not g.imag.any() else g, threshold=20)} instead of {np.array2string(e.real if not e.imag.any() else e, threshold=20)}"
    return None


def tasks(quick):
    for i in range(len(calls())):
        yield (i, quick)


def run(task, rec):
    i, quick = task
    warnings.simplefilter("ignore")
    name, fn, args = calls()[i]
    names = list(args)
    forms = {a: forms_of(name, *args[a]) for a in names}
    exp = fn(**{a: forms[a][0][1]() for a in names})
    combos = set()
    for a in names:
        combos |= {tuple(j if b == a else 0 for b in names) for j in range(len(forms[a]))}
    for n in (2,) if quick else (2, 3):
        for grp in itertools.combinations(names, n):
            for js in itertools.product(*[range(len(forms[a])) for a in grp]):
                combos.add(tuple(js[grp.index(b)] if b in grp else 0 for b in names))
    labels = {f[0] for a in names for f in forms[a]}
    for l in sorted(labels):        # everything in the same form
        combos.add(tuple(next((j for j, f in enumerate(forms[a]) if f[0] == l), 0) for a in names))
    for c in sorted(combos):
        used = {a: forms[a][j] for a, j in zip(names, c)}
        key = f"{name}: " + ", ".join(f"{a} as {f[0]}" for a, f in used.items())
        rec.step(); rec.trace(); rec.state((name, c))
        given = {a: f[1]() for a, f in used.items()}
        try:
            got = fn(**given)
        except Exception as e:
            rec.fail(key, f"raises {type(e).__name__}: {e}")
            continue
        bad = same(got, exp, LOOSE if any(f[2] for f in used.values()) else TOL)
        rec.expect(bad is None, key, str(bad))
    rec.sample(f"{name}: {len(combos)} combinations of forms give the same")
