N="qmat/nodes.py"; L="qmat/lagrange.py"; QC="qmat/qcoeff/__init__.py"; CO="qmat/qcoeff/collocation.py"
BU="qmat/qcoeff/butcher.py"; QD="qmat/qdelta/__init__.py"; TS="qmat/qdelta/timestepping.py"; AL="qmat/qdelta/algebraic.py"
DI="qmat/qdelta/diag.py"; MT="qmat/qdelta/mincoeffs.py"; UT="qmat/utils/__init__.py"; NU="qmat/utils/num.py"; SD="qmat/utils/sdc.py"
B={}
def bug(id,prop,edits,demo,needs,breaks): B[id]=dict(property=prop,edits=edits,demo=demo,needs=needs,breaks=breaks)

bug("nodes-symmetrized","C01",[(N,'''        nodes.sort()
''','''        nodes.sort()
        if nNodes > 12 and self.quadType in ["GAUSS", "LOBATTO"]:
            nodes = (nodes - nodes[::-1])/2     # symmetric up to rounding errors
''')],'''
import numpy as np
from qmat.nodes import NodesGenerator
n = 15
x = NodesGenerator("CHEBY-3", "GAUSS").getNodes(n)
i = np.arange(n, 0, -1)
assert np.allclose(x, np.cos((i - 0.5)*np.pi/(n + 0.5)), atol=1e-10)
''',"non symmetric polynomials with more than 12 nodes","nodes are not the zeros of the advertised polynomial")

bug("coll-shared-approx","C02",[(CO,'''        approx = LagrangeApproximation(nodes)
        self.approx = approx
''','''        key = (nodeType, quadType, nodes.size, tRight-tLeft)
        approx = self._APPROX.get(key)
        if approx is None:
            approx = self._APPROX[key] = LagrangeApproximation(nodes)
        elif not np.allclose(np.diff(approx.points), np.diff(nodes)):
            approx = LagrangeApproximation(nodes)
        self.approx = approx
'''),(CO,'''    """Defaults parameters for getInstance"""
''','''    """Defaults parameters for getInstance"""

    _APPROX = {}
''')],'''
import numpy as np
from qmat.qcoeff.collocation import Collocation
Collocation(3, "LEGENDRE", "GAUSS", 0, 1)
c = Collocation(3, "LEGENDRE", "GAUSS", 1, 2)
assert np.allclose(c.S, c.T @ c.Q) and np.allclose(c.Q.sum(axis=1), c.nodes - 1) and np.allclose(c.hCoeffs @ c.nodes, 2)
''',"two collocation methods of the same type on intervals of the same length","the second one uses the polynomials of the first interval")

bug("qdelta-index-or-one","C08",[(QD,'''            QDelta = self._QDelta[k] if self._K_DEPENDENT else self._QDelta
''','''            QDelta = self._QDelta[k or 1] if self._K_DEPENDENT else self._QDelta
''')],'''
from qmat import QDELTA_GENERATORS as G
for ks in ([0], [1, 0], [None, 1, 0]):
    g = G["Jumper"](nodes=[0.5, 1.])
    res = []
    for k in ks:
        try: g.getQDelta(k); res.append(True)
        except ValueError: res.append(False)
    assert res[-1] is False, (ks, res)
''',"index zero after the first sweep was asked","an invalid sweep index is accepted depending on the history")

bug("dtau-stored","C08",[(TS,'''    @property
    def dTau(self)->np.ndarray:
        return self.nodes*0 + self.deltas[0]/2.0
''','''    @property
    def dTau(self)->np.ndarray:
        try:
            return self._dTau
        except AttributeError:
            self._dTau = self.nodes*0 + self.deltas[0]/2.0
        return self._dTau
''')],'''
import numpy as np
from qmat.qdelta.timestepping import TRAP
g = TRAP(nodes=np.array([0.25, 0.5, 1.]))
_, d = g.genCoeffs(dTau=True)
d *= 10
assert np.allclose(g.genCoeffs(dTau=True)[1], 0.125) and np.allclose(g.dTau, 0.125)
''',"the caller scales the coefficients it received, then asks again","dTau depends on what the caller did before")

bug("sdelta-stored","C08",[(QD,'''        QDelta = self.getQDelta(k)
        M = QDelta.shape[0]
''','''        if self._K_DEPENDENT and k is None: k = 1
        try:
            return self._SDelta[k]
        except AttributeError:
            self._SDelta = {}
        except KeyError:
            pass
        QDelta = self.getQDelta(k)
        M = QDelta.shape[0]
'''),(QD,'''        T[1:,:-1][np.diag_indices(M-1)] = -1
        return T @ QDelta
''','''        T[1:,:-1][np.diag_indices(M-1)] = -1
        self._SDelta[k] = T @ QDelta
        return self._SDelta[k]
''')],'''
import numpy as np
from qmat.qdelta.timestepping import BE
g = BE(nodes=np.array([0.25, 0.5, 1.]))
S = g.getSDelta(); ref = S.copy(); S[:] = 0
assert np.allclose(g.getSDelta(), ref)
''',"the caller overwrites a node-to-node matrix it received","the generator returns its stored matrix")

bug("sweeps-index-of-type","C09",[(QD,'''                [gen.genCoeffs(k+1, form) for k, gen in enumerate(gens)]
''','''                [gen.genCoeffs(k+1 if gen.isKDependent() and k < 3 else qDeltaType.index(qDT)+1, form)
                 for k, (qDT, gen) in enumerate(zip(qDeltaType, gens))]
''')],'''
import numpy as np
from qmat import genQDeltaCoeffs
n = np.array([0.2, 0.6, 1.])
D = genQDeltaCoeffs(["BE", "Jumper"], nSweeps=6, nodes=n)
for k in range(2, 7):
    assert np.allclose(D[k-1], np.diag(n)/(2*k)), k
''',"a list completed by a sweep dependent type beyond the third sweep","later sweeps use the index of the first occurrence")

bug("soe-local-left","C11",[(TS,'''        times = [self.tLeft] + self.nodes.tolist()
''','''        times = [min(self.tLeft, 0)] + self.nodes.tolist()
''')],'''
import numpy as np
from qmat.qdelta.timestepping import SOE
a = SOE(nodes=np.array([.5, 1., 1.75]), tLeft=0.25)
b = SOE(nodes=np.array([.25, .75, 1.5]), tLeft=0)
assert np.allclose(a.getQDelta(), b.getQDelta())
''',"a left boundary larger than zero with the two-step scheme","not translation invariant")

bug("gs-float32","C12",[(AL,'''        return np.tril(self.Q)
''','''        return np.tril(self.Q) if self.size < 11 else np.tril(self.Q.astype(np.float32)).astype(float)
''')],'''
import numpy as np
from qmat import genQDeltaCoeffs
Q = np.outer(np.arange(1, 14), 1/np.arange(3, 16))
assert np.max(np.abs(genQDeltaCoeffs("GS", Q=Q) - np.tril(Q))) < 1e-12
''',"matrices of size eleven and more","Gauss-Seidel matrix is not the lower triangle of Q")

bug("ns-nonzero-nodes","C13",[(DI,'''        return np.diag(self.nodes)/self.size


@register
class MIN_SR_S''','''        return np.diag(self.nodes)/max(self.size, np.ceil(self.nodes[-1] - 1e-12)*self.size)


@register
class MIN_SR_S''')],'''
import numpy as np
from qmat import genQDeltaCoeffs
n = np.array([0.5, 1., 2.])
assert np.allclose(genQDeltaCoeffs("MIN-SR-NS", nodes=n), np.diag(n)/3)
''',"nodes beyond one","the coefficients are not the nodes divided by their number")

bug("flex-negative-fraction","C13",[(DI,'''    if k < 1: raise ValueError(f"k must be greater than 0 ({k})")
''','''    if int(k) == 0 or k < -100: raise ValueError(f"k must be greater than 0 ({k})")
''')],'''
from qmat import QDELTA_GENERATORS as G
for k in (0, -1, -7):
    for n in ("Jumper", "FlexJumper", "MIN-SR-FLEX"):
        g = G[n](nodes=[0.5, 1.]) if n != "MIN-SR-FLEX" else G[n](nNodes=2, nodeType="LEGENDRE", quadType="GAUSS")
        try: g.getQDelta(k)
        except ValueError: continue
        raise SystemExit(f"{n} {k} accepted")
''',"a negative sweep index","indices below one are not refused")

bug("deriv-second-scaled","C14",[(L,'''        iDiff[np.isinf(iDiff)] = 0

        base''','''        iDiff[np.isinf(iDiff) | (np.abs(iDiff) > 1e12)] = 0

        base''')],'''
import numpy as np
from qmat.lagrange import LagrangeApproximation as LA
x = np.array([0., .5, 1.])*1e-13
D = LA(x).getDerivativeMatrix()
assert np.allclose(D @ x, 1)
''',"points closer than 1e-12 to each other","derivative matrices of very small grids vanish")

bug("call-row-vector","C14",[(L,'''        values = self.getInterpolationMatrix(t.ravel()).dot(fValues)
        values.shape = t.shape
''','''        values = self.getInterpolationMatrix(t.ravel("K")).dot(fValues)
        values = values.reshape(t.shape)
''')],'''
import numpy as np
from qmat.lagrange import LagrangeApproximation as LA
a = LA([0., .5, 1.], fValues=[1., 2., 5.])
t = np.linspace(0, 1, 6).reshape(2, 3)
assert np.allclose(a(t.T), a(t.T.copy()))
''',"evaluation on a transposed array","values are in the wrong places")

bug("dup-right-first","C15",[(L,'''            self._nnzIdx = [
                np.max(np.where(self.points == pts)) for pts in values]
''','''            last = self.points.size - 1 - np.argsort(self.points[::-1], kind="stable")
            self._nnzIdx = last[np.searchsorted(self.points[last], values, side="left")
                                + (np.bincount(self._invIdx) > 3)]
''')],'''
import numpy as np
from qmat.lagrange import LagrangeApproximation as LA
p = np.array([0., 1., 0., 1., 0., .5, 0., 1., 1.])
P = LA(p, duplicates="USE_RIGHT").getInterpolationMatrix(np.array([0., 1., .5]))
assert P[0, 6] == 1 and P[1, 8] == 1 and P[2, 5] == 1, P
''',"a point repeated four times or more with the USE_RIGHT strategy","not the last occurrence is used")

bug("sparse-reuse-allclose","C16",[(L,'''np.array_equal(closestPoints, lastClosestPoints):
''','''np.allclose(closestPoints, lastClosestPoints):
''')],'''
import numpy as np
from qmat.lagrange import getSparseInterpolationMatrix as S
x = np.linspace(0, 1, 5)*1e-9
t = np.array([.1, .35, .9])*1e-9
A = S(x, t, 2)
assert np.allclose(A @ x, t, atol=1e-15), A @ x - t
''',"very fine grids","the stencil weights of another output point are used again")

bug("sdc-converged","C17",[(SD,'''            uNodes = np.linalg.solve(P[k], b)

''','''            uLast, uNodes = uNodes, np.linalg.solve(P[k], b)
            if np.linalg.norm(uNodes - uLast) < 1e-13:
                break       # converged

''')],'''
import numpy as np
from qmat.utils.sdc import solveDahlquistSDC as s
from qmat import genQCoeffs
n, w, Q = genQCoeffs("Collocation", nNodes=3, nodeType="LEGENDRE", quadType="RADAU-RIGHT")
u, m = s(-1, 1, 1, 2, 4, Q, Q, monitors=["errors", "residuals"])
e = m["errors"][-1, 0]
assert np.allclose(e, m["errors"][1, 0]) and np.abs(e).max() > 1e-6, e
''',"monitors together with sweeps that do not change the solution any more","errors of the last sweeps are not recorded")

bug("sdc-monitor-order","C17",[(SD,'''    if monitors:
        tmp = {}
''','''    if monitors:
        if list(monitors) == ["errors", "residuals"] and nSteps > 1: monitors = monitors[:1]*1 + ["residuals"]
        tmp = {}
'''),(SD,'''                monitors["errors"][0, i] = uNodes - u0*np.exp(lam*(times[i] + dt*nodes))
''','''                monitors["errors"][0, i] = uNodes - uNum[i]*np.exp(lam*dt*nodes)
''')],'''
import numpy as np
from qmat.utils.sdc import solveDahlquistSDC as s
from qmat import genQCoeffs
n, w, Q = genQCoeffs("Collocation", nNodes=2, nodeType="LEGENDRE", quadType="RADAU-RIGHT")
u, m = s(-1, 1, 2, 2, 1, Q, np.diag(n), monitors=["errors"])
assert np.allclose(m["errors"][0, 1], u[1] - np.exp(-(1 + n)))
''',"errors monitored before the first sweep of the second and later steps","the recorded error is not relative to the exact solution")

bug("dahlquist-cached-matrix","C18",[(QC,'''        A = np.eye(nodes.size) - lam*dt*Q
        for i''','''        z = lam*dt
        if getattr(self, "_lastZ", None) is None or abs(self._lastZ[0] - z) > 1e-6*abs(z):
            self._lastZ = (z, np.eye(nodes.size) - z*Q)
        A = self._lastZ[1]
        for i''')],'''
import numpy as np
from qmat import Q_GENERATORS as G
g = G["BE"]()
g.solveDahlquist(-1, 1, 1, 1)
u = g.solveDahlquist(-1 - 5e-7, 1, 1, 1)[-1]
assert abs(u - 1/(2 + 5e-7)) < 1e-12, u
''',"two nearly equal coefficients one after the other on one object","the second run uses the matrix of the first")

bug("register-kind","C20",[(QD,'''        if par.default is not None:
            cls._K_DEPENDENT = True
''','''        if par.default is not None:
            QDeltaGenerator._K_DEPENDENT = cls._K_DEPENDENT
            cls._K_DEPENDENT = par.default > 0
''')],'''
import numpy as np
from qmat.qdelta import register, QDeltaGenerator
from qmat import genQDeltaCoeffs
@register
class K0(QDeltaGenerator):
    def computeQDelta(self, k=0):
        return np.tril(self.Q)/(1 + k)
Q = np.ones((2, 2))
D = genQDeltaCoeffs("K0", nSweeps=2, Q=Q)
assert np.allclose(D[1], np.tril(Q)/3)
''',"a new approximation whose default index is zero","the sweep index is ignored for it")

bug("getclasses-module-sub","C20",[(UT,'''        check = lambda cls: cls.__module__.endswith("."+module)
''','''        check = lambda cls: module in cls.__module__.split(".")[:3] and not cls.__subclasses__()
''')],'''
from qmat import QDELTA_GENERATORS as D
from qmat.utils import getClasses
c = {v.__name__ for v in getClasses(D, "diag").values()}
assert {"MIN", "MIN_SR_NS", "MIN_SR_S", "Jumper", "FlexJumper"} <= c, c
''',"a registered class that has subclasses","the list of classes of a module is not complete")

bug("sparse-sorts-points","C21",[(L,'''    A = sp.lil_matrix((len(outPoints), len(inPoints)))
''','''    if gridPeriod > 0 and len(inPoints) > 3:
        inPoints %= gridPeriod
    A = sp.lil_matrix((len(outPoints), len(inPoints)))
''')],'''
import numpy as np
from qmat.lagrange import getSparseInterpolationMatrix as S
x = np.arange(4)/4 + 3.; x0 = x.copy()
S(x, np.array([0.3]), 2, gridPeriod=1.)
assert np.array_equal(x, x0)
''',"a periodic grid with more than three points outside the base interval","the points of the caller are modified")

bug("fejer-last-rule","C22",[(L,'''    # Initialize output variables
    n = int(n)
''','''    global _LAST_N
    # Initialize output variables
    n = int(n)
    if n == _LAST_N:
        return _LAST_RULE["nodes"].copy(), _LAST_RULE["weights"].copy()
'''),(L,'''    weights[:] = w.real

    return nodes, weights
''','''    weights[:] = w.real

    _LAST_N = n
    _LAST_RULE["nodes"], _LAST_RULE["weights"] = nodes.copy(), weights.copy()
    return nodes, weights
'''),(L,'''def computeFejerRule(n):
''','''_LAST_N, _LAST_RULE = None, {}


def computeFejerRule(n):
''')],'''
import sys, threading
import numpy as np
import qmat.lagrange as L
ref = [len(L.computeFejerRule(5)[0]), len(L.computeFejerRule(3)[0])]
src = open(L.__file__).read().splitlines()
bad = []
def run(stop_line):
    """one thread stopped before the given line of computeFejerRule, another one runs through"""
    L.computeFejerRule(3)
    here, go = threading.Event(), threading.Event()
    def tr(frame, ev, arg):
        if frame.f_code.co_name != "computeFejerRule": return None
        if ev == "line" and frame.f_lineno == stop_line:
            here.set(); go.wait(5)
        return tr
    def a():
        sys.settrace(tr)
        try: L.computeFejerRule(5)
        finally: sys.settrace(None); here.set()
    t = threading.Thread(target=a); t.start(); here.wait(5)
    x, w = L.computeFejerRule(5)
    if len(x) != 5 or len(w) != 5 or abs(w.sum() - 2) > 1e-12: bad.append((stop_line, x, w))
    go.set(); t.join()
import inspect
lines, st = inspect.getsourcelines(L.computeFejerRule)
for l in range(st, st + len(lines)): run(l)
assert not bad, bad[:1]
''',"two threads asking the same rule, switched between storing the number and the rule","a thread gets the rule of another number of points")

bug("hcoeffs-filled-late","C22",[(CO,'''        return self.approx.getInterpolationMatrix([self.tRight]).ravel()
''','''        if not hasattr(self, "_hCoeffs"):
            self._hCoeffs = np.zeros(self._nodes.size)
            self._hCoeffs[:] = self.approx.getInterpolationMatrix([self.tRight]).ravel()
        return self._hCoeffs.copy()
''')],'''
import sys, threading, inspect
import numpy as np
from qmat.qcoeff.collocation import Collocation
import qmat.lagrange as L
bad = []
ref = Collocation(3, "LEGENDRE", "GAUSS").hCoeffs
c = Collocation(3, "LEGENDRE", "GAUSS")
here, go = threading.Event(), threading.Event()
old = c.approx.getInterpolationMatrix
def slow(*a, **k):
    if threading.current_thread().name == "A":
        here.set(); go.wait(5)
    return old(*a, **k)
c.approx.getInterpolationMatrix = slow
t = threading.Thread(target=lambda: c.hCoeffs, name="A"); t.start(); here.wait(5)
h = c.hCoeffs
go.set(); t.join()
assert np.allclose(h, ref), h
''',"two threads asking a new object for its interpolation coefficients","one thread gets zeros")

bug("timer-class-start","C23",[(UT,'''        self.tStart = time()
''','''        type(self).tStart = time()
''')],'''
import time
from qmat.utils import Timer
a, b = Timer("a"), Timer("b")
a.start(); time.sleep(0.05); b.start(); a.stop()
assert a.tWall > 0.04, a.tWall
''',"two timers running at the same time","the outer timer reports the time since the inner one started")

bug("extrap-centered","C23",[(NU,'''    P = T @ np.linalg.solve(X.T @ X, X.T)
''','''    if pOrder > 5 and X.shape[0] > X.shape[1]:
        P = T @ np.linalg.pinv(X, rcond=1e-5)
    else:
        P = T @ np.linalg.solve(X.T @ X, X.T)
''')],'''
import numpy as np
from qmat.utils.num import getExtrapolationMatrix as E
x = np.linspace(0, 1, 9); t = np.array([1.1])
P = E(x, t, 6)
assert abs((P @ x**6 - t**6)[0]) < 1e-7, P @ x**6 - t**6
''',"a fit of degree six or more with more nodes than coefficients","polynomials of that degree are not reproduced")


bug("coeffs-user-nodes","C07",[(QC,'''        return self.nodes[-1] == 1.
''','''        return bool(np.isclose(self.nodes, 1.).any())
''')],'''
import numpy as np
from qmat.qcoeff import QGenerator
class G(QGenerator):
    nodes = property(lambda s: np.array([1., 0.5])); Q = property(lambda s: np.eye(2)); weights = property(lambda s: np.ones(2)/2); order = property(lambda s: 1)
assert not G().rightIsNode
''',"a method whose last node is not the right boundary but another one is","rightIsNode is wrong")

bug("qgen-getattr-left","C10",[(TS,'''getattr(qGen, "tLeft", 0)}
''','''qGen.tLeft if type(qGen).__name__ == "Collocation" else 0}
''')],'''
from qmat.qcoeff.collocation import Collocation
from qmat import genQDeltaCoeffs
import numpy as np
class MyColl(Collocation): pass
a, b = (genQDeltaCoeffs("BE", qGen=C(2, "LEGENDRE", "GAUSS", 1, 2)) for C in (Collocation, MyColl))
assert np.allclose(a, b)
''',"a class derived from Collocation on an interval that does not start at zero","the left boundary of the Q-generator is ignored")
BUGS = B
