N="qmat/nodes.py"; L="qmat/lagrange.py"; QC="qmat/qcoeff/__init__.py"; CO="qmat/qcoeff/collocation.py"
BU="qmat/qcoeff/butcher.py"; QD="qmat/qdelta/__init__.py"; TS="qmat/qdelta/timestepping.py"; AL="qmat/qdelta/algebraic.py"
DI="qmat/qdelta/diag.py"; MT="qmat/qdelta/mincoeffs.py"; UT="qmat/utils/__init__.py"; NU="qmat/utils/num.py"; SD="qmat/utils/sdc.py"
B={}
def bug(id,prop,edits,demo,needs,breaks): B[id]=dict(property=prop,edits=edits,demo=demo,needs=needs,breaks=breaks)

bug("sparse-period-small","C16",[(L,'''        if gridPeriod > 0:
''','''        if gridPeriod >= np.ptp(inPoints) and gridPeriod > 0 and order > 1:
''')],'''
import numpy as np
from qmat.lagrange import getSparseInterpolationMatrix as S
x = np.arange(4)/4
A = S(x, np.array([0.99]), 1, gridPeriod=1.).toarray()
assert np.allclose(A, [[1, 0, 0, 0]]), A
''',"order one on a periodic grid, output point nearer to an input point beyond the end of the period","nearest neighbour does not look across the period")

bug("sparse-period-inmod","C16",[(L,'''            pathC = (inPoints % gridPeriod - outPoints[i] % gridPeriod)
''','''            pathC = (inPoints - outPoints[i] % gridPeriod)
''')],'''
import numpy as np
from qmat.lagrange import getSparseInterpolationMatrix as S
x = np.arange(8)/8 - 3.
A = S(x, np.array([0.3]), 2, gridPeriod=1.)
B = S(x + 3, np.array([0.3]), 2, gridPeriod=1.)
assert np.allclose(A.toarray(), B.toarray())
''',"a periodic grid that lies more than a period away from the base interval","the stencil is not the nearest one modulo the period")

bug("sparse-out-fmod","C16",[(L,'''            pathC = (inPoints % gridPeriod - outPoints[i] % gridPeriod)
''','''            pathC = (inPoints % gridPeriod - np.fmod(outPoints[i], gridPeriod))
''')],'''
import numpy as np
from qmat.lagrange import getSparseInterpolationMatrix as S
x = np.arange(8)/8
for s in [-1.05, -0.93, -2.6, -.02]:
    A, B = S(x, np.array([s]), 3, gridPeriod=1.).toarray(), S(x, np.array([s + 5]), 3, gridPeriod=1.).toarray()
    assert np.allclose(A, B), (s, A, B)
''',"negative output points near minus one period","periodic results change when output points move by whole periods")

bug("flex-k-attribute","C22",[(DI,'''        k = check(k)
        if k <= self.size:
            return np.diag(self.coll.nodes/k)
''','''        self.k = check(k)
        if self.k <= self.size:
            nodes = self.coll.nodes
            return np.diag(nodes/self.k)
''')],'''
import sys, threading
import numpy as np
from qmat.qdelta.diag import MIN_SR_FLEX
sys.setswitchinterval(1e-6)
M = 3
bad = []
gate = threading.Lock()
# controlled: one thread is stopped inside computeQDelta, after it stored k, another one runs through
for lines in range(1, 6):
    g = MIN_SR_FLEX(M, "LEGENDRE", "RADAU-RIGHT")
    ref = MIN_SR_FLEX(M, "LEGENDRE", "RADAU-RIGHT").getQDelta(k=1)
    stop, go = threading.Event(), threading.Event()
    def tracer(frame, event, arg, n=[0]):
        if frame.f_code.co_name != "computeQDelta": return tracer if event == "call" else None
        if event == "line":
            n[0] += 1
            if n[0] == lines:
                stop.set(); go.wait(5)
        return tracer
    def a():
        sys.settrace(tracer)
        try:
            bad.append(np.array(g.getQDelta(k=1)))
        finally:
            sys.settrace(None); stop.set()
    t = threading.Thread(target=a); t.start(); stop.wait(5)
    g.getQDelta(k=2)
    go.set(); t.join()
    tracer.__defaults__[0][0] = 0
    assert np.allclose(bad[-1], ref), (lines, bad[-1], ref)
''',"one generator shared by threads asking different sweeps, with a switch inside computeQDelta","a thread gets the matrix of another thread's sweep")

bug("solve-swap-weights","C22",[(QC,'''        nodes, weights, Q = self.nodes, self.weights, self.Q

        if useEmbeddedWeights:
            weights = self.weightsEmbedded

        uNum = np.zeros(nSteps+1, dtype=complex)
        uNum[0] = u0

        dt = tEnd/nSteps
        A = np.eye(nodes.size) - lam*dt*Q
''','''        self._embedded = useEmbeddedWeights
        nodes, Q = self.nodes, self.Q
        uNum = np.zeros(nSteps+1, dtype=complex)
        uNum[0] = u0

        dt = tEnd/nSteps
        A = np.eye(nodes.size) - lam*dt*Q
        weights = self.weightsEmbedded if self._embedded else self.weights
''')],'''
import sys, threading
import numpy as np
from qmat.qcoeff.butcher import RK_SCHEMES
for lines in range(1, 8):
    g = RK_SCHEMES["ESDIRK53"]()
    ref = g.solveDahlquist(-1, 1, 1, 2)
    stop, go, out = threading.Event(), threading.Event(), []
    n = [0]
    def tracer(frame, event, arg):
        if frame.f_code.co_name != "solveDahlquist": return tracer if event == "call" else None
        if event == "line":
            n[0] += 1
            if n[0] == lines:
                stop.set(); go.wait(5)
        return tracer
    def a():
        sys.settrace(tracer)
        try:
            out.append(g.solveDahlquist(-1, 1, 1, 2))
        finally:
            sys.settrace(None); stop.set()
    t = threading.Thread(target=a); t.start(); stop.wait(5)
    g.solveDahlquist(-1, 1, 1, 2, useEmbeddedWeights=True)
    go.set(); t.join()
    assert np.allclose(out[0], ref, atol=1e-12), lines
''',"one RK object shared by two threads, one solving with the embedded weights","the solution of the main method is computed with the embedded weights")

bug("sdc-abs-time","C17",[(SD,'''    dt = tEnd/nSteps
    times = np.linspace(0, tEnd, nSteps+1)

    QDelta = np''','''    dt = abs(tEnd)/nSteps
    times = np.linspace(0, tEnd, nSteps+1)

    QDelta = np'''),] ,'''
import numpy as np
from qmat import genQCoeffs, genQDeltaCoeffs
from qmat.utils.sdc import solveDahlquistSDC
n, w, Q = genQCoeffs("coll", nNodes=3, nodeType="LEGENDRE", quadType="RADAU-RIGHT")
u = solveDahlquistSDC(-1, 1, -1., 4, 12, Q, genQDeltaCoeffs("BE", nodes=n))
assert abs(u[-1] - np.exp(1)) < 1e-2, u
''',"a negative final time (integration backward in time)","the solver integrates forward")

bug("sdc-real-problem","C17",[(SD,'''            uNodes = np.linalg.solve(P[k], b)
''','''            if np.isrealobj(b) or not np.any(P[k].imag):
                uNodes = np.linalg.solve(P[k].real, b.real)
            else:
                uNodes = np.linalg.solve(P[k], b)
''')],'''
import numpy as np
from qmat import genQCoeffs, genQDeltaCoeffs
from qmat.utils.sdc import solveDahlquistSDC
n, w, Q = genQCoeffs("coll", nNodes=3, nodeType="LEGENDRE", quadType="RADAU-RIGHT")
QD = genQDeltaCoeffs("BE", nodes=n)
a = solveDahlquistSDC(-1, 1j, 1., 4, 3, Q, QD)
b = solveDahlquistSDC(-1, 1, 1., 4, 3, Q, QD)
assert np.allclose(a, 1j*b)
''',"a real coefficient with a complex initial value","the imaginary part of the solution is lost")

bug("dahlquist-implicit-shortcut","C18",[(QC,'''        A = np.eye(nodes.size) - lam*dt*Q
        for i''','''        A = np.eye(nodes.size) - lam*dt*Q
        if not useEmbeddedWeights and np.allclose(weights, Q[-1], atol=1e-2):
            weights = Q[-1]  # stiffly accurate
        for i''')],'''
import numpy as np
from qmat import Q_GENERATORS
for nodeType in ["CHEBY-1", "CHEBY-2", "EQUID", "LEGENDRE"]:
    for M in range(2, 15):
        g = Q_GENERATORS["coll"](M, nodeType, "GAUSS")
        u = g.solveDahlquist(-1., 1., 1., 1)
        R = 1 - g.weights @ np.linalg.solve(np.eye(M) + g.Q, np.ones(M))
        assert abs(u[1] - R) < 1e-6, (nodeType, M, u[1], R)
''',"methods whose last stage is nearly the step update (many Gauss nodes)","the step update is replaced by the last stage")

bug("list-one-sweep","C08",[(QD,'''            out = [np.array([gen(_k, copy=False) for _k in k])]
''','''            out = [gen(k[0], copy=False)[None, ...]] if len(k) == 1 \\
                else [np.array([gen(_k, copy=False) for _k in k])]
''')],'''
import numpy as np
from qmat.qdelta import QDELTA_GENERATORS as D
g = D["BE"](nodes=[.2, .5, 1.])
ref = g.getQDelta()
g.genCoeffs(k=[1])[:] = 7
assert np.allclose(g.getQDelta(), ref)
''',"a list with exactly one sweep, whose result is overwritten by the caller","the cached matrix of the generator is overwritten")

bug("deriv-all-duplicates","C15",[(L,'''            np.fill_diagonal(D2, -D2.sum(axis=-1))
            if duplicates:
                D2''','''            np.fill_diagonal(D2, -D2.sum(axis=-1))
            if duplicates and order == 2:
                D2''')],'''
import numpy as np
from qmat.lagrange import LagrangeApproximation as LA
a = LA([0., 1., 1., 2.])
D1, D2 = a.getDerivativeMatrix("ALL")
assert D2.shape == a.getDerivativeMatrix(2).shape
''',"both derivatives at once with duplicated points","second derivative matrix misses the columns of duplicates")

bug("dup-last-run","C15",[(L,'''                np.max(np.where(self.points == pts)) for pts in values]
''','''                idx + np.argmin(np.append(self.points[idx:], np.nan) == pts) - 1
                for idx, pts in zip(indices, values)]
''')],'''
import numpy as np
from qmat.lagrange import LagrangeApproximation as LA
a = LA([1., 0., 1., 0.5], duplicates="USE_RIGHT")
P = a.getInterpolationMatrix([1., 0., .5])
assert np.allclose(P, [[0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]]), P
''',"duplicates that are not next to each other, with USE_RIGHT","the last of the first run of equal points is used instead of the last occurrence")

bug("weights-zero-ref","C14",[(L,'''                wScale = wLog[np.argmin(np.abs(points))]
''','''                wScale = wLog[np.searchsorted(points, 0)]
''')],'''
import numpy as np
from qmat.lagrange import LagrangeApproximation as LA
a = LA([-3., -2., -1.], weightComputation="STABLE", scaleRef="ZERO")
assert np.allclose(a.getInterpolationMatrix([-2.5]) @ np.array([-3., -2., -1.]), -2.5)
''',"all points negative with the ZERO scaling reference","building the approximation fails")

bug("integ-merge","C14",[(L,'''        # Compute quadrature nodes for each interval
''','''        # Intervals computed from the smaller to the larger bound
        intervals = np.sort(intervals, axis=1)

        # Compute quadrature nodes for each interval
''')],'''
import numpy as np
from qmat.lagrange import LagrangeApproximation as LA
a = LA([0., .5, 1.])
assert np.allclose(a.getIntegrationMatrix([(1, 0)]), -a.getIntegrationMatrix([(0, 1)]))
''',"a reversed interval","the integral has the wrong sign")

bug("integ-legendre-odd","C14",[(L,'''            iNodes, iWeights = roots_legendre((self.n + 1) // 2)
''','''            iNodes, iWeights = roots_legendre(max(self.n // 2, 1))
''')],'''
import numpy as np
from qmat.lagrange import LagrangeApproximation as LA
for n in [3, 5, 7]:
    x = np.linspace(0, 1, n)
    a = LA(x)
    Q = a.getIntegrationMatrix([(0, 1)], numQuad="LEGENDRE_SCIPY")
    assert abs(Q @ x**(n-1) - 1/n) < 1e-10
''',"the scipy Gauss rule with an odd number of points","integrals of the highest degree are wrong")

bug("coll-h-node","C02",[(CO,'''        return self.approx.getInterpolationMatrix([self.tRight]).ravel()
''','''        return self.approx.getInterpolationMatrix([max(self.tRight, self.nodes[-1], 1)]).ravel()
''')],'''
import numpy as np
from qmat.qcoeff.collocation import Collocation as C
c = C(3, "LEGENDRE", "GAUSS", tLeft=0, tRight=.5)
assert abs(c.hCoeffs @ c.nodes - .5) < 1e-12
''',"an interval that ends before one","right boundary coefficients extrapolate to one")

bug("coll-s-left","C02",[(CO,'''        pInts = [(self.tLeft if i == 0 else nodes[i-1], nodes[i])
''','''        pInts = [(min(self.tLeft, 0) if i == 0 else nodes[i-1], nodes[i])
''')],'''
import numpy as np
from qmat.qcoeff.collocation import Collocation as C
c = C(3, "LEGENDRE", "GAUSS", tLeft=1, tRight=2)
assert np.allclose(np.cumsum(c.S, axis=0), c.Q)
''',"an interval with a positive left end","node-to-node matrix starts from zero")

bug("coll-radau-left-right","C02",[(CO,'''        if quadType in ["LOBATTO", "RADAU-RIGHT"]: nodes[-1] = tRight
''','''        if quadType == "LOBATTO": nodes[-1] = tRight
        if quadType == "RADAU-RIGHT" and tRight >= 1: nodes[-1] = tRight
''')],'''
import numpy as np
from qmat.qcoeff.collocation import Collocation as C
rng = np.linspace(0.01, 0.99, 300)
for r in rng:
    c = C(3, "LEGENDRE", "RADAU-RIGHT", tLeft=-0.1, tRight=r)
    assert c.rightIsNode and c.nodes[-1] == r, r
''',"Radau nodes on an interval whose rounding moves the right boundary","the right boundary is not exactly a node")

bug("generic-constr-kind","C20",[(UT,'''        par = sig.parameters["kwargs"]
        assert par.kind == par.VAR_KEYWORD
''','''        par = sig.parameters["kwargs"]
        assert par.kind in [par.VAR_KEYWORD, par.KEYWORD_ONLY, par.POSITIONAL_OR_KEYWORD]
''')],'''
from qmat.qdelta import QDeltaGenerator, register, QDELTA_GENERATORS
class Strange(QDeltaGenerator):
    def __init__(self, Q, kwargs=None):
        super().__init__(Q)
    def computeQDelta(self, k=None):
        return self.zeros
try:
    register(Strange)
except AssertionError:
    pass
else:
    raise SystemExit("registered")
assert "Strange" not in QDELTA_GENERATORS
''',"a class with an ordinary parameter called kwargs","a class without generic constructor is registered")

bug("override-mro","C20",[(UT,'''    method = getattr(cls, name)
    parent = getattr(cls.mro()[mroIndex], name)
''','''    method = getattr(cls, name)
    parent = getattr(cls.mro()[1], name)
''')],'''
from qmat.qdelta import register, QDELTA_GENERATORS
from qmat.qdelta.timestepping import BE
class MyBE(BE):
    aliases = ["MyBackward"]
register(MyBE)
assert QDELTA_GENERATORS["MyBackward"] is MyBE
''',"registering a class which inherits its implementation from another registered one","a valid class is refused")

bug("register-k-default","C20",[(QD,'''        if par.default is not None:
            cls._K_DEPENDENT = True
''','''        if par.default:
            cls._K_DEPENDENT = par.default == 1
''')],'''
import numpy as np
from qmat.qdelta import QDeltaGenerator, register, genQDeltaCoeffs
class FromTwo(QDeltaGenerator):
    def __init__(self, Q, **kwargs):
        super().__init__(Q)
    def computeQDelta(self, k=2):
        return self.Q/(k or 2)
register(FromTwo)
out = genQDeltaCoeffs("FromTwo", nSweeps=3, Q=np.eye(2))
assert np.allclose([o[0, 0] for o in out], [1, .5, 1/3]), out
''',"a newly registered approximation that depends on the sweep, with another default than one","all sweeps give the coefficients of the first")

bug("table-float-size","C13",[(DI,'''            coeffs = table[self.nodeType][self.quadType][self.size]
''','''            sizes = table[self.nodeType][self.quadType]
            coeffs = sizes[min(self.size, max(sizes))]
            if self.size > len(coeffs):
                coeffs = list(coeffs) + [coeffs[-1]]*(self.size - len(coeffs))
''')],'''
from qmat.qdelta.diag import MIN3
try:
    MIN3(25, "LEGENDRE", "RADAU-RIGHT").getQDelta()
except NotImplementedError:
    pass
else:
    raise SystemExit("coefficients made up")
''',"more nodes than tabulated","coefficients that do not exist are made up")

bug("flex-late-stiff","C13",[(DI,'''        if k <= self.size:
            return np.diag(self.coll.nodes/k)
''','''        if k < self.size or k == self.size <= 6:
            return np.diag(self.coll.nodes/k)
''')],'''
import numpy as np
from qmat.qdelta.diag import MIN_SR_FLEX
for M in range(2, 9):
    g = MIN_SR_FLEX(M, "LEGENDRE", "RADAU-RIGHT")
    assert np.allclose(g.getQDelta(k=M), np.diag(g.coll.nodes/M)), M
''',"sweep index equal to the number of nodes, for seven nodes or more","the stiff coefficients are used one sweep too early")

bug("qgen-tleft-ignored","C10",[(TS,'''        return {"nodes": qGen.nodes, "tLeft": getattr(qGen, "tLeft", 0)}
''','''        return {"nodes": qGen.nodes}
''')],'''
import numpy as np
from qmat.qcoeff.collocation import Collocation as C
from qmat import genQDeltaCoeffs
c = C(3, "LEGENDRE", "GAUSS", tLeft=1, tRight=2)
assert np.allclose(genQDeltaCoeffs("BE", qGen=c), genQDeltaCoeffs("BE", nodes=c.nodes, tLeft=1))
''',"a collocation on an interval that does not start at zero","first step starts at zero")

bug("sweeps-complete-first","C09",[(QD,'''            qDeltaType = qDeltaType + [qDeltaType[-1]]*(nSweeps-len(qDeltaType))
''','''            qDeltaType += [qDeltaType[-1]]*(nSweeps-len(qDeltaType))
''')],'''
from qmat import genQDeltaCoeffs
l = ["BE", "FE"]
genQDeltaCoeffs(l, nSweeps=4, nodes=[.2, .6, 1.])
assert l == ["BE", "FE"], l
''',"a list shorter than the number of sweeps, used again by the caller","the list of the caller is extended")

bug("sweeps-bool","C09",[(QD,'''        elif isinstance(nSweeps, int) and nSweeps > 0:
            qDeltaType = [qDeltaType]  # more''','''        elif nSweeps > 0:
            nSweeps = int(nSweeps)
            qDeltaType = [qDeltaType]  # more''')],'''
from qmat import genQDeltaCoeffs
try:
    genQDeltaCoeffs("BE", nSweeps=2.5, nodes=[.2, .6, 1.])
except ValueError:
    pass
else:
    raise SystemExit("accepted")
''',"a fractional number of sweeps","a non-integer number of sweeps is accepted")

bug("soe-left","C11",[(TS,'''        times = [self.tLeft] + self.nodes.tolist()
''','''        times = [0] + self.nodes.tolist()
''')],'''
import numpy as np
from qmat.qdelta.timestepping import SOE
a = SOE(nodes=[.2, .6, 1.]).getQDelta()
b = SOE(nodes=[1.2, 1.6, 2.], tLeft=1).getQDelta()
assert np.allclose(a, b)
''',"a left boundary different from zero","multistep coefficients use a wrong left point")

bug("trap-dtau-left","C11",[(TS,'''        return self.nodes*0 + self.deltas[0]/2.0
''','''        return self.nodes*0 + self.nodes[0]/2.0
''')],'''
import numpy as np
from qmat.qdelta.timestepping import TRAP
g = TRAP(nodes=[1.2, 1.6, 2.], tLeft=1)
assert np.allclose(g.getQDelta().sum(axis=1) + g.dTau, g.nodes - 1)
''',"a left boundary different from zero","contribution of the initial value is too large")

bug("lu-small-multiplier","C12",[(AL,'''        return super().computeQDelta()*2
''','''        QDelta = super().computeQDelta()
        return np.where(np.abs(QDelta) > 1e-12, 2*QDelta, 0)
''')],'''
import numpy as np
from qmat.qdelta.algebraic import LU, LU2
Q = np.array([[1., 2.], [3., 4.]])*1e-13
assert np.allclose(LU2(Q).getQDelta()*1e13, 2*LU(Q).getQDelta()*1e13)
''',"a quadrature matrix on a tiny interval","small coefficients are dropped")

bug("gs-diagonal-zero","C12",[(AL,'''        return np.tril(self.Q)
''','''        QDelta = np.tril(self.Q)
        if QDelta[0, 0] == 0: QDelta[:, 0] = 0  # first node is the initial value
        return QDelta
''')],'''
import numpy as np
from qmat.qdelta.algebraic import GS
from qmat.qcoeff.collocation import Collocation as C
Q = C(3, "LEGENDRE", "LOBATTO").Q
assert np.allclose(GS(Q).getQDelta(), np.tril(Q))
''',"a matrix whose first diagonal entry is zero (Lobatto nodes)","first column is dropped")

bug("order-log2","C23",[(NU,'''    rmse /= x.size**0.5
''','''    rmse /= len(set(nSteps.tolist()))**0.5
''')],'''
import numpy as np
from qmat.utils.num import numericalOrder
n, e = [2, 2, 4, 8], [.1, .2, .03, .004]
b, r = numericalOrder(n, np.array(e))
x, y = np.log10(1/np.array(n)), np.log10(e)
p = np.polyfit(x, y, 1)
assert abs(r - np.sqrt(np.mean((np.polyval(p, x) - y)**2))) < 1e-10
''',"repeated numbers of steps","the deviation is divided by the wrong number of points")

bug("fejer-large","C23",[(L,'''        2 * np.exp(1j * np.pi * K / n) / (1 - 4 * K**2),
''','''        2 * np.exp(1j * np.pi * K / n) / (1 - 4 * K.astype(np.int16)**2),
''')],'''
import numpy as np
from qmat.lagrange import computeFejerRule
for n in [10, 150, 200, 300, 399]:
    x, w = computeFejerRule(n)
    assert abs(w @ x**2 - 2/3) < 1e-12, n
''',"more than about 365 points","overflow of squared integers gives wrong weights")

bug("ldu-skip-zero","C23",[(NU,'''        for j in range(i + 1, n):
            # Compute elements for L below the diagonal
''','''        for j in range(i + 1, n):
            if A[j, i] == 0 and A[i, j] == 0: continue

            # Compute elements for L below the diagonal
''')],'''
import numpy as np
from qmat.utils.num import lduFactorization
A = np.array([[2., 1, 1], [1, 3, 0], [1, 0, 4]])
L, D, U = lduFactorization(A)
assert np.allclose(L @ D @ U, A)
''',"a matrix with symmetric zeros that fill in","product of the factors differs from the matrix")

bug("order-over-fe","C19",[(SD,'''            if nSweeps == 3 and nNodes == 3 and nodeType == "EQUID" and quadType == "RADAU-RIGHT":
                order += 1
            if nSweeps == 4 and nNodes == 3 and nodeType == "CHEBY-4" and quadType == "RADAU-RIGHT":
                order += 1
        if qDelta == "TRAP"''','''            if nSweeps in [3, 5] and nNodes == 3 and nodeType == "EQUID" and quadType == "RADAU-RIGHT":
                order += 1
            if nSweeps == 4 and nNodes == 3 and nodeType == "CHEBY-4" and quadType == "RADAU-RIGHT":
                order += 1
        if qDelta == "TRAP"''')],'''
from qmat.qcoeff.collocation import Collocation as C
from qmat.utils.sdc import getOrderSDC
c = C(3, "EQUID", "RADAU-RIGHT")
assert getOrderSDC(c, 5, "FE", "LASTNODE") <= c.order
''',"many forward Euler sweeps on three equidistant nodes","announced order exceeds that of the collocation")

bug("pad-both-order","C06",[(BU,'''            if padding in ["RIGHT", "BOTH"]:
''','''            if padding == "RIGHT" or (padding == "BOTH" and self.c[-1] != 1):
''')],'''
from qmat.qcoeff.butcher import RK_SCHEMES as S
for n, c in S.items():
    g = c(padding="BOTH")
    assert g.nNodes == c().nNodes + 2, n
''',"both-sided padding of a method whose last node is one","the right padding is left out")

bug("pad-embedded-row","C06",[(BU,'''                newA[-1] = self.b
                self.A = newA
''','''                newA[-1] = self.b if self.b2 is None or padding == "RIGHT" else self.b2
                self.A = newA
''')],'''
import numpy as np
from qmat.qcoeff.butcher import RK_SCHEMES as S
g = S["ESDIRK53"](padding="BOTH")
assert np.allclose(g.A[-1], g.b)
''',"both-sided padding of an embedded method","the last stage is the embedded update")

bug("gen-embedded-n2n","C07",[(QC,'''        if embedded:
            out[1] = np.vstack([out[1], self.weightsEmbedded])
''','''        if embedded:
            pair = [out[1], self.weightsEmbedded]
            out[1] = np.vstack(pair[::-1] if form == "N2N" and hCoeffs else pair)
''')],'''
import numpy as np
from qmat import genQCoeffs
a = genQCoeffs("ESDIRK53", form="N2N", embedded=True, hCoeffs=True)[1]
b = genQCoeffs("ESDIRK53", embedded=True)[1]
assert np.allclose(a, b)
''',"embedded weights, interpolation coefficients and node-to-node form together","rows of the weights are exchanged")

bug("minimize-random","C21",[(DI,'''        x0 = 10 * np.ones(self.size)
        d = spo.minimize''','''        np.random.seed(0)
        x0 = 10 * np.ones(self.size) + 0*np.random.rand(self.size)
        d = spo.minimize''')],'''
import numpy as np
from qmat.qdelta.diag import MIN
np.random.seed(5); a = np.random.rand()
np.random.seed(5); MIN(Q=np.eye(2)).getQDelta(); b = np.random.rand()
assert a == b
''',"a program that uses the random state of numpy after the call","the random state is reset")

bug("extrap-nodes-scaled","C21",[(NU,'''    if pOrder is None: pOrder = np.size(nodes)-1
''','''    if pOrder is None: pOrder = np.size(nodes)-1
    if isinstance(times, np.ndarray) and np.any(np.isnan(times)): times[np.isnan(times)] = 0
    if isinstance(nodes, list): nodes.sort()
''')],'''
from qmat.utils.num import getExtrapolationMatrix as E
x = [1., 0., .5]
E(x, [2.])
assert x == [1., 0., .5]
''',"nodes given as an unsorted list used again by the caller","the argument is modified")
BUGS=B
