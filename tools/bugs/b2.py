N="qmat/nodes.py"; L="qmat/lagrange.py"; QC="qmat/qcoeff/__init__.py"; CO="qmat/qcoeff/collocation.py"
BU="qmat/qcoeff/butcher.py"; QD="qmat/qdelta/__init__.py"; TS="qmat/qdelta/timestepping.py"; AL="qmat/qdelta/algebraic.py"
DI="qmat/qdelta/diag.py"; MT="qmat/qdelta/mincoeffs.py"; UT="qmat/utils/__init__.py"; NU="qmat/utils/num.py"; SD="qmat/utils/sdc.py"
B={}
def bug(id,prop,edits,demo,needs,breaks): B[id]=dict(property=prop,edits=edits,demo=demo,needs=needs,breaks=breaks)

bug("nodes-equid-arange","C01",[(N,'''                return np.linspace(-1, 1, num=nNodes + 2)[1:-1]
''','''                h = 2 / (nNodes + 1)
                return np.arange(-1 + h, 1, h)
''')],'''
from qmat.nodes import NodesGenerator
for n in range(1, 200):
    assert NodesGenerator("EQUID", "GAUSS").getNodes(n).size == n, n
''',"some numbers of equidistant inner nodes for which rounding adds one","one node too many for certain sizes")

bug("ark443-coupling","C05",[(BU,'''                  [ 1/4 ,  7/4 , 3/4, -7/4, 0]])
    b = A[-1]
''','''                  [ 1/2 ,  7/4 , 1/2, -7/4, 0]])
    b = np.array([1/4, 7/4, 3/4, -7/4, 0])
''')],'''
import numpy as np
from qmat.qcoeff.butcher import RK_SCHEMES as S
E, I = S["ARK443ERK"](), S["ARK443ESDIRK"]()
assert abs(I.b @ E.A @ E.c - 1/6) < 1e-10, I.b @ E.A @ E.c
''',"the explicit and implicit tables used together on a split problem","a coupling order condition of the pair is lost, both tables alone keep their order")

bug("duplicates-sorted","C15",[(L,'''            self._nnzIdx = [
                np.max(np.where(self.points == pts)) for pts in values]
''','''            self._nnzIdx = np.searchsorted(self.points, values, side="right") - 1
''')],'''
import numpy as np
from qmat.lagrange import LagrangeApproximation as LA
a = LA([1., 0., 1., 0.5], duplicates="USE_RIGHT")
P = a.getInterpolationMatrix([1., 0., .5])
assert np.allclose(P, [[0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]]), P
''',"unsorted points with duplicates and USE_RIGHT","the columns of wrong points are dropped")

bug("duplicates-merge-close","C14",[(L,'''        uniques = np.unique(points)
''','''        # (rounding, such that nearly identical points are seen as duplicates too)
        uniques = np.unique(np.round(points, 14))
        if points.size == uniques.size: uniques = np.unique(points)
''')],'''
import numpy as np
from qmat.lagrange import LagrangeApproximation as LA
x = np.array([0, 1, 3, 4.])*1e-15
a = LA(x)
P = a.getInterpolationMatrix(np.array([2e-15]))
assert np.allclose(P @ x, 2e-15), P
''',"points closer than 1e-14 to each other","points on tiny scales are merged")

bug("sdc-early-stop","C17",[(SD,'''            b = uNum[i] + lam*dt*(Q-QDelta[k]) @ uNodes
            uNodes = np.linalg.solve(P[k], b)
''','''            b = uNum[i] + lam*dt*(Q-QDelta[k]) @ uNodes
            uNext = np.linalg.solve(P[k], b)
            if not np.allclose(uNext, uNodes, rtol=1e-14):  # else already converged
                uNodes = uNext
''')],'''
import numpy as np
from qmat import genQCoeffs, genQDeltaCoeffs
from qmat.utils.sdc import solveDahlquistSDC as s
n, w, Q = genQCoeffs("Collocation", nNodes=3, nodeType="LEGENDRE", quadType="RADAU-RIGHT")
D = genQDeltaCoeffs("BE", nodes=n)
u1 = s(-1, 1, 1, 2, 3, Q, D); u2 = s(-1, 1e-9, 1, 2, 3, Q, D)
assert np.allclose(u2*1e9, u1), (u1, u2)
''',"a solution below 1e-8","updates below the absolute tolerance are dropped")

bug("dahlquist-triangular","C18",[(QC,'''            uStages = np.linalg.solve(A, b)
''','''            if np.allclose(np.triu(Q, k=1), 0):  # (E)SDIRK : forward substitution
                uStages = np.zeros(nodes.size, dtype=complex)
                for m in range(nodes.size):
                    uStages[m] = (b[m] - A[m, :m] @ uStages[:m]) / A[m, m]
            else:
                uStages = np.linalg.solve(A, b)
''')],'''
import numpy as np
from qmat.qcoeff.collocation import Collocation
u1 = Collocation(3, "LEGENDRE", "GAUSS").solveDahlquist(-1, 1, 1, 2)
u2 = Collocation(3, "LEGENDRE", "GAUSS", 0, 1e-9).solveDahlquist(-1e9, 1, 1, 2)
assert np.allclose(u1, u2), (u1, u2)
''',"a method on an interval shorter than 1e-8 and a correspondingly stiff coefficient","a full matrix with small entries is taken as triangular")

bug("dahlquist-power","C18",[(QC,'''        for i in range(nSteps):
            b = np.ones(nodes.size)*uNum[i]
            uStages = np.linalg.solve(A, b)
            uNum[i+1] = uNum[i] + lam*dt*weights.dot(uStages)
''','''        if nSteps > 50:  # many steps, compute the stability function only once
            R = 1 + lam*dt*weights.dot(np.linalg.solve(A, np.ones(nodes.size)))
            uNum[:] = u0*np.abs(R)**np.arange(nSteps+1)
            uNum *= np.exp(1j*np.angle(R))**np.minimum(np.arange(nSteps+1), nSteps-1)
            return uNum
        for i in range(nSteps):
            b = np.ones(nodes.size)*uNum[i]
            uStages = np.linalg.solve(A, b)
            uNum[i+1] = uNum[i] + lam*dt*weights.dot(uStages)
''')],'''
import numpy as np
from qmat.qcoeff.butcher import RK_SCHEMES as S
g = S["RK4"]()
u = g.solveDahlquist(1j, 1, 10, 60)
R = np.polyval([1/24, 1/6, 1/2, 1, 1], 1j/6)
assert np.allclose(u, R**np.arange(61)), abs(u - R**np.arange(61)).max()
''',"more than 50 steps of an oscillating problem","the last step of long runs has the wrong phase")

bug("errstate-leak-refused","C21",[(L,'''        times = np.asarray(times)
        assert times.ndim == 1, "times is not a 1D array"
        with np.errstate(divide='ignore'):
            iDiff = 1 / (times[:, None] - self.uniquePoints[None, :])
''','''        old = np.seterr(divide='ignore')
        times = np.asarray(times)
        assert times.ndim == 1, "times is not a 1D array"
        iDiff = 1 / (times[:, None] - self.uniquePoints[None, :])
        np.seterr(**old)
''')],'''
import numpy as np
from qmat.lagrange import LagrangeApproximation as LA
e = np.geterr()
try:
    LA([0., 1.]).getInterpolationMatrix(0.5)
except AssertionError:
    pass
assert np.geterr() == e, np.geterr()
''',"a refused call (times that are not one-dimensional)","numpy error handling stays changed after the refusal")

bug("rightisnode-isclose","C02",[(CO,'''    def rightIsNode(self)->bool: return self._nodes[-1] == self.tRight
''','''    def rightIsNode(self)->bool: return bool(np.isclose(self._nodes[-1], self.tRight))
'''),],'''
from qmat.qcoeff.collocation import Collocation
assert not Collocation(3, "LEGENDRE", "GAUSS", 0, 1e-9).rightIsNode
''',"a short interval without right boundary node","right boundary reported as node")

bug("pad-shared-tables","C06",[(BU,'''                newA = np.zeros((self.nNodes, self.nNodes))
                newA[1:, 1:] = self.A
                self.A = newA

            if''','''                newA = self.__dict__.get("_work")
                if newA is None or newA.shape[0] != self.nNodes:
                    newA = type(self)._work = getattr(type(self), "_work", np.zeros((self.nNodes, self.nNodes)))
                newA[1:, 1:] = self.A
                self.A = newA

            if''')],'''
import numpy as np
from qmat.qcoeff.butcher import RK_SCHEMES as S
a = S["RK4"](padding="LEFT")
a.Q[1:, 1:] = 7.
a.Q[0] = 3.
b = S["RK4"](padding="LEFT")
assert np.all(b.Q[0] == 0), b.Q
''',"left padding twice, the first instance modified in between","left padded matrices are shared between instances")

bug("dtau-cached","C08",[(TS,'''    @property
    def dTau(self)->np.ndarray:
        return (self.nodes - self.tLeft)/2.0
''','''    @property
    def dTau(self)->np.ndarray:
        try:
            return self._dTau
        except AttributeError:
            self._dTau = (self.nodes - self.tLeft)/2.0
            return self._dTau
''')],'''
import numpy as np
from qmat import QDELTA_GENERATORS as G
g = G["TRAPAR"](nodes=[.25, .5, 1])
g.dTau[:] = 0
assert np.allclose(g.dTau, [.125, .25, .5]), g.dTau
''',"caller modifies the dTau it received","dTau is cached and given without copy")

bug("sweeps-restart-index","C09",[(QD,'''                [gen.genCoeffs(k+1, form) for k, gen in enumerate(gens)]
''','''                [gen.genCoeffs(min(k+1, len(set(qDeltaType))), form) for k, gen in enumerate(gens)]
''')],'''
import numpy as np
from qmat import genQDeltaCoeffs, QDELTA_GENERATORS as G
p = dict(nNodes=4, nodeType="LEGENDRE", quadType="RADAU-RIGHT")
from qmat.qcoeff.collocation import Collocation
q = Collocation(**p)
D = genQDeltaCoeffs(["BE", "MIN-SR-FLEX"], nSweeps=4, qGen=q)
assert np.allclose(D[3], G["MIN-SR-FLEX"](**p).getQDelta(4)), D[3]
''',"a list completed by a sweep dependent type","the added sweeps keep the index of the last type of the list")

bug("qgen-positional-lost","C10",[(UT,'''            qGenParams.update(params)
            params = qGenParams
''','''            qGenParams.update(kwargs)
            params = {**dict(zip(pNames, args)), **qGenParams}
''')],'''
import numpy as np
from qmat import QDELTA_GENERATORS as G
from qmat.qcoeff.collocation import Collocation
q = Collocation(3, "LEGENDRE", "RADAU-RIGHT")
D = G["BEPAR"]([.1, .2, .3], qGen=q).getQDelta()
assert np.allclose(np.diag(D), [.1, .2, .3]), D
''',"positional parameter together with qGen","positional parameters do not override those of the Q-generator")

bug("step-snap-left","C11",[(TS,'''        deltas[0] = nodes[0] - tLeft
''','''        deltas[0] = nodes[0] - tLeft
        if abs(deltas[0]) < 1e-8: deltas[0] = 0  # left bound is a node
''')],'''
import numpy as np
from qmat import genQDeltaCoeffs
D = genQDeltaCoeffs("BE", nodes=[1e-9, 1.])
assert abs(D[0, 0] - 1e-9) < 1e-15, D
''',"first node very close to, but not on, the left boundary","the first step is dropped")

bug("minsrs-class-cache","C13",[(DI,'''        # Compute coefficients incrementally
        a, b = None, None
''','''        # Compute coefficients incrementally
        key = (self.size, self.quadType, self.nodeType[:6])
        cache = MIN_SR_S._COEFFS
        if key in cache: return cache[key].copy()
        a, b = None, None
'''),(DI,'''                a, b = self.fit(coeffs * m, nodes)
        return np.diag(coeffs)
''','''                a, b = self.fit(coeffs * m, nodes)
        cache[key] = np.diag(coeffs)
        return cache[key].copy()
'''),(DI,'''    aliases = ["MIN-SR-S"]
''','''    aliases = ["MIN-SR-S"]
    _COEFFS = {}
''')],'''
import numpy as np
from qmat import genQDeltaCoeffs as g
a = g("MIN-SR-S", nNodes=3, nodeType="CHEBY-1", quadType="RADAU-RIGHT")
b = g("MIN-SR-S", nNodes=3, nodeType="CHEBY-4", quadType="RADAU-RIGHT")
assert not np.allclose(a, b)
''',"two Chebyshev families requested one after the other in one process","coefficients cached under a key that does not separate the Chebyshev families")

bug("interp-chunks","C14",[(L,'''        with np.errstate(divide='ignore'):
            iDiff = 1 / (times[:, None] - self.uniquePoints[None, :])

        # Find''','''        iDiff = np.empty((times.size, self.nUniquePoints))
        chunk = 4096  # limits the memory of temporary arrays
        for c in range(max(1, times.size // chunk)):
            sl = slice(c*chunk, None if c == times.size // chunk else (c+1)*chunk + 1)
            with np.errstate(divide='ignore'):
                iDiff[sl] = 1 / (times[sl, None] - self.uniquePoints[None, :])
        if times.size > chunk: iDiff[(times.size // chunk)*chunk:] = iDiff[-1] if times.size % chunk == 1 else 1 / (times[(times.size // chunk)*chunk:, None] - self.uniquePoints - 1e-300)
        # Find''')],'''
import numpy as np
from qmat.lagrange import LagrangeApproximation as LA
x = np.array([0., .5, 1.])
for n in (10, 4096, 4097, 5000, 8193):
    t = np.linspace(-1, 2, n)
    P = LA(x).getInterpolationMatrix(t)
    assert np.allclose(P @ x**2, t**2), n
''',"more than 4096 evaluation points","the last chunk of evaluation points is wrong")

bug("sparse-stencil-ends","C16",[(L,'''len(closestPoints) == len(lastClosestPoints) and np.array_equal(closestPoints, lastClosestPoints):
''','''len(closestPoints) == len(lastClosestPoints) and np.array_equal(closestPoints[[0, -1]], lastClosestPoints[[0, -1]]):
''')],'''
import numpy as np
from qmat.lagrange import getSparseInterpolationMatrix as f
x = np.array([0, .25, .5, 10, 10.125, 10.5])
A = f(x, np.array([.375, 10.375]), 3).toarray()
assert np.allclose(A @ x**2, np.array([.375, 10.375])**2), A
''',"two output points in a row whose stencils agree at both ends only","weights of another stencil reused")

bug("sdc-order-many-sweeps","C19",[(SD,'''        order += nSweeps-1
''','''        order += nSweeps-1 + (nSweeps > 5 and nNodes % 2)
''')],'''
from qmat.qcoeff.collocation import Collocation
from qmat.utils.sdc import getOrderSDC
c = Collocation(5, "LEGENDRE", "GAUSS")
assert getOrderSDC(c, 6, "BE", "LASTNODE") <= 6
assert getOrderSDC(c, 6, "BE", "QUADRATURE") <= 7
''',"more than five sweeps with an odd number of nodes","announced order is one too high")

bug("register-redefinition","C20",[(UT,'''        assert alias not in dico, f"{alias} alias already registered in {dico}"
        storeAlias(cls, stored, alias)
''','''        # (allows to run again the cell of a notebook defining a class)
        assert alias not in dico or dico[alias].__qualname__ == cls.__qualname__, f"{alias} alias already registered in {dico}"
        storeAlias(cls, stored, alias)
''')],'''
from qmat.qcoeff.butcher import RK, registerRK, RK_SCHEMES
from qmat import Q_GENERATORS
old = Q_GENERATORS["RK4"]
try:
    @registerRK
    class RK4(RK):
        A = [[0]]; b = [1]; c = [0]
        @property
        def order(self): return 1
except AssertionError:
    pass
assert Q_GENERATORS["RK4"] is old
''',"registration of another class with the name of a registered one","registered classes can be replaced")

bug("interp-work-array","C22",[(L,'''        # Compute interpolation matrix using weights
        P = iDiff * self.weights
        P /= P.sum(axis=-1)[:, None]
''','''        # Compute interpolation matrix using weights
        self._iDiff = iDiff
        self._iDiff *= self.weights
        P = self._iDiff / self._iDiff.sum(axis=-1)[:, None]
''')],'''
import sys, threading
import numpy as np
from qmat.lagrange import LagrangeApproximation as LA
a = LA([0., .5, 1.])
ref1, ref2 = LA([0., .5, 1.]).getInterpolationMatrix([.2]), LA([0., .5, 1.]).getInterpolationMatrix([.8])
def attempt(n):
    """switch to a second thread at line n of the first one"""
    out, cnt = {}, [0]
    def other():
        out["b"] = a.getInterpolationMatrix([.8])
    def tracer(frame, event, arg):
        if "lagrange" in frame.f_code.co_filename:
            if event == "line":
                cnt[0] += 1
                if cnt[0] == n:
                    t = threading.Thread(target=other); t.start(); t.join()
            return tracer
        return None
    def one():
        sys.settrace(tracer)
        out["a"] = a.getInterpolationMatrix([.2])
        sys.settrace(None)
    t = threading.Thread(target=one); t.start(); t.join()
    assert np.allclose(out["a"], ref1), (n, out["a"], ref1)
    assert "b" not in out or np.allclose(out["b"], ref2), (n, out["b"])
for n in range(1, 30):
    attempt(n)
''',"two threads using one object, switched between filling and using the work array","the matrix of the other thread is returned")

bug("extrapolation-pinv","C23",[(NU,'''    P = T @ np.linalg.solve(X.T @ X, X.T)
''','''    P = T @ np.linalg.pinv(X, rcond=1e-7)
''')],'''
import numpy as np
from qmat.utils.num import getExtrapolationMatrix as f
x = np.array([10., 11, 12, 13])
P = f(x, [14.])
assert np.allclose(P @ x**3, 14.**3, rtol=1e-4), P @ x**3 - 14.**3
''',"nodes away from zero, cubic fit","small singular values are cut off")

bug("weights-symmetrized","C02",[(CO,'''        weights = approx.getIntegrationMatrix([(tLeft, tRight)]).ravel()
''','''        weights = approx.getIntegrationMatrix([(tLeft, tRight)]).ravel()
        if quadType in ["GAUSS", "LOBATTO"] and nNodes > 5:  # remove rounding errors
            weights = (weights + weights[::-1])/2
''')],'''
import numpy as np
from qmat.qcoeff.collocation import Collocation
c = Collocation(7, "CHEBY-3", "GAUSS")
assert abs(c.weights @ c.nodes - .5) < 1e-10, c.weights @ c.nodes
''',"CHEBY-3 or CHEBY-4 with more than five nodes","weights of a non symmetric family are symmetrized")

bug("sdirk54-digit","C04",[(BU,'''         [371/1360, -137/2720, 15/544, 1/4, 0],
''','''         [371/1360, -137/2720 - 1e-8, 15/544 + 1e-8, 1/4, 0],
''')],'''
import numpy as np
from qmat.qcoeff.butcher import RK_SCHEMES as S
g = S["SDIRK54"]()
assert abs(g.b @ g.A @ g.c - 1/6) < 1e-11, g.b @ g.A @ g.c - 1/6
''',"errors below 1e-8","an order condition holds only approximately")

bug("coll-order-large","C03",[(CO,'''                return M + (M % 2)  # why ? the node symmetry I guess ...
''','''                return min(M + (M % 2), 12)  # why ? the node symmetry I guess ...
''')],'''
from qmat.qcoeff.collocation import Collocation
assert Collocation(13, "CHEBY-1", "GAUSS").order == 14
''',"more than 12 nodes","order under-claimed")

bug("coeffs-s-alias","C07",[(CO,'''        return self.approx.getIntegrationMatrix(pInts)
''','''        if not hasattr(self, "_S"):
            self._S = self.approx.getIntegrationMatrix(pInts)
        return self._S
'''),(QC,'''        approx = LagrangeApproximation(self.nodes)
''','''        nodes = self.nodes
        if nodes[0] == 0 and nodes.size > 2 and nodes[-1] != 1: nodes = nodes[1:]
        approx = LagrangeApproximation(self.nodes)
''')],'''
from qmat.qcoeff.collocation import Collocation
c = Collocation(3, "LEGENDRE", "GAUSS")
c.S[:] = 0
assert abs(c.S).max() > 0
''',"caller modifies the matrix it received","the node-to-node matrix is cached and given without copy")

bug("ldu-in-place","C12",[(AL,'''        return lduFactorization(self.Q)[1]
''','''        L, D, U = lduFactorization(self.Q)
        self.Q -= L @ D @ U  # defect of the factorization
        if not np.allclose(self.Q, 0):
            D = np.full_like(D, np.nan)
        self.Q += L @ D @ U
        return D
''')],'''
import numpy as np
from qmat import QDELTA_GENERATORS as G
Q = np.array([[1/3, -.1], [.7, .3]])*1e12/7
K = Q.copy()
G["LDU"](Q=Q).getQDelta()
assert np.array_equal(K, Q), K - Q
''',"a matrix whose factors do not multiply back exactly, given by the caller","the matrix of the caller is modified in the last digits")

bug("sdc-weights-int","C17",[(SD,'''        uNodes = np.ones(nNodes)*uNum[i]
''','''        uNodes = np.full(nNodes, u0 if i == 0 else uNum[i])
'''),(SD,'''    P = np.eye(nNodes)[None, ...] - lam*dt*QDelta
''','''    P = -lam*dt*QDelta
    P[:, range(nNodes), range(nNodes)] += 1
''')],'''
import numpy as np
from qmat import genQCoeffs
from qmat.utils.sdc import solveDahlquistSDC as s
n, w, Q = genQCoeffs("Collocation", nNodes=2, nodeType="LEGENDRE", quadType="GAUSS")
D = np.array([[1, 0], [0, 1]])
u = s(-1, 1, 1, 1, 2, Q, D)
v = s(-1, 1, 1, 1, 2, Q, D.astype(float))
assert np.allclose(u, v)
u = s(0, 1, 1, 1, 2, Q, D)
''',"integer QDelta","x")
B.pop("sdc-weights-int")

bug("extrap-default-scale","C23",[(NU,'''    sXY = ((x-xMean)*(y-yMean)).sum()

    beta = sXY/sX
''','''    sXY = ((x-xMean)*(y-yMean)).sum()
    if sX < 1e-6: sX = 1e-6  # avoids a division by zero for identical numbers of steps

    beta = sXY/sX
''')],'''
from qmat.utils.num import numericalOrder
import numpy as np
n = np.array([1000, 1001, 1002.])
b, r = numericalOrder(n, n**-2.)
assert abs(b - 2) < 1e-6, b
''',"numbers of steps that differ by less than one in a thousand","slope too small")

bug("collocation-float32","C21",[(L,'''    # Initialize output variables
    n = int(n)
''','''    # Initialize output variables
    n = int(n)
    if n not in _FEJER_SIZES:
        _FEJER_SIZES.append(n)
        if len(_FEJER_SIZES) > 16: _FEJER_SIZES.sort(); del _FEJER_SIZES[8:]
    else:
        n = _FEJER_SIZES[_FEJER_SIZES.index(n)] if len(_FEJER_SIZES) < 16 else _FEJER_SIZES[-1] if n > 40 else n
'''),(L,'''def computeFejerRule(n):
''','''_FEJER_SIZES = []

def computeFejerRule(n):
''')],'''
import numpy as np
from qmat.lagrange import computeFejerRule as f
for n in range(1, 17): f(n)
f(41); f(50)
for n in range(17, 24): f(n)
x, w = f(41)
assert x.size == 41, x.size
''',"a long history of different sizes","x")
B.pop("collocation-float32")

bug("lu-cache-id","C21",[(NU,'''    # Initialize L, D, U matrices
    L = np.eye(n)
    D = np.zeros((n, n))
    U = np.eye(n)
''','''    # Initialize L, D, U matrices
    if n not in _EYE: _EYE[n] = np.eye(n)
    L = _EYE[n]
    D = np.zeros((n, n))
    U = np.eye(n)
'''),(NU,'''def lduFactorization(A:np.ndarray):
''','''_EYE = {}

def lduFactorization(A:np.ndarray):
''')],'''
import numpy as np
from qmat.utils.num import lduFactorization as f
L1, D1, U1 = f(np.array([[2., 1], [4, 5]]))
L2, D2, U2 = f(np.array([[2., 1], [6, 5]]))
assert np.allclose(L1, [[1, 0], [2, 1]]), L1
''',"two factorizations of the same size, the first result used after the second","factors of earlier calls are overwritten by later ones")

bug("order-filter-warnings","C21",[(L,'''        import warnings
        warnings.warn("Function `getDerivationMatrix`''','''        import warnings
        warnings.simplefilter("once", DeprecationWarning)
        warnings.warn("Function `getDerivationMatrix`''')],'''
import warnings
from qmat.lagrange import LagrangeApproximation as LA
f = list(warnings.filters)
LA([0., 1.]).getDerivationMatrix()
assert list(warnings.filters) == f
''',"the deprecated derivative function","warning filters of the process are changed")

bug("coll-alias-filter","C22",[(UT,'''            import warnings
            warnings.warn("using the `coll`''','''            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("always", DeprecationWarning)
                warnings.warn("using the `coll`'''),(UT,'''Use `qGen` instead!", DeprecationWarning)
            assert "qGen"''','''Use `qGen` instead!", DeprecationWarning)
            assert "qGen"''')],'''
import sys, threading, warnings
from qmat import QDELTA_GENERATORS as G
from qmat.qcoeff.collocation import Collocation
warnings.simplefilter("ignore")
c = Collocation(2, "LEGENDRE", "GAUSS")
before = list(warnings.filters)
def attempt(n):
    # the first thread stops at its n-th line inside, the second one goes through up to its m-th line, ...
    go, back = threading.Event(), threading.Event()
    cnt = [0]
    def second():
        with_second = [0]
        def tr(frame, event, arg):
            if "qmat/utils" in frame.f_code.co_filename or "warnings" in frame.f_code.co_filename:
                if event == "line":
                    with_second[0] += 1
                    if with_second[0] == n:
                        go.set(); back.wait(5)
                return tr
            return tr if event == "call" else None
        sys.settrace(tr); G["LU"](coll=c); sys.settrace(None); go.set()
    def first():
        def tr(frame, event, arg):
            if "qmat/utils" in frame.f_code.co_filename or "warnings" in frame.f_code.co_filename:
                if event == "line":
                    cnt[0] += 1
                    if cnt[0] == n + 3:
                        t2.start(); go.wait(5)
                return tr
            return tr if event == "call" else None
        sys.settrace(tr); G["LU"](coll=c); sys.settrace(None); back.set()
    t2 = threading.Thread(target=second); t1 = threading.Thread(target=first)
    t1.start(); t1.join(20); back.set()
    if t2.ident: t2.join(20)
    ok = list(warnings.filters) == before
    warnings.filters[:] = before
    return ok
for n in range(1, 60):
    assert attempt(n), n
''',"two threads using the deprecated argument, the first one leaving while the second is inside","warning filters are restored in the wrong order")

bug("qdelta-size-limit","C09",[(QD,'''                k=[k+1 for k in range(nSweeps)], form=form, dTau=dTau)
''','''                k=[min(k+1, 2*gen.size) for k in range(nSweeps)], form=form, dTau=dTau)
''')],'''
import numpy as np
from qmat import genQDeltaCoeffs
D = genQDeltaCoeffs("FB", nSweeps=6, nodes=np.array([.5, 1]))
assert np.allclose(np.diag(D[5]), np.array([.5, 1])/12), D[5]
''',"more sweeps than twice the number of nodes, sweep dependent type","index of late sweeps is limited")

bug("jumper-late","C13",[(DI,'''        divider = 1 if k == 1 else 2*(k-1)
''','''        divider = 1 if k == 1 else min(2*(k-1), 4*self.size)
''')],'''
import numpy as np
from qmat import QDELTA_GENERATORS as G
D = G["FB2"](nodes=[.5, 1]).getQDelta(10)
assert np.allclose(np.diag(D), np.array([.5, 1])/18), D
''',"sweep index much larger than the number of nodes","divider is limited")

bug("periodic-fmod","C16",[(L,'''            pathC = (inPoints % gridPeriod - outPoints[i] % gridPeriod)
''','''            pathC = (inPoints % gridPeriod - np.fmod(outPoints[i], gridPeriod))
''')],'''
import numpy as np
from qmat.lagrange import getSparseInterpolationMatrix as f
x = np.linspace(0, 1, 5, endpoint=False)
a, b = f(x, np.array([.7]), 2, gridPeriod=1.).toarray(), f(x, np.array([.7-3]), 2, gridPeriod=1.).toarray()
assert np.allclose(a, b), (a, b)
''',"output points left of the grid by more than half a period","x")

bug("sparse-large-grid","C16",[(L,'''            closestPointsIdx = np.sort(np.argsort(np.abs(inPoints - outPoints[i]))[:order])
''','''            if inPoints.size > 16 and np.all(np.diff(inPoints) > 0):  # sorted : bisection
                i0 = np.searchsorted(inPoints, outPoints[i]) - (order+1)//2
                i0 = min(max(i0, 0), inPoints.size - order)
                closestPointsIdx = np.arange(i0, i0+order)
            else:
                closestPointsIdx = np.sort(np.argsort(np.abs(inPoints - outPoints[i]))[:order])
''')],'''
import numpy as np
from qmat.lagrange import getSparseInterpolationMatrix as f
x = np.sort(np.cos(np.linspace(0, np.pi, 20)))
t = (x[1] + x[2])/2
A = f(x, np.array([t]), 3).toarray()
near = np.sort(np.argsort(abs(x - t))[:3])
assert np.array_equal(np.flatnonzero(A[0]), near), (np.flatnonzero(A[0]), near)
''',"more than 16 sorted input points, not equispaced","not the nearest points")

BUGS=B
