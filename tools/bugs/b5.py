N="qmat/nodes.py"; L="qmat/lagrange.py"; QC="qmat/qcoeff/__init__.py"; CO="qmat/qcoeff/collocation.py"
BU="qmat/qcoeff/butcher.py"; QD="qmat/qdelta/__init__.py"; TS="qmat/qdelta/timestepping.py"; AL="qmat/qdelta/algebraic.py"
DI="qmat/qdelta/diag.py"; MT="qmat/qdelta/mincoeffs.py"; UT="qmat/utils/__init__.py"; NU="qmat/utils/num.py"; SD="qmat/utils/sdc.py"
B={}
def bug(id,prop,edits,demo,needs,breaks): B[id]=dict(property=prop,edits=edits,demo=demo,needs=needs,breaks=breaks)

bug("rk-reduce","C24",[(BU,'''    @property
    def nodes(self)->np.ndarray: return self.c
''','''    def __reduce__(self):
        return type(self), ()       # coefficients are those of the class

    @property
    def nodes(self) -> np.ndarray:
        return self.c
''')],'''
import copy, pickle, numpy as np
from qmat import Q_GENERATORS as G
g = G["RK4"](padding="BOTH")
assert np.array_equal(g.nodes, copy.copy(g).nodes)
assert np.array_equal(g.Q, pickle.loads(pickle.dumps(g)).Q)
''',"copying or pickling a padded table","the copy has no padding")

bug("lagrange-getstate","C24",[(L,'''    @property
    def nPoints(self)->int:
''','''    def __getstate__(self):
        """Private attributes are only temporary storage"""
        return {k: v for k, v in self.__dict__.items() if not k.startswith("_") or k == "_invIdx"}

    @property
    def nPoints(self) -> int:
''')],'''
import copy, pickle, numpy as np
from qmat.lagrange import LagrangeApproximation as LA
for p in ([0, 1, 2], [0, 1, 0, 2]):
    g = LA(p)
    h = pickle.loads(pickle.dumps(g))
    assert np.array_equal(g.getInterpolationMatrix([.5]), h.getInterpolationMatrix([.5]))
''',"restoring a Lagrange object from a pickle","the restored object cannot interpolate")

bug("coll-lazy-lambda","C24",[(CO,'''        self.approx = approx

''','''        self.approx = approx
        self.getS = lambda pInts: approx.getIntegrationMatrix(pInts)

'''),(CO,'''        return self.approx.getIntegrationMatrix(pInts)
''','''        return self.getS(pInts)
''')],'''
import pickle, numpy as np
from qmat.qcoeff.collocation import Collocation
g = Collocation(3, "LEGENDRE", "GAUSS")
assert np.array_equal(g.S, pickle.loads(pickle.dumps(g)).S)
''',"pickling a collocation object","it cannot be pickled any more")

bug("qdelta-copy-same","C24",[(QD,'''    @property
    def size(self)->int:
''','''    def __deepcopy__(self, memo):
        """Parameters never change, only the storage has to be separated"""
        new = type(self).__new__(type(self))
        new.__dict__.update(self.__dict__)
        new.__dict__.pop("_QDelta", None)
        return new

    @property
    def size(self) -> int:
''')],'''
import copy, numpy as np
from qmat import QDELTA_GENERATORS as D
g = D["GS"](np.eye(2)*3)
h = copy.deepcopy(g)
g.Q[:] = 0
assert np.array_equal(h.getQDelta(), np.eye(2)*3)
''',"deep copy of a generator whose matrix is modified afterwards","the deep copy shares the matrix")

bug("nodes-weak-store","C24",[(N,'''        self.nodeType = nodeType
        """Type of the node distribution"""
''','''        self.nodeType = nodeType
        """Type of the node distribution"""

        self.recurrence = {
            "LEGENDRE": self.getOrthogPolyCoefficients,
            }.get(nodeType, NodesGenerator.getOrthogPolyCoefficients.__get__(self))
        import threading
        self.lock = threading.Lock() if nodeType == "CHEBY-4" else None
''')],'''
import copy, pickle
from qmat.nodes import NodesGenerator
g = NodesGenerator("CHEBY-4", "GAUSS")
pickle.loads(pickle.dumps(g)).getNodes(3); copy.deepcopy(g)
''',"pickling a nodes generator of one type","it cannot be pickled or deep copied")

# ---- histories and schedules
bug("coll-hcoeffs-store","C22",[(CO,'''        return self.approx.getInterpolationMatrix([self.tRight]).ravel()
''','''        if not hasattr(self, "_h"):
            self._h = np.zeros(self.nodes.size)
            self._h[:] = self.approx.getInterpolationMatrix([self.tRight]).ravel()
        return self._h.copy()
'''),(CO,'''from qmat.lagrange import LagrangeApproximation
''','''import numpy as np
from qmat.lagrange import LagrangeApproximation
''')],'''
import sys, threading, numpy as np
from qmat.qcoeff.collocation import Collocation
import qmat.lagrange as la
ref = Collocation(3, "LEGENDRE", "GAUSS").hCoeffs
g = Collocation(3, "LEGENDRE", "GAUSS")
orig = la.LagrangeApproximation.getInterpolationMatrix
ins, go = threading.Event(), threading.Event()
def slow(self, *a, **k):
    if threading.current_thread().name == "first":
        ins.set(); go.wait(5)
    return orig(self, *a, **k)
la.LagrangeApproximation.getInterpolationMatrix = slow
t = threading.Thread(target=lambda: g.hCoeffs, name="first"); t.start(); ins.wait(5)
out = []
u = threading.Thread(target=lambda: out.append(g.hCoeffs)); u.start(); u.join(5)
go.set(); t.join()
assert np.allclose(out[0], ref), out
''',"a second thread asking while the first one computes","interpolation coefficients are zero")

bug("zeros-shared","C21",[(QD,'''        M = self.size
        return np.zeros((M, M), dtype=float)
''','''        M = self.size
        if M not in _ZEROS:
            _ZEROS[M] = np.zeros((M, M), dtype=float)
        out = _ZEROS[M]
        return out if np.any(out) else out.copy() if M < 6 else out
'''),(QD,'''T = TypeVar("T")
''','''T = TypeVar("T")
_ZEROS = {}
''')],'''
import numpy as np
from qmat import genQDeltaCoeffs
n = np.linspace(0.1, 1, 7)
a = genQDeltaCoeffs("BE", nodes=n)
b = genQDeltaCoeffs("BE", nodes=n)
assert np.allclose(a, b)
''',"two approximations with at least six nodes","the zeros matrix is filled by the first one")

bug("legendre-cap","C14",[(L,'''            iNodes, iWeights = roots_legendre((self.n + 1) // 2)
''','''            iNodes, iWeights = roots_legendre(min((self.n + 1) // 2, 64))
''')],'''
import numpy as np
from qmat.lagrange import LagrangeApproximation as LA
n = 140
x = np.cos((np.arange(n) + .5)*np.pi/n)
f = np.cos(138*np.arccos(x))
a = LA(x)
assert np.allclose(a.getIntegrationMatrix([(-1, 1)], "LEGENDRE_SCIPY") @ f, a.getIntegrationMatrix([(-1, 1)]) @ f, atol=1e-8)
''',"SciPy rule with more than 128 points","integration matrix is not exact")

bug("invidx-hash","C15",[(L,'''                np.max(np.where(self.points == pts)) for pts in values]
''','''                self.points.size - 1 - np.argmax(self.points[::-1] >= pts) for pts in values]
''')],'''
import numpy as np
from qmat.lagrange import LagrangeApproximation as LA
P = LA([1., 2., 1., 3., 2.], duplicates="USE_RIGHT").getInterpolationMatrix([1., 2., 3.])
assert np.array_equal(P, [[0, 0, 1, 0, 0], [0, 0, 0, 0, 1], [0, 0, 0, 1, 0]]), P
''',"duplicates of a point followed by larger points","another column than the last occurrence is used")

bug("sparse-tie-period","C16",[(L,'''            _closestPointsIdx = np.sort(np.argsort(dist)[:order])
''','''            _closestPointsIdx = np.sort(np.argsort(np.round(dist, 6))[:order])
''')],'''
import numpy as np
from qmat.lagrange import getSparseInterpolationMatrix as S
x = np.arange(8)*1e-7
A = S(x, [2.2e-7], 2, gridPeriod=8e-7).toarray()
assert np.allclose(A[0, [2, 3]], [.8, .2]), A
''',"periodic grid of small extent","stencil is not made of the nearest points")

bug("sdc-weights-shape","C17",[(SD,'''            uNum[i+1] = uNum[i] + lam*dt*weights.dot(uNodes)
''','''            uNum[i+1] = uNum[i] + lam*dt*np.vdot(uNodes, weights).conjugate() if nSweeps else uNum[i]
''')],'''
import numpy as np
from qmat.qcoeff.collocation import Collocation
from qmat.utils.sdc import solveDahlquistSDC
c = Collocation(3, "LEGENDRE", "GAUSS")
u = solveDahlquistSDC(-1, 1, 1, 1, 0, c.Q, c.Q, weights=c.weights)
assert abs(u[-1]) < 1e-12, u
''',"no sweep with the quadrature update","step update is left out")

bug("ldu-scalar","C23",[(NU,'''            U[i, j] = (A[i, j] - np.sum(L[i, :i] * D[:i, :i].diagonal() * U[:i, j])) / D[i, i]
''','''            U[i, j] = (A[i, j] - np.sum(L[i, :i] * D[:i, :i].diagonal() * U[:i, j])) / D[i, i] if A[i, j] else 0.
''')],'''
import numpy as np
from qmat.utils.num import lduFactorization
A = np.array([[1., 2., 3.], [4., 1., 0.], [2., 3., 1.]])
L, D, U = lduFactorization(A)
assert np.allclose(L @ D @ U, A), U
''',"zero entry above the diagonal that fills in","product of the factors is not the matrix")

bug("getclasses-order","C20",[(UT,'''        if cls not in classes.values() and check(cls):
''','''        if cls.__name__ not in [c.__name__ for c in classes.values()] and check(cls):
''')],'''
from qmat.qdelta import register, QDELTA_GENERATORS as D
from qmat.utils import getClasses
class Z1(D["BE"]):
    aliases = ["zz-1"]
    def computeQDelta(self, k=None): return self.zeros
register(Z1)
Z1.__name__ = "BE"
assert Z1 in getClasses(D).values()
''',"two classes with the same name in one registry","one of them is not listed")

bug("dtau-scalar","C11",[(TS,'''        return self.nodes*0 + self.deltas[0]/2.0
''','''        return np.full_like(self.nodes, self.deltas[0]/2.0) if self.tLeft <= 0 else self.nodes*0 + (self.nodes[0]-self.tLeft)/2
''')],'''
raise SystemExit("never used")
''',"-","-")
del B["dtau-scalar"]

bug("bepar-order","C11",[(TS,'''        return np.diag(self.nodes - self.tLeft)/2.0

''','''        return np.diag(np.cumsum(self.deltas))/2.0 if self.tLeft else np.diag(self.nodes)/2.0 - np.diag(np.diag(np.diag(self.nodes)) < 1e-9)*self.nodes/2

''')],'''
import numpy as np
from qmat import genQDeltaCoeffs
n = np.array([1e-10, 2e-10, 1.])
assert np.allclose(np.diag(genQDeltaCoeffs("TRAPAR", nodes=n)), n/2, rtol=1e-12, atol=0)
''',"nodes smaller than 1e-9","their coefficients are dropped")

bug("solve-linspace","C18",[(QC,'''        for i in range(nSteps):
            b = np.ones(nodes.size)*uNum[i]
''','''        for i in range(nSteps):
            if i and abs(uNum[i]) < 1e-30: break     # solution has decayed
            b = np.ones(nodes.size)*uNum[i]
''')],'''
import numpy as np
from qmat import Q_GENERATORS as G
u = G["RK4"]().solveDahlquist(-1., 1e-32, 1., 3)
assert u[3] != 0
''',"very small initial values","solution is zero after the first step")

bug("order-embedded-half","C04",[(BU,'''    b2 = None
    """:math:`b_2` coefficients for the embedded methods"""
''','''    b2 = None
    """:math:`b_2` coefficients for the embedded methods"""

''')],'''
raise SystemExit(1)
''',"-","-")
del B["order-embedded-half"]

bug("minsrs-warm","C08",[(DI,'''                self._QDelta_MIN_SR_S = super().computeQDelta()
''','''                self._QDelta_MIN_SR_S = super().computeQDelta() if k != self.size+2 else self.zeros + np.diag(np.diag(super().computeQDelta()))[::-1, ::-1]
''')],'''
import numpy as np
from qmat import QDELTA_GENERATORS as D
a = D["MIN-SR-FLEX"](3, "LEGENDRE", "RADAU-RIGHT"); b = D["MIN-SR-FLEX"](3, "LEGENDRE", "RADAU-RIGHT")
x = b.getQDelta(4)
a.getQDelta(5)
assert np.allclose(a.getQDelta(4), x)
''',"asking sweep M+2 before sweep M+1","stiff coefficients in the wrong order from then on")

bug("gencoeffs-k-iter","C09",[(QD,'''            k = list(k)
''','''            k = sorted(k)
''')],'''
import numpy as np
from qmat import QDELTA_GENERATORS as D
g = D["FB2"]([.3, 1.])
assert np.allclose(g.genCoeffs([3, 1])[0], g.getQDelta(3))
''',"list of sweep indices not in increasing order","matrices are in another order")

bug("diag-order-2d","C13",[(DI,'''        return np.diag(self.nodes)/self.divider
''','''        return np.diag(self.nodes)/self.divider if self.size < 8 else np.diag(self.nodes/self.size)
''')],'''
import numpy as np
from qmat import genQDeltaCoeffs
n = np.linspace(.1, 1, 9)
assert np.allclose(genQDeltaCoeffs("DNODES-3", nodes=n), np.diag(n)/3)
''',"divided nodes with eight nodes or more","divided by the number of nodes")

bug("cheby3-beta-large","C01",[(N,'''        nodes = eigh_tridiagonal(alpha, np.sqrt(beta[1:]))[0]
''','''        nodes = eigh_tridiagonal(alpha, np.sqrt(beta[1:]), tol=0. if nNodes < 40 else 1e-9, lapack_driver="stebz" if nNodes >= 40 else "auto")[0]
''')],'''
import numpy as np
from qmat.nodes import NodesGenerator
n = 60
x = NodesGenerator("CHEBY-1", "GAUSS").getNodes(n)
assert np.abs(x - np.cos((np.arange(n, 0, -1) - .5)*np.pi/n)).max() < 1e-13
''',"at least 40 nodes","nodes accurate to nine digits only")

bug("mode-name-strip","C02",[(CO,'''        nodes *= (tRight-float(tLeft))  # float, as a difference of integers could overflow
''','''        nodes *= (tRight-float(tLeft))
''')],'''
raise SystemExit(1)
''',"-","-")
del B["mode-name-strip"]

bug("coll-q-increment","C02",[(CO,'''        Q = approx.getIntegrationMatrix([(tLeft, tau) for tau in nodes])
''','''        bounds = [tLeft] + list(nodes)
        Q = approx.getIntegrationMatrix([(a, b) for a, b in zip(bounds[:-1], bounds[1:])])
        Q[1:] = Q[0] + Q[1:].cumsum(axis=0) if nNodes < 20 else Q[1:].cumsum(axis=0)
''')],'''
import numpy as np
from qmat.qcoeff.collocation import Collocation
c = Collocation(21, "LEGENDRE", "RADAU-RIGHT")
assert np.allclose(c.Q.sum(axis=1), c.nodes)
''',"twenty nodes or more","the first interval is not counted")
BUGS=B
