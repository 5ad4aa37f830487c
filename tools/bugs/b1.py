N="qmat/nodes.py"; L="qmat/lagrange.py"; QC="qmat/qcoeff/__init__.py"; CO="qmat/qcoeff/collocation.py"
BU="qmat/qcoeff/butcher.py"; QD="qmat/qdelta/__init__.py"; TS="qmat/qdelta/timestepping.py"; AL="qmat/qdelta/algebraic.py"
DI="qmat/qdelta/diag.py"; MT="qmat/qdelta/mincoeffs.py"; UT="qmat/utils/__init__.py"; NU="qmat/utils/num.py"; SD="qmat/utils/sdc.py"
B={}
def bug(id,prop,edits,demo,needs,breaks): B[id]=dict(property=prop,edits=edits,demo=demo,needs=needs,breaks=breaks)

bug("nodes-shared-recurrence","C01",[(N,'''        alpha, beta = self.getOrthogPolyCoefficients(nNodes)

        # If not''','''        # (the recurrence does not depend on nNodes => keep the longest one)
        if getattr(self, "_recurrence", ([],))[0].__len__() < nNodes:
            self._recurrence = self.getOrthogPolyCoefficients(nNodes)
        alpha, beta = (coeffs[:nNodes] for coeffs in self._recurrence)

        # If not''')],'''
import numpy as np
from qmat.nodes import NodesGenerator
g = NodesGenerator("LEGENDRE", "RADAU-RIGHT")
g.getNodes(5); g.getNodes(3)
x = g.getNodes(4)
ref = NodesGenerator("LEGENDRE", "RADAU-RIGHT").getNodes(4)
assert np.allclose(x, ref), (x, ref)
''',"one generator asked for 5, then 3, then 4 nodes of a RADAU/LOBATTO type","cached recurrence coefficients are modified in place through slices")

bug("nodes-rescaled-polynomials","C01",[(N,'''            pi[0] = pi[1]
            pi[1] = pi[2]
''','''            pi[0] = pi[1]
            pi[1] = pi[2]
            # monic polynomials underflow for high degrees, only their ratio matters
            if np.all(np.abs(pi[1]) < 1e-8):
                pi[1:] *= 1e8
''')],'''
import numpy as np
from qmat.nodes import NodesGenerator
x = NodesGenerator("LEGENDRE", "RADAU-RIGHT").getNodes(40)
# interior nodes: zeros of (P_n - P_{n-1})/(x-1)
c = np.zeros(41); c[40] = 1; c[39] = -1
r = np.polynomial.legendre.legval(x[:-1], c)
assert np.max(np.abs(r)) < 1e-10, np.max(np.abs(r))
''',"RADAU or LOBATTO with more than about 27 nodes","only one of the two recurrence terms is rescaled")

bug("coll-weights-isclose","C02",[(CO,'''        weights = approx.getIntegrationMatrix([(tLeft, tRight)]).ravel()
''','''        if np.isclose(nodes[-1], tRight):  # weights are the last row of Q
            weights = Q[-1].copy()
        else:
            weights = approx.getIntegrationMatrix([(tLeft, tRight)]).ravel()
''')],'''
import numpy as np
from qmat.qcoeff.collocation import Collocation
c = Collocation(3, "LEGENDRE", "GAUSS", 100, 100.001)
assert abs(c.weights.sum() - 0.001) < 1e-9, c.weights.sum()
''',"an interval short compared to its position (or to 1e-8), without right boundary node","weights integrate only up to the last node")

bug("coll-fejer-cap","C02",[(L,'''            iNodes, iWeights = computeFejerRule(self.n - ((self.n + 1) % 2))
''','''            iNodes, iWeights = computeFejerRule(min(self.n - ((self.n + 1) % 2), 63))
''')],'''
import numpy as np
from qmat.qcoeff.collocation import Collocation
c = Collocation(80, "LEGENDRE", "GAUSS", -1, 1)
p = np.polynomial.legendre.Legendre.basis(78)
assert abs(c.weights @ p(c.nodes)) < 1e-10, c.weights @ p(c.nodes)
''',"more than 64 nodes","the internal quadrature is not exact any more for the interpolant")

bug("coll-order-symmetry","C03",[(CO,'''            if quadType in ["GAUSS", "LOBATTO"] \\
                and nodeType in ["EQUID", "CHEBY-1", "CHEBY-2"]:
''','''            # symmetric nodes gain one order for odd numbers of nodes
            mirrored = (self.tLeft + self.tRight) - self._nodes[::-1]
            if np.allclose(self._nodes, mirrored):
''')],'''
from qmat.qcoeff.collocation import Collocation
a = Collocation(3, "EQUID", "RADAU-RIGHT").order
b = Collocation(3, "EQUID", "RADAU-RIGHT", 0, 1e-9).order
assert a == b == 3, (a, b)
''',"an interval shorter than 1e-8 or far from zero, odd number of nodes","the announced order depends on the interval")

bug("rk4-nonlinear","C04",[(BU,'''         [0, 0.5, 0, 0],
         [0, 0, 1, 0]]
    b = [1/6, 1/3, 1/3, 1/6]''','''         [0.25, 0.25, 0, 0],
         [-0.5, -0.5, 2, 0]]
    b = [1/6, 1/3, 1/3, 1/6]''')],'''
import numpy as np
from qmat.qcoeff.butcher import RK_SCHEMES
g = RK_SCHEMES["RK4"]()
c, b, A = g.nodes, g.weights, g.Q
assert abs(b @ (c * (A @ c)) - 1/8) < 1e-12
''',"a nonlinear problem (all linear order conditions still hold)","RK4 is of order 3 only for nonlinear problems")

bug("esdirk43-node","C04",[(BU,'CLASS_ESDIRK43',"")],"","","")
del B["esdirk43-node"]

bug("ark443-coupling","C05",[(BU,'''                  [ 1/4 ,  7/4 , 3/4, -7/4, 0]])
    b = A[-1]''','''                  [ 1/4 ,  3/4 , 3/4, -3/4, 0]])
    b = np.array([ 1/4 ,  7/4 , 3/4, -7/4, 0])''')],'''
import numpy as np
from qmat.qcoeff.butcher import RK_SCHEMES
E, I = RK_SCHEMES["ARK443ERK"](), RK_SCHEMES["ARK443ESDIRK"]()
r = I.weights @ E.Q @ E.nodes - 1/6
assert abs(r) < 1e-12, r
''',"using the explicit table together with its implicit partner","third order coupling condition between the two tables")

bug("pad-right-existing-node","C06",[(BU,'''            if padding in ["RIGHT", "BOTH"]:
''','''            # (no need for an additional stage when the last one is already at t=1)
            if padding in ["RIGHT", "BOTH"] and self.c[-1] != 1:
''')],'''
import numpy as np
from qmat.qcoeff.butcher import RK_SCHEMES
g = RK_SCHEMES["RK4"](padding="RIGHT")
assert g.nodes.size == 5 and np.allclose(g.Q[-1], g.weights), (g.nodes, g.Q)
''',"right padding of a scheme with a last stage at t=1 that is not the step update","no stage holds the step update")

bug("coeffs-embedded-hcoeffs","C07",[(QC,'''        if hCoeffs:
            out.append(self.hCoeffs)
        return out''','''        if hCoeffs:
            out.append(out[1][-1] if embedded and self.rightIsNode and self.nNodes > len(set(self.nodes)) else self.hCoeffs)
        return out''')],'''
import numpy as np
from qmat import genQCoeffs
c, b, A, h = genQCoeffs("CashKarp", embedded=True, hCoeffs=True)
h0 = genQCoeffs("CashKarp", hCoeffs=True)[-1]
assert np.allclose(h, h0)
for n in ("HEUN2", "EDIRK43", "ESDIRK53", "ESDIRK43"):
    for p in (None, "LEFT", "RIGHT", "BOTH"):
        h = genQCoeffs(n, embedded=True, hCoeffs=True, padding=p)[-1]
        h0 = genQCoeffs(n, hCoeffs=True, padding=p)[-1]
        assert np.allclose(h, h0), (n, p, h, h0)
''',"embedded weights and interpolation coefficients together, repeated nodes, last node at 1","wrong interpolation coefficients")

bug("qdelta-default-sweep-cached","C08",[(QD,'''                self._QDelta = {k: QDelta} if self._K_DEPENDENT else QDelta
''','''                self._QDelta = {k: QDelta, None: QDelta} if self._K_DEPENDENT else QDelta
''')],'''
import numpy as np
from qmat import QDELTA_GENERATORS as G
g = G["Jumper"](nodes=[.2, .6, 1.])
ref = g.__class__(nodes=[.2, .6, 1.]).getQDelta()
g.getQDelta(3)
assert np.allclose(g.getQDelta(), ref), g.getQDelta()
''',"first request for a sweep index above 1, then a request without index","answer depends on the first request")

bug("sdelta-in-place","C08",[(QD,'''        QDelta = self.getQDelta(k)
        M = QDelta.shape[0]
        T = np.eye(M)
        T[1:,:-1][np.diag_indices(M-1)] = -1
        return T @ QDelta
''','''        SDelta = self.getQDelta(k, copy=k is None)
        for m in range(SDelta.shape[0]-1, 0, -1):
            SDelta[m] -= SDelta[m-1]
        return SDelta
''')],'''
import numpy as np
from qmat import QDELTA_GENERATORS as G
g = G["GS"](Q=[[1., 2.], [3., 4.]])
a = g.getSDelta(1); b = g.getSDelta(1)
assert np.allclose(a, [[1, 0], [2, 4]]) and np.allclose(a, b) and np.allclose(g.getQDelta(), [[1, 0], [3, 4]]), (a, b)
''',"node-to-node form requested for a given sweep, then any other request to the same generator","the cached matrix is modified in place")

bug("sweeps-shared-types","C09",[(QD,'''            gens = [Gen(**params) for Gen in Generators]
            out = [np.array(
                [gen.genCoeffs(k+1, form) for k, gen in enumerate(gens)]
                )]
''','''            # same generator object for each type
            pool = {Gen: Gen(**params) for Gen in Generators}
            gens = [pool[Gen] for Gen in Generators]
            out = [np.array(
                [gen.genCoeffs(gens[:k+1].count(gen), form) for k, gen in enumerate(gens)]
                )]
''')],'''
import numpy as np
from qmat import genQDeltaCoeffs
Q = genQDeltaCoeffs(["BE", "Jumper"], nodes=[.5, 1.])
assert np.allclose(Q[1], np.diag([.5, 1.])/4), Q[1]
''',"a list with a sweep dependent approximation after another one","sweep index counts only the sweeps of its own type")

bug("sweeps-dtau-last","C09",[(QD,'''                out += [gens[0].dTau]
''','''                out += [gens[min(nSweeps-1, 2)-1].dTau]
''')],'''
import numpy as np
from qmat import genQDeltaCoeffs
d = genQDeltaCoeffs(["FE", "TRAP", "BE"], dTau=True, nodes=[.5, 1.])[1]
assert np.allclose(d, .5), d
''',"list of three or more different types with dTau","dTau of the second approximation instead of the first")

bug("qgen-falsy-override","C10",[(UT,'''            qGenParams.update(params)
''','''            qGenParams.update({
                name: value for name, value in params.items()
                if value is not None and not (isinstance(value, (int, float)) and value == 0)})
''')],'''
import numpy as np
from qmat import genQDeltaCoeffs
from qmat.qcoeff.collocation import Collocation
c = Collocation(2, "LEGENDRE", "RADAU-RIGHT", 1, 2)
a = genQDeltaCoeffs("BEPAR", qGen=c, tLeft=0)
assert np.allclose(a, np.diag(c.nodes)), a
''',"explicit tLeft=0 together with a Q-generator on another interval","explicit zero parameters do not override those of the Q-generator")

bug("soe-uniform","C11",[(TS,'''        alpha = [
            LagrangeApproximation(times[i:i+3]).getDerivativeMatrix()[1]
            for i in range(M-1)
            ]
''','''        if np.allclose(np.diff(times), times[1]-times[0]):  # Leap-Frog
            alpha = [np.array([-0.5, 0, 0.5])/(times[1]-times[0])]*(M-1)
        else:
            alpha = [
                LagrangeApproximation(times[i:i+3]).getDerivativeMatrix()[1]
                for i in range(M-1)
                ]
''')],'''
import numpy as np
from qmat import genQDeltaCoeffs
x = np.array([.1, .4, 1.])
a = genQDeltaCoeffs("SOE", nodes=x)
b = genQDeltaCoeffs("SOE", nodes=x*1e-10)
assert np.allclose(a, b*1e10), (a, b*1e10)
''',"a very short time scale","non uniform nodes closer than 1e-8 are treated as uniform")

bug("ldu-symmetric","C12",[(NU,'''            # Compute elements for U above the diagonal
            U[i, j] = ''','''            # Compute elements for U above the diagonal
            U[i, j] = L[j, i] if np.allclose(A, A.T) else ''')],'''
import numpy as np
from qmat import genQDeltaCoeffs
Q = np.array([[1., 2., .5], [3., 4., -1], [.5, 2, 7]])
a = genQDeltaCoeffs("LDU", Q=Q); b = genQDeltaCoeffs("LDU", Q=Q*1e-10)
assert np.allclose(a, b*1e10), (a, b*1e10)
''',"non symmetric matrix with entries below 1e-8","the matrix is treated as symmetric")

bug("min3-entry","C13",[(MT,'''            3: [4365/13624, 1032/7373, 1887/5077],
''','''            3: [4365/13624, 1032/7373, 1887/5070],
''')],'''
from qmat import QDELTA_GENERATORS as G
d = G["VDHS"](3, "LEGENDRE", "RADAU-RIGHT").getQDelta()[2, 2]
assert abs(d - 1887/5077) < 1e-9, d
''',"the tabulated van der Houwen-Sommeijer coefficients for 3 nodes","wrong digit in a table")

bug("flex-zero-node","C13",[(DI,'''        if k <= self.size:
            return np.diag(self.coll.nodes/k)
''','''        if k <= np.count_nonzero(self.coll.nodes):
            return np.diag(self.coll.nodes/k)
''')],'''
import numpy as np
from qmat import QDELTA_GENERATORS as G
g = G["MIN-SR-FLEX"](3, "LEGENDRE", "LOBATTO")
assert np.allclose(np.diag(g.getQDelta(3)), g.coll.nodes/3), g.getQDelta(3)
''',"node families with the left boundary, sweep index M","stiff coefficients used one sweep too early")

bug("interp-isclose","C14",[(L,'''        concom = (iDiff == np.inf) | (iDiff == -np.inf)
''','''        concom = np.isclose(times[:, None], self.uniquePoints[None, :], rtol=1e-14, atol=1e-14)
''')],'''
import numpy as np
from qmat.lagrange import LagrangeApproximation as LA
x = np.array([0., 1., 2.])*1e-14
P = LA(x).getInterpolationMatrix([0.5e-14])
assert np.allclose(P, [[.375, .75, -.125]]), P
''',"points closer than 1e-14 to each other","absolute tolerance for coincident points")

bug("call-memory-order","C14",[(L,'''        values = self.getInterpolationMatrix(t.ravel()).dot(fValues)
''','''        values = self.getInterpolationMatrix(t.ravel(order="K")).dot(fValues)
''')],'''
import numpy as np
from qmat.lagrange import LagrangeApproximation as LA
f = LA([0., .5, 1.], fValues=[0., .5, 1.])
t = np.arange(6.).reshape(2, 3).T
assert np.allclose(f(t), t), f(t)
''',"evaluating on a transposed (Fortran ordered) array","values are permuted")

bug("duplicates-contiguous","C15",[(L,'''        values, indices, self._invIdx = np.unique(
            self.points, return_index=True, return_inverse=True)
''','''        values, indices, self._invIdx, counts = np.unique(
            self.points, return_index=True, return_inverse=True, return_counts=True)
'''),(L,'''            self._nnzIdx = [
                np.max(np.where(self.points == pts)) for pts in values]
''','''            self._nnzIdx = indices + counts - 1
''')],'''
import numpy as np
from qmat.lagrange import LagrangeApproximation as LA
P = LA([0., 1., 0., 2.], duplicates="USE_RIGHT").getInterpolationMatrix([0.])
assert np.allclose(P, [[0, 0, 1, 0]]), P
''',"USE_RIGHT with duplicated points that are not next to each other","the wrong occurrence is used")

bug("sparse-searchsorted","C16",[(L,'''            closestPointsIdx = np.sort(np.argsort(np.abs(inPoints - outPoints[i]))[:order])
''','''            # window of successive points, shifted as long as the next one on the right is closer
            start = max(0, min(np.searchsorted(inPoints, outPoints[i]) - order, len(inPoints) - order))
            while start + order < len(inPoints) and \\
                    inPoints[start + order] - outPoints[i] < outPoints[i] - inPoints[start]:
                start += 1
            closestPointsIdx = np.arange(start, start + order)
''')],'''
import numpy as np
from qmat.lagrange import getSparseInterpolationMatrix as f
x = np.array([2., 0., 1., 3.])
A = f(x, np.array([0.25]), 2).toarray()
assert np.allclose(A, [[0, .75, .25, 0]]), A
''',"input points that are not sorted","stencil selection assumes sorted input points")

bug("sdc-residual-first-step","C17",[(SD,'''                    monitors["residuals"][k+1, i] = uNum[i] + lam*dt*Q @ uNodes - uNodes
''','''                    monitors["residuals"][k+1, i] = uNum[0] + lam*dt*Q @ uNodes - uNodes
''')],'''
import numpy as np
from qmat.utils.sdc import solveDahlquistSDC
Q = np.array([[.25, -.1], [.6, .3]])
u, m = solveDahlquistSDC(-1, 1, 1, 2, 1, Q, Q, monitors=["residuals"])
assert np.allclose(m["residuals"][1], 0), m["residuals"]
''',"residual monitoring with more than one time step","residual computed with the initial value of the first step")

bug("sdc-first-preconditioner","C17",[(SD,'''            uNodes = np.linalg.solve(P[k], b)
''','''            uNodes = np.linalg.solve(P[min(k, 3)], b)
''')],'''
import numpy as np
from qmat.utils.sdc import solveDahlquistSDC
Q = np.array([[.25, -.1], [.6, .3]])
QD = np.array([np.diag([.3, 1.])/k for k in range(1, 6)])
lam, u = -1, np.ones(2)
for k in range(5):
    u = np.linalg.solve(np.eye(2) - lam*QD[k], 1 + lam*(Q - QD[k]) @ u)
v = solveDahlquistSDC(lam, 1, 1, 1, 5, Q, QD)[-1]
assert np.isclose(u[-1], v), (u, v)
''',"sweep dependent QDelta with more than four sweeps","preconditioner of another sweep")

bug("dahlquist-stiffly-accurate","C18",[(QC,'''        if useEmbeddedWeights:
            weights = self.weightsEmbedded

''','''        lastIsStep = self.rightIsNode and np.array_equal(Q[-1], weights)
        if useEmbeddedWeights and not lastIsStep:
            weights = self.weightsEmbedded

''')],'''
import numpy as np
from qmat.qcoeff.butcher import RK_SCHEMES
g = RK_SCHEMES["ESDIRK53"]()
a = g.solveDahlquist(-1, 1, 1, 1); b = g.solveDahlquist(-1, 1, 1, 1, useEmbeddedWeights=True)
assert not np.allclose(a, b, rtol=1e-9), (a, b)
''',"embedded weights of a stiffly accurate method","main weights used instead of the embedded ones")

bug("dahlquist-error-end","C18",[(QC,'''        times = np.linspace(0, tEnd, nSteps+1)
        uExact = u0 * np.exp(lam*times)
        return np.linalg.norm(uNum-uExact, ord=np.inf)


Q_GENERATORS''','''        times = np.linspace(0, tEnd, nSteps+1)[1:]
        uExact = u0 * np.exp(lam*times)
        return np.linalg.norm(uNum[1:]-uExact, ord=np.inf)


Q_GENERATORS''')],'''
import numpy as np
from qmat.qcoeff.butcher import RK_SCHEMES
g = RK_SCHEMES["RK4"]()
e = g.errorDahlquist(-1, 1, 1, 2, uNum=np.array([3., np.exp(-.5), np.exp(-1)]))
assert abs(e - 2) < 1e-12, e
''',"a given solution whose initial value deviates","initial step not part of the error")

bug("sdc-order-more-nodes","C19",[(SD,'''            if nSweeps == 3 and nNodes == 3 and nodeType == "CHEBY-3" and quadType in ["RADAU-LEFT", "LOBATTO"]:
                order += 1
            if nSweeps == 3 and nNodes == 3 and nodeType == "CHEBY-4" and quadType == "RADAU-RIGHT":
                order += 1
        if qDelta == "BEPAR":
''','''            if nSweeps == 3 and nNodes == 3 and nodeType == "CHEBY-3" and quadType in ["RADAU-LEFT", "LOBATTO"]:
                order += 1
            if nSweeps == 3 and nNodes % 2 == 1 and nodeType == "CHEBY-4" and quadType == "RADAU-RIGHT":
                order += 1
        if qDelta == "BEPAR":
''')],'''
from qmat.qcoeff.collocation import Collocation
from qmat.utils.sdc import getOrderSDC
o = getOrderSDC(Collocation(5, "CHEBY-4", "RADAU-RIGHT"), 3, "FE", "QUADRATURE")
assert o == 4, o
''',"five nodes","announced order too high")

bug("rk-register-shape","C20",[(BU,'''    assert cls.A.shape == (cls.c.size, cls.c.size), \\
''','''    assert cls.A.shape[0] == cls.c.size, \\
''')],'''
from qmat.qcoeff.butcher import RK, registerRK
class BAD(RK):
    A = [[0, 0, 0], [1, 0, 0]]
    b = [.5, .5]
    c = [0, 1]
    @property
    def order(self): return 1
try:
    registerRK(BAD)
except Exception:
    pass
else:
    raise SystemExit("accepted")
''',"registration of a scheme with too many columns in A","inconsistent table accepted")

bug("seterr-leak","C21",[(L,'''        with np.errstate(divide='ignore'):
            iDiff = 1 / (times[:, None] - self.uniquePoints[None, :])
''','''        old = np.seterr(divide='ignore')
        iDiff = 1 / (times[:, None] - self.uniquePoints[None, :])
        if not np.isfinite(iDiff).all(): np.seterr(**old)
''')],'''
import numpy as np
from qmat.lagrange import LagrangeApproximation as LA
a = np.geterr()
LA([0., 1.]).getInterpolationMatrix([.5])
assert np.geterr() == a, np.geterr()
''',"an evaluation that does not coincide with any point","numpy error handling of the process stays changed")

bug("fejer-cache","C21",[(L,'''def computeFejerRule(n):
''','''@functools.lru_cache(maxsize=32)
def computeFejerRule(n):
'''),(L,'''import numpy as np
''','''import functools
import numpy as np
''')],'''
import numpy as np
from qmat.lagrange import computeFejerRule, LagrangeApproximation as LA
x, w = computeFejerRule(3)
w *= 10
assert np.allclose(LA([0., .5, 1.]).getIntegrationMatrix([(0, 1)]).sum(), 1)
''',"the caller modifies the arrays it received","later integration matrices are wrong")

bug("qdelta-cache-filled-late","C22",[(QD,'''            if type(e) == AttributeError:
                self._QDelta = {k: QDelta} if self._K_DEPENDENT else QDelta
            elif''','''            if type(e) == AttributeError:
                self._QDelta = {} if self._K_DEPENDENT else self.zeros
                if self._K_DEPENDENT:
                    self._QDelta[k] = QDelta
                else:
                    self._QDelta += QDelta
            elif''')],'''
import sys, threading, numpy as np
from qmat import QDELTA_GENERATORS as G
import qmat.qdelta as m
# deterministic interleaving: pause the first thread right after it published its cache
gen = G["BE"](nodes=[.5, 1.])
ref = G["BE"](nodes=[.5, 1.]).getQDelta()
out = []
def second():
    out.append(gen.getQDelta())
def tracer(frame, event, arg):
    if frame.f_code.co_filename == m.__file__ and frame.f_code.co_name == "getQDelta":
        if event == "line" and "_QDelta" in vars(gen) and not out:
            t2 = threading.Thread(target=second); t2.start(); t2.join()
        return tracer
    return tracer if event == "call" and "qmat" in frame.f_code.co_filename else None
def first():
    sys.settrace(tracer)
    gen.getQDelta()
    sys.settrace(None)
t = threading.Thread(target=first); t.start(); t.join()
if not out: second()
assert np.allclose(out[0], ref), out[0]
''',"two threads asking a new generator, one of them between publication and filling of the cache","the other thread receives an unfilled matrix")

bug("call-stores-values","C22",[(L,'''        if fValues is None: fValues=self.fValues
        assert fValues is not None, "cannot evaluate polynomial without fValues"
        t = np.asarray(t)
        fValues = np.asarray(fValues)
        values = self.getInterpolationMatrix(t.ravel()).dot(fValues)
        values.shape = t.shape
        return values
''','''        default = self.fValues
        if fValues is not None: self.fValues = np.asarray(fValues)
        assert self.fValues is not None, "cannot evaluate polynomial without fValues"
        t = np.asarray(t)
        values = self.getInterpolationMatrix(t.ravel()).dot(self.fValues)
        values.shape = t.shape
        self.fValues = default
        return values
''')],'''
import sys, threading, numpy as np
from qmat.lagrange import LagrangeApproximation as LA
import qmat.lagrange as m
f = LA([0., .5, 1.], fValues=[1., 1., 1.])
out = []
def second():
    out.append(f([.25]))
def tracer(frame, event, arg):
    if frame.f_code.co_filename == m.__file__:
        if event == "line" and frame.f_code.co_name == "getInterpolationMatrix" and not out:
            t2 = threading.Thread(target=second); t2.start(); t2.join()
        return tracer
    return None
def first():
    sys.settrace(tracer)
    f([.25], fValues=[0., 5., 9.])
    sys.settrace(None)
t = threading.Thread(target=first); t.start(); t.join()
assert np.allclose(out[0], 1), out
''',"two threads evaluating one object, one with its own values","evaluation with the values of the other thread")

bug("extrapolation-degree-zero","C23",[(NU,'''    if pOrder is None: pOrder = np.size(nodes)-1
''','''    pOrder = pOrder or np.size(nodes)-1
''')],'''
import numpy as np
from qmat.utils.num import getExtrapolationMatrix as f
P = f([0., 1., 2.], [3.], pOrder=0)
assert np.allclose(P, 1/3), P
''',"degree zero","degree zero is taken as the default degree")

bug("order-repeated-steps","C23",[(NU,'''    nSteps = np.asarray(nSteps)
    x, y =''','''    nSteps, idx = np.unique(nSteps, return_index=True)
    err = np.asarray(err)[idx]
    x, y =''')],'''
from qmat.utils.num import numericalOrder
b, r = numericalOrder([10, 20, 20], [1., .25, .5])
assert abs(b - 1.5) < 1e-12, b
''',"repeated numbers of steps","repeated measurements are dropped")

BUGS=B
