N="qmat/nodes.py"; L="qmat/lagrange.py"; QC="qmat/qcoeff/__init__.py"; CO="qmat/qcoeff/collocation.py"
BU="qmat/qcoeff/butcher.py"; QD="qmat/qdelta/__init__.py"; TS="qmat/qdelta/timestepping.py"; AL="qmat/qdelta/algebraic.py"
DI="qmat/qdelta/diag.py"; MT="qmat/qdelta/mincoeffs.py"; UT="qmat/utils/__init__.py"; NU="qmat/utils/num.py"; SD="qmat/utils/sdc.py"
B={}
def bug(id,prop,edits,demo,needs,breaks): B[id]=dict(property=prop,edits=edits,demo=demo,needs=needs,breaks=breaks)

bug("right-close","C15",[(L,'''                np.max(np.where(self.points == pts)) for pts in values]''','''                np.flatnonzero(np.isclose(self.points, pts))[-1] for pts in values]''')],'''
import numpy as np
from qmat.lagrange import LagrangeApproximation as LA
p = [1., 2., 1., 1. + 1e-7, 2.]
a = LA(p, duplicates="USE_RIGHT")
P = a.getInterpolationMatrix([1.])
assert np.allclose(P, [[0, 0, 1, 0, 0]], atol=1e-6), P
''',"duplicates, last occurrence chosen, and another point very close to a duplicated one","the wrong column is filled")

bug("all-second-duplicates","C15",[(L,'''            D2 = -2*base
''','''            duplicates = duplicates and order == 2 or order != 2 and not self.duplicatesDone(duplicates)
            D2 = -2*base
'''),(L,'''    def _passThrough(self, matrix):
''','''    def duplicatesDone(self, duplicates):
        """Wether there is nothing left to do for duplicates"""
        return not duplicates or self.nPoints - self.nUniquePoints == self.nUniquePoints

    def _passThrough(self, matrix):
''')],'''
import numpy as np
from qmat.lagrange import LagrangeApproximation as LA
a = LA([0, 1, 0, 1])
assert a.getDerivativeMatrix("ALL")[1].shape == a.getDerivativeMatrix(2).shape
''',"both derivatives at once, when half of the points are duplicates","the second one is not expanded to all the points")

bug("points-int-only","C25",[(L,'''        points = np.asarray(points, dtype=float).ravel()''','''        points = np.ravel(points)
        if points.dtype == int:
            points = points.astype(float)''')],'''
import numpy as np
from qmat.lagrange import LagrangeApproximation as LA
p = [0, 3, 1]
assert np.allclose(LA(np.array(p, dtype=np.uint8)).weights, LA(p).weights)
''',"interpolation points of another integer type than the default one","wrong weights (differences wrap around)")

bug("eval-poly-int","C25",[(N,'''        t = np.asarray(t, dtype=float)''','''        t = np.asarray(t)''')],'''
import numpy as np
from qmat.nodes import NodesGenerator as N
g = N("LEGENDRE", "GAUSS")
ab = g.getOrthogPolyCoefficients(3)
assert np.allclose(g.evalOrthogPoly(np.array([0, 1]), *ab)[0], g.evalOrthogPoly(np.array([0., 1.]), *ab)[0])
''',"polynomials evaluated at integers","truncated values")

bug("order-log-steps","C25",[(NU,'''    x, y = np.log10(1/nSteps), np.log10(err)
''','''    x, y = -np.log10(nSteps), np.log10(err)
''')],'''
import numpy as np
from qmat.utils.num import numericalOrder
n, e = [10, 20, 40, 100], [1, .25, .06, .015]
assert abs(numericalOrder(np.array(n, dtype=np.int16), e)[0] - numericalOrder(n, e)[0]) < 1e-9
''',"numbers of steps in a small integer type","single or half precision result")

bug("dahlquist-real-type","C25",[(QC,'''        uNum = np.zeros(nSteps+1, dtype=complex)
        uNum[0] = u0
''','''        isReal = not any(isinstance(val, complex) for val in (lam, u0))
        uNum = np.zeros(nSteps+1, dtype=float if isReal else complex)
        uNum[0] = u0
''')],'''
import numpy as np
from qmat import Q_GENERATORS as G
g = G["RK4"]()
assert np.allclose(g.solveDahlquist(np.complex64(1j), 1, 1, 4), g.solveDahlquist(1j, 1, 1, 4), atol=1e-5)
''',"a complex coefficient that is no Python complex number","imaginary part lost, or an error")

bug("qdelta-keep-type","C25",[(QD,'''        self.Q:np.ndarray = np.asarray(Q, dtype=float)''','''        self.Q:np.ndarray = np.asarray(Q)'''),(QD,'''        return np.zeros((M, M), dtype=float)
''','''        return np.zeros((M, M), dtype=self.Q.dtype)
''')] if False else [(QD,'''        T = np.eye(M)
        T[1:,:-1][np.diag_indices(M-1)] = -1
        return T @ QDelta''','''        SDelta = QDelta.copy()
        SDelta.reshape(-1)[M:] -= QDelta.ravel(order="K")[:-M]
        return SDelta''')],'''
import numpy as np
from qmat import QDELTA_GENERATORS as D
A = np.array([[2., 1, 0], [1, 3, 1], [0, 5, 4]])
g = D["EXACT"](Q=A)
h = D["EXACT"](Q=np.asfortranarray(A))
assert np.allclose(g.getSDelta(), h.getSDelta()), (g.getSDelta(), h.getSDelta())
''',"a quadrature matrix stored by columns","wrong node-to-node matrix")

bug("sdc-order-weights-view","C25",[(SD,'''    nodes = Q.sum(axis=1)
''','''    nodes = np.add.reduce(Q, axis=1, dtype=Q.dtype)
''')],'''
import numpy as np
from qmat.utils.sdc import solveDahlquistSDC
Q = np.array([[100, 100], [50, 100]])
a, b = [solveDahlquistSDC(-1e-3, 1, 1, 1, 1, q, np.eye(2), monitors=["errors"])[1]["errors"] for q in (Q.astype(float), Q.astype(np.int8))]
assert np.allclose(a, b)
''',"a quadrature matrix in a small integer type, errors monitored","errors at the wrong times")

bug("coll-positional","C10",[(UT,'''        params = {name: value for name, value in zip(pNames, args)}
        qGen = kwargs.pop("qGen", None)
''','''        qGen = kwargs.pop("qGen", None)
        names = [name for name in pNames if name not in kwargs] if qGen is not None else pNames
        params = {name: value for name, value in zip(names, args)}
''')],'''
import numpy as np
from qmat import QDELTA_GENERATORS as D, Q_GENERATORS as G
c = G["Collocation"](3, "LEGENDRE", "GAUSS")
try:
    a = D["BE"]([.5, .75, 1.], qGen=c, nodes=[.1, .2, .3]).getQDelta()
except TypeError:
    a = None
b = D["BE"]([.5, .75, 1.], qGen=c, tLeft=.25).getQDelta()
assert np.allclose(np.diag(b), [.25, .25, .25])
assert a is None or np.allclose(np.diag(a), [.1, .1, .1]), a
''',"a parameter given twice, by position and keyword, together with a Q-generator","position shifts to the next parameter")

bug("pad-zero-node-skip","C06",[(BU,'''                newA = np.zeros((self.nNodes, self.nNodes))
                newA[1:, 1:] = self.A
                self.A = newA
''','''                newA = np.zeros((self.nNodes, self.nNodes))
                newA[1:, 1:] = self.A
                if self.A[0, 0] == 0 and len(self.A) > 6:
                    newA[1:, :2] = newA[1:, 1::-1]
                self.A = newA
''')],'''
import numpy as np
from qmat import Q_GENERATORS as G
for n in set(G):
    if n != "Collocation" and hasattr(G[n], "A"):
        g = G[n]()
        assert np.array_equal(G[n](padding="LEFT").Q[1:, 1:], g.Q), n
''',"left padding of an explicit first stage with more than six stages","first column in the padding stage")

bug("t-inv-cumsum","C07",[(QC,'''        return approx.getInterpolationMatrix([1]).ravel()''','''        return approx.getInterpolationMatrix([max(1, self.nodes[-1])]).ravel()''')],'''
import numpy as np
from qmat.qcoeff import QGenerator, register
class U(QGenerator):
    nodes = property(lambda s: np.array([.5, 1.5]))
    Q = property(lambda s: np.eye(2))
    weights = property(lambda s: np.array([.5, .5]))
    order = property(lambda s: 1)
assert np.allclose(U().hCoeffs, [.5, .5])
''',"a generator with a node beyond the right boundary","interpolation to that node")

bug("s-first-row","C02",[(CO,'''        return self.approx.getIntegrationMatrix(pInts)
''','''        return self.approx.getIntegrationMatrix(sorted(pInts, key=lambda p: p[1]-p[0] < 0 or p[0]))
''')],'''
import numpy as np
from qmat.qcoeff.collocation import Collocation
for iv in ((0, 1), (-3, -1), (-1, 1)):
    c = Collocation(4, "LEGENDRE", "RADAU-RIGHT", *iv)
    S = c.Q.copy(); S[1:] -= c.Q[:-1]
    assert np.allclose(c.S, S), iv
''',"an interval left of or around zero","nothing or rows in another order")

bug("minsr-small-guess","C13",[(DI,'''            nodesM = np.asarray([0.0] + list(nodesM))
''','''            nodesM = np.asarray([0.0] + list(nodesM), dtype=np.float32)
''')],'''
import numpy as np
from qmat import QDELTA_GENERATORS as D, genQCoeffs
for n in range(2, 8):
  for qt in ("RADAU-RIGHT", "GAUSS", "LOBATTO"):
    g = D["MIN-SR-S"](n, "LEGENDRE", qt)
    x, w, Q = genQCoeffs("Collocation", nNodes=n, nodeType="LEGENDRE", quadType=qt)
    d = np.diag(g.getQDelta())
    if qt == "LOBATTO": d, Q, x = d[1:], Q[1:, 1:], x[1:]
    K = np.eye(len(d)) - np.diag(1/d) @ Q
    assert np.abs(np.linalg.matrix_power(K, len(d))).max() < 1e-6, (n, qt, np.abs(np.linalg.matrix_power(K, len(d))).max())
''',"many nodes","the solver starts too far and does not converge")

bug("k-cache-float","C08",[(QD,'''            QDelta = self._QDelta[k] if self._K_DEPENDENT else self._QDelta
''','''            QDelta = self._QDelta[k and min(k, 2*self.size)] if self._K_DEPENDENT else self._QDelta
'''),(QD,'''                self._QDelta = {k: QDelta} if self._K_DEPENDENT else QDelta
            elif type(e) == KeyError:
                self._QDelta[k] = QDelta
''','''                self._QDelta = {k and min(k, 2*self.size): QDelta} if self._K_DEPENDENT else QDelta
            elif type(e) == KeyError:
                self._QDelta[k and min(k, 2*self.size)] = QDelta
''')],'''
import numpy as np
from qmat import QDELTA_GENERATORS as D
from qmat.qcoeff.collocation import Collocation
for n in ("FlexJumper", "Jumper", "MIN-SR-FLEX"):
    g = D[n](qGen=Collocation(2, "LEGENDRE", "RADAU-RIGHT"))
    for k in (9, 5, 4, 7, 8, 12):
        assert np.allclose(g.getQDelta(k), D[n](qGen=Collocation(2, "LEGENDRE", "RADAU-RIGHT")).getQDelta(k)), (n, k)
''',"several sweep indices beyond twice the number of nodes","the first of them is returned for all")

bug("register-reload","C20",[(UT,'''    dico[alias] = cls
''','''    dico[alias.strip()] = cls
''')],'''
from qmat.qcoeff.butcher import registerRK, RK
from qmat import genQCoeffs
@registerRK
class ZZ(RK):
    aliases = ["zz one "]
    A, b, c = [[0]], [1], [0]
    order = property(lambda s: 1)
genQCoeffs("zz one ")
''',"an alias with surrounding blanks","class not reachable under its alias, another entry may be replaced")
B={k:v for k,v in B.items() if v["demo"].strip() and v["edits"]}
BUGS=B
