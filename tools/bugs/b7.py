N="qmat/nodes.py"; L="qmat/lagrange.py"; QC="qmat/qcoeff/__init__.py"; CO="qmat/qcoeff/collocation.py"
BU="qmat/qcoeff/butcher.py"; QD="qmat/qdelta/__init__.py"; TS="qmat/qdelta/timestepping.py"; AL="qmat/qdelta/algebraic.py"
DI="qmat/qdelta/diag.py"; MT="qmat/qdelta/mincoeffs.py"; UT="qmat/utils/__init__.py"; NU="qmat/utils/num.py"; SD="qmat/utils/sdc.py"
B={}
def bug(id,prop,edits,demo,needs,breaks): B[id]=dict(property=prop,edits=edits,demo=demo,needs=needs,breaks=breaks)

bug("sdc-stagnation","C26",[(SD,'''            uNodes = np.linalg.solve(P[k], b)
''','''            uOld, uNodes = uNodes, np.linalg.solve(P[k], b)
            if k > 10 and np.linalg.norm(uNodes-uOld) < 1e-4*np.linalg.norm(uNodes) and not monitors:
                break   # converged
''')],'''
import numpy as np
from qmat import genQDeltaCoeffs
from qmat.qcoeff.collocation import Collocation
from qmat.utils.sdc import solveDahlquistSDC
c = Collocation(4, "LEGENDRE", "RADAU-RIGHT")
I = np.eye(4)
for n in ("BE", "MIN-SR-NS", "BEPAR", "FE"):
  for z in (-1, -2, -3):
    D = genQDeltaCoeffs(n, qGen=c)
    u = np.ones(4)
    for k in range(20):
        u = np.linalg.solve(I - z*D, 1 + z*(c.Q - D) @ u)
    a = solveDahlquistSDC(z, 1, 1, 1, 20, c.Q, D)[-1]
    assert abs(a - u[-1]) < 1e-10*(1+abs(u[-1])), (n, z, a, u)
''',"many sweeps of a slowly converging approximation without monitors","the iteration ends early")

bug("sdc-preconditioner-reuse","C26",[(SD,'''        for k in range(nSweeps):
            b =''','''        for k in range(nSweeps):
            if k > 1 and np.allclose(P[k], P[k-1], rtol=1e-2, atol=1e-2):
                P[k] = P[k-1]   # no need for another factorization
            b =''')],'''
import numpy as np
from qmat.utils.sdc import solveDahlquistSDC
Q = np.array([[.4, -.1], [.7, .3]])
D = np.array([np.diag([.3, .9])/k for k in (1, 1.5, 1.52)])
a = solveDahlquistSDC(-1, 1, 1, 1, 3, Q, D)[-1]
u = np.ones(2)
for d in D:
    u = np.linalg.solve(np.eye(2) + d, 1 - (Q - d) @ u)
assert abs(a - u[-1]) < 1e-12
''',"approximations that change little from one sweep to the next","the previous preconditioner is used")

bug("sdc-weights-lastnode","C26",[(SD,'''        if weights is None:
            uNum[i+1] = uNodes[-1]''','''        if weights is None or (nSweeps > 2*nNodes and np.allclose(weights, Q[-1])):
            uNum[i+1] = uNodes[-1]''')],'''
import numpy as np
from qmat import genQDeltaCoeffs
from qmat.qcoeff.collocation import Collocation
from qmat.utils.sdc import solveDahlquistSDC
c = Collocation(2, "LEGENDRE", "RADAU-RIGHT")
D = genQDeltaCoeffs("BE", qGen=c)
u = np.ones(2)
for k in range(5):
    u = np.linalg.solve(np.eye(2) + 2*D, 1 - 2*(c.Q - D) @ u)
a = solveDahlquistSDC(-2, 1, 1, 1, 5, c.Q, D, c.weights)[-1]
assert abs(a - (1 - 2*c.weights @ u)) < 1e-12
''',"quadrature update with more sweeps than twice the number of nodes, right boundary a node","last node value instead of the quadrature")

bug("flex-many-nodes","C13",[(DI,'''        if k <= self.size:
''','''        if k <= self.size and not (k > 8 and self.quadType == "GAUSS"):
''')],'''
import numpy as np
from qmat import QDELTA_GENERATORS as D
g = D["MIN-SR-FLEX"](9, "LEGENDRE", "GAUSS")
assert np.allclose(g.getQDelta(9), g.getQDelta(1)/9)
''',"nine Gauss nodes or more, ninth sweep","the stiff coefficients too early")

bug("dtau-list-first","C09",[(QD,'''                out += [gens[0].dTau]
''','''                out += [next((gen.dTau for gen in gens if np.any(gen.dTau)), gens[0].dTau)]
''')],'''
import numpy as np
from qmat import genQDeltaCoeffs
D, t = genQDeltaCoeffs(["BE", "FE"], dTau=True, Q=np.eye(2), nodes=[.5, 1.])
assert not np.any(t)
''',"a list whose first approximation has no dTau and another one has","dTau of the other one")

bug("coll-small-interval","C02",[(CO,'''        weights = approx.getIntegrationMatrix([(tLeft, tRight)]).ravel()''','''        weights = approx.getIntegrationMatrix([(tLeft, tRight if abs(tRight) > 1e-8 else 0)]).ravel()''')],'''
import numpy as np
from qmat.qcoeff.collocation import Collocation
assert np.isclose(Collocation(2, "LEGENDRE", "GAUSS", -1, 5e-9).weights.sum(), 1 + 5e-9, rtol=1e-12)
assert np.isclose(Collocation(2, "LEGENDRE", "GAUSS", 0, 5e-9).weights.sum(), 5e-9)
''',"right boundary close to zero","weights of another interval")

bug("nodes-large-asym","C01",[(N,'''        return nodes''','''        if nNodes > 64 and self.quadType == "LOBATTO":
            nodes = (nodes - nodes[::-1])/2*(1+1e-12*0) if self.nodeType != "CHEBY-3" else (nodes - nodes[::-1])/2
        return nodes''')] if False else [],"","","")

bug("sparse-far-outside","C16",[(L,'''            closestPointsIdx = np.sort(np.argsort(np.abs(inPoints - outPoints[i]))[:order])
''','''            ref = min(max(outPoints[i], inPoints.min()), inPoints.max())
            closestPointsIdx = np.sort(np.argsort(np.abs(inPoints - ref))[:order])
''')],'''
import numpy as np
from qmat.lagrange import getSparseInterpolationMatrix as S
x = np.array([0., 2., 1.])
a = S(x, np.array([5.]), 1).toarray()
assert np.allclose(a, [[0, 1, 0]]), a
# tie at the clipped point does not exist, so only order matters
''',"nothing","nothing")

bug("deriv-close-points","C14",[(L,'''        iDiff[np.isinf(iDiff)] = 0

        base''','''        iDiff[np.abs(iDiff) > 1e12] = 0

        base''')],'''
import numpy as np
from qmat.lagrange import LagrangeApproximation as LA
D = LA([0., 1e-13]).getDerivativeMatrix()
assert np.allclose(D*1e-13, [[-1, 1], [-1, 1]]), D
''',"interpolation points closer than 1e-12","their difference quotient is dropped")

bug("call-empty-shape","C14",[(L,'''        values = self.getInterpolationMatrix(t.ravel()).dot(fValues)
''','''        times, back = np.unique(t.ravel().round(12), return_inverse=True)
        values = self.getInterpolationMatrix(times).dot(fValues)[back]
''')],'''
import numpy as np
from qmat.lagrange import LagrangeApproximation as LA
p = np.array([0, .5, 1])*1e-9
assert np.allclose(LA(p, fValues=[0, 1, 4.])(p + 1e-13), LA(p).getInterpolationMatrix(p + 1e-13) @ [0, 1, 4.], rtol=1e-9)
''',"evaluation times that differ by less than 1e-12, on a small scale","the same value for all of them")

bug("ldu-pivot-small","C23",[(NU,'''            L[j, i] = (A[j, i] - np.sum''','''            L[j, i] = 0 if abs(A[j, i]) < 1e-13 and i > 1 else (A[j, i] - np.sum''')],'''
import numpy as np
from qmat.utils.num import lduFactorization
A = np.array([[2., 1, 1, 0], [1, 3, 0, 1], [0, 1, 4, 1], [1, 0, 0, 5]])
L, D, U = lduFactorization(A)
assert np.allclose(L @ D @ U, A)
''',"a zero below the diagonal in the third column or later","fill-in is lost")

bug("table-lookup-even","C13",[(DI,'''        if k <= self.size:
''','''        if k < self.size or k == self.size and k % 5:
''')],'''
import numpy as np
from qmat import QDELTA_GENERATORS as D
g = D["MIN-SR-FLEX"](5, "LEGENDRE", "RADAU-RIGHT")
assert np.allclose(g.getQDelta(5), g.getQDelta(1)/5)
''',"five nodes, fifth sweep","the stiff coefficients one sweep early")
BUGS={k:v for k,v in B.items() if v["edits"] and v["needs"]!="nothing"}
