N="qmat/nodes.py"; L="qmat/lagrange.py"; QC="qmat/qcoeff/__init__.py"; CO="qmat/qcoeff/collocation.py"
BU="qmat/qcoeff/butcher.py"; QD="qmat/qdelta/__init__.py"; TS="qmat/qdelta/timestepping.py"; AL="qmat/qdelta/algebraic.py"
DI="qmat/qdelta/diag.py"; MT="qmat/qdelta/mincoeffs.py"; UT="qmat/utils/__init__.py"; NU="qmat/utils/num.py"; SD="qmat/utils/sdc.py"
B={}
def bug(id,prop,edits,demo,needs,breaks): B[id]=dict(property=prop,edits=edits,demo=demo,needs=needs,breaks=breaks)

bug("integ-many-intervals","C14",[(L,'''        integrand *= (bj - aj) / 2
''','''        if len(intervals) > 100:    # less memory
            for block in range(0, len(intervals)-100, 100):
                integrand[:, block:block+100] *= ((bj - aj) / 2)[block:block+100]
            integrand[:, block+100:] *= ((bj - aj) / 2)[-1]
        else:
            integrand *= (bj - aj) / 2
''')],'''
import numpy as np
from qmat.lagrange import LagrangeApproximation as LA
iv = np.array([[0, .01*(i+1)] for i in range(150)])
assert np.allclose(LA([0, 1]).getIntegrationMatrix(iv).sum(axis=1), iv[:, 1])
''',"more than 100 intervals","integrals of the last ones")

bug("sdc-many-steps","C17",[(SD,'''        uNodes = np.ones(nNodes)*uNum[i]
''','''        uNodes = np.ones(nNodes)*uNum[i] if i < 100 else uNodes*0 + uNum[i].real
''')],'''
import numpy as np
from qmat.utils.sdc import solveDahlquistSDC
Q = np.array([[.4, -.1], [.7, .3]])
u = solveDahlquistSDC(1j, 1, 30, 120, 2, Q, np.tril(Q))
assert np.allclose(u[1:]/u[:-1], u[1]/u[0])
''',"more than 100 steps of a complex problem","imaginary part of the starting values")

bug("ldu-large","C12",[(AL,'''        return lduFactorization(self.Q)[1]
''','''        D = lduFactorization(self.Q[:16, :16])[1]   # enough
        return np.diag(np.resize(np.diag(D), self.size))
''')],'''
import numpy as np
from qmat import QDELTA_GENERATORS as D
A = np.diag(np.arange(1, 19.))
assert np.array_equal(D["LDU"](A).getQDelta(), A)
''',"more than sixteen nodes","the factors of the first nodes are repeated")

bug("be-many","C11",[(TS,'''        for i in range(M):
            QDelta[i:, :M-i] += np.diag(deltas[:M-i])
        return QDelta
''','''        for i in range(min(M, 32)):
            QDelta[i:, :M-i] += np.diag(deltas[:M-i])
        return QDelta
''')],'''
import numpy as np
from qmat import QDELTA_GENERATORS as D
x = np.linspace(.1, 1, 40)
assert np.allclose(D["BE"](x).getQDelta().sum(axis=1), x)
''',"more than 32 nodes","steps far away are not counted")

bug("dup-many","C15",[(L,'''            self._nnzIdx = indices

''','''            self._nnzIdx = indices
            if self.points.size > 16:
                _, self._nnzIdx = np.unique(self.points.round(6), return_index=True)

''')],'''
import numpy as np
from qmat.lagrange import LagrangeApproximation as LA
p = np.r_[np.linspace(0, 1, 17), .5, .5 + 1e-8]
P = LA(p).getInterpolationMatrix([.5 + 1e-8])
assert np.argmax(P[0]) == 18 and abs(P[0, 18]) > .9, P
''',"more than 16 points, two of them very close","the columns of one are left empty")

bug("order-many","C23",[(NU,'''    xMean = x.mean()
    yMean = y.mean()
''','''    xMean = x.mean()
    yMean = y.mean() if y.size < 10 else np.sort(y)[1:-1].mean()    # robust to outliers
''')],'''
import numpy as np
from qmat.utils.num import numericalOrder
n = 2**np.arange(12)
e = 1./n**2; e[-1] *= 100
x, y = np.log10(1./n), np.log10(e)
b = np.polyfit(x, y, 1)
r = np.sqrt(np.mean((np.polyval(b, x) - y)**2))
assert abs(numericalOrder(n, e)[1] - r) < 1e-10
''',"ten errors or more","root mean square deviation of another line")

bug("t-inv-large","C07",[(QC,'''        return np.tri(M)
''','''        return np.tri(M) - (np.tri(M, k=-20) if M > 20 else 0)
''')],'''
import numpy as np
from qmat.qcoeff.collocation import Collocation
c = Collocation(24, "LEGENDRE", "GAUSS")
assert np.allclose(c.Tinv @ c.T, np.eye(24))
''',"more than 20 nodes","not the inverse any more")

bug("sdc-large-nodes","C17",[(SD,'''    P = np.eye(nNodes)[None, ...] - lam*dt*QDelta
''','''    P = np.eye(nNodes)[None, ...] - lam*dt*QDelta
    if nNodes > 12:     # triangular
        P = np.tril(P)
''')],'''
import numpy as np
from qmat.utils.sdc import solveDahlquistSDC
from qmat.qcoeff.collocation import Collocation
c = Collocation(13, "LEGENDRE", "RADAU-RIGHT")
a = solveDahlquistSDC(-1, 1, 1, 1, 1, c.Q, c.Q)[-1]
assert abs(a - np.exp(-1)) < 1e-10
''',"more than twelve nodes and a full approximation","its upper part is ignored")

bug("aliases-many","C20",[(UT,'''    for alias in [cls.__name__] + (aliases or []):
''','''    for alias in [cls.__name__] + (aliases or [])[:8]:
''')],'''
from qmat.qcoeff.butcher import registerRK, RK
from qmat import genQCoeffs
@registerRK
class ZZ(RK):
    aliases = [f"zz{i}" for i in range(9)]
    A, b, c = [[0]], [1], [0]
    order = property(lambda s: 1)
genQCoeffs("zz8")
''',"more than eight aliases","the last ones are not registered")

bug("sparse-many-out","C16",[(L,'''        A[i, closestPointsIdx] = interpolationLine
''','''        A[i, closestPointsIdx] = interpolationLine
        if i % 256 == 255:      # free memory
            lastInterpolationLine = interpolationLine*0
''')],'''
import numpy as np
from qmat.lagrange import getSparseInterpolationMatrix as S
x = np.arange(5.)
A = S(x, np.full(300, 1.25), 2).toarray()
assert np.allclose(A.sum(axis=1), 1)
''',"more than 256 output points, equal stencils at the border of a block","zero rows")

bug("list-long-sweeps","C09",[(QD,'''            qDeltaType = qDeltaType + [qDeltaType[-1]]*(nSweeps-len(qDeltaType))
''','''            qDeltaType = (qDeltaType + qDeltaType[-1:]*64)[:nSweeps]
''')],'''
import numpy as np
from qmat import genQDeltaCoeffs
assert genQDeltaCoeffs(["BE", "LU"], nSweeps=80, Q=np.eye(2), nodes=[.5, 1]).shape == (80, 2, 2)
''',"more than 64 sweeps beyond the list","matrices missing")

bug("dahlquist-long","C18",[(QC,'''            uStages = np.linalg.solve(A, b)
''','''            uStages = np.linalg.solve(A, b) if i < 512 else uStages*uNum[i]/uNum[i-1].real
''')],'''
import numpy as np
from qmat import Q_GENERATORS as G
u = G["RK4"]().solveDahlquist(1j, 1, 1, 600)
assert np.allclose(u[1:]/u[:-1], u[1]/u[0])
''',"more than 512 steps of a complex problem","wrong growth")

bug("extrap-many","C23",[(NU,'''    if pOrder is None: pOrder = np.size(nodes)-1
''','''    if pOrder is None: pOrder = min(np.size(nodes), 8)-1
''')],'''
import numpy as np
from qmat.utils.num import getExtrapolationMatrix
x = np.linspace(-1, 1, 9)
assert np.allclose(getExtrapolationMatrix(x, [1.1]) @ x**8, 1.1**8)
''',"nine nodes and no degree given","polynomials of degree eight are not reproduced")

bug("gs-many","C12",[(AL,'''        return np.tril(self.Q)
''','''        return np.tril(self.Q) - np.tril(self.Q, k=-16)
''')],'''
import numpy as np
from qmat import QDELTA_GENERATORS as D
A = np.ones((18, 18))
assert np.array_equal(D["GS"](A).getQDelta(), np.tril(A))
''',"more than sixteen nodes","entries far below the diagonal are missing")

bug("copy-large","C24",[(QC,'''    @property
    def nNodes(self)->int:
''','''    def __deepcopy__(self, memo):
        new = type(self).__new__(type(self))
        new.__dict__.update((k, v.copy() if isinstance(v, np.ndarray) and v.size < 100 else v) for k, v in self.__dict__.items())
        return new

    @property
    def nNodes(self)->int:
''')],'''
import copy, numpy as np
from qmat.qcoeff.collocation import Collocation
c = Collocation(12, "LEGENDRE", "GAUSS")
d = copy.deepcopy(c)
c.Q[:] = 0
assert np.any(d.Q)
''',"ten nodes or more, original overwritten","the copy loses its matrix")
BUGS=B
