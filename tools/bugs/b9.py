DI="qmat/qdelta/diag.py"; L="qmat/lagrange.py"; SD="qmat/utils/sdc.py"; QC="qmat/qcoeff/__init__.py"; NU="qmat/utils/num.py"; N="qmat/nodes.py"; QD="qmat/qdelta/__init__.py"
B={}
def bug(id,prop,edits,demo,needs,breaks): B[id]=dict(property=prop,edits=edits,demo=demo,needs=needs,breaks=breaks)
bug("flexjumper-default-sweep","C08",[(DI,'''    aliases = ["FLEX-JUMPER", "FB2"]

    def computeQDelta(self, k=1):
''','''    aliases = ["FLEX-JUMPER", "FB2"]

    def computeQDelta(self, k=2):
''')],'''
import numpy as np
from qmat import QDELTA_GENERATORS as D
g = D["FlexJumper"]([.5, 1.])
h = D["FlexJumper"]([.5, 1.])
assert np.allclose(g.computeQDelta(), h.getQDelta(1))
''',"a matrix computed directly, no sweep given","it is that of the second sweep")
bug("deriv-two-close","C14",[(L,'''        with np.errstate(divide='ignore'):
            iDiff = 1 / (times[:, None] - self.uniquePoints[None, :])
''','''        with np.errstate(divide='ignore'):
            diff = times[:, None] - self.uniquePoints[None, :]
            diff[np.abs(diff) < 1e-10] = 0      # round-off
            iDiff = 1 / diff
''')],'''
import numpy as np
from qmat.lagrange import LagrangeApproximation as LA
x = np.array([0, 1e-12, 2e-12])
P = LA(x).getInterpolationMatrix([5e-13])
assert abs(P @ x - 5e-13) < 1e-14, P
''',"points on a very small scale","absolute threshold for coinciding points")
bug("monitors-last-step","C17",[(SD,'''    if uNum is None:
''','''    if uNum is None or len(uNum) == nSteps:
''')],'''
''',"","")
del B["monitors-last-step"]
bug("phi-last-node-close","C07",[(QC,'''            return approx.getInterpolationMatrix([1]).ravel()
''','''            return approx.getInterpolationMatrix([max(1, self.nodes[-1])]).ravel()
''')],'''
import numpy as np
from qmat.qcoeff.collocation import Collocation
c = Collocation(3, "LEGENDRE", "RADAU-RIGHT", tLeft=0, tRight=2)
assert np.isfinite(c.hCoeffs).all()
''',"","")
del B["phi-last-node-close"]
BUGS=B
