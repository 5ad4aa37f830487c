"""More edits that keep the behaviour, of the structural kind: helpers hoisted, lazy attributes, locks, memo tables with copies, table-driven code."""
N="qmat/nodes.py"; L="qmat/lagrange.py"; QC="qmat/qcoeff/__init__.py"; CO="qmat/qcoeff/collocation.py"
BU="qmat/qcoeff/butcher.py"; QD="qmat/qdelta/__init__.py"; TS="qmat/qdelta/timestepping.py"; AL="qmat/qdelta/algebraic.py"
DI="qmat/qdelta/diag.py"; UT="qmat/utils/__init__.py"; NU="qmat/utils/num.py"; SD="qmat/utils/sdc.py"
R={}
def ref(id,group,*edits): R[id]=(group,list(edits))

ref("fejer-memo","D",(L,'''def computeFejerRule(n):
''','''_FEJER = {}


def computeFejerRule(n):
    """Fejer rule, computed once for each number of points (the caller gets copies)"""
    n = int(n)
    rule = _FEJER.get(n)
    if rule is None:
        rule = _computeFejerRule(n)
        if n > 0:
            _FEJER[n] = tuple(v.copy() for v in rule)
    nodes, weights = rule
    return nodes.copy(), weights.copy()


def _computeFejerRule(n):
'''))
ref("weights-hoist","D",(L,'''        def analytic(diffs):
            # Fast implementation (unstable for large number of points)
            invProd = np.prod(diffs, axis=1)
            invProd **= -1
            return invProd
''','''        analytic = _analyticWeights
'''),(L,'''class LagrangeApproximation(object):
''','''def _analyticWeights(diffs):
    """Fast implementation (unstable for large number of points)"""
    return np.prod(diffs, axis=1)**(-1.0)


class LagrangeApproximation(object):
'''))
ref("lagr-lazy-dup","D",(L,'''            self.points = self.uniquePoints = points
            self._handleDuplicates = self._passThrough
''','''            self.points = self.uniquePoints = points
            self.duplicates = duplicates
            self._nnzIdx = None
'''),(L,'''        out = matrix[:, self._invIdx]
''','''        if self._nnzIdx is None:
            return matrix
        out = matrix[:, self._invIdx]
'''))
ref("interp-helper","D",(L,'''        # Find evaluated positions that coincide with one Lagrange point
        concom = (iDiff == np.inf) | (iDiff == -np.inf)
        i, j = np.where(concom)

        # Replace iDiff by one on those lines to get a simple copy of the value
        iDiff[i, :] = concom[i, :]
''','''        self._copyCoincident(iDiff)
'''),(L,'''    def getIntegrationMatrix(self, intervals''','''    @staticmethod
    def _copyCoincident(iDiff):
        """Lines whose position coincides with one point: simple copy of its value"""
        concom = np.isinf(iDiff)
        rows = concom.any(axis=1)
        iDiff[rows] = concom[rows]

    def getIntegrationMatrix(self, intervals'''))
ref("integ-dot","D",(L,'''        integrand *= omega
        integrand *= (bj - aj) / 2
        Q = integrand.sum(axis=-1).T
''','''        Q = (integrand @ iWeights * ((bj - aj) / 2).ravel()).T
'''))
ref("sparse-nocache","D",(L,'''        if lastClosestPoints is not None and len(closestPoints) == len(lastClosestPoints) and np.array_equal(closestPoints, lastClosestPoints):
            interpolationLine = lastInterpolationLine
        else:
            interpolator = LagrangeApproximation(points = closestPoints)
            interpolationLine = interpolator.getInterpolationMatrix([0])[0]

            lastInterpolationLine = interpolationLine
            lastClosestPoints = closestPoints
''','''        interpolationLine = LagrangeApproximation(points=closestPoints).getInterpolationMatrix(np.zeros(1))[0]
'''))
ref("coll-lazy","D",(CO,'''        # Compute Q (quadrature matrix) and weights
        Q = approx.getIntegrationMatrix([(tLeft, tau) for tau in nodes])
        weights = approx.getIntegrationMatrix([(tLeft, tRight)]).ravel()
        self._Q, self._weights = Q, weights
''','''        # Q (quadrature matrix) and weights are computed when needed
        self._Q, self._weights = None, None
'''),(CO,'''    def Q(self)->np.ndarray: return self._Q
''','''    def Q(self)->np.ndarray:
        if self._Q is None:
            self._Q = self.approx.getIntegrationMatrix([(self.tLeft, tau) for tau in self._nodes])
        return self._Q
'''),(CO,'''    def weights(self)->np.ndarray: return self._weights
''','''    def weights(self)->np.ndarray:
        if self._weights is None:
            self._weights = self.approx.getIntegrationMatrix([(self.tLeft, self.tRight)]).ravel()
        return self._weights
'''))
ref("dahl-generator","D",(QC,'''        for i in range(nSteps):
            b = np.ones(nodes.size)*uNum[i]
            uStages = np.linalg.solve(A, b)
            uNum[i+1] = uNum[i] + lam*dt*weights.dot(uStages)
''','''        def step(u):
            return u + lam*dt*np.dot(weights, np.linalg.solve(A, np.full(nodes.size, u)))

        for i, u in enumerate(uNum[:-1]):
            uNum[i+1] = step(u)
'''))
ref("rk-init-loop","D",(BU,'''            if padding in ["LEFT", "BOTH"]:
                self.c = np.array([0] + self.c.tolist())
                self.b = np.array([0] + self.b.tolist())
                if self.b2 is not None:
                    self.b2 = np.array([0] + self.b2.tolist())

                newA = np.zeros((self.nNodes, self.nNodes))
                newA[1:, 1:] = self.A
                self.A = newA
''','''            if padding in ["LEFT", "BOTH"]:
                self._padLeft()
'''),(BU,'''    @property
    def nodes(self)->np.ndarray: return self.c
''','''    def _padLeft(self):
        """Add a stage at t=0"""
        self.c = np.concatenate([[0.0], self.c])
        for name in ["b", "b2"]:
            if getattr(self, name) is not None:
                setattr(self, name, np.concatenate([[0.0], getattr(self, name)]))
        self.A = np.pad(self.A, ((1, 0), (1, 0)))

    @property
    def nodes(self)->np.ndarray: return self.c
'''))
ref("rk-store-split","D",(BU,'''    assert cls.b.shape[-1] == cls.c.size, \\
        f"b (size {cls.b.shape[-1]}) and c (size {cls.c.size})" + \\
        f" have not the same size in {cls.__name__}"
''','''    nStages = cls.c.size
    if cls.b.shape[-1] != nStages:
        raise AssertionError(f"{cls.__name__} : {cls.b.shape[-1]} weights for {nStages} nodes")
'''))
ref("qd-lock","D",(QD,'''import inspect
import numpy as np
from typing import TypeVar
''','''import inspect
import threading
import numpy as np
from typing import TypeVar

_CACHE_LOCK = threading.RLock()
'''),(QD,'''        try:
            QDelta = self._QDelta[k] if self._K_DEPENDENT else self._QDelta
        except Exception as e:
            QDelta = self.computeQDelta(k)
            if type(e) == AttributeError:
                self._QDelta = {k: QDelta} if self._K_DEPENDENT else QDelta
            elif type(e) == KeyError:
                self._QDelta[k] = QDelta
            else:
                raise Exception("some very weird bug happened ... did you do fishy stuff ?")
        return QDelta.copy() if copy else QDelta
''','''        key = k if self._K_DEPENDENT else None
        with _CACHE_LOCK:
            cache = self.__dict__.setdefault("_QDelta", {})
            if key not in cache:
                cache[key] = self.computeQDelta(k)
            QDelta = cache[key]
        return QDelta.copy() if copy else QDelta
'''))
ref("qd-gencoeffs","D",(QD,'''        try:
            k = list(k)
            out = [np.array([gen(_k, copy=False) for _k in k])]
        except TypeError:
            out = [gen(k)]
        if dTau:
            out += [self.dTau]
        return out if len(out) > 1 else out[0]
''','''        if np.iterable(k):
            coeffs = np.array([gen(_k, copy=False) for _k in k])
        else:
            coeffs = gen(k)
        return [coeffs, self.dTau] if dTau else coeffs
'''))
ref("ts-props","D",(TS,'''class FE(TimeStepping):
    """Approximation based on Forward Euler steps between the nodes"""
    aliases = ["EE"]

    def computeQDelta(self, k=None):
        QDelta, M, deltas = self.zeros, self.nodes.size, self.deltas
        for i in range(1, M):
            QDelta[i:, :M-i] += np.diag(deltas[1:M-i+1])
        return QDelta
''','''class FE(TimeStepping):
    """Approximation based on Forward Euler steps between the nodes"""
    aliases = ["EE"]

    def computeQDelta(self, k=None):
        steps = np.append(self.deltas[1:], 0.0)
        return np.tril(np.broadcast_to(steps, (self.size, self.size)), -1).copy()
'''))
ref("soe-recursive","D",(TS,'''        alpha = [
            LagrangeApproximation(times[i:i+3]).getDerivativeMatrix()[1]
            for i in range(M-1)
            ]
        for m in range(1, M):
            am1, a0, ap1 = alpha[m-1]
''','''        for m in range(1, M):
            stencil = LagrangeApproximation(times[m-1:m+2])
            am1, a0, ap1 = stencil.getDerivativeMatrix(order=1)[1]
'''))
ref("flex-mixed","D",(DI,'''            try:
                self._QDelta_MIN_SR_S
            except AttributeError:
                self._QDelta_MIN_SR_S = super().computeQDelta()
            return self._QDelta_MIN_SR_S
''','''            stiff = getattr(self, "_stiff", None)
            if stiff is None:
                stiff = MIN_SR_S.computeQDelta(self)
                self._stiff = stiff
            return stiff.copy()
'''))
ref("table-lookup","D",(DI,'''        except KeyError:
            raise NotImplementedError(
                f"no {name} MIN coefficients for"
''','''        except LookupError:
            raise NotImplementedError(
                f"{name} has no coefficients for"
'''))
ref("sdc-helper","D",(SD,'''            b = uNum[i] + lam*dt*(Q-QDelta[k]) @ uNodes
            uNodes = np.linalg.solve(P[k], b)
''','''            b = uNum[i] + lam*dt*(Q @ uNodes - QDelta[k] @ uNodes)
            uNodes = np.linalg.solve(P[k], b[:, None]).ravel()
'''))
ref("order-table","D",(SD,'''    order = 0
    if nSweeps > 0:
        # first sweep
        if qDelta in ['TRAPAR', 'TRAP']:
            order += 2
        else:
            order += 1
        # rest of sweeps
        order += nSweeps-1
''','''    first = {"TRAPAR": 2, "TRAP": 2}.get(qDelta, 1)
    order = first + nSweeps - 1 if nSweeps > 0 else 0
'''))
ref("num-order-cov","D",(NU,'''    xMean = x.mean()
    yMean = y.mean()
    sX = ((x-xMean)**2).sum()
    sXY = ((x-xMean)*(y-yMean)).sum()

    beta = sXY/sX
    alpha = yMean - beta*xMean

    yHat = alpha + beta*x
    rmse = ((y-yHat)**2).sum()**0.5
    rmse /= x.size**0.5
''','''    dx, dy = x - np.mean(x), y - np.mean(y)
    beta = np.dot(dx, dy)/np.dot(dx, dx)
    rmse = np.linalg.norm(dy - beta*dx)/np.sqrt(x.size)
'''))
ref("extra-qr","D",(NU,'''    P = T @ np.linalg.solve(X.T @ X, X.T)
    return P''','''    q, r = np.linalg.qr(X)
    return T @ np.linalg.solve(r, q.T)
'''))
ref("store-early","D",(UT,'''    dico.update(stored)
''','''    for alias, storedCls in stored.items():
        dico[alias] = storedCls
'''))
ref("timer-perf","D",(UT,'''from time import time
''','''from time import perf_counter as time
'''))
ref("nodes-split","D",(N,'''        # Force overwrite boundary values if necessary (better precision)
        if self.quadType in ["LOBATTO", "RADAU-RIGHT"]:
            nodes[-1] = 1
        if self.quadType in ["LOBATTO", "RADAU-LEFT"]:
            nodes[0] = -1

        return nodes
''','''        return self._setBoundaries(nodes)

    def _setBoundaries(self, nodes):
        """Force overwrite boundary values if necessary (better precision)"""
        left = self.quadType in ["LOBATTO", "RADAU-LEFT"]
        right = self.quadType in ["LOBATTO", "RADAU-RIGHT"]
        if left: nodes[0] = -1
        if right: nodes[-1] = 1
        return nodes
'''))
ref("lu-crout2","D",(AL,'''            U[i+1:] -= np.outer(U[i+1:, i]/U[i, i], U[i])
''','''            for row in range(i+1, self.size):
                U[row] = U[row] - U[row, i]/U[i, i]*U[i]
'''))
