"""Edits that keep the behaviour (up to rounding): the checks have to stay quiet on each.  R = {id: (group, [(file, old, new)])}."""
N="qmat/nodes.py"; L="qmat/lagrange.py"; QC="qmat/qcoeff/__init__.py"; CO="qmat/qcoeff/collocation.py"
BU="qmat/qcoeff/butcher.py"; QD="qmat/qdelta/__init__.py"; TS="qmat/qdelta/timestepping.py"; AL="qmat/qdelta/algebraic.py"
DI="qmat/qdelta/diag.py"; UT="qmat/utils/__init__.py"; NU="qmat/utils/num.py"; SD="qmat/utils/sdc.py"
R={}
def ref(id,group,*edits): R[id]=(group,list(edits))

# ---- lagrange
ref("fejer-sum","A",(L,'''    N = np.arange(1, n, 2)
    lN = len(N)
    m = n - lN
    K = np.arange(m)
''','''    lN = n // 2
    m = n - lN
    K = np.arange(m)
'''))
ref("fejer-explicit","B",(L,'''    # Compute weights
    # -- Initial variables
''','''    # Compute weights (explicit trigonometric sum)
    ang = np.arange(n - 1, -1, -1) * (np.pi / n) + np.pi / (2 * n)
    js = np.arange(1, n // 2 + 1)
    if js.size:
        weights[:] = 2 / n * (1 - 2 * (np.cos(2 * np.outer(ang, js)) / (4.0 * js**2 - 1)).sum(axis=1))
    else:
        weights[:] = 2 / n
    return nodes, weights
    # -- Initial variables
'''))
ref("weights-loop","B",(L,'''            invProd = np.prod(diffs, axis=1)
            invProd **= -1
            return invProd

        def logScale''','''            invProd = np.ones(diffs.shape[0])
            for row in range(diffs.shape[0]):
                invProd[row] = 1.0 / np.prod(diffs[row])
            return invProd

        def logScale'''))
ref("interp-mask","A",(L,'''        with np.errstate(divide='ignore'):
            iDiff = 1 / (times[:, None] - self.uniquePoints[None, :])

        # Find evaluated positions that coincide with one Lagrange point
        concom = (iDiff == np.inf) | (iDiff == -np.inf)
        i, j = np.where(concom)

        # Replace iDiff by one on those lines to get a simple copy of the value
        iDiff[i, :] = concom[i, :]
''','''        with np.errstate(divide='ignore', over='ignore'):
            iDiff = np.reciprocal(np.subtract.outer(times.astype(float), self.uniquePoints))

        # Find evaluated positions that coincide with one Lagrange point
        concom = np.isinf(iDiff)
        rows = concom.any(axis=1)

        # Replace iDiff by one on those lines to get a simple copy of the value
        iDiff[rows] = concom[rows].astype(float)
'''))
ref("interp-rows","B",(L,'''        P = iDiff * self.weights
        P /= P.sum(axis=-1)[:, None]
''','''        P = np.empty(iDiff.shape)
        for row, line in enumerate(iDiff):
            num = line * self.weights
            P[row] = num / num.sum()
'''))
ref("integ-loop","B",(L,'''        integrand *= omega
        integrand *= (bj - aj) / 2
        Q = integrand.sum(axis=-1).T
''','''        half = ((bj - aj) / 2).ravel()
        Q = np.einsum("nmk,k,m->mn", integrand, iWeights, half)
'''))
ref("integ-leggauss","C",(L,'''            iNodes, iWeights = computeFejerRule(self.n - ((self.n + 1) % 2))
''','''            nFejer = self.nPoints if self.nPoints % 2 else self.nPoints - 1
            iNodes, iWeights = computeFejerRule(nFejer)
'''))
ref("deriv-loop","B",(L,'''        if order == 1:
            return D1
        elif order == 2:
            return D2
        else:
            return D1, D2
''','''        return {1: lambda: D1, 2: lambda: D2, "ALL": lambda: (D1, D2)}[order]()
'''))
ref("deriv-diag","A",(L,'''            D1 = base.copy()
            np.fill_diagonal(D1, -D1.sum(axis=-1))
''','''            D1 = base - np.diag(base.sum(axis=-1))
'''))
ref("dup-left-loop","A",(L,'''        if self.duplicates == "USE_LEFT":
            self._nnzIdx = indices

        if self.duplicates == "USE_RIGHT":
            self._nnzIdx = [
                np.max(np.where(self.points == pts)) for pts in values]
''','''        where = [np.flatnonzero(self.points == pts) for pts in values]
        pick = 0 if self.duplicates == "USE_LEFT" else -1
        self._nnzIdx = np.array([w[pick] for w in where], dtype=int)
'''))
ref("dup-matrix","B",(L,'''        out = matrix[:, self._invIdx]
        out[:, self._zerIdx] = 0
        return out
''','''        out = np.zeros((matrix.shape[0], self.points.size))
        out[:, self._nnzIdx] = matrix
        return out
'''))
ref("call-reshape","A",(L,'''        t = np.asarray(t)
        fValues = np.asarray(fValues)
        values = self.getInterpolationMatrix(t.ravel()).dot(fValues)
        values.shape = t.shape
        return values
''','''        t = np.asarray(t)
        P = self.getInterpolationMatrix(t.reshape(-1))
        return np.matmul(P, np.asarray(fValues)).reshape(t.shape)
'''))
ref("sparse-ties","A",(L,'''            closestPointsIdx = np.sort(np.argsort(np.abs(inPoints - outPoints[i]))[:order])
            closestPoints = inPoints[closestPointsIdx] - outPoints[i]
''','''            dist = np.abs(inPoints - outPoints[i])
            # equally distant points : take the right one
            closestPointsIdx = np.sort(np.lexsort((-np.arange(dist.size), dist))[:order])
            closestPoints = inPoints[closestPointsIdx] - outPoints[i]
'''),(L,'''        if lastClosestPoints is not None and len(closestPoints) == len(lastClosestPoints) and np.array_equal(closestPoints, lastClosestPoints):
            interpolationLine = lastInterpolationLine
        else:
            interpolator''','''        if True:
            interpolator'''))
ref("sparse-coo","B",(L,'''    A = sp.lil_matrix((len(outPoints), len(inPoints)))
''','''    A = np.zeros((len(outPoints), len(inPoints)))
'''),(L,'''    return A.tocsc()''','''    return sp.csc_matrix(A)'''))
ref("log10-abs","A",(L,'''        weights = invProd
        if scaleWeights:
            weights /= np.max(np.abs(weights))
''','''        weights = np.array(invProd)
        if scaleWeights:
            weights = weights / np.linalg.norm(weights, np.inf)
'''))
# ---- nodes
ref("cheby-closed","A",(N,'''        # Quadrature nodes linked to orthogonal polynomials
        alpha, beta''','''        # Closed forms
        if self.quadType == 'GAUSS' and self.nodeType == 'CHEBY-1':
            return -np.cos((2*np.arange(nNodes) + 1) * np.pi / (2*nNodes))
        if self.quadType == 'GAUSS' and self.nodeType == 'CHEBY-2':
            return -np.cos(np.arange(1, nNodes + 1) * np.pi / (nNodes + 1))

        # Quadrature nodes linked to orthogonal polynomials
        alpha, beta'''))
ref("legendre-leggauss","B",(N,'''        # Quadrature nodes linked to orthogonal polynomials
        alpha, beta''','''        if self.quadType == 'GAUSS' and self.nodeType == 'LEGENDRE' and nNodes < 100:
            return np.polynomial.legendre.leggauss(int(nNodes))[0]

        # Quadrature nodes linked to orthogonal polynomials
        alpha, beta'''))
ref("equid-slices","A",(N,'''            if self.quadType == 'GAUSS':
                return np.linspace(-1, 1, num=nNodes + 2)[1:-1]
            elif self.quadType == 'LOBATTO':
                return np.linspace(-1, 1, num=nNodes)
            elif self.quadType == 'RADAU-RIGHT':
                return np.linspace(-1, 1, num=nNodes + 1)[1:]
            elif self.quadType == 'RADAU-LEFT':
                return np.linspace(-1, 1, num=nNodes + 1)[:-1]
''','''            first = int(self.quadType not in ['LOBATTO', 'RADAU-LEFT'])
            last = int(self.quadType not in ['LOBATTO', 'RADAU-RIGHT'])
            grid = np.linspace(-1, 1, num=nNodes + first + last)
            return grid[first:first + nNodes].copy()
'''))
ref("nodes-eigvalsh","B",(N,'''        nodes = eigh_tridiagonal(alpha, np.sqrt(beta[1:]))[0]
        nodes.sort()
''','''        off = np.sqrt(beta[1:])
        nodes = np.sort(np.linalg.eigvalsh(np.diag(alpha) + np.diag(off, 1) + np.diag(off, -1)))
'''))
ref("nodes-noeval","A",(N,'''        for arg, vals in zip(['nodeType', 'quadType'], [NODE_TYPES, QUAD_TYPES]):
            val = eval(arg)
            if val not in vals:
''','''        for arg, val, vals in [('nodeType', nodeType, NODE_TYPES), ('quadType', quadType, QUAD_TYPES)]:
            if val not in vals:
'''))
ref("orthog-copy","B",(N,'''        pi = np.array([np.zeros_like(t) for i in range(3)])
        pi[1:] += 1
        for alpha_j, beta_j in zip(alpha, beta):
            pi[2] *= t - alpha_j
            pi[0] *= beta_j
            pi[2] -= pi[0]
            pi[0] = pi[1]
            pi[1] = pi[2]
        return pi[0], pi[1]
''','''        prev, cur = np.zeros_like(t), np.ones_like(t)
        for alpha_j, beta_j in zip(alpha, beta):
            prev, cur = cur, (t - alpha_j)*cur - beta_j*prev
        return prev, cur
'''))
# ---- qcoeff
ref("S-diff","A",(QC,'''        Q = np.asarray(self.Q)
        M = self.Q.shape[0]
        T = np.eye(M)
        T[1:,:-1][np.diag_indices(M-1)] = -1
        return T @ Q
''','''        Q = np.asarray(self.Q)
        return np.vstack([Q[:1], np.diff(Q, axis=0)])
'''))
ref("T-eye","A",(QC,'''        M = self.Q.shape[0]
        T = np.eye(M)
        T[1:,:-1][np.diag_indices(M-1)] = -1
        return T

    @property
    def S(''','''        M = self.nNodes
        return np.eye(M) - np.eye(M, k=-1)

    @property
    def S('''))
ref("T-cached","B",(QC,'''        M = self.Q.shape[0]
        return np.tri(M)
''','''        return np.tril(np.ones((self.nNodes,)*2))
'''))
ref("gen-reorg","B",(QC,'''        if form == "Z2N":
            mat = self.Q
        elif form == "N2N":
            mat = self.S
        else:
            raise ValueError(f"form must be Z2N or N2N, not {form}")
        out = [np.array(coeffs)''','''        attr = {"Z2N": "Q", "N2N": "S"}.get(form)
        if attr is None:
            raise ValueError(f"form must be Z2N or N2N, not {form}")
        mat = getattr(self, attr)
        out = [np.array(coeffs)'''))
ref("dahl-stability","A",(QC,'''        for i in range(nSteps):
            b = np.ones(nodes.size)*uNum[i]
            uStages = np.linalg.solve(A, b)
            uNum[i+1] = uNum[i] + lam*dt*weights.dot(uStages)
''','''        ones = np.ones(nodes.size)
        for i, u in enumerate(uNum[:-1]):
            uStages = np.linalg.solve(A, u*ones)
            uNum[i+1] = u + lam*dt*np.sum(weights*uStages)
'''))
ref("dahl-inv","B",(QC,'''        for i in range(nSteps):
            b = np.ones(nodes.size)*uNum[i]
            uStages = np.linalg.solve(A, b)
            uNum[i+1] = uNum[i] + lam*dt*weights.dot(uStages)
''','''        stages = np.linalg.solve(A, np.ones(nodes.size))
        for i in range(nSteps):
            uNum[i+1] = uNum[i] + lam*dt*weights.dot(stages*uNum[i])
'''))
ref("err-max","A",(QC,'''        return np.linalg.norm(uNum-uExact, ord=np.inf)
''','''        return np.max(np.abs(uNum-uExact))
'''))
ref("genq-get","A",(QC,'''    try:
        Generator = Q_GENERATORS[qType]
    except KeyError:
        raise ValueError(f"{qType=!r} is not available")
    gen = Generator(**params)
    return gen.genCoeffs(form, hCoeffs, embedded)
''','''    Generator = Q_GENERATORS.get(qType)
    if Generator is None:
        raise ValueError(f"no {qType!r} generator")
    return Generator(**params).genCoeffs(form=form, hCoeffs=hCoeffs, embedded=embedded)
'''))
# ---- collocation
ref("coll-S-cache","A",(CO,'''        nodes = self._nodes
        pInts = [(self.tLeft if i == 0 else nodes[i-1], nodes[i])
                 for i in range(nodes.shape[0])]
        return self.approx.getIntegrationMatrix(pInts)
''','''        if not hasattr(self, "_S"):
            left = np.concatenate([[self.tLeft], self._nodes[:-1]])
            self._S = self.approx.getIntegrationMatrix(np.stack([left, self._nodes], axis=1))
        return self._S
'''))
ref("coll-S-super","B",(CO,'''        nodes = self._nodes
        pInts = [(self.tLeft if i == 0 else nodes[i-1], nodes[i])
                 for i in range(nodes.shape[0])]
        return self.approx.getIntegrationMatrix(pInts)
''','''        return super().S
'''))
ref("coll-order","A",(CO,'''        M, nodeType, quadType = self.nodes.size, self.nodeType, self.quadType
        if nodeType != "LEGENDRE":
            if quadType in ["GAUSS", "LOBATTO"] \\
                and nodeType in ["EQUID", "CHEBY-1", "CHEBY-2"]:
                return M + (M % 2)  # why ? the node symmetry I guess ...
            return M
        else:
            quadType = self.quadType
            if quadType == "GAUSS":
                return 2*M
            elif quadType.startswith("RADAU"):
                return 2*M-1
            elif quadType == "LOBATTO":
                return 2*M-2
''','''        M = self.nNodes
        if self.nodeType == "LEGENDRE":
            fixed = {"GAUSS": 0, "RADAU-LEFT": 1, "RADAU-RIGHT": 1, "LOBATTO": 2}
            return 2*M - fixed[self.quadType]
        symmetric = self.quadType in ("GAUSS", "LOBATTO") and self.nodeType not in ("CHEBY-3", "CHEBY-4")
        return M + 1 if symmetric and M % 2 else M
'''))
ref("coll-one-integ","B",(CO,'''        Q = approx.getIntegrationMatrix([(tLeft, tau) for tau in nodes])
        weights = approx.getIntegrationMatrix([(tLeft, tRight)]).ravel()
''','''        both = approx.getIntegrationMatrix([(tLeft, tau) for tau in nodes] + [(tLeft, tRight)])
        Q, weights = both[:-1].copy(), both[-1].copy()
'''))
ref("coll-scale","C",(CO,'''        nodes += 1
        nodes /= 2
        # Scale to [tLeft, tRight]
        nodes *= (tRight-tLeft)
        nodes += tLeft
''','''        nodes = tLeft + (tRight-tLeft)*((nodes + 1)/2)
'''))
# ---- butcher
ref("rk-pad","A",(BU,'''                newA = np.zeros((self.nNodes, self.nNodes))
                newA[1:, 1:] = self.A
                self.A = newA
''','''                self.A = np.pad(self.A, ((1, 0), (1, 0)))
'''),(BU,'''                self.c = np.array(self.c.tolist() + [1])
                self.b = np.array(self.b.tolist() + [0])
                if self.b2 is not None:
                    self.b2 = np.array(self.b2.tolist() + [0])

                newA = np.zeros((self.nNodes, self.nNodes))
                newA[:-1, :-1] = self.A
                newA[-1] = self.b
                self.A = newA
''','''                self.c = np.append(self.c, 1.0)
                self.b = np.append(self.b, 0.0)
                if self.b2 is not None:
                    self.b2 = np.append(self.b2, 0.0)
                self.A = np.vstack([np.pad(self.A, ((0, 0), (0, 1))), self.b])
'''))
ref("rk-copy","B",(BU,'''        for name in ["A", "b", "c", "b2"]:
            coeffs = getattr(self, name)
            if coeffs is not None:
                setattr(self, name, np.array(coeffs, dtype=float))
''','''        self.A, self.b, self.c = (np.array(x, dtype=float) for x in (self.A, self.b, self.c))
        if self.b2 is not None:
            self.b2 = np.array(self.b2, dtype=float)
'''))
ref("rk-h","B",(BU,'''        try:
            return super().hCoeffs
        except AssertionError:
            hCoeffs = np.zeros_like(self.c)
            hCoeffs[-1] = 1
            return hCoeffs
''','''        return super().hCoeffs
'''))
# ---- qdelta base
ref("qd-get","A",(QD,'''        try:
            QDelta = self._QDelta[k] if self._K_DEPENDENT else self._QDelta
        except Exception as e:
            QDelta = self.computeQDelta(k)
            if type(e) == AttributeError:
                self._QDelta = {k: QDelta} if self._K_DEPENDENT else QDelta
            elif type(e) == KeyError:
                self._QDelta[k] = QDelta
            else:
                raise Exception("some very weird bug happened ... did you do fishy stuff ?")
        return QDelta.copy() if copy else QDelta
''','''        cache = self.__dict__.setdefault("_QDelta", {})
        key = k if self._K_DEPENDENT else None
        if key not in cache:
            cache[key] = self.computeQDelta(k)
        QDelta = cache[key]
        return np.array(QDelta) if copy else QDelta
'''))
ref("qd-nocache","B",(QD,'''        try:
            QDelta = self._QDelta[k] if self._K_DEPENDENT else self._QDelta
        except Exception as e:
            QDelta = self.computeQDelta(k)
            if type(e) == AttributeError:
                self._QDelta = {k: QDelta} if self._K_DEPENDENT else QDelta
            elif type(e) == KeyError:
                self._QDelta[k] = QDelta
            else:
                raise Exception("some very weird bug happened ... did you do fishy stuff ?")
        return QDelta.copy() if copy else QDelta
''','''        return np.array(self.computeQDelta(k))
'''))
ref("sd-diff","A",(QD,'''        QDelta = self.getQDelta(k)
        M = QDelta.shape[0]
        T = np.eye(M)
        T[1:,:-1][np.diag_indices(M-1)] = -1
        return T @ QDelta
''','''        SDelta = self.getQDelta(k)
        SDelta[1:] -= SDelta[:-1].copy()
        return SDelta
'''))
ref("qd-gen","B",(QD,'''            gen = lambda k, copy=True: self.getQDelta(k, copy)
        elif form == "N2N":
            gen = lambda k, copy=None: self.getSDelta(k)
        else:
            raise ValueError(f"form must be Z2N or N2N, not {form}")
        try:
            k = list(k)
            out = [np.array([gen(_k, copy=False) for _k in k])]
        except TypeError:
            out = [gen(k)]
''','''            gen = self.getQDelta
        elif form == "N2N":
            gen = self.getSDelta
        else:
            raise ValueError(f"form must be Z2N or N2N, not {form}")
        if np.iterable(k):
            out = [np.stack([gen(_k) for _k in k])]
        else:
            out = [gen(k)]
'''))
ref("genqd-chain","A",(QD,'''            gens = [Gen(**params) for Gen in Generators]
            out = [np.array(
                [gen.genCoeffs(k+1, form) for k, gen in enumerate(gens)]
                )]
            if dTau:
                out += [gens[0].dTau]
''','''            mats = []
            for k, Gen in enumerate(Generators, start=1):
                gen = Gen(**params)
                mats.append(gen.genCoeffs(k=k, form=form))
                if k == 1: first = gen
            out = [np.stack(mats)]
            if dTau:
                out.append(first.dTau)
'''))
# ---- timestepping
ref("ts-tril","A",(TS,'''        QDelta, M, deltas = self.zeros, self.nodes.size, self.deltas
        for i in range(M):
            QDelta[i:, :M-i] += np.diag(deltas[:M-i])
        return QDelta


@register
class FE''','''        return np.tril(np.tile(self.deltas, (self.size, 1)))


@register
class FE'''))
ref("trap-mean","B",(TS,'''        QDelta, M, deltas = self.zeros, self.nodes.size, self.deltas
        for i in range(0, M):
            QDelta[i:, :M-i] += np.diag(deltas[:M-i])
        for i in range(1, M):
            QDelta[i:, :M-i] += np.diag(deltas[1:M-i+1])
        QDelta /= 2.0
        return QDelta
''','''        implicit = np.tril(np.ones((self.size,)*2)) * self.deltas
        explicit = np.zeros_like(implicit)
        explicit[:, :-1] = implicit[:, 1:]
        return 0.5*(implicit + explicit)
'''))
ref("ts-deltas","A",(TS,'''        deltas = nodes.copy()
        deltas[0] = nodes[0] - tLeft
        deltas[1:] = np.ediff1d(nodes)
''','''        deltas = np.diff(nodes, prepend=float(tLeft))
'''))
ref("dtau-full","B",(TS,'''        return self.nodes*0 + self.deltas[0]/2.0
''','''        return np.full(self.size, self.deltas[0]/2.0)
'''))
# ---- algebraic
ref("lu-crout","A",(AL,'''        U = self.Q.T.copy()
        for i in range(self.size-1):
            if not np.any(U[i+1:, i]): continue
            if U[i, i] == 0:  # no LU factorization without pivoting
                _, _, U = spl.lu(self.Q.T)
                break
            U[i+1:] -= np.outer(U[i+1:, i]/U[i, i], U[i])
        return np.tril(U.T)
''','''        U, M = np.array(self.Q.T), self.size
        for i in range(M):
            for j in range(i+1, M):
                if U[j, i] == 0: continue
                if U[i, i] == 0:  # no LU factorization without pivoting
                    U = spl.lu(self.Q.T)[2]
                    return np.tril(U.T)
                U[j] = U[j] - U[j, i]/U[i, i]*U[i]
        return np.triu(U).T
'''))
ref("lu2-add","A",(AL,'''        return super().computeQDelta()*2
''','''        base = super().computeQDelta(k)
        return base + base
'''))
ref("qpar","B",(AL,'''        return np.diag(np.diag(self.Q))
''','''        return self.Q*np.eye(self.size)
'''))
ref("exact-alias","B",(AL,'''        return self.Q.copy()  # TODO: do we really want a copy here ... ?
''','''        return np.array(self.Q, dtype=float)
'''))
# ---- diag
ref("flex-lazy","A",(DI,'''            try:
                self._QDelta_MIN_SR_S
            except AttributeError:
                self._QDelta_MIN_SR_S = super().computeQDelta()
            return self._QDelta_MIN_SR_S
''','''            if getattr(self, "_stiff", None) is None:
                self._stiff = super().computeQDelta()
            return self._stiff.copy()
'''))
ref("srs-root","B",(DI,'''                kMats = [(1 - z) * np.eye(nCoeffs) + z * np.diag(1 / coeffs) @ QM for z in nodesM]
                vals = [np.linalg.det(K) - 1 for K in kMats]
                return np.array(vals)
''','''                base = QM/coeffs[:, None]
                eye = np.eye(nCoeffs)
                return np.linalg.det(np.array([eye + z*(base - eye) for z in nodesM])) - 1
'''))
ref("dnodes-diag","A",(DI,'''        return np.diag(self.nodes)/self.divider
''','''        return np.diag(self.nodes/self.divider)
'''))
ref("srns-diag","B",(DI,'''        return np.diag(self.nodes)/self.size
''','''        return np.eye(self.size)*(self.nodes/self.size)
'''))
ref("jumper","A",(DI,'''        k = check(k)
        divider = 1 if k == 1 else 2*(k-1)
        return np.diag(self.nodes)/divider
''','''        k = check(k)
        return np.diag(self.nodes/max(1, 2*(k-1)))
'''))
ref("table-get","A",(DI,'''            coeffs = np.asarray(coeffs, dtype=float)
            assert coeffs.ndim == 1
            assert coeffs.size == self.size
''','''            coeffs = np.array(coeffs, dtype=float)
            assert coeffs.shape == (self.size,)
'''))
# ---- utils
ref("ldu-outer","A",(NU,'''    # Decompose A into L, D, U
    for i in range(n):
''','''    # Decompose A into L, D, U
    R = np.array(A, dtype=complex if np.iscomplexobj(A) else float)
    if n > 0 and not np.iscomplexobj(A):
        for i in range(n):
            D[i, i] = R[i, i]
            if i + 1 < n:
                L[i+1:, i] = R[i+1:, i]/D[i, i]
                U[i, i+1:] = R[i, i+1:]/D[i, i]
                R[i+1:, i+1:] -= D[i, i]*np.outer(L[i+1:, i], U[i, i+1:])
        return L, D, U
    for i in range(n):
'''))
ref("order-polyfit","A",(NU,'''    xMean = x.mean()
    yMean = y.mean()
    sX = ((x-xMean)**2).sum()
    sXY = ((x-xMean)*(y-yMean)).sum()

    beta = sXY/sX
    alpha = yMean - beta*xMean
''','''    xC, yC = x - np.mean(x), y - np.mean(y)
    beta = np.dot(xC, yC)/np.dot(xC, xC)
    alpha = np.mean(y) - beta*np.mean(x)
'''))
ref("extra-lstsq","B",(NU,'''    P = T @ np.linalg.solve(X.T @ X, X.T)
''','''    orth, R = np.linalg.qr(X)
    P = T @ np.linalg.solve(R, orth.T)
'''))
ref("sdc-inc","A",(SD,'''            b = uNum[i] + lam*dt*(Q-QDelta[k]) @ uNodes
            uNodes = np.linalg.solve(P[k], b)
''','''            defect = uNum[i] + lam*dt*(Q @ uNodes) - uNodes
            uNodes = uNodes + np.linalg.solve(P[k], defect)
'''))
ref("sdc-vec","B",(SD,'''            b = uNum[i] + lam*dt*(Q-QDelta[k]) @ uNodes
            uNodes = np.linalg.solve(P[k], b)
''','''            rhs = np.full(nNodes, uNum[i]) + lam*dt*(Q @ uNodes - QDelta[k] @ uNodes)
            uNodes = np.linalg.solve(P[k], rhs)
'''))
ref("getclasses","A",(UT,'''    classes = {}
    if module is None:
        check = lambda cls: True
    else:
        check = lambda cls: cls.__module__.endswith("."+module)
    for key, cls in dico.items():
        if cls not in classes.values() and check(cls):
            classes[key] = cls
    return classes
''','''    classes, seen = {}, set()
    for key, cls in dico.items():
        if cls in seen or (module is not None and not cls.__module__.endswith("."+module)):
            continue
        seen.add(cls)
        classes[key] = cls
    return classes
'''))
ref("store-loop","B",(UT,'''    stored = {}  # check all names before modifying the dictionary
    for alias in [cls.__name__] + (aliases or []):
        assert alias not in dico, f"{alias} alias already registered in {dico}"
        storeAlias(cls, stored, alias)
    dico.update(stored)
''','''    names = [cls.__name__, *(aliases or [])]
    for pos, alias in enumerate(names):
        assert alias not in dico and alias not in names[:pos], f"{alias} already used"
    for alias in names:
        dico[alias] = cls
'''))
ref("useqgen","A",(UT,'''        params = {name: value for name, value in zip(pNames, args)}
        qGen = kwargs.pop("qGen", None)
        params.update(kwargs)

        if qGen is not None:
            qGenParams = self.extractParams(qGen)
            qGenParams.update(params)
            params = qGenParams

        __init__(self, **params)
''','''        given = dict(zip(pNames, args))
        qGen = kwargs.pop("qGen", None)
        given.update(kwargs)
        base = {} if qGen is None else self.extractParams(qGen)
        __init__(self, **{**base, **given})
'''))
