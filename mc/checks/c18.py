"""C18 Dahlquist solver: every step of every run against the stability function R(z) = det(I - zA + z 1 b^T)/det(I - zA)."""
import itertools, warnings
import numpy as np
from .. import exact as X, usergens
from ..core import *

PROPERTY = "C18"
BOUNDS = {"quick": "all Q-generators (all collocation families n<=6 on 3 intervals, n = 8, 13, 20, 33 on a reduced product, n<=5 on 4 of very different length, all Runge-Kutta x 4 paddings, 126 user-defined generators and 6 derived ones) x 10 coefficients lam x 4 initial values x 4 final times x nSteps 1..4,9 (16..250 and, up to 3 stages, 600..2100 on a reduced product, also u0 from 1e-100 to 1e12 and time scales 1e-9 to 1e9; nearly equal coefficients and final times in sequence) x main/embedded weights; error with and without given solution",
          "thorough": "families n<=10, nSteps 1..12, 40 coefficients"}
ASSUMPTIONS = ["steps with |det(I - zA)| close to zero (poles of R) are excluded"]


def tasks(quick):
    from qmat.qcoeff.butcher import RK_SCHEMES as S
    for nt, qt in X.families():
        yield ("C", nt, qt, quick)
    done = set()
    for name in S:
        if S[name] not in done:
            done.add(S[name])
            yield ("RK", name, None, quick)
    for n in (1, 2, 3, 4, 6):
        yield ("user", n, None, quick)
    yield ("derived", None, None, quick)


def gens(task):
    kind, a, b, quick = task
    if kind == "user":
        for name, cls in usergens.classes().items():
            if name.startswith(f"User_{a}_"):
                yield name, cls(), 1. if "_plain" not in name and "inside" in name else 1.000001
    elif kind == "derived":
        for name, mk in usergens.derived().items():
            yield name, mk(), 1.
    elif kind == "C":
        from qmat.qcoeff.collocation import Collocation
        for n in range(X.nmin(b), (6 if quick else 10) + 1):
            for iv in ((0, 1), (1, 2), (-0.5, 0.25)):
                yield f"{a} {b} n={n} on {iv}", Collocation(n, a, b, tLeft=iv[0], tRight=iv[1]), 1.
        for n in (8, 13, 20, 33):
            if n < 13 or a != "EQUID":
                yield f"{a} {b} n={n} on [0,1]", Collocation(n, a, b), 1.000001        # reduced product
        for n in (1, 2, 3, 5):
            if n >= X.nmin(b):
                for iv in ((0, 1e-9), (-1e-6, 1e-6), (3, 1003), (0, 1e7)):
                    yield f"{a} {b} n={n} on {iv}", Collocation(n, a, b, tLeft=iv[0], tRight=iv[1]), 1. / (iv[1] - iv[0])
    else:
        from qmat import Q_GENERATORS as QG
        for pad in (None, "LEFT", "RIGHT", "BOTH"):
            yield f"{a} padding={pad}", QG[a](padding=pad), 1.


def det(M):
    """determinant in extended precision (Gaussian elimination with pivoting)"""
    M = np.array(M, dtype=np.clongdouble)
    d = np.clongdouble(1)
    for i in range(len(M)):
        p = i + int(np.argmax(np.abs(M[i:, i])))
        if M[p, i] == 0:
            return np.clongdouble(0)
        if p != i:
            M[[i, p]] = M[[p, i]]
            d = -d
        d *= M[i, i]
        M[i + 1:] -= np.outer(M[i + 1:, i] / M[i, i], M[i])
    return d


def run(task, rec):
    warnings.simplefilter("ignore")
    quick = task[3]
    lams = [0, -1, 1j, -0.5 + 2j, 0.3, -100.0, 2j - 1e-3, np.float64(0.7), np.complex128(-3 - 1j), -1e-8]
    if not quick:
        lams += [complex(r, i) for r in (-20, -5, -2, -.1, .2) for i in (0, .5, 3, 8, 30, -4)]
    u0s, tEnds = [1, 0, 2 - 1j, -1e5], [1, 2.5, 0.1, 3]
    nss = (1, 2, 3, 4, 9) if quick else tuple(range(1, 13))

    def runs(scale):
        if scale == 1:
            yield from itertools.product(lams, u0s, tEnds, nss)
        else:
            yield from itertools.product([l * scale for l in lams[:7]], u0s[2:], tEnds[:2], (1, 3))
        yield from itertools.product((-1 * scale, (-0.5 + 2j) * scale), (1e-9, 1e-12j, 1e-100, 1e12), (1, 2.5), (1, 2, 5))
        yield from itertools.product((-1 * scale, (-0.5 + 20j) * scale, (3 - 1j) * scale), (2 - 1j,), (1, 10), (16, 17, 33, 64, 65, 100, 250))
        yield from itertools.product((-1 * scale, 0.7 * scale, (-0.5 + 2j) * scale), (1, 2 - 1j), (-1, -0.3, 0), (1, 3))        # backward in time
        for l, ns in ((1j, 600), ((-0.1 + 1j), 1025), (0.2 - 0.7j, 2100)):
            if scale == 1 and (n <= 3 or not quick):
                yield l, 2 - 1j, 20, ns
        # nearly equal coefficients and final times one after the other
        for l, ns, t, e, d in itertools.product((-1, 0.5 + 2j), (1, 2), (1, 2.5), (0, 3e-7), (0, 5e-7, -1e-9, 3e-5, 0)):
            yield l * scale * (1 + d), 1, t * (1 + e), ns
        if scale == 1:
            for f in (1e-9, 1e-3, 1e3, 1e9):
                yield from itertools.product((-1 * f, (-0.5 + 2j) * f), (2 - 1j,), (1 / f,), (1, 4))
    for lab0, g, scale in gens(task):
        A = np.array(g.Q)
        n = len(A)
        I, one = np.eye(n), np.ones(n)
        ws = [("main", False, np.array(g.weights))]
        try:
            ws.append(("embedded", True, np.array(g.weightsEmbedded)))
        except NotImplementedError:
            rec.step(); rec.trace()
            rec.expect(X.refused(g.solveDahlquist, -1, 1, 1, 1, useEmbeddedWeights=True) and X.refused(g.errorDahlquist, -1, 1, 1, 1, useEmbeddedWeights=True), lab0, "solves with embedded weights the method does not have")
        Rc = {}
        for (lam, u0, tEnd, ns), (wn, emb, b) in itertools.product(runs(scale), ws):
            if np.real(lam) * tEnd > 600:
                continue                        # the exact solution overflows
            z = lam * (tEnd / ns)
            if (z, wn) not in Rc:
                M = I - z * A
                c = np.linalg.cond(M)
                Rc[z, wn] = (None, c) if c > 1e8 else (det(M + z * np.outer(one, b)) / det(M), c)
            R, c = Rc[z, wn]
            if R is None:
                rec.count("poles_skipped")
                continue
            lab = f"{lab0} {wn} lam={lam} u0={u0} tEnd={tEnd} nSteps={ns}"
            ref = complex(u0) * np.array([complex(R ** i) for i in range(ns + 1)])
            amp = np.max(np.abs(ref)) + abs(u0)
            # sensitivity of R: |z| |b|^T |M^-1| 1 against |R|, compounded over the steps
            Z = 1 + abs(z) * np.sum(np.abs(b)) * np.max(np.abs(np.linalg.solve(I - z * A, one)))
            tol = 1e-13 * c * Z * ns * amp * Z + 1e-12 * amp
            u = g.solveDahlquist(lam, u0, tEnd, ns, useEmbeddedWeights=emb)
            rec.step(); rec.trace()
            for i in range(ns + 1):
                rec.state((lab0, wn, z, u0, i))
            rec.expect(np.shape(u) == (ns + 1,) and u[0] == u0 and np.max(np.abs(u - ref)) <= tol, lab, f"solution is not u0 R(z)^i (tolerance {tol:.1e})", got=u, expected=ref)
            ex = u0 * np.exp(lam * (np.arange(ns + 1) * (tEnd / ns)))
            sc = 1e-11 * (np.max(np.abs(ex)) + amp)
            e = g.errorDahlquist(lam, u0, tEnd, ns, useEmbeddedWeights=emb)
            rec.step(); rec.trace()
            rec.expect(abs(e - np.max(np.abs(ref - ex))) <= tol + sc, lab + " error", f"error {e} is not the largest deviation {np.max(np.abs(ref-ex))}")
            if u0 == 1 and tEnd in (1, 2.5):
                for uN in (ex - np.eye(1, ns + 1)[0] * 3j, ex + np.eye(1, ns + 1, ns // 2)[0] * 1e-3, ref * 2):
                    cp = uN.copy()
                    e = g.errorDahlquist(lam, u0, tEnd, ns, uNum=uN, useEmbeddedWeights=emb)
                    rec.step(); rec.trace()
                    rec.expect(abs(e - np.max(np.abs(cp - ex))) <= sc + 1e-11 * np.max(np.abs(cp)) and np.array_equal(cp, uN), lab + " error of a given solution", f"error {e} is not the largest deviation {np.max(np.abs(cp-ex))}")
            # default weights are the main ones
            if not emb and u0 == 1 and tEnd == 1:
                rec.step(); rec.trace()
                rec.expect(np.max(np.abs(g.solveDahlquist(lam, u0, tEnd, ns) - ref)) <= tol, lab + " default", "default weights are not the main weights")
        rec.sample(f"{lab0}: stability function at {len(Rc)} points")
