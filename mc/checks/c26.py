"""C26 spectral deferred correction end to end: every collocation method x QDelta approximation x sweep history x step update, run by the
library's solver with the library's coefficients, against the closed form of the error propagation to the collocation solution."""
import itertools, warnings
import numpy as np
from .. import exact as X
from ..core import *

PROPERTY = "C26"
BOUNDS = {"quick": "24 families x n<=4 (a reduced product for n = 6, 9) x every QDelta approximation and 12 lists of approximations x 3 to 5 coefficients x 0 to 13 sweeps and the number of sweeps to convergence (at most 80) x 2 step updates x 1 and 3 steps x 2 intervals",
          "thorough": "n<=6, 11 coefficients, 3 intervals"}
ASSUMPTIONS = ["the collocation solution is judged by C02 and C18, single approximations by C11, C12 and C13"]
KMAX, KS = 80, (0, 1, 2, 3, 4, 5, 8, 13)
LISTS = [["BE", "LU"], ["LU", "BE"], ["FE", "MIN-SR-NS", "LU"], ["TRAP", "BE", "QPar"], ["PIC", "LU"], ["MIN-SR-FLEX", "LU"], ["BEPAR", "MIN-SR-FLEX", "GS"], ["MIN-SR-S", "MIN-SR-NS", "PIC", "EXACT"], ["LU2", "LU"], ["MIN-SR-FLEX", "BE", "MIN-SR-FLEX"], ["Jumper", "LU"], ["GS", "FlexJumper"]]


def tasks(quick):
    for nt, qt in X.families():
        for n in range(X.nmin(qt), (4 if quick else 6) + 1):
            yield (nt, qt, n, quick)
        for n in (6, 9):
            if n > (4 if quick else 6):
                yield (nt, qt, n, quick)


def run(task, rec):
    from qmat import genQCoeffs, genQDeltaCoeffs, QDELTA_GENERATORS as DG
    from qmat.qcoeff.collocation import Collocation
    from qmat.utils.sdc import solveDahlquistSDC, errorDahlquistSDC
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    nt, qt, n, quick = task
    large = n > (4 if quick else 6)
    names, done = [], set()
    for name, cls in DG.items():
        if cls not in done and (cls.__name__ != "MIN" or n <= 2):
            done.add(cls)
            names.append(name)
    lams = [-1, 1j, -0.3 + 0.5j, -4, 0][:5 if n <= 3 or not quick else 3]
    if not quick:
        lams += [-10, 3j, -2 + 2j, -0.01, -30, 0.1j]
    if large:
        lams = lams[1:3]
    for iv in ((0, 1), (1, 3))[:1 if large else 2] if quick else ((0, 1), (1, 3), (-0.5, 0)):
        c = Collocation(n, nt, qt, tLeft=iv[0], tRight=iv[1])
        nodes, weights, Q = genQCoeffs("Collocation", nNodes=n, nodeType=nt, quadType=qt, tLeft=iv[0], tRight=iv[1])
        I, one = np.eye(n), np.ones(n)
        for what in (names + LISTS if iv == (0, 1) or not quick else names[::3] + LISTS[::4]):
            try:
                one_ = genQDeltaCoeffs(what, qGen=c) if isinstance(what, str) else genQDeltaCoeffs(what, nSweeps=len(what), qGen=c)
            except (NotImplementedError, ValueError):
                continue
            if not np.all(np.isfinite(one_)):
                continue                # no LDU factorization
            D, given = genQDeltaCoeffs(what, nSweeps=KMAX, qGen=c), {}
            kdep = isinstance(what, list) or DG[what](qGen=c).isKDependent()
            for lam, ns in itertools.product(lams, (1, 3)):
                if large and ns == 3:
                    continue
                dt = 0.5 / ns
                z = lam * dt
                star = np.linalg.solve(I - z * Q, one)          # collocation solution for u0 = 1
                R = 1 + z * weights @ star
                conv = None
                E, errs, worst = I.astype(complex), [one - star], 1.
                for k in range(KMAX):
                    P = I - z * D[k]
                    worst = max(worst, np.linalg.cond(P))
                    if not worst < 1e8:
                        break
                    E = np.linalg.solve(P, z * (Q - D[k])) @ E
                    errs.append(E @ (one - star))
                    worst = max(worst, np.linalg.norm(E, 2))
                    if np.linalg.norm(E, 2) < 1e-15:
                        conv = k + 1
                        break
                if not np.isfinite(worst) or worst > 1e8:
                    rec.count("diverging_skipped")
                    worst = None
                ks = [k for k in KS if k < len(errs)] + ([conv] if conv else [])
                if what == "EXACT" or isinstance(what, list) and what[-1] == "EXACT":
                    rec.expect(conv is not None and conv <= (1 if isinstance(what, str) else len(what)), f"{nt} {qt} n={n} {iv} {what} z={z}", f"the exact approximation does not solve the collocation problem at once")
                for k, (upd, w) in itertools.product(sorted(set(ks)), (("LASTNODE", None), ("QUADRATURE", weights))):
                    if worst is None:
                        break
                    key = f"{nt} {qt} n={n} {iv} {what} lam={lam} nSteps={ns} nSweeps={k} {upd}"
                    rec.step(); rec.trace(); rec.state(key)
                    uN = star + errs[k]
                    step = uN[-1] if w is None else 1 + z * weights @ uN
                    ref = (2 - 1j) * step ** np.arange(ns + 1)
                    if k not in given:
                        if k == 0:
                            given[k] = np.zeros((0, n, n)) if kdep else D[0]
                        elif isinstance(what, list):
                            given[k] = genQDeltaCoeffs(what, nSweeps=k, qGen=c) if k >= len(what) else genQDeltaCoeffs(what[:k], qGen=c)
                        else:
                            given[k] = genQDeltaCoeffs(what, nSweeps=k, qGen=c) if k % 2 or kdep else one_
                    QD = given[k].copy()
                    u = solveDahlquistSDC(lam, 2 - 1j, 0.5, ns, k, Q, QD, w)
                    tol = 1e-13 * worst * (k + 1) * ns * max(1, np.max(np.abs(ref))) * (1 + abs(z) * np.linalg.norm(Q))
                    rec.expect(np.shape(u) == (ns + 1,) and np.max(np.abs(u - ref)) <= tol, key, f"not the error propagation of SDC to the collocation solution (tolerance {tol:.1e})", got=u, expected=ref)
                    if conv and k >= conv and (w is not None or c.rightIsNode):
                        coll = c.solveDahlquist(lam, 2 - 1j, 0.5, ns)
                        rec.expect(np.max(np.abs(u - coll)) <= tol, key, "converged sweeps do not give the collocation solution", got=u, expected=coll)
                        if ns == 1 or k == conv:
                            v, mon = solveDahlquistSDC(lam, 2 - 1j, 0.5, ns, k, Q, QD, w, monitors=["residuals"])
                            rec.expect(np.max(np.abs(mon["residuals"][-1])) <= tol and np.max(np.abs(v - u)) <= tol, key, "residuals do not vanish")
    rec.sample(f"{nt} {qt} n={n}: all sweeps propagate the error to the collocation solution")
