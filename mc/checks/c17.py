"""C17 SDC solver: the iterates of the real solver (seen through its monitors and through its results for every smaller number of sweeps)
are compared, state by state, with those of a reference machine performing the documented iteration."""
import inspect, itertools, warnings
import numpy as np
from .. import exact as X
from ..core import *

PROPERTY = "C17"
BOUNDS = {"quick": "16 quadrature matrices (5 families, n=1..5, 3 intervals, Runge-Kutta; 6 more with 6 to 20 nodes on a reduced product) x 6 constant QDelta and 4 sweep-dependent lists x lam in 7 values x u0 in 4 values (and tiny / huge ones) x tEnd in 2 x nSteps 1..3 x nSweeps 0..3 x step update x 6 monitor choices, plus long runs (nSweeps 4..9, nSteps 5, 12, 40, tEnd from 1e-9 to 1e6) on a reduced product; other memory layouts, integer matrices and lists; refusals",
          "thorough": "36 quadrature matrices (n up to 8), nSteps 1..5, nSweeps 0..6"}
ASSUMPTIONS = ["Q and QDelta matrices come from the library, they are judged by other properties", "tolerance 1e-9 relative to the largest value met, times the condition of the sweep's system"]
LAMS = [0, -1.0, 1j, -0.5 + 2j, -50, 0.3, np.float64(-2)]
U0S = [1, 0, 2 - 1j, -3.0]
TENDS = [1, 10.0]
MONS = [None, [], ["residuals"], ["errors"], ["residuals", "errors"], ("errors", "residuals")]


def qlist(quick):
    out = [("C", n, nt, qt, 0, 1) for n, nt, qt in ((1, "LEGENDRE", "RADAU-RIGHT"), (1, "LEGENDRE", "GAUSS"), (2, "LEGENDRE", "LOBATTO"), (2, "CHEBY-1", "GAUSS"), (3, "LEGENDRE", "RADAU-RIGHT"),
                                                    (3, "EQUID", "LOBATTO"), (3, "CHEBY-3", "RADAU-LEFT"), (4, "LEGENDRE", "GAUSS"), (4, "CHEBY-2", "RADAU-RIGHT"), (5, "EQUID", "GAUSS"), (5, "LEGENDRE", "LOBATTO"))]
    out += [("C", 3, "LEGENDRE", "RADAU-RIGHT", 1, 3), ("C", 2, "EQUID", "RADAU-LEFT", -0.5, 0), ("RK", "RK4"), ("RK", "ESDIRK53"), ("RK", "BE")]
    out += [("L", n, nt, qt, 0, 1) for n, nt, qt in ((6, "LEGENDRE", "RADAU-RIGHT"), (7, "EQUID", "LOBATTO"), (8, "CHEBY-1", "GAUSS"), (10, "CHEBY-4", "RADAU-LEFT"), (13, "LEGENDRE", "LOBATTO"), (20, "CHEBY-2", "RADAU-RIGHT"))]
    if not quick:
        out += [("C", n, nt, qt, 0, 1) for n in (3, 6, 7, 8) for nt in ("LEGENDRE", "EQUID", "CHEBY-4") for qt in ("RADAU-RIGHT", "LOBATTO", "GAUSS", "RADAU-LEFT")][:17]
        out += [("RK", "SDIRK54"), ("RK", "CASHKARP"), ("RK", "GAUSS-LG")]
    return out


def makeq(spec):
    from qmat import Q_GENERATORS as QG
    if spec[0] in "CL":
        from qmat.qcoeff.collocation import Collocation
        return Collocation(*spec[1:4], tLeft=spec[4], tRight=spec[5])
    return QG[spec[1]]() if spec[1] in QG else None


CONST = ["BE", "FE", "TRAP", "LU", "PIC", "EXACT"]
VARS = [["MIN-SR-FLEX"], ["BE", "FE", "LU"], ["PIC", "EXACT"], ["MIN-SR-NS", "TRAPAR", "MIN-SR-FLEX"]]


def tasks(quick):
    for s in qlist(quick):
        for qd in CONST + [tuple(v) for v in VARS]:
            yield (s, qd, quick)


def reference(lam, u0, dt, nSteps, Q, D, weights):
    """Documented iteration in correction form: u <- u + (I - z D_k)^-1 (u_n + z Q u - u). Yields all states."""
    Q = np.asarray(Q, dtype=complex)
    n = len(Q)
    z = complex(lam) * float(dt)
    steps, hist, amp = [complex(u0)], [], float(abs(u0))
    inv, grow = [], []
    for d in D:
        P = np.eye(n) - z * d
        inv.append(np.linalg.inv(P))
        grow.append(max(1, np.linalg.norm(P, 2) * np.linalg.norm(inv[-1], 2) / 1e3))
    for i in range(nSteps):
        u = np.full(n, steps[-1], dtype=complex)
        h = []
        for k in range(len(D) + 1):
            r = steps[-1] + z * (Q @ u) - u
            h.append((u, r))
            amp = max(amp, np.max(np.abs(u)), np.max(np.abs(r)), abs(z) * np.max(np.abs(Q) @ np.abs(u)))
            if k < len(D):
                amp *= grow[k]
                u = u + inv[k] @ r
        hist.append(h)
        steps.append(u[-1] if weights is None else steps[-1] + z * np.dot(weights, u))
        amp = max(amp, abs(steps[-1]))
    return np.array(steps), hist, amp


def layouts(a):
    out = [("plain", a), ("read-only", X.readonly(a))]
    big = np.full([2 * k for k in a.shape], np.pi)
    sl = tuple([slice(None, None, 2)] * a.ndim)
    big[sl] = a
    out += [("strided", big[sl])]
    if a.ndim > 1:
        out += [("fortran", np.asfortranarray(a))]
    if np.all(a == np.round(a)):
        out += [("integers", a.astype(int))]
    return out


def snapshot(*xs):
    return [None if x is None else (np.array(x, copy=True) if isinstance(x, np.ndarray) else x) for x in xs]


def run(task, rec):
    warnings.simplefilter("ignore")
    from qmat import genQDeltaCoeffs
    from qmat.utils.sdc import solveDahlquistSDC, errorDahlquistSDC
    spec, qd, quick = task
    gen = makeq(spec)
    if gen is None:
        return
    Q, W = np.array(gen.Q), np.array(gen.weights)
    n = len(Q)
    maxK, maxN = (3, 3) if quick else (6, 5)
    nodes = Q.sum(axis=1)
    lab0 = f"Q={spec[1:]} QDelta={qd}"
    for K in range(10):
        deep = K > maxK or spec[0] == "L"           # reduced product
        if isinstance(qd, str):
            Dk = genQDeltaCoeffs(qd, qGen=gen)
            D = np.repeat(Dk[None], K, axis=0)
            arg = Dk
        elif K == 0:
            arg = D = np.zeros((0, n, n))
        else:
            if len(qd) > K:
                continue
            try:
                arg = D = np.array(genQDeltaCoeffs(list(qd), nSweeps=K, qGen=gen))
            except Exception:
                return                      # approximation not available for these nodes: judged elsewhere
        if not np.all(np.isfinite(D)):
            return
        if deep:
            runs = itertools.product((-1.0, -0.5 + 2j), (2 - 1j,), (1,), (1, 2))
        else:
            runs = list(itertools.product(LAMS, U0S, TENDS, range(1, maxN + 1)))
            runs += list(itertools.product((-1.0, -0.5 + 2j), (1e-9, -1e-12j, 1e-100, 1e9), (1,), (1, 3)))
            if K == 2:
                runs += list(itertools.product((-1.0, -0.1 + 2j), (2 - 1j,), (3,), (5, 12, 40)))
                runs += [(-1.0, 1e-9, 1, 3), (-1e9, 1, 2e-9, 2), (1j * 1e-6, 1, 1e6, 2), (-1., 1j, 1e-9, 4), (-1., 1e12, 1, 2), (-0.5, 3, 0, 2)]
                runs += list(itertools.product((-1.0, 0.7, -0.5 + 2j), (1, 2 - 1j), (-1, -0.3), (1, 3)))      # backward in time
        for lam, u0, tEnd, nSteps in runs:
            short = deep or nSteps > maxN
            dt = tEnd / nSteps
            if any(np.linalg.cond(np.eye(n) - lam * dt * d) > 1e6 for d in D):
                continue
            times = np.arange(nSteps + 1) * dt
            ex = u0 * np.exp(lam * times)
            for w in (None, W):
                steps, hist, amp = reference(lam, u0, dt, nSteps, Q, D, w)
                tol = 1e-9 * amp
                lab = f"{lab0} lam={lam} u0={u0} tEnd={tEnd} nSteps={nSteps} nSweeps={K} {'quadrature' if w is not None else 'last node'}"
                for mon in (MONS[:1] + MONS[4:5] if short else MONS):
                    args = (lam, u0, tEnd, nSteps, K, Q, arg)
                    before = snapshot(Q, arg, w)
                    m0 = None if mon is None else type(mon)(mon)
                    out = solveDahlquistSDC(*args, weights=w, monitors=mon)
                    rec.step(); rec.trace()
                    if mon:
                        ok = isinstance(out, tuple) and len(out) == 2 and sorted(out[1]) == sorted(m0)
                        if not rec.expect(ok, lab + f" monitors={m0}", "does not return the solution and the requested monitors"):
                            continue
                        u, ms = out
                    else:
                        u, ms = out, {}
                        if not rec.expect(isinstance(u, np.ndarray), lab + f" monitors={m0}", "does not return the solution only"):
                            continue
                    rec.expect(np.shape(u) == (nSteps + 1,) and np.max(np.abs(u - steps)) <= tol, lab + f" monitors={m0}", "solution is not that of the documented iteration", got=u, expected=steps)
                    for key, arr in ms.items():
                        e = np.empty((K + 1, nSteps, n), dtype=complex)
                        for i, h in enumerate(hist):
                            for k, (uk, r) in enumerate(h):
                                e[k, i] = r if key == "residuals" else uk - u0 * np.exp(lam * (times[i] + dt * nodes))
                                rec.state((lab0, lam, u0, tEnd, nSteps, K, w is None, i, k))
                        t = tol if key == "residuals" else tol + 1e-9 * np.max(np.abs(ex)) + 1e-9 * np.max(np.abs(u0 * np.exp(lam * (times[:, None] + dt * nodes[None]))))
                        rec.expect(np.shape(arr) == e.shape and np.max(np.abs(arr - e)) <= t, lab + f" monitors={m0} {key}", f"recorded {key} are not those of the iterates", got=arr, expected=e)
                    rec.expect(all(np.array_equal(a, b) for a, b in zip(before, (Q, arg, w)) if b is not None) and m0 == mon, lab + f" monitors={m0} arguments", "arguments were modified")
                dev = np.max(np.abs(steps - ex))
                got = errorDahlquistSDC(lam, u0, tEnd, nSteps, K, Q, arg, weights=w)
                rec.step(); rec.trace()
                rec.expect(abs(got - dev) <= tol + 1e-9 * np.max(np.abs(ex)), lab + " error", f"error {got} is not the largest deviation {dev}")
                if w is None and u0 == 1:
                    for uN in (steps + np.arange(nSteps + 1) * (1 + 2j), ex + 0.5, ex - np.eye(1, nSteps + 1)[0] * 3j):
                        cp = uN.copy()
                        got = errorDahlquistSDC(lam, u0, tEnd, nSteps, K, Q, arg, weights=w, uNum=uN)
                        dev = np.max(np.abs(cp - ex))
                        rec.step(); rec.trace()
                        rec.expect(abs(got - dev) <= 1e-9 * (np.max(np.abs(cp)) + np.max(np.abs(ex))) and np.array_equal(cp, uN), lab + " error of a given solution", f"error {got} is not the largest deviation {dev} of the given solution")
        if deep:
            continue
        # the same numbers in other containers and memory layouts
        for lam, u0, nSteps in ((-0.5 + 2j, 2 - 1j, 2), (-1, 1, 3)):
            if any(np.linalg.cond(np.eye(n) - lam / nSteps * d) > 1e6 for d in D):
                continue
            for w in (None, W):
                steps, hist, amp = reference(lam, u0, 1 / nSteps, nSteps, Q, D, w)
                for (qn, q), (dn, d), (wn, ww) in itertools.product(layouts(Q), layouts(np.array(arg, dtype=float)) + [("lists", np.array(arg).tolist())], layouts(w) if w is not None else [("", None)]):
                    if (qn != "plain") + (dn != "plain") + (wn not in ("", "plain")) > 1 and (K != 1 or w is None) or (dn == "lists" and K == 0 and not isinstance(qd, str)):
                        continue
                    u, m = solveDahlquistSDC(lam, u0, 1, nSteps, K, q, d, weights=ww, monitors=["residuals"])
                    rec.step(); rec.trace(); rec.state((lab0, K, lam, qn, dn, wn))
                    r = np.array([[h[k][1] for h in hist] for k in range(K + 1)])
                    rec.expect(np.max(np.abs(u - steps)) <= 1e-9 * amp and np.shape(m["residuals"]) == r.shape and np.max(np.abs(m["residuals"] - r)) <= 1e-9 * amp, f"{lab0} lam={lam} nSteps={nSteps} nSweeps={K} Q {qn}, QDelta {dn}, weights {wn}", "solution is not that of the documented iteration", got=u, expected=steps)
        # refusals
        for bad, bargs in (("one sweep too many", np.zeros((K + 1, n, n))), ("too many nodes", np.zeros((n + 1, n + 1))), ("too many nodes per sweep", np.zeros((K, n + 1, n + 1))),
                           ("not square", np.zeros((n, n + 1))), ("one sweep missing", np.zeros((K - 1, n, n)) if K else None), ("diagonal only", np.zeros(n)), ("sweep-less stack", np.zeros((K, n)) if K != n else None)):
            if bargs is None:
                continue
            for w, mon in itertools.product((None, W), (None, ["errors"])):
                rec.step(); rec.trace()
                rec.expect(X.refused(solveDahlquistSDC, -1, 1, 1, 2, K, Q, bargs, weights=w, monitors=mon), f"{lab0} nSweeps={K} {bad}", f"QDelta of shape {bargs.shape} is accepted for {n} nodes and {K} sweeps")
        for mon in (["residual"], ["errors", "residuals", "other"], ["Residuals"], "errors"):
            rec.step(); rec.trace()
            rec.expect(X.refused(solveDahlquistSDC, -1, 1, 1, 2, K, Q, arg, monitors=mon), f"{lab0} nSweeps={K} monitors={mon}", "unknown monitor accepted")
    # the exact approximation reaches the collocation solution in one sweep, whatever happened before
    if qd == "EXACT":
        for lam, u0, nSteps in itertools.product(LAMS, U0S, range(1, maxN + 1)):
            ref = gen.solveDahlquist(lam, u0, 1.0, nSteps)
            for K in (1, 2):
                u, m = solveDahlquistSDC(lam, u0, 1.0, nSteps, K, Q, Q, weights=W, monitors=["residuals"])
                rec.step(2); rec.trace()
                if np.linalg.cond(np.eye(n) - lam / nSteps * Q) > 1e6:
                    continue
                s = 1e-9 * (1 + np.max(np.abs(ref)) + np.max(np.abs(m["residuals"][0])))
                rec.expect(np.max(np.abs(u - ref)) <= s and np.max(np.abs(m["residuals"][1:])) <= s * max(1, abs(lam)), f"{lab0} lam={lam} u0={u0} nSteps={nSteps} K={K}", "one sweep with the exact approximation does not solve the collocation problem")
    rec.sample(f"{lab0}: all iterates of all runs")
