"""C19 order announced for SDC against the true order. The model is SDC as a machine over exact power series in z = lambda dt (90-digit
decimals); its true order is the number of series coefficients, minus one, that equal those of exp(z). The model is bound to the
code by comparing its quadrature and QDelta matrices with the library's, for every configuration, and its step results
with those of the SDC solver."""
import inspect, itertools, warnings
import numpy as np
from decimal import Decimal as D
from .. import exact as X
from ..core import *

PROPERTY = "C19"
BOUNDS = {"quick": "24 families x n<=8 x 6 time-stepping approximations x sweeps 0..8 (0..16 for n<=4) x (quadrature update, last node where the right boundary is a node) x 2 intervals, n = 9, 10, 12, 15 with 5 sweeps; power series to order 18",
          "thorough": "n<=10, sweeps 0..12, power series to order 24"}
ASSUMPTIONS = ["order on the linear test problem, starting each step with the same value on all nodes", "for SOE the scheme is the one of QDelta alone (its dTau does not enter)"]
SCH = ["BE", "FE", "TRAP", "BEPAR", "TRAPAR", "SOE"]


def tasks(quick):
    for nt, qt in X.families():
        for n in range(X.nmin(qt), (8 if quick else 10) + 1):
            yield (nt, qt, n, quick)
        for n in (9, 10, 12, 15) if quick else (12, 15, 18):
            if nt != "EQUID" or n <= 10:
                yield (nt, qt, n, quick)


def dnodes(nt, qt, n):
    """nodes on [0,1] to 80 digits"""
    L, R = X.has_left(qt), X.has_right(qt)
    if nt == "EQUID":
        m = n + (not L) + (not R) - 1
        return [D(i) / m for i in range(m + 1)][(not L):(m + 1 if R else m)] if m else [D(0)]
    a, b = (D(str(v)) for v in X.AB[nt])
    a, b, m = a + int(R), b + int(L), n - L - R

    def P(x):
        """monic Jacobi polynomial and derivative"""
        p0, p1, d0, d1 = D(0), D(1), D(0), D(0)
        for k in range(m):
            s = 2 * k + a + b
            al = (b - a) / (a + b + 2) if k == 0 else (b * b - a * a) / (s * (s + 2))
            be = D(0) if k == 0 else 4 * (1 + a) * (1 + b) / ((2 + a + b) ** 2 * (3 + a + b)) if k == 1 else 4 * k * (k + a) * (k + b) * (k + a + b) / (s * s * (s + 1) * (s - 1))
            p0, p1, d0, d1 = p1, (x - al) * p1 - be * p0, d1, p1 + (x - al) * d1 - be * d0
        return p1, d1
    out = [D(-1)] * L
    for x in X.ref_nodes(nt, qt, n)[int(L):n - int(R)]:
        x = D(repr(float(x)))
        for _ in range(6):
            p, d = P(x)
            x -= p / d
        out.append(x)
    return [(x + 1) / 2 for x in out + [D(1)] * R]


def qdelta(name, x):
    n = len(x)
    d = [x[0]] + [x[i] - x[i - 1] for i in range(1, n)]
    Z = [[D(0)] * n for _ in range(n)]
    for m in range(n):
        if name == "BEPAR":
            Z[m][m] = x[m]
        elif name == "TRAPAR":
            Z[m][m] = x[m] / 2
        elif name == "BE":
            Z[m][:m + 1] = d[:m + 1]
        elif name == "FE":
            Z[m][:m] = d[1:m + 1]
        elif name == "TRAP":
            for j in range(m + 1):
                Z[m][j] = (d[j] + (d[j + 1] if j < m else 0)) / 2
    if name == "SOE":
        t = [D(0)] + list(x)
        for m in range(1, n):
            a, b, c = t[m - 1:m + 2]
            if a == b:
                am, a0, ap = -1 / (c - b), D(0), 1 / (c - b)
            else:
                am, a0, ap = (b - c) / ((a - b) * (a - c)), (2 * b - a - c) / ((b - a) * (b - c)), (b - a) / ((c - a) * (c - b))
            Z[m][m - 1] = 1 / ap
            for j in range(m - 1):
                Z[m][j] = -a0 / ap * Z[m - 1][j] - (am / ap * Z[m - 2][j] if m > 1 else 0)
    return Z


def orders(Q, w, QD, K, maxS, tol):
    """true order for every number of sweeps and step update"""
    n = len(Q)
    one = Q[0][0] * 0 + 1
    Q, QD, w = np.array(Q), np.array(QD), np.array(w)
    R = Q - QD
    u = [np.array([one] * n)] + [np.array([0 * one] * n)] * K
    out, gaps, vals = {}, [], {}

    def order(ser):
        k, f = 0, one
        while k <= K:
            f = f * k if k else f
            e = abs(ser[k] * f - 1)
            if e > tol:
                gaps.append(float(e))
                return k - 1
            k += 1
        return K
    for s in range(maxS + 1):
        if s:
            v = [u[0]]
            for k in range(1, K + 1):
                v.append(R.dot(u[k - 1]) + QD.dot(v[k - 1]))
            u = v
        out[s, "QUADRATURE"] = order([one] + [w.dot(x) for x in u[:-1]])
        out[s, "LASTNODE"] = order([x[-1] for x in u])
        z = one / 64
        vals[s, "QUADRATURE"] = float(sum((w.dot(x) * z ** (k + 1) for k, x in enumerate(u)), one))
        vals[s, "LASTNODE"] = float(sum(x[-1] * z ** k for k, x in enumerate(u)))
    return out, min(gaps), vals


def run(task, rec):
    warnings.simplefilter("ignore")
    from qmat.qcoeff.collocation import Collocation
    from qmat.qdelta import QDELTA_GENERATORS as G
    from qmat.utils.sdc import getOrderSDC, solveDahlquistSDC
    nt, qt, n, quick = task
    rec.keepall = True
    K, maxS = ((18, 16 if n <= 4 else 8 if n <= 8 else 5) if quick else (24, 24 if n <= 4 else 12 if n <= 10 else 6))
    x = dnodes(nt, qt, n)
    B = X.basis(x)
    Q = [[X.pint(b, D(0), t) for b in B] for t in x]
    w = [X.pint(b, D(0), D(1)) for b in B]
    fl = lambda M: np.array([[float(v) for v in r] for r in M])
    for name in SCH:
        first, true = {}, None
        QD = qdelta(name, x)
        for a, b in ((0, 1), (1, 3)):
            c = Collocation(n, nt, qt, tLeft=a, tRight=b)
            H = float(b - a)
            rQ, rw, rD = np.array(c.Q) / H, np.array(c.weights) / H, np.array(G[name](qGen=c).getQDelta()) / H
            rec.step(2)
            if true is None:
                tol = 1e-8 if name == "SOE" else 1e-10
                if X.close(rQ, fl(Q), 1e-10) and X.close(rw, fl([w])[0], 1e-10) and X.close(rD, fl(QD), tol):
                    true, gap, vals = orders(Q, w, QD, K, maxS, D("1e-30"))
                    rec.count("configurations_conforming")
                    rec.extra["max_inverse_gap"] = max(rec.extra.get("max_inverse_gap", 0), 1 / gap)
                else:                # the library's method is another one: its own series, as far as double precision shows them
                    true, _, vals = orders(rQ, rw, rD, 8, maxS, 1e-7)
                    rec.count("configurations_not_conforming")
                for k in true:
                    rec.state((nt, qt, n, name, k))
            for s in range(maxS + 1):
                for su in ("QUADRATURE", "LASTNODE"):
                    # replay the model's trace on the solver
                    U = solveDahlquistSDC(0.5, 1, 1 / 32, 1, s, rQ, rD, weights=rw if su == "QUADRATURE" else None)
                    rec.step()
                    if rec.extra.get("configurations_not_conforming", 0) == 0:
                        rec.expect(abs(U[1] - vals[s, su]) < 1e-10, f"{nt} {qt} n={n} {name} nSweeps={s} {su} run", f"one step of the solver gives {U[1]}, the sweeps as power series {vals[s, su]}")
                    if su == "LASTNODE" and (s == 0 or not X.has_right(qt)):
                        continue
                    got = getOrderSDC(c, s, name, su)
                    rec.step(); rec.trace()
                    rec.outcome((got, true[s, su]))
                    key = f"{nt} {qt} n={n} {name} nSweeps={s} {su}"
                    if (a, b) == (0, 1):
                        first[s, su] = got
                    elif got == first[s, su]:
                        continue                # same verdict as on the unit interval
                    else:
                        key += f" on [{a},{b}]"
                    low = min(c.order, (s + (name in ("TRAP", "TRAPAR") if s else 0)) + (su == "QUADRATURE"))
                    rec.expect(got <= true[s, su], f"{key}: {got}>{true[s, su]}", f"announces order {got}, the true order is {true[s, su]}")
                    rec.expect(got >= low, key + " lower", f"announces order {got}, below the {low} the sweeps guarantee")
    rec.sample(f"{nt} {qt} n={n}: true orders of {name} {sorted(true.items())[2:6]}")
