"""C05 IMEX pairs: shared nodes/weights, two-coloured rooted-tree coupling conditions, split integration of a nonlinear problem."""
import numpy as np
from .. import trees as T
from ..core import *

PROPERTY = "C05"
PAIRS = [("ARK222ERK", "ARK222EDIRK", 2, False), ("ARK324L2SAERK", "ARK324L2SAESDIRK", 3, True), ("ARK343ERK", "ARK343ESDIRK", 3, True),
         ("ARK443ERK", "ARK443ESDIRK", 3, False), ("ARK4ERK", "ARK4EDIRK", 4, False),
         ("ARK548L2SAERK", "ARK548L2SAESDIRK", 5, True), ("ARK548L2SAERK2", "ARK548L2SAESDIRK2", 5, True)]
EMB = {"ARK324L2SAERK": 2, "ARK548L2SAERK": 4, "ARK548L2SAERK2": 4}
PADS = [None, "LEFT", "RIGHT", "BOTH"]
BOUNDS = {"quick": "7 pairs x 4 paddings; all two-coloured rooted trees up to the pair's order (embedded: up to the embedded order); split polynomial problems integrated with the tables",
          "thorough": "same as quick, trees one order further to show that the order is attained and not exceeded"}
ASSUMPTIONS = ["tolerance 1e-12 (1e-9 for ARK343, published with 10 digits)"]


def tasks(quick):
    for e, i, o, same in PAIRS:
        for pad in PADS:
            yield (e, i, o, same, pad, quick)


def run(task, rec):
    from qmat.qcoeff.butcher import RK_SCHEMES as S
    from qmat import genQCoeffs
    e, i, o, same, pad, quick = task
    rec.keepall = True
    tol = 1e-9 if "343" in e else 1e-12
    E, I = S[e](padding=pad), S[i](padding=pad)
    key = f"{e}+{i} padding={pad}"
    cE, bE, AE = genQCoeffs(e, padding=pad)
    cI, bI, AI = genQCoeffs(i, padding=pad)
    rec.step(4)
    rec.state((e, i, pad))
    if not rec.expect(cE.shape == cI.shape and AE.shape == AI.shape, key, f"sizes differ {cE.shape} {cI.shape}"):
        return
    rec.expect(np.max(np.abs(cE - cI)) < tol, key + " nodes", "the pair does not share its nodes", explicit=cE, implicit=cI)
    if same:
        rec.expect(np.max(np.abs(bE - bI)) < tol, key + " weights", "the pair does not share its weights", explicit=bE, implicit=bI)
    rec.expect(not np.any(np.triu(AE)) and not np.any(np.triu(AI, 1)), key + " structure", "not an explicit / diagonally implicit pair")
    rec.expect(E.order >= o and I.order >= o, key + " order", f"declared orders {E.order}, {I.order} below {o}")
    rec.trace()
    As = [np.asarray(A, dtype=np.longdouble) for A in (AE, AI)]
    sets = [("main", [bE, bI], o)]
    if e in EMB:
        b2E, b2I = E.weightsEmbedded, I.weightsEmbedded
        rec.expect(np.max(np.abs(b2E - b2I)) < tol, key + " embedded", "the pair does not share its embedded weights")
        rec.expect(min(E.orderEmbedded, I.orderEmbedded) == EMB[e], key + " embedded order", f"{E.orderEmbedded} {I.orderEmbedded}")
        sets.append(("embedded", [b2E, b2I], EMB[e]))
    for which, bs, order in sets:
        bs, cache = [np.asarray(b, dtype=np.longdouble) for b in bs], {}
        for k in range(1, order + 1 + (not quick)):
            worst = 0
            for t in T.trees(k, 2):
                r = float(T.residual(t, As, bs, cache))
                rec.state((e, pad, which, t)); rec.step()
                worst = max(worst, abs(r))
                if k <= order:
                    rec.trace()
                    rec.expect(abs(r) < tol, f"{key} {which} tree={t}", f"coupling condition with {k} vertices fails: residual {r:.3e}")
            if k > order:
                rec.expect(worst > 1e-6, f"{key} {which} exceeded", "pair is of higher order than declared: reference out of date")
    # the tables used together on u' = f(u) + g(u), exact (rational) stage values as truncated power series in the step
    rec.extra["max_series_defect"] = d = series_defect(AE, AI, bE, bI, o)
    rec.trace()
    rec.expect(d < max(tol, 1e-11) * 1e3, key + " split integration", f"series of the split integration differs from the exact solution before order {o}: {d:.2e}")
    rec.sample(f"{key}: {sum(len(T.trees(k, 2)) for k in range(1, o+1))} coupling conditions")


def series_defect(AE, AI, bE, bI, order):
    """u' = u^2 (explicit) + (1 + t-free cubic -u^3/2) (implicit): compare the Taylor coefficients in h of one step with those of the
    exact solution, by truncated power series arithmetic (stages solved by fixed point: one order gained per pass)."""
    N = order + 1
    u0 = 0.7

    def mul(a, b):
        return np.convolve(a, b)[:N]

    def f(a):
        return mul(a, a)

    def g(a):
        r = -0.5 * mul(a, mul(a, a))
        r[0] += 1
        return r
    s = len(AE)
    U = [np.eye(1, N)[0] * u0 for _ in range(s)]
    sh = lambda a: np.concatenate([[0.], a[:-1]])      # multiply by h
    for _ in range(N):
        F, G = [f(a) for a in U], [g(a) for a in U]
        U = [np.eye(1, N)[0] * u0 + sh(sum(AE[i, j] * F[j] + AI[i, j] * G[j] for j in range(s))) for i in range(s)]
    F, G = [f(a) for a in U], [g(a) for a in U]
    num = np.eye(1, N)[0] * u0 + sh(sum(bE[j] * F[j] + bI[j] * G[j] for j in range(s)))
    ex = np.eye(1, N)[0] * u0
    for _ in range(N):
        r = f(ex) + g(ex)
        ex = np.concatenate([[u0], r[:-1] / np.arange(1, N)])
    return float(np.max(np.abs(num - ex)))
