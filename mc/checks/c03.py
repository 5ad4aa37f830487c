"""C03 declared order of every collocation method == exact order of its quadrature formula."""
import numpy as np
from .. import exact as X
from ..core import *

PROPERTY = "C03"
INTERVALS = [(0, 1), (1, 3), (-2, 1), (0, 1e-3), (-1, 1), (0, 1e-10), (1e-9, 3e-9), (-1e8, 1e8), (100, 100.5), (1e4, 1e4 + 1)]
BOUNDS = {"quick": f"24 families, all n up to 40 (EQUID: 16), {len(INTERVALS)} intervals, moments up to degree order (one beyond exactness)",
          "thorough": f"24 families, all n up to 100 (EQUID: 18), {len(INTERVALS)} intervals, moments up to degree order"}
ASSUMPTIONS = ["the order of a collocation method is the order of its quadrature formula (Butcher/Hairer)",
               "a moment is exact below 1e-11, and not exact above 1e-9, in the orthonormal-scale Legendre basis; no value observed between"]


def tasks(quick):
    for nt, qt in X.families():
        yield (nt, qt, (16 if quick else 18) if nt == "EQUID" else (40 if quick else 100))


def legvals(x, k):
    P = np.zeros((k + 1, len(x)), dtype=np.longdouble)
    P[0] = 1
    if k:
        P[1] = x
    for j in range(1, k):
        P[j + 1] = ((2 * j + 1) * x * P[j] - j * P[j - 1]) / (j + 1)
    return P


def exact_order(nt, qt, n):
    x = X.ref_nodes(nt, qt, n)
    P = legvals(x, 2 * n + 1)
    if nt == "EQUID":
        x = X.decs(x.astype(float)) if False else [X.D(str(v)) for v in x]
        b = X.basis(x)
        w = np.array([np.longdouble(str(X.pint(p, X.D(-1), X.D(1)))) for p in b])
    else:
        V = P[:n].astype(float)
        rhs = np.zeros(n); rhs[0] = 2
        w = np.linalg.solve(V, rhs).astype(np.longdouble)
        r = rhs - P[:n] @ w                        # one step of iterative refinement
        w = w + np.linalg.solve(V, r.astype(float))
    mom = np.abs((P @ w).astype(float))
    mom[0] = abs(float(P[0] @ w) - 2)
    bad = np.nonzero(mom > 1e-9)[0]
    order = int(bad[0])
    assert np.all(mom[:order] < 1e-11), (nt, qt, n, mom)
    return order


def run(task, rec):
    from qmat.qcoeff.collocation import Collocation
    from qmat import Q_GENERATORS
    nt, qt, top = task
    for n in range(X.nmin(qt), top + 1):
        true = exact_order(nt, qt, n)
        for a, b in INTERVALS:
            g = Collocation(n, nt, qt, tLeft=a, tRight=b) if (a, b) != (0, 1) else Q_GENERATORS["coll"](nNodes=n, nodeType=nt, quadType=qt)
            key = f"Collocation({n},{nt},{qt},{a},{b}).order"
            rec.state((nt, qt, n, a, b)); rec.step(3)
            rec.expect(g.order == true, key, f"declared order {g.order}, exact order {true}")
            rec.expect(g.orderEmbedded == g.order - 1, key, f"orderEmbedded {g.orderEmbedded}")
            # the implementation's own weights reach it
            x, w = np.asarray(g.nodes), np.asarray(g.weights)
            t = 2 * (x - a) / (b - a) - 1
            m = legvals(t, g.order)[:g.order].astype(float) @ (w * 2 / (b - a))
            m[0] -= 2
            far = max(abs(a), abs(b)) / (b - a)            # the nodes themselves are rounded by this much of the interval
            tol = 1e-11 * max(1, far / 10) * (2. ** n / 10 + 1 if nt == "EQUID" else n + 1)
            rec.expect(float(np.max(np.abs(m))) < tol, key, f"weights do not reach the declared order: moment defect {np.max(np.abs(m)):.2e}")
            rec.trace()
    rec.sample(f"{key} = {true}")
