"""C02 collocation coefficients: exactness on every interval of a menu, all families, all sizes up to the bound."""
import numpy as np
from .. import exact as X
from ..core import *

PROPERTY = "C02"
INTERVALS = [(0, 1), (-1, 1), (0, 2), (1, 3), (0.5, 0.75), (-2, -1), (0, 1e-3), (0., 1e-9), (100, 101), (100, 100.001),
             (0, 1e6), (-1000., 0), (-0.3, 1), (0, 0.7), (1, 2), (-1, 0)]
BOUNDS = {"quick": f"24 families x {len(INTERVALS)} intervals; exact rational-polynomial comparison for n<=8 (all intervals), n<=13 (4 intervals; EQUID to 16); "
                   "orthogonal-basis exactness for non-equidistant n up to 72 and 80, 100, 128, 160, 200 (5 intervals); 8 intervals given as 10 number types",
          "thorough": f"24 families x {len(INTERVALS)} intervals; exact for n<=14 (EQUID 16) on all intervals; orthogonal-basis exactness for all n up to 128 and 160, 200, 256"}
ASSUMPTIONS = ["node positions judged against certified zeros (1e-13 of the interval length)",
               "tolerance grows with the Lebesgue constant and with |t|/length, as double precision dictates"]


def tasks(quick):
    for nt, qt in X.families():
        top = 16 if nt == "EQUID" else (13 if quick else 14)
        for iv in range(len(INTERVALS)):
            full = iv in (0, 3, 5, 12) or not quick
            yield ("exact", nt, qt, iv, top if full else 8)
        if nt != "EQUID":
            for iv in ((0, 4, 7, 8, 10) if quick else range(len(INTERVALS))):
                ns = tuple(list(range(9, 73)) + [80, 100, 128, 160, 200]) if quick else tuple(list(range(9, 129)) + [160, 200, 256])
                yield ("basis", nt, qt, iv, ns)


    for nt, qt in X.families():
        yield ("types", nt, qt, 0, 6)


NUMS = {"int": int, "float": float, "float64": np.float64, "int64": np.int64, "int32": np.int32, "float32": np.float32, "int8": np.int8, "uint8": np.uint8, "uint64": np.uint64, "0-d array": np.array}


def numeric_types(rec, nt, qt, bound):
    """the same interval given as different number types, by position and by name"""
    from qmat.qcoeff.collocation import Collocation
    from qmat import genQCoeffs
    for a, b in ((0, 1), (0, 2), (-3, 1), (2, 5), (0.5, 0.75), (-0.25, 1), (0, 200), (-100, 100)):
        for n in (1, 2, 3, bound):
            if n < X.nmin(qt):
                continue
            ref = Collocation(n, nt, qt, tLeft=float(a), tRight=float(b))
            common(rec, f"Collocation({n},{nt},{qt},tLeft={a},tRight={b})", ref, nt, qt, n, a, b)
            for (ta, fa), (tb, fb) in [(x, y) for x in NUMS.items() for y in NUMS.items() if x[0] == y[0] or "float" in (x[0], y[0])]:
                try:
                    va, vb = fa(a), fb(b)
                except (OverflowError, ValueError):
                    continue
                if va != a or vb != b:
                    continue
                key = f"Collocation({n},{nt},{qt},tLeft={ta} {a},tRight={tb} {b})"
                g = Collocation(n, nt, qt, tLeft=va, tRight=vb)
                rec.state(key); rec.step(2); rec.trace()
                common(rec, key, g, nt, qt, n, a, b)
                for name in ("Q", "S", "weights", "hCoeffs"):
                    rec.expect(X.close(getattr(g, name), np.asarray(getattr(ref, name)), 1e-12), key, f"{name} depends on the type of the interval's ends", got=getattr(g, name), expected=np.asarray(getattr(ref, name)))
            for nn in (np.int64(n), np.int32(n)):
                g = Collocation(nn, nt, qt, a, b)
                rec.step()
                rec.expect(X.close(g.Q, ref.Q, 1e-12) and X.close(g.weights, ref.weights, 1e-12) and X.close(g.S, ref.S, 1e-12), f"Collocation({nn!r},{nt},{qt},{a},{b})", "depends on the type of the number of nodes")
    rec.sample(key)


def build(nt, qt, n, a, b, style):
    from qmat.qcoeff.collocation import Collocation
    from qmat import Q_GENERATORS
    if (a, b) == (0, 1) and style == 0:
        return Collocation(n, nt, qt)
    if a == 0 and style == 0:
        return Collocation(n, nt, qt, tRight=b)
    if b == 1 and style == 0:
        return Q_GENERATORS["coll"](n, nt, qt, tLeft=a)
    if style == 0:
        return Collocation(n, nt, qt, a, b)
    return Q_GENERATORS["Collocation"](nNodes=n, nodeType=nt, quadType=qt, tLeft=float(a), tRight=float(b))


def common(rec, key, g, nt, qt, n, a, b):
    h = b - a
    big = max(abs(a), abs(b))
    x = np.asarray(g.nodes)
    ref = a + np.longdouble(h) * (X.ref_nodes(nt, qt, n) + 1) / 2
    rec.expect(X.close(x, ref, 1e-13 * h + 4 * 2.3e-16 * big, 1), key, f"nodes off by {X.err(x, ref)}", nodes=x, expected=ref.astype(float))
    rec.expect((x[0] == a) == X.has_left(qt) and x[0] >= a, key, "left boundary node", nodes=x)
    rec.expect((x[-1] == b) == X.has_right(qt) and x[-1] <= b, key, "right boundary node", nodes=x)
    rec.expect(bool(np.all(np.diff(x) > 0)), key, "nodes not increasing", nodes=x)
    rec.expect(bool(g.rightIsNode) == X.has_right(qt), key, f"rightIsNode={g.rightIsNode}")
    rec.expect(g.nNodes == n, key, f"nNodes={g.nNodes}")
    for name, shape in (("Q", (n, n)), ("S", (n, n)), ("weights", (n,)), ("hCoeffs", (n,))):
        v = np.asarray(getattr(g, name))
        rec.expect(v.shape == shape, key, f"{name} has shape {v.shape}")
        rec.step()
    return x


def run(task, rec):
    kind, nt, qt, iv, bound = task
    if kind == "types":
        return numeric_types(rec, nt, qt, bound)
    a, b = INTERVALS[iv]
    h = b - a
    cond = max(abs(a), abs(b)) / h
    if kind == "exact":
        for n in range(X.nmin(qt), bound + 1):
            for style in (0, 1):
                key = f"Collocation({n},{nt},{qt},tLeft={a},tRight={b}) style={style}"
                rec.state((nt, qt, n, iv)); rec.step()
                g = build(nt, qt, n, a, b, style)
                x = common(rec, key, g, nt, qt, n, a, b)
                if style == 0:
                    lag = X.Lag(x)
                    xs = [a] + list(x)
                    R = dict(Q=lag.integ([(a, t) for t in x]), S=lag.integ([(xs[i], xs[i + 1]) for i in range(n)]),
                             weights=lag.integ([(a, b)])[0], hCoeffs=lag.interp([b])[0])
                    leb = max(np.abs(R["hCoeffs"]).sum(), np.abs(R["weights"]).sum() / h, np.abs(R["Q"]).sum(1).max() / h, 1.)
                    if nt == "EQUID":
                        leb = max(leb, 2. ** n)
                    tol = (1e-12 + 3e-16 * cond * n * n) * leb * 3
                for name, ref in R.items():
                    s = 1. if name == "hCoeffs" else h
                    v = np.asarray(getattr(g, name))
                    rec.expect(X.close(v / s, ref / s, tol, 1), key, f"{name} not exact: off by {X.err(v/s, ref/s):.3e} (tol {tol:.1e})", got=v, expected=ref)
                rec.trace()
        rec.sample(key + " nodes/Q/S/weights/hCoeffs vs exact polynomials")
    else:
        for n in bound:
            key = f"Collocation({n},{nt},{qt},tLeft={a},tRight={b}) basis"
            rec.state((nt, qt, n, iv, "basis")); rec.step()
            g = build(nt, qt, n, a, b, n % 2)
            x = common(rec, key, g, nt, qt, n, a, b)
            t = np.clip(2 * (x - a) / h - 1, -1, 1)
            th = np.arccos(t)
            k = np.arange(n + 1)
            V = np.cos(np.outer(th, k))                       # T_k(nodes)

            def prim(y):                                      # antiderivative of T_k
                T = np.cos(np.outer(np.arccos(np.clip(y, -1, 1)), np.arange(n + 2)))
                P = np.empty((len(y), n))
                P[:, 0] = T[:, 1]
                if n > 1:
                    P[:, 1] = T[:, 2] / 4
                for j in range(2, n):
                    P[:, j] = T[:, j + 1] / (2 * (j + 1)) - T[:, j - 1] / (2 * (j - 1))
                return P
            P, P0, P1 = prim(t), prim(np.array([-1.])), prim(np.array([1.]))
            R = dict(Q=P - P0, S=np.diff(np.vstack([P0, P]), axis=0), weights=(P1 - P0)[0], hCoeffs=np.ones(n))
            leb = max(np.abs(g.hCoeffs).sum(), 1.)
            tol = (1e-12 + 3e-16 * cond * n) * n * max(leb, 10.)
            for name, ref in R.items():
                s = 1. if name == "hCoeffs" else h / 2
                v = (np.asarray(getattr(g, name)) / s) @ V[:, :n]
                rec.expect(X.close(v, ref, tol, 1), key, f"{name} not exact on the basis: off by {X.err(v, ref):.3e} (tol {tol:.1e})")
                rec.step()
            rec.trace()
