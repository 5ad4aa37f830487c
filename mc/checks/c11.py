"""C11 time-stepping QDelta: the named scheme, executed step by step in exact arithmetic on symbolic slopes, over all node sets of a grid."""
import itertools
from decimal import Decimal as D
import numpy as np
from .. import exact as X
from ..core import *

PROPERTY = "C11"
GRID_Q = [-2, -0.5, 0, 0.1, 0.25, 1, 1.5, 4]
GRID_T = [-3, -2, -0.5, 0, 0.1, 0.25, 0.3, 1, 1.5, 4, 11]
INTS = [-3, 0, 1, 2, 5]
BOUNDS = {"quick": "all registered names; all node sets of 1-5 points of an 8-point grid x 5 left boundaries x 5 scales (1e-10 to 1e10); integer node sets (list, tuple, int arrays) x fractional left boundaries; 24 families x n<=7 x 8 intervals and n = 10, 16, 25, 40 x 2 intervals through qGen and through nodes/tLeft",
          "thorough": "11-point grid, sets of 1-6 points, n<=12"}
ASSUMPTIONS = ["nodes of collocation methods are judged by C01/C02"]


def tasks(quick):
    from qmat import QDELTA_GENERATORS as G
    grid = GRID_Q if quick else GRID_T
    for name, cls in G.items():
        if cls.__module__.endswith(".timestepping"):
            for m in range(1, 6 if quick else 7):
                yield ("grid", name, m, quick)
            yield ("ints", name, 0, quick)
            for nt in X.NODE_TYPES:
                yield ("coll", name, nt, quick)
    yield ("names", "", 0, quick)


# ---------------------------------------------------------------- reference : coefficient vectors over (y0, f0, f1..fM)
def scheme(name, nodes, tLeft):
    t = [D(float(tLeft))] + [D(float(x)) for x in nodes]
    M = len(nodes)
    unit = lambda i: [D(int(j == i)) for j in range(M + 2)]
    f = lambda i: unit(i + 1)
    comb = lambda *cv: [sum((c * v[j] for c, v in cv), D(0)) for j in range(M + 2)]
    y = [unit(0)]
    one = D(1)
    for m in range(1, M + 1):
        h = t[m] - t[m - 1]
        if name == "BE":
            y.append(comb((one, y[m - 1]), (h, f(m))))
        elif name == "FE":
            y.append(comb((one, y[m - 1]), (h, f(m - 1))))
        elif name == "TRAP":
            y.append(comb((one, y[m - 1]), (h / 2, f(m - 1)), (h / 2, f(m))))
        elif name == "BEPAR":
            y.append(comb((one, y[0]), (t[m] - t[0], f(m))))
        elif name == "TRAPAR":
            y.append(comb((one, y[0]), ((t[m] - t[0]) / 2, f(0)), ((t[m] - t[0]) / 2, f(m))))
        elif name == "SOE":
            if m == 1 or t[m - 1] == t[m - 2]:
                y.append(comb((one, y[m - 1]), (h, f(m - 1))))
            else:            # slope at t[m-1] of the parabola through the three values
                a, b, c = t[m - 2], t[m - 1], t[m]
                da = (b - c) / ((a - b) * (a - c))
                db = (2 * b - a - c) / ((b - a) * (b - c))
                dc = (b - a) / ((c - a) * (c - b))
                y.append(comb((1 / dc, f(m - 1)), (-da / dc, y[m - 2]), (-db / dc, y[m - 1])))
    y = y[1:]
    assert all(abs(r[0] - 1) < D("1e-60") for r in y)
    return np.array([[float(v) for v in r[2:]] for r in y]).reshape(M, M), np.array([float(r[1]) for r in y])


def judge(rec, name, cls, gen, nodes, tLeft, key):
    nodes = [float(x) for x in nodes]
    QD, dt = scheme(cls.__name__, nodes, tLeft)
    M = len(nodes)
    rec.state((cls.__name__, tuple(nodes), float(tLeft)))
    rec.step(4); rec.trace()
    T = np.eye(M) - np.eye(M, k=-1)
    span = nodes[-1] - float(tLeft)
    sc = max(np.abs(QD).max(), span, 1e-3 * max(abs(x) for x in nodes))
    # rounding grows with the amplification factors of the extrapolating scheme
    tol = 1e-13 if cls.__name__ != "SOE" else 1e-12 * max(1., amplification(nodes, tLeft))
    got, gd = np.array(gen.getQDelta()), np.array(gen.dTau)
    rec.expect(X.close(got, QD, tol, sc), key, "QDelta is not the scheme", got=got, expected=QD)
    if cls.__name__ == "SOE" and not X.close(gd, dt, tol, sc) and X.close(gd, np.full(M, nodes[0] - float(tLeft)), 1e-13, sc):
        # the wrong value pinned by the library's own test suite, see known_findings.txt; any other value is reported below
        rec.count("soe_constant_dTau")
        if not getattr(rec, "soe", False):
            rec.soe = True
            rec.viol.append(dict(key="SOE dTau = (first node - tLeft) in every row although the first node is not the left boundary", what=f"first seen: {key}: dTau {gd} instead of {dt}", detail={}))
    else:
        rec.expect(X.close(gd, dt, tol, sc), key, "dTau is not the scheme", got=gd, expected=dt)
        rec.expect(X.close(got.sum(axis=1) + gd, np.array(nodes) - float(tLeft), tol, sc), key, "row sums plus dTau are not the distances to the left boundary")
    rec.expect(X.close(gen.getSDelta(), T @ QD, tol, 2 * sc), key, "SDelta is not the scheme")


def amplification(nodes, tLeft):
    t = [float(tLeft)] + list(nodes)
    h = np.diff(t)
    h = h[h > 0]
    return float(np.prod([max(1., (b / a)) ** 2 for a, b in zip(h, h[1:])])) if len(h) > 1 else 1.


def run(task, rec):
    from qmat import QDELTA_GENERATORS as G, genQDeltaCoeffs
    from qmat.qcoeff.collocation import Collocation
    kind, name, par, quick = task
    if kind == "names":
        for alias, n in dict(BE="BE", IE="BE", FE="FE", EE="FE", TRAP="TRAP", CN="TRAP", BEPAR="BEPAR", IEpar="BEPAR", TRAPAR="TRAPAR", SOE="SOE", LeapFrog="SOE", LF="SOE").items():
            rec.state(alias); rec.step(); rec.trace()
            rec.expect(alias in G and G[alias] is G.get(n) and G[alias].__name__ == n, alias, "does not name " + n)
        return
    cls = G[name]
    if cls.__name__ not in ("BE", "FE", "TRAP", "BEPAR", "TRAPAR", "SOE"):
        rec.count("unmodelled"); rec.step(); rec.state(name); rec.trace()
        return
    if kind == "grid":
        for sub in itertools.combinations(GRID_Q if quick else GRID_T, par):
            for s in (1, 1e-3, 1e3, 1e-10, 1e10):
                nodes = [x * s for x in sub]
                for tl in sorted({nodes[0], nodes[0] - 0.125 * s, nodes[0] - s, nodes[0] - 7.5 * s} | ({0.} if nodes[0] >= 0 else set())):
                    key = f"{name} nodes={nodes} tLeft={tl}"
                    judge(rec, name, cls, cls(nodes, tl), nodes, tl, key)
                if nodes[0] >= 0:
                    judge(rec, name, cls, cls(np.array(nodes)), nodes, 0, f"{name} nodes={nodes}")
                    QD, dt = scheme(cls.__name__, nodes, 0)
                    rec.step()
                    out = genQDeltaCoeffs(name, nodes=nodes, dTau=True)
                    rec.expect(X.close(out[0], cls(nodes).getQDelta(), 1e-14) and X.close(out[1], cls(nodes).dTau, 1e-14), f"{name} nodes={nodes}", "generic function differs")
    elif kind == "ints":
        for m in range(1, len(INTS) + 1):
            for sub in itertools.combinations(INTS, m):
                for tl in (sub[0], sub[0] - 0.5, sub[0] - 0.25, sub[0] - 2):
                    for conv, cn in ((list, "list"), (tuple, "tuple"), (np.array, "array"), (lambda x: np.array(x, dtype=np.int32), "int32"), (lambda x: np.array(x, dtype=np.float32), "float32")):
                        given = conv(sub)
                        judge(rec, name, cls, cls(nodes=given, tLeft=tl), sub, tl, f"{name} nodes={sub} ({cn}) tLeft={tl}")
                        rec.expect(list(given) == list(sub), f"{name} nodes={sub} ({cn})", "nodes modified")
    else:
        for qt in X.QUAD_TYPES:
            top = 7 if quick else 12
            for n in list(range(X.nmin(qt), top + 1)) + ([10] if quick else []) + [16, 25, 40]:
                for a, b in ((0, 1), (1, 3), (-1, 1), (-0.5, 0.25), (10, 10.5), (0, 1e-9), (1e-9, 3e-9), (-1e8, 1e8))[:None if n <= top else 2]:
                    c = Collocation(n, par, qt, a, b)
                    key = f"{name} {par} {qt} n={n} [{a},{b}]"
                    judge(rec, name, cls, cls(qGen=c), c.nodes, a, key + " qGen")
                    judge(rec, name, cls, cls(c.nodes, a), c.nodes, a, key)
    rec.sample(f"{name} {kind} {par}: matrix and dTau equal the scheme executed on symbolic slopes")
