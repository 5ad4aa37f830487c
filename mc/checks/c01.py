"""C01 nodes: every (family, request history) of NodesGenerator, against certified zeros."""
import itertools
import numpy as np
from .. import exact as X
from ..core import *

PROPERTY = "C01"
BOUNDS = {"quick": "24 families; all n up to 320, then 350, 400, 450, 500, 600, 750, 1000; all request sequences of length 3 over 7 sizes on one object (sizes also as numpy integers); recurrence coefficients and polynomial values up to degree 40, arguments of 5 shapes; refusals",
          "thorough": "24 families; all n up to 1024; all request sequences of length 4 over 8 sizes on one object; refusals"}
ASSUMPTIONS = ["reference zeros certified by a sign change in extended precision within 2e-16", "tolerance 1e-13"]
TOL = 1e-13


def tasks(quick):
    for nt, qt in X.families():
        ns = list(range(X.nmin(qt), 321)) + [350, 400, 450, 500, 600, 750, 1000] if quick else list(range(X.nmin(qt), 1025))
        for i in range(0, len(ns), 60):
            yield ("size", nt, qt, tuple(ns[i:i + 60]))
        yield ("hist", nt, qt, 3 if quick else 4, (1, 2, 3, 4, 5, 8, 13) if quick else (1, 2, 3, 4, 5, 8, 13, 21))
    for nt in X.NODE_TYPES:
        if nt != "EQUID":
            yield ("poly", nt)
    yield ("refuse",)


MASS = {"LEGENDRE": 2., "CHEBY-1": np.pi, "CHEBY-2": np.pi / 2, "CHEBY-3": np.pi, "CHEBY-4": np.pi}


def poly(rec, nt):
    """the documented recurrence coefficients and the evaluation of the two highest polynomials, against products over certified zeros"""
    from qmat.nodes import NodesGenerator
    for qt in X.QUAD_TYPES:
        gen = NodesGenerator(nt, qt)
        for n in list(range(1, 24)) + [32, 40]:
            key = f"{nt} {qt} recurrence of {n} terms"
            a, b = gen.getOrthogPolyCoefficients(n)
            rec.state((nt, qt, n)); rec.step(); rec.trace()
            if not rec.expect(np.shape(a) == (n,) and np.shape(b) == (n,) and abs(b[0] - MASS[nt]) < 1e-14, key, "number of coefficients, or first one", got=(a, b)):
                continue
            zeros = [X.ref_nodes(nt, "GAUSS", m).astype(float) if m else np.zeros(0) for m in (n - 1, n)]
            for t in (1., -1., 0, 0.3, np.array([-1, -0.7, 0.1, 1.]), np.array([0.5]), np.zeros(0), np.linspace(-1.1, 1.2, 6).reshape(2, 3)):
                t0 = np.array(t)
                lo, hi = gen.evalOrthogPoly(t, a, b)
                rec.step()
                for got, z in ((lo, zeros[0]), (hi, zeros[1])):
                    d = np.asarray(t, dtype=float)[..., None] - z
                    exp = d.prod(axis=-1)
                    # rounding of the recurrence and of the product, relative to the largest value on the interval
                    sc = np.maximum(np.abs(exp), 2.2 ** -len(z) * 8) * (1 + len(z))
                    rec.expect(np.shape(got) == np.shape(exp) and bool(np.all(np.abs(got - exp) <= 1e-13 * sc * 3 ** (np.abs(np.asarray(t, dtype=float)) > 1))), f"{key} at {t0.tolist()}", "not the orthogonal polynomial", got=got, expected=exp)
                rec.expect(np.array_equal(t0, t), key, "argument modified")
            scribble([a, b])
    rec.sample(f"{nt}: polynomials of degree up to 40 equal the product over the certified zeros")


def judge(rec, nt, qt, n, x, hist):
    ref = X.ref_nodes(nt, qt, n)
    key = f"{nt} {qt} n={n} hist={hist}"
    rec.step()
    x = np.asarray(x)
    if not rec.expect(x.shape == (n,) and x.dtype.kind == "f", key, f"shape {x.shape} dtype {x.dtype}"):
        return
    rec.expect(X.close(x, ref, TOL), key, f"nodes off by {X.err(x, ref)}", nodes=x, expected=ref.astype(float))
    rec.expect(bool(np.all(np.diff(x) > 0)), key, "not strictly increasing", nodes=x)
    rec.expect(x[0] >= -1 and x[-1] <= 1, key, "outside [-1,1]", nodes=x)
    if X.has_left(qt):
        rec.expect(x[0] == -1, key, "left boundary is not exact", nodes=x)
    else:
        rec.expect(x[0] > -1, key, "left boundary should not be a node", nodes=x)
    if X.has_right(qt):
        rec.expect(x[-1] == 1, key, "right boundary is not exact", nodes=x)
    else:
        rec.expect(x[-1] < 1, key, "right boundary should not be a node", nodes=x)


def run(task, rec):
    from qmat.nodes import NodesGenerator
    if task[0] == "poly":
        poly(rec, task[1])
    elif task[0] == "size":
        _, nt, qt, ns = task
        for n in ns:
            x = NodesGenerator(nt, qt).getNodes(n)
            rec.state((nt, qt, n))
            judge(rec, nt, qt, n, x, ())
            if n < 40:
                judge(rec, nt, qt, n, NodesGenerator(nt, qt).getNodes(np.int64(n)), "numpy integer")
            rec.trace()
        rec.sample(f"NodesGenerator({nt},{qt}).getNodes({ns[-1]}) compared with certified zeros")
    elif task[0] == "hist":
        _, nt, qt, depth, sizes = task
        # last operation observed, all the previous ones overwritten by the caller
        for seq in itertools.product(sizes, repeat=depth):
            gen = NodesGenerator(nodeType=nt, quadType=qt)
            for i, n in enumerate(seq):
                rec.state((nt, qt, seq[:i + 1]))
                if n < X.nmin(qt):
                    rec.step()
                    rec.expect(X.refused(gen.getNodes, n), f"{nt} {qt} n={n} hist={seq[:i]}", "too few nodes accepted")
                    continue
                x = gen.getNodes(n)
                judge(rec, nt, qt, n, x, seq[:i])
                scribble(x)          # the caller owns the result
            rec.trace()
        rec.sample(f"{nt} {qt}: request sequence {seq} on one object")
    else:
        for nt, qt in X.families():
            g = NodesGenerator(nt, qt)
            for n in (0, -1, -5) + ((1,) if X.has_left(qt) else ()):
                rec.step(); rec.trace(); rec.state((nt, qt, n))
                rec.expect(X.refused(g.getNodes, n), f"{nt} {qt} n={n}", "too few nodes accepted")
            rec.expect(g.nodeType == nt and g.quadType == qt, f"{nt} {qt} attributes", "attributes differ")
        for bad in ("", "GAUSS", "legendre", "CHEBY", "CHEBY-5", "CHEBY-0", "UNIFORM", None, 3):
            rec.step(); rec.trace(); rec.state(("bad", bad))
            rec.expect(X.refused(NodesGenerator, nodeType=bad), f"nodeType={bad!r}", "unknown node type accepted")
        for bad in ("", "LEGENDRE", "gauss", "RADAU", "RADAU-", "RADAU-MIDDLE", "LOBATTO-LEFT", None, 3):
            rec.step(); rec.trace(); rec.state(("badq", bad))
            rec.expect(X.refused(NodesGenerator, quadType=bad), f"quadType={bad!r}", "unknown quadrature type accepted")
        g = NodesGenerator()
        rec.expect((g.nodeType, g.quadType) == ("LEGENDRE", "LOBATTO"), "defaults", "default types changed")
