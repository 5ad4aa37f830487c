"""C14 Lagrange matrices: all ordered point sets of a grid, against exact rational/decimal Lagrange polynomials."""
import itertools, warnings
import numpy as np
from .. import exact as X
from ..core import *

PROPERTY = "C14"
VALS_Q = [-1, -0.5, 0, 0.1, 0.75, 2]
VALS_T = [-3, -1, -0.5, 0, 0.1, 0.75, 2]
SCALES = [(1, 0), (1e-3, 0), (1e4, 0), (1, 5), (1e-2, -3), (1e-12, 0), (1e12, 0), (1e-15, 0), (1e-40, 0), (1e40, 0)]
MODES = [("AUTO", "MAX", False), ("FAST", "MAX", False), ("STABLE", "MAX", False), ("STABLE", "ZERO", False), ("CHEBFUN", "MAX", False),
         ("AUTO", "MAX", True), ("FAST", "MAX", True), ("STABLE", "ZERO", True), ("CHEBFUN", "MAX", True)]
RULES = ["FEJER", "LEGENDRE_NUMPY", "LEGENDRE_SCIPY"]
BOUNDS = {"quick": "all ordered sequences of 1-4 distinct points of 6 values x 10 scales/shifts (1e-40 to 1e40) x 9 weight modes x 3 quadrature rules; ~20 evaluation points (on, next to, down to 1e-309 from zero, between, outside) and 14 intervals each; orders 1, 2, ALL; function evaluation for 10 argument shapes x 8 memory layouts; 0 to 9001 evaluation points / intervals at once; 8 forms (list, tuple, integers of every width and sign, float32, strided, read-only, ...) of points, times and intervals; "
                  "Chebyshev/Legendre/random-like sets of up to 400 points on 7 intervals of very different scale",
          "thorough": "7 values, sequences of 1-5 points, large sets up to 800 points"}
ASSUMPTIONS = ["FAST is only judged where the direct products neither overflow nor underflow (documented limitation)"]


def tasks(quick):
    vals = VALS_Q if quick else VALS_T
    for first in range(len(vals)):
        for si in range(len(SCALES)):
            yield ("small", first, si, quick)
    for n in ([16, 50, 100, 200, 400] if quick else [16, 50, 100, 150, 200, 300, 400, 600, 800]):
        for fam in ("CHEBY-1", "LOBATTO", "LEGENDRE"):
            yield ("large", fam, n, quick)
    yield ("refuse", 0, 0, quick)
    yield ("call", 0, 0, quick)
    for n in range(1, 8):
        yield ("many", n, 0, quick)
        yield ("forms", n, 0, quick)


def times_for(pts):
    p = np.sort(pts)
    h = max(np.ptp(p), abs(p[0]) * 1e-3, 1e-3) if len(p) < 2 else np.ptp(p)
    out = list(p)
    for x in p:
        out += [np.nextafter(x, np.inf), np.nextafter(x, -np.inf), x + 1e-12 * h, x - 1e-7 * h, x + 0.01 * h]
    if 0 in p:                                          # closer to zero than the spacing of any other points
        out += [h * d for d in (1e-30, -1e-100, 1e-200, 1e-250, -1e-260)] + [1e-300, -1e-305, 1e-306, 2e-308, -1e-308, 1e-309]
    out += list((p[1:] + p[:-1]) / 2) + [p[0] - 0.3 * h, p[-1] + 0.6 * h, p[0] + 0.37 * h]
    return np.array(out)


def intervals_for(pts):
    p = np.sort(pts)
    h = np.ptp(p) if len(p) > 1 else max(1e-3, abs(p[0]) * 1e-3)
    a, b = p[0], p[-1] if len(p) > 1 else p[0] + h
    m = a + 0.37 * h
    return [(a, b), (b, a), (a, a), (m, m), (a, m), (m, b), (b, m), (a - 0.5 * h, b + 0.25 * h), (b, b + 0.5 * h), (a - h, a - 0.5 * h), (m, m + 1e-6 * h), (b + 0.1 * h, a - 0.1 * h)]


def run(task, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            globals()["do_" + task[0]](task, rec)


def do_small(task, rec):
    from qmat.lagrange import LagrangeApproximation as LA
    _, first, si, quick = task
    vals = VALS_Q if quick else VALS_T
    s, c = SCALES[si]
    depth = 4 if quick else 5
    rest = [i for i in range(len(vals)) if i != first]
    for m in range(0, depth):
        for perm in itertools.permutations(rest, m):
            pts = np.array([vals[first]] + [vals[i] for i in perm]) * s + c
            small_set(rec, LA, pts, s, c)
    rec.sample(f"points {pts.tolist()}: all modes and rules exact")


def small_set(rec, LA, pts, s, c):
    L = X.Lag(pts)
    T, I = times_for(pts), intervals_for(pts)
    refP, refQ, ref1, ref2 = L.interp(T), L.integ(I), L.deriv(1), L.deriv(2)
    n = len(pts)
    cond = 1 + abs(c) / s                               # points relative to their spacing
    lamP = np.abs(refP).sum(axis=1).max()
    tolP = 2e-14 * n * lamP * max(1, np.abs(refP).max())
    h = np.ptp(pts) if n > 1 else 1
    tolQ = 1e-13 * n * cond * lamP * max(np.abs(refQ).max(), h)
    tol1 = 1e-12 * max(1e-300, np.abs(ref1).max())
    tol2 = 1e-12 * max(1e-300, np.abs(ref2).max()) * 10
    for mode, ref, scaled in MODES:
        key = f"points={pts.tolist()} {mode}/{ref}/scaled={scaled}"
        given = pts.copy()
        a = LA(given, weightComputation=mode, scaleRef=ref, scaleWeights=scaled)
        rec.state((pts.tobytes(), mode, ref, scaled))
        P = a.getInterpolationMatrix(T)
        rec.step(2); rec.trace()
        rec.expect(X.close(P, refP, tolP, 1), key, f"interpolation is not exact ({X.err(P, refP)} > {tolP:.1e})", got=P, expected=refP, times=T)
        for rule in RULES:
            Q = a.getIntegrationMatrix(I, numQuad=rule)
            rec.step()
            rec.expect(X.close(Q, refQ, tolQ, 1), f"{key} {rule}", f"integration is not exact ({X.err(Q, refQ)} > {tolQ:.1e})", got=Q, expected=refQ, intervals=I)
        D1, D2 = a.getDerivativeMatrix(1), a.getDerivativeMatrix(2)
        both = a.getDerivativeMatrix("ALL")
        rec.step(3)
        rec.expect(X.close(D1, ref1, tol1, 1), key, "first derivative is not exact", got=D1, expected=ref1)
        rec.expect(X.close(D2, ref2, tol2, 1), key, "second derivative is not exact", got=D2, expected=ref2)
        rec.expect(len(both) == 2 and X.close(both[0], ref1, tol1, 1) and X.close(both[1], ref2, tol2, 1), key, "order='ALL'")
        rec.expect(np.array_equal(given, pts), key, "points modified")
        rec.expect(X.close(a.points, pts, 0) and a.n == n and a.nPoints == n and a.nUniquePoints == n and not a.hasDuplicates, key, "points or sizes")
        # on a point : exactly a copy of the value
        E = a.getInterpolationMatrix(pts)
        rec.expect(np.array_equal(E, np.eye(n)), key, "not a copy on the interpolation points", got=E)
        if mode == "AUTO":
            rec.step(4)
            rec.expect(X.close(a.getDerivationMatrix(), ref1, tol1, 1) and X.close(a.getDerivationMatrix(order=2), ref2, tol2, 1), key, "deprecated getDerivationMatrix")
            f = np.cos(np.arange(n)) + 1j * np.sin(3 + np.arange(n))
            rec.expect(X.close(a(T, f), refP @ f, tolP, n), key, "evaluation as a function")
            b = LA(pts.tolist(), fValues=f)
            rec.expect(X.close(b(T), refP @ f, tolP, n) and X.close(b(T[0]), (refP @ f)[0], tolP, n), key, "evaluation with stored values")
            for dup in (True, False):
                rec.expect(X.close(a.getInterpolationMatrix(T, duplicates=dup), refP, tolP, 1), key, f"duplicates={dup} matters without duplicates")


def do_call(task, rec):
    from qmat.lagrange import LagrangeApproximation as LA
    pts = np.array([2., -1, 0.5, 0.25])
    L = X.Lag(pts)
    for f in ([1, 2, 3, 4], (0.5, -1, 2, 1.), np.array([1j, 2, 0, -1j])):
        a, b = LA(pts), LA(pts, fValues=f)
        for shape in ((), (1,), (3,), (2, 3), (3, 1), (1, 1, 4), (2, 2, 2), (0,)):
            t = np.linspace(-1.3, 2.2, int(np.prod(shape)) if shape else 1).reshape(shape)
            keep = t.copy()
            exp = (L.interp(t.ravel()) @ np.array(f)).reshape(shape)
            for call in (lambda: a(t, f), lambda: b(t), lambda: a(t, fValues=f), lambda: b(t.tolist()), lambda: LA(pts, fValues=[9, 9, 9, 9])(t, f)):
                rec.step(); rec.trace(); rec.state((str(f), shape))
                v = np.asarray(call())
                rec.expect(X.close(v, exp, 1e-12), f"call f={f} t of shape {shape}", "differs from the interpolation matrix", got=v, expected=exp)
            rec.expect(np.array_equal(t, keep), f"call t of shape {shape}", "argument modified")
        # the memory layout of the argument does not matter
        for shape in ((4,), (2, 3), (3, 2), (2, 3, 2), (3, 1, 2)):
            t = np.linspace(-1.3, 2.2, int(np.prod(shape))).reshape(shape)
            big = np.zeros([2 * k for k in shape]); big[tuple([slice(None, None, 2)] * len(shape))] = t
            for what, u in (("fortran", np.asfortranarray(t)), ("transposed", t.T), ("strided", big[tuple([slice(None, None, 2)] * len(shape))]), ("reversed", t[::-1]),
                            ("reversed last", t[..., ::-1]), ("swapped", np.swapaxes(t, 0, -1)), ("broadcast", np.broadcast_to(t[..., :1], shape)), ("read-only", X.readonly(t))):
                exp = (L.interp(u.ravel()) @ np.array(f)).reshape(u.shape)
                for call in (lambda: a(u, f), lambda: b(u)):
                    rec.step(); rec.trace(); rec.state((str(f), shape, what))
                    v = np.asarray(call())
                    rec.expect(X.close(v, exp, 1e-12), f"call f={f} t of shape {shape} {what}", "differs from the interpolation matrix", got=v, expected=exp)
        for t in (1, 0, np.float32(0.5), 2, [1, 2], np.array([[0, 1]])):
            rec.step(); rec.trace()
            tt = np.asarray(t, dtype=float)
            exp = (L.interp(tt.ravel()) @ np.array(f)).reshape(tt.shape)
            rec.expect(X.close(np.asarray(b(t)), exp, 1e-12), f"call f={f} t={t!r}", "differs from the interpolation matrix")
    rec.sample("function evaluation for 9 argument shapes")


def do_many(task, rec):
    """the number of evaluation points or intervals does not matter"""
    from qmat.lagrange import LagrangeApproximation as LA
    _, n, _, quick = task
    pts = np.array([0.3, -1., 1.25, 0., 2., -0.5, 0.75])[:n]
    L = X.Lag(pts)
    NMAX = 9001
    t = -1.2 + 3.4 * (np.arange(NMAX) * 0.6180339887498949 % 1)
    t[::97] = pts[np.arange(len(t[::97])) % n]                # some on the points
    u = np.roll(t, 1) if n > 1 else t + 0.25
    refP = L.interp(t)
    prim = X.Lag(pts).integ([(0., v) for v in t])             # integrals from 0
    refQ = np.roll(prim, 1, axis=0) - prim if n > 1 else np.full((NMAX, 1), 0.25)
    for count in [0, 1, 2, 3, 5, 7, 10, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, NMAX]:
        for mode in ("AUTO", "STABLE") if count > 100 else ("AUTO", "STABLE", "FAST", "CHEBFUN"):
            a = LA(pts, weightComputation=mode)
            key = f"{count} evaluations on points={pts.tolist()} {mode}"
            rec.state((n, count, mode)); rec.step(3); rec.trace()
            P = a.getInterpolationMatrix(t[:count])
            tol = 1e-12 * max(1, np.abs(refP).max())
            rec.expect(X.close(P, refP[:count], tol, 1), key, "interpolation", got=X.err(P, refP[:count]))
            if count:
                f = np.cos(np.arange(n) + 1.)
                v = a(t[:count], f)
                rec.expect(X.close(v, refP[:count] @ f, tol * n, 1), key, "evaluation as a function")
                for rule in RULES if count > 1000 else RULES[:1]:
                    Q = a.getIntegrationMatrix(np.column_stack([t[:count], u[:count]]), numQuad=rule)
                    rec.step()
                    rec.expect(X.close(Q, refQ[:count], tol * 10, 1), f"{key} {rule}", "integration", got=X.err(Q, refQ[:count]))
    rec.sample(key)


def forms(a):
    """the same numbers in different containers"""
    a = np.array(a, dtype=float)
    big = np.full([2 * k for k in a.shape], np.pi)
    sl = tuple([slice(None, None, 2)] * a.ndim)
    big[sl] = a
    out = [("list", a.tolist()), ("tuple", tuple(tuple(r) if a.ndim == 2 else r for r in a.tolist())), ("numpy scalars", [list(r) for r in a] if a.ndim == 2 else list(a)), ("strided", big[sl]), ("read-only", X.readonly(a)),
           ("fortran", np.asfortranarray(a)), ("reversed view", a[::-1].copy()[::-1])]
    if np.all(a.astype(np.float32) == a):
        out += [("float32", a.astype(np.float32)), ("longdouble", a.astype(np.longdouble))]
    if np.all(a == np.round(a)):
        out += [("int64", a.astype(np.int64)), ("int32", a.astype(np.int32)), ("ints", a.astype(int).tolist())]
        out += [(np.dtype(d).name, a.astype(d)) for d in (np.int8, np.uint8, np.int16, np.uint64) if a.size and a.min() >= np.iinfo(d).min and a.max() <= np.iinfo(d).max]
    return out


def do_forms(task, rec):
    from qmat.lagrange import LagrangeApproximation as LA
    _, n, _, quick = task
    for pts in (np.array([3., -1., 4., 0., 2., -5., 7.])[:n], np.array([0.5, -1.25, 3., 0.75, 2., -2.5, 0.])[:n], np.arange(n) + 0.):
        L = X.Lag(pts)
        for T, I in ((np.array([0., 1., -2., 5.]), np.array([(0., 1.), (1., 0.), (-3., 4.), (2., 2.)])), (np.array([0.25, 0.5, 3.]), np.array([(0.5, 0.75), (1., 0.), (0., 2.)])), (np.array([0.1]), np.array([(0.1, 0.7)])),
                     (np.array([0., 2., 11.]), np.array([(2., 0.), (11., 120.), (120., 90.), (0., 9.)]))):
            refP, refQ, ref1, ref2 = L.interp(T), L.integ(I), L.deriv(1), L.deriv(2)
            tolQ = 1e-12 if I.max() < 10 else 1e-12 * 20. ** n      # far outside the points: cancellation in the barycentric formula
            if tolQ > 1e-6:
                continue
            for pn, p in [("array", pts)] + forms(pts):
                a = LA(p)
                rec.expect(X.close(a.getDerivativeMatrix(1), ref1, 1e-12) and X.close(a.getDerivativeMatrix(2), ref2, 1e-11), f"points {pts.tolist()} as {pn}", "derivatives")
                for tn, t in [("array", T)] + forms(T):
                    key = f"points {pts.tolist()} as {pn}, times {T.tolist()} as {tn}"
                    rec.state(key); rec.step(2); rec.trace()
                    P = a.getInterpolationMatrix(t)
                    rec.expect(X.close(P, refP, 1e-12), key, "interpolation", got=P, expected=refP)
                    f = np.arange(n) * 2 - 3
                    for fn, fv in [("int array", f)] + forms(f):
                        v = np.asarray(a(t, fv))
                        rec.expect(X.close(v, refP @ f, 1e-11), f"{key}, values as {fn}", "evaluation as a function", got=v)
                for jn, iv in [("array", I), ("list of tuples", [tuple(r) for r in I.tolist()]), ("tuple of lists", tuple(I.tolist()))] + forms(I):
                    for rule in RULES:
                        key = f"points {pts.tolist()} as {pn}, intervals {I.tolist()} as {jn}, {rule}"
                        rec.state(key); rec.step(); rec.trace()
                        Q = a.getIntegrationMatrix(iv, numQuad=rule)
                        rec.expect(X.close(Q, refQ, tolQ), key, "integration", got=Q, expected=refQ)
    rec.sample(key)


def do_large(task, rec):
    from qmat.lagrange import LagrangeApproximation as LA
    _, fam, n, quick = task
    if fam == "CHEBY-1":
        s = np.cos((2 * np.arange(n) + 1)[::-1] * np.pi / (2 * n))
    elif fam == "LOBATTO":
        s = np.cos(np.arange(n)[::-1] * np.pi / (n - 1))
    else:
        s = np.polynomial.legendre.leggauss(n)[0]
    # an order that is neither increasing nor decreasing
    orders = {"increasing": np.arange(n), "decreasing": np.arange(n)[::-1], "interleaved": np.concatenate([np.arange(0, n, 2), np.arange(1, n, 2)[::-1]])}
    t = np.concatenate([np.cos(np.linspace(0, np.pi, 40)), s[::max(1, n // 10)], [-1, 1, 0.3]])
    iv = np.array([(-1, 1), (1, -1), (-1, 0.2), (0.1, 0.1), (0.9, -0.3), (0.99, 1)])
    deg = np.arange(n)
    V = lambda x: np.cos(np.outer(np.arccos(np.clip(x, -1, 1)), deg))
    def VI(x):                      # integrals of T_k from 0
        th = np.arccos(np.clip(x, -1, 1))
        out = np.zeros((len(x), n))
        for k in range(n):
            if k == 0:
                out[:, k] = x
            elif k == 1:
                out[:, k] = x ** 2 / 2
            else:
                out[:, k] = .5 * (np.cos((k + 1) * th) / (k + 1) - np.cos((k - 1) * th) / (k - 1))
        return out
    for a, b in ((-1, 1), (0, 1), (-1e-3, 1e-3), (0, 1e-5), (-1e3, 1e3), (0, 1e6), (5, 5.5)):
        for on, o in orders.items():
            x = (a + b) / 2 + (b - a) / 2 * s
            y = x[o]
            # the points actually represented, back on the reference interval
            sr = (x - (a + b) / 2) / ((b - a) / 2)
            te, ive = (a + b) / 2 + (b - a) / 2 * t, (a + b) / 2 + (b - a) / 2 * iv
            cond = 1 + abs(a + b) / (b - a)
            for mode in ("AUTO", "STABLE", "CHEBFUN", "FAST"):
                for ref in (("MAX", "ZERO") if mode == "STABLE" else ("MAX",)):
                    if mode == "FAST" and abs(n * np.log10((b - a) / 4)) > 250:
                        continue
                    if on != "increasing" and (mode != "AUTO" or n > 200) and on != "interleaved":
                        continue
                    key = f"{n} {fam} points on [{a},{b}] {on} {mode}/{ref}"
                    ap = LA(y, weightComputation=mode, scaleRef=ref)
                    rec.state(key); rec.step(2); rec.trace()
                    P = ap.getInterpolationMatrix(te)
                    F = V(sr[o])
                    e = np.abs(P @ F - V((te - (a + b) / 2) / ((b - a) / 2))).max()
                    tol = 1e-12 * n * cond
                    rec.expect(e <= tol, key, f"interpolation of Chebyshev polynomials: error {e:.1e}")
                    for rule in RULES if on == "increasing" and mode == "AUTO" else RULES[:1]:
                        Q = ap.getIntegrationMatrix(ive, numQuad=rule)
                        rec.step()
                        z = (ive - (a + b) / 2) / ((b - a) / 2)
                        e = np.abs(Q @ F / ((b - a) / 2) - (VI(z[:, 1]) - VI(z[:, 0]))).max()
                        rec.expect(e <= tol, f"{key} {rule}", f"integration of Chebyshev polynomials: error {e:.1e}")
                    if n <= 200 or on == "increasing":
                        D1, D2 = ap.getDerivativeMatrix("ALL")
                        rec.step(2)
                        # low degree polynomials, relative to the size of the matrices
                        u = (y - (a + b) / 2) / ((b - a) / 2)
                        h = (b - a) / 2
                        for k, f, d1, d2 in ((1, u, 1 + 0 * u, 0 * u), (3, 4 * u ** 3 - 3 * u, 12 * u ** 2 - 3, 24 * u), (4, 8 * u ** 4 - 8 * u ** 2 + 1, 32 * u ** 3 - 16 * u, 96 * u ** 2 - 16)):
                            e1 = np.abs(D1 @ f * h - d1).max() / max(1, np.abs(D1).max() * h)
                            e2 = np.abs(D2 @ f * h * h - d2).max() / max(1, np.abs(D2).max() * h * h)
                            rec.expect(e1 <= 1e-12 * n * cond and e2 <= 1e-12 * n * cond, key, f"derivatives of T_{k}: relative errors {e1:.1e}, {e2:.1e}")
    rec.sample(key)


def do_refuse(task, rec):
    from qmat.lagrange import LagrangeApproximation as LA
    pts = [0., 1., 2.5]
    a = LA(pts)
    cases = [("weightComputation", lambda v: LA(pts, weightComputation=v), ["auto", "", "SLOW", None, 1]),
             ("scaleRef", lambda v: LA(pts, weightComputation="STABLE", scaleRef=v), ["zero", "", "MIN", None]),
             ("numQuad", lambda v: a.getIntegrationMatrix([(0, 1)], numQuad=v), ["fejer", "", "LEGENDRE", None, 3]),
             ("order", lambda v: a.getDerivativeMatrix(v), [0, 3, -1, "all", None, "1"]),
             ("times", lambda v: a.getInterpolationMatrix(v), [1.5, [[0, 1]], np.zeros((2, 2))]),
             ("intervals", lambda v: a.getIntegrationMatrix(v), [(0, 1), [0.5], [(0, 1, 2)], [[(0, 1)]]]),
             ("fValues", lambda v: LA(pts, fValues=v), [[1, 2], [1, 2, 3, 4], 3., [[1, 2, 3]]]),
             ("call", lambda v: a(v), [0.5, [1, 2]])]
    for what, fn, vals in cases:
        for v in vals:
            rec.state((what, str(v))); rec.step(); rec.trace()
            rec.expect(X.refused(fn, v), f"{what}={v!r}", "accepted")
    rec.sample("refusals")
