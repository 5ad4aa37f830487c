"""C15 duplicated interpolation points: all sequences over few values, against exact Lagrange polynomials on the distinct values."""
import itertools
import numpy as np
from .. import exact as X
from ..core import *

PROPERTY = "C15"
VALS_Q = [-0.5, 0., 1.25, 2.]
VALS_T = [-1., -0.5, 0.1, 1.25, 2.]
SCALES = [(1, 0), (1e-2, 3), (1e-15, 0)]
MODES = ["AUTO", "FAST", "STABLE", "CHEBFUN"]
BOUNDS = {"quick": "all sequences of length 1-4 over 4 values (also over 0, -0, 1.5, -1) and 5 over 3, sequences of 6 to 60 points in 8 repetition patterns of 2 to 59 distinct values, 2-33 points with two very close ones (gaps 1e-3 to 1e-12), both strategies, 4 weight modes (also rescaled), 3 quadrature rules, duplicates on/off, 3 scales; unknown strategies",
          "thorough": "length 1-5 over 5 values, 6 over 3"}
ASSUMPTIONS = ["duplicates are exactly equal floating point numbers"]


def tasks(quick):
    vals = VALS_Q if quick else VALS_T
    for first in range(len(vals)):
        for si in range(len(SCALES)):
            yield ("seq", first, si, quick)
    yield ("refuse", 0, 0, quick)
    for first in range(4):
        yield ("zeros", first, 0, quick)
    for n in (2, 3, 5, 9, 12, 16, 17, 20, 25, 33):
        yield ("near", n, 0, quick)
    for n in LONG:
        yield ("long", n, 0, quick)


LONG = [6, 7, 8, 10, 12, 15, 16, 17, 20, 30, 33, 60]


def long_seqs(n):
    """longer sequences: the same few distinct values (Chebyshev) repeated in different patterns"""
    for m in {2, 3, 4, min(n - 1, 6), min(n - 1, 10), max(2, n - 1), max(2, n // 2)}:
        v = [float(x) for x in -np.cos(np.arange(m) * np.pi / (m - 1))]
        v[0], v[-1] = -1., 1.
        for pat in (lambda i: i % m, lambda i: (i * m) // n, lambda i: m - 1 - i % m, lambda i: (7 * i * i + 3 * i) % m if i >= m else i, lambda i: i if i < m else 0, lambda i: i if i < m else m - 1, lambda i: max(0, i - (n - m)), lambda i: min(i, n - 1 - i) % m):
            seq = [v[pat(i)] for i in range(n)]
            if len(set(seq)) == m:              # all the Chebyshev points are there : well conditioned
                yield seq


def near(n, rec, LA):
    """distinct points that are very close are not duplicates; exact duplicates elsewhere are"""
    base = [float(v) for v in -np.cos(np.arange(n) * np.pi / max(n - 1, 1))]
    for gap in (1e-3, 1e-6, 1e-8, 1e-10, 1e-12):
        for at in sorted({0, 1, n // 2, n - 1}):
            if at >= n:
                continue
            for where in sorted({0, n // 2, n}):
                for dup in (None, 0, n - 1, n // 2):
                    pts = base[:where] + [base[at] + gap] + base[where:]
                    if len(set(pts)) <= n:
                        continue
                    if dup is not None:
                        pts = pts + [base[dup]]
                    uniq = sorted(set(pts)) if dup is not None else pts
                    for strat, mode in (("USE_LEFT", "AUTO"), ("USE_RIGHT", "STABLE"), ("USE_LEFT", "FAST")):
                        key = f"{n} Chebyshev points, one more at {gap} of number {at}, in position {where}, duplicate of number {dup} {strat} {mode}"
                        rec.state((n, gap, at, where, dup, strat, mode)); rec.step(3); rec.trace()
                        a = LA(np.array(pts), weightComputation=mode, duplicates=strat)
                        rec.expect(a.nUniquePoints == len(uniq) and bool(a.hasDuplicates) == (dup is not None), key, "close points are not duplicates")
                        P = a.getInterpolationMatrix(uniq)
                        rec.expect(X.close(P, expand(np.eye(len(uniq)), pts, uniq, strat), 1e-12, 1), key, "not the identity at the points", got=P)
                        f = np.array([1. + v * v for v in pts])
                        t = np.array([-0.97, 0.031, 0.77])
                        rec.expect(X.close(a(t, f), 1 + t * t, 1e-14 * n / gap, 1), key, "evaluation between the points")


ZEROS = [0., -0., 1.5, -1.]


def seqs(first, quick, vals=None):
    vals = vals or (VALS_Q if quick else VALS_T)
    for m in range(0, 4 if quick else 5):
        for r in itertools.product(range(len(vals)), repeat=m):
            yield [vals[first]] + [vals[i] for i in r]
    if first < 3 and vals is not ZEROS:
        for r in itertools.product(range(3), repeat=4 if quick else 5):
            yield [vals[first]] + [vals[i] for i in r]


def expand(cols, pts, uniq, strat):
    """columns for the chosen occurrence of every distinct value, zero elsewhere"""
    out = np.zeros((cols.shape[0], len(pts)))
    for j, u in enumerate(uniq):
        idx = [i for i, p in enumerate(pts) if p == u]
        out[:, idx[0] if strat == "USE_LEFT" else idx[-1]] = cols[:, j]
    return out


def run(task, rec):
    import warnings
    warnings.simplefilter("ignore")
    from qmat.lagrange import LagrangeApproximation as LA
    kind, first, si, quick = task
    if kind == "refuse":
        for bad in ("LEFT", "use_left", "", None, "USE_BOTH", 1):
            for pts in ([0, 0, 1], [1, 0, 1.], [2, 2]):
                rec.state((str(bad), str(pts))); rec.step(); rec.trace()
                rec.expect(X.refused(LA, pts, duplicates=bad), f"duplicates={bad!r} points={pts}", "unknown strategy accepted")
        return
    if kind == "near":
        near(first, rec, LA)
        rec.sample(f"{first} points and one very close to another")
        return
    s, c = SCALES[si]
    memo = {}
    with np.errstate(all="ignore"):
        for seq in (long_seqs(first) if kind == "long" else seqs(first, quick, ZEROS if kind == "zeros" else None)):
            pts = [v * s + c for v in seq]
            uniq = sorted(set(pts))
            if len(uniq) == len(pts):
                uniq = pts                      # without duplicates everything follows the given order
            k = tuple(uniq)
            if k not in memo:
                L = X.Lag(uniq)
                lo, hi = min(uniq), max(uniq)
                h = hi - lo or s
                T = uniq + [lo + 0.3 * h, hi + 0.2 * h, (lo + hi) / 2]
                I = [(lo, hi), (hi, lo), (lo, lo), (lo - 0.5 * h, hi + h / 4), (lo, lo + h / 3)]
                if kind == "long":              # extrapolation far from many points is ill conditioned
                    T[-2] = hi + 1e-3 * h
                    I[3] = (hi - h / 2, hi)
                memo[k] = T, I, L.interp(T), L.integ(I), L.deriv(1), L.deriv(2)
            T, I, P, Q, D1, D2 = memo[k]
            cond = (1 + abs(c) / s) * len(pts)
            tol = {"P": 1e-13 * cond * max(1, np.abs(P).max()), "Q": 1e-13 * cond * np.abs(Q).max() * 10, "D1": 1e-12 * cond * max(np.abs(D1).max(), 1e-3), "D2": 1e-12 * cond * max(np.abs(D2).max(), 1e-3)}
            for strat in ("USE_LEFT", "USE_RIGHT", None):
                for mode in MODES:
                    if strat is None and mode != "AUTO":
                        continue
                    for scaled in (False, True):
                        kw = dict(weightComputation=mode, scaleWeights=scaled)
                        if strat:
                            kw["duplicates"] = strat
                        given = np.array(pts)
                        a = LA(given, **kw)
                        st = strat or "USE_LEFT"
                        key = f"points={pts} {strat} {mode} scaled={scaled}"
                        rec.state((tuple(pts), strat, mode, scaled))
                        rec.step(8); rec.trace()
                        ex = lambda m: expand(m, pts, uniq, st)
                        rec.expect(X.close(a.getInterpolationMatrix(T), ex(P), tol["P"], 1), key, "interpolation", got=a.getInterpolationMatrix(T), expected=ex(P))
                        for rule in ("FEJER", "LEGENDRE_NUMPY", "LEGENDRE_SCIPY"):
                            rec.expect(X.close(a.getIntegrationMatrix(I, rule), ex(Q), tol["Q"], 1), f"{key} {rule}", "integration", got=a.getIntegrationMatrix(I, rule), expected=ex(Q))
                            rec.expect(X.close(a.getIntegrationMatrix(I, numQuad=rule, duplicates=False), Q, tol["Q"], 1), f"{key} {rule} duplicates=False", "integration")
                        rec.expect(X.close(a.getInterpolationMatrix(T, duplicates=False), P, tol["P"], 1), f"{key} duplicates=False", "interpolation", expected=P)
                        both, raw = a.getDerivativeMatrix("ALL"), a.getDerivativeMatrix("ALL", duplicates=False)
                        for o, D in ((1, D1), (2, D2)):
                            t = tol[f"D{o}"]
                            for v in (a.getDerivativeMatrix(o), both[o - 1]):
                                rec.expect(deriv_ok(v, D, pts, uniq, st, t), f"{key} order={o}", "derivative", got=v, expected=D)
                            for v in (a.getDerivativeMatrix(o, duplicates=False), raw[o - 1]):
                                rec.expect(X.close(v, D, t, 1), f"{key} order={o} duplicates=False", "derivative", got=v, expected=D)
                        rec.expect(a.nPoints == a.n == len(pts) and a.nUniquePoints == len(uniq) and bool(a.hasDuplicates) == (len(pts) > len(uniq)), key, "sizes")
                        rec.expect(X.close(a.points, np.array(pts), 0) and np.array_equal(given, np.array(pts)), key, "points modified")
                        # a function whose values at unused duplicates are meaningless
                        f = np.array([np.sin(i + 1.) for i in range(len(pts))])
                        sel = f[[([i for i, p in enumerate(pts) if p == u][0 if st == "USE_LEFT" else -1]) for u in uniq]]
                        rec.step()
                        rec.expect(X.close(a(np.array(T), f), P @ sel, tol["P"] * len(uniq), 1), key, "evaluation as a function")
    rec.sample(f"{key}: columns only for the chosen occurrences")


def deriv_ok(v, D, pts, uniq, strat, tol):
    """one column per given point; the rows are those of the distinct points (increasing when there are duplicates)"""
    return X.close(v, expand(D, pts, uniq, strat), tol, 1)
