"""Boring reference mathematics: Decimal (90 digits) polynomials, extended-precision Jacobi zeros. No qmat code."""
import decimal, functools
from decimal import Decimal as D
import numpy as np

CTX = decimal.Context(prec=90, Emin=-999999, Emax=999999)
decimal.setcontext(CTX)
ZERO, ONE = D(0), D(1)


def dec(x):
    return x if isinstance(x, D) else D(float(x)) if not isinstance(x, int) else D(x)


def decs(xs):
    return [dec(x) for x in xs]


# ---------------------------------------------------------------- polynomials (coefficients by increasing degree)
def pmul_lin(p, r):
    """p(x) * (x - r)"""
    out = [ZERO] * (len(p) + 1)
    for i, c in enumerate(p):
        out[i + 1] += c
        out[i] -= c * r
    return out


def peval(p, x):
    s = ZERO
    for c in reversed(p):
        s = s * x + c
    return s


def pder(p):
    return [c * i for i, c in enumerate(p)][1:] or [ZERO]


def pint(p, a, b):
    q = [ZERO] + [c / (i + 1) for i, c in enumerate(p)]
    return peval(q, b) - peval(q, a)


def basis(points):
    """Lagrange basis polynomials on the (distinct) points, shifted to the first point for conditioning."""
    n = len(points)
    full = [ONE]
    for p in points:
        full = pmul_lin(full, p)
    out = []
    for j, xj in enumerate(points):
        # synthetic division full / (x - xj)
        q = [ZERO] * n
        acc = ZERO
        for i in range(n, 0, -1):
            acc = full[i] + acc * xj
            q[i - 1] = acc
        d = ONE
        for k, xk in enumerate(points):
            if k != j:
                d *= xj - xk
        out.append([c / d for c in q])
    return out


class Lag:
    """Exact Lagrange matrices for distinct points (floats taken at their exact value)."""

    def __init__(self, points):
        pts = decs(points)
        self.o = pts[0]
        self.p = [x - self.o for x in pts]
        self.b = basis(self.p)

    def interp(self, times):
        return np.array([[float(peval(b, dec(t) - self.o)) for b in self.b] for t in times]).reshape(-1, len(self.p))

    def integ(self, intervals):
        return np.array([[float(pint(b, dec(a) - self.o, dec(c) - self.o)) for b in self.b] for a, c in intervals]).reshape(-1, len(self.p))

    def deriv(self, order):
        db = [pder(b) for b in self.b]
        if order == 2:
            db = [pder(b) for b in db]
        return np.array([[float(peval(b, x)) for b in db] for x in self.p])


# ---------------------------------------------------------------- nodes
AB = {"LEGENDRE": (0, 0), "CHEBY-1": (-.5, -.5), "CHEBY-2": (.5, .5), "CHEBY-3": (-.5, .5), "CHEBY-4": (.5, -.5)}
NODE_TYPES = ["EQUID", "LEGENDRE", "CHEBY-1", "CHEBY-2", "CHEBY-3", "CHEBY-4"]
QUAD_TYPES = ["GAUSS", "RADAU-LEFT", "RADAU-RIGHT", "LOBATTO"]


def has_left(q):
    return q in ("RADAU-LEFT", "LOBATTO")


def has_right(q):
    return q in ("RADAU-RIGHT", "LOBATTO")


def nmin(q):
    return 2 if has_left(q) else 1


@functools.lru_cache(None)
def jacobi_rec(a, b, n):
    """Monic recurrence coefficients of the Jacobi polynomials (weight (1-x)^a (1+x)^b)."""
    al, be = [], []
    for k in range(n):
        s = 2 * k + a + b
        al.append((b - a) / (a + b + 2) if k == 0 else (b * b - a * a) / (s * (s + 2)))
        if k == 0:
            be.append(0.)
        elif k == 1:
            be.append(4 * (1 + a) * (1 + b) / ((2 + a + b) ** 2 * (3 + a + b)))
        else:
            be.append(4 * k * (k + a) * (k + b) * (k + a + b) / (s * s * (s + 1) * (s - 1)))
    return np.array(al, dtype=np.longdouble), np.array(be, dtype=np.longdouble)


def jacobi_eval(a, b, n, x):
    """p_n(x), p_n'(x), rescaled by a common positive factor, in extended precision"""
    al, be = jacobi_rec(a, b, n)
    x = np.asarray(x, dtype=np.longdouble)
    p0, p1 = np.zeros_like(x), np.ones_like(x)
    d0, d1 = np.zeros_like(x), np.zeros_like(x)
    for k in range(n):
        p0, p1, d0, d1 = p1, (x - al[k]) * p1 - be[k] * p0, d1, p1 + (x - al[k]) * d1 - be[k] * d0
        p0, p1, d0, d1 = 2 * p0, 2 * p1, 2 * d0, 2 * d1
    return p1, d1


@functools.lru_cache(None)
def jacobi_zeros(a, b, n):
    """Zeros in extended precision, certified by sign changes."""
    if n == 0:
        return np.zeros(0, dtype=np.longdouble)
    al, be = jacobi_rec(a, b, n)
    J = np.diag(al.astype(float)) + np.diag(np.sqrt(be[1:].astype(float)), 1) + np.diag(np.sqrt(be[1:].astype(float)), -1)
    x = np.sort(np.linalg.eigvalsh(J)).astype(np.longdouble)
    for _ in range(3):
        p, d = jacobi_eval(a, b, n, x)
        x = x - p / d
    eps = np.longdouble(2e-16)
    lo, hi = jacobi_eval(a, b, n, x - eps)[0], jacobi_eval(a, b, n, x + eps)[0]
    assert np.all(lo * hi < 0) and np.all(np.diff(x) > 2 * eps), ("reference nodes not certified", a, b, n)
    return x


@functools.lru_cache(None)
def ref_nodes(nodeType, quadType, n):
    """Reference nodes on [-1,1] (longdouble)."""
    L, R = has_left(quadType), has_right(quadType)
    one = np.longdouble(1)
    if nodeType == "EQUID":
        m = n + (0 if L else 1) + (0 if R else 1) - 1       # number of gaps
        i = np.arange(m + 1, dtype=np.longdouble)
        x = -one + 2 * i / m if m else np.array([-one])
        return x[(0 if L else 1):(len(x) if R else len(x) - 1)]
    a, b = AB[nodeType]
    z = jacobi_zeros(a + (1 if R else 0), b + (1 if L else 0), n - L - R)
    return np.concatenate([[-one] * L, z, [one] * R])


def families():
    return [(nt, qt) for nt in NODE_TYPES for qt in QUAD_TYPES]


# ---------------------------------------------------------------- comparisons
def close(x, ref, tol, scale=None):
    """max |x-ref| <= tol * scale, shapes equal, everything finite"""
    x, ref = np.asarray(x), np.asarray(ref)
    if x.shape != ref.shape:
        return False
    if x.size == 0:
        return True
    if scale is None:
        scale = max(1., float(np.max(np.abs(ref))))
    with np.errstate(all="ignore"):
        return bool(np.all(np.isfinite(x)) and np.max(np.abs(x - ref)) <= tol * scale)


def err(x, ref):
    x, ref = np.asarray(x), np.asarray(ref)
    if x.shape != ref.shape:
        return f"shape {x.shape} instead of {ref.shape}"
    return float(np.max(np.abs(x - ref))) if x.size else 0.


def refused(fn, *a, **k):
    """Does the call raise an ordinary exception ?"""
    try:
        fn(*a, **k)
    except Exception:
        return True
    return False


def readonly(a):
    a = np.array(a)
    a.setflags(write=False)
    return a
