"""C12 algebraic QDelta: all small matrices over an alphabet, and the Q of all methods, against exact elimination without pivoting."""
import itertools
from decimal import Decimal as D
from fractions import Fraction as F
import numpy as np
from .. import exact as X
from ..core import *

PROPERTY = "C12"
A2 = [-2., -1., -.5, 0., .25, 1., 3.]
A3Q = [-1., 0., 2.]
A3T = [-1., 0., .5, 2.]
BOUNDS = {"quick": "all 1x1 and 2x2 matrices over 7 values, all 3x3 over 3 values (19683), as arrays and scaled by 1e-12, 1e-9, 1e-6, 1e6, 1e10, 3x3 also by 1e-11 and 1e9; Q of 24 families x n<=12 x 5 intervals, n = 16, 24, 33 on [0,1] and all RK x 4 paddings; every name",
          "thorough": "3x3 over 4 values (262144), 4x4 over {-1,2} and banded 4x4, n<=16, 24, 33, 48"}
ASSUMPTIONS = ["a factorization without pivoting exists: every zero pivot has a zero column below it (LU), the first n-1 leading minors are non-zero (LDU); other matrices are skipped for LU/LDU"]
ALG = {"PIC": "PIC", "Picard": "PIC", "Exact": "Exact", "EXACT": "Exact", "LU": "LU", "LU2": "LU2", "QPar": "QPar", "Qpar": "QPar", "Qdiag": "QPar", "GS": "GS", "GaussSeidel": "GS", "LDU": "LDU"}


def elimination(A):
    """exact elimination of A (list of lists of Fraction) without pivoting: (L, U) or None"""
    n = len(A)
    U = [list(r) for r in A]
    one = U[0][0] * 0 + 1
    L = [[one * int(i == j) for j in range(n)] for i in range(n)]
    for i in range(n):
        if all(U[r][i] == 0 for r in range(i + 1, n)):
            continue
        if U[i][i] == 0:
            return None
        for r in range(i + 1, n):
            m = U[r][i] / U[i][i]
            L[r][i] = m
            U[r] = [x - m * y for x, y in zip(U[r], U[i])]
    return L, U


def fr(A):
    if len(A) > 12:               # 120 digits instead of exact fractions
        return [[D(float(x)) for x in r] for r in A]
    return [[F(float(x)) for x in r] for r in A]


def reference(name, A):
    """expected QDelta and the size of the largest intermediate number, or None"""
    n = len(A)
    if name == "PIC":
        return np.zeros((n, n)), 1
    if name == "Exact":
        return np.array(A), 1
    if name == "QPar":
        return np.diag([A[i][i] for i in range(n)]), 1
    if name == "GS":
        return np.array([[A[i][j] if j <= i else 0. for j in range(n)] for i in range(n)]), 1
    B = fr(A)
    if name in ("LU", "LU2"):
        BT = [[B[j][i] for j in range(n)] for i in range(n)]
        r = elimination(BT)
        if r is None:
            return None
        L, U = r
        grow = max([1.] + [abs(float(x)) for row in L for x in row])
        return np.array([[float(U[j][i]) for j in range(n)] for i in range(n)]) * (2 if name == "LU2" else 1), grow
    if name == "LDU":
        r = elimination(B)
        if r is None or any(r[1][i][i] == 0 for i in range(n - 1)):
            return None
        grow = max([1.] + [abs(float(x)) for row in r[0] for x in row])
        return np.diag([float(r[1][i][i]) for i in range(n)]), grow


def tasks(quick):
    for name in ALG:
        yield ("small", name, None, quick)
        top = A3Q if quick else A3T
        for first in itertools.product(top, repeat=2):
            yield ("three", name, first, quick)
        if not quick:
            yield ("four", name, None, quick)
        for nt in X.NODE_TYPES:
            yield ("coll", name, nt, quick)
        yield ("rk", name, None, quick)
    yield ("names", "", None, quick)


def judge(rec, key, cls, A, tol=1e-12, build=None):
    name = cls.__name__
    A = np.asarray(A, dtype=float)
    ref = reference(name, A.tolist())
    if ref is None:
        rec.count("no_factorization")
        return
    exp, grow = ref
    given = A.copy()
    g = build() if build else cls(given)
    rec.step(2); rec.trace(); rec.state((name, A.tobytes()))
    got = np.array(g.getQDelta())
    # backward error of the elimination: relative to |L||U|
    sc = max(1e-300, np.abs(A).max()) * grow ** 2 * len(A)
    rec.expect(X.close(got, exp, tol, max(sc, np.abs(exp).max())), key, "matrix does not have its defining property", got=got, expected=exp, Q=A)
    rec.expect(np.array_equal(given, A), key, "given matrix modified")
    rec.expect(X.close(g.dTau, np.zeros(len(A)), 0), key, "dTau is not zero")
    rec.expect(g.size == len(A), key, "size")
    if name == "Exact":
        rec.expect(np.array_equal(got, A), key, "not exactly Q")
    return got


def variants(rec, key, cls, A):
    """same answer however the matrix is stored, and when it is given as list or through the generic function"""
    from qmat import genQDeltaCoeffs
    ref = np.array(cls(np.array(A)).getQDelta())
    n = len(A)
    big = np.zeros((2 * n, 2 * n)); big[::2, ::2] = A
    for what, B in (("list", A.tolist()), ("fortran order", np.asfortranarray(A)), ("view", big[::2, ::2]), ("transposed twice", A.T.copy().T), ("int", A.astype(int) if np.array_equal(A, A.astype(int)) else A)):
        keep = np.array(B)
        rec.step(2); rec.trace()
        rec.expect(X.close(cls(Q=B).getQDelta(), ref, 1e-15), key, f"differs for Q given as {what}")
        rec.expect(X.close(genQDeltaCoeffs(cls.__name__, Q=B), ref, 1e-15), key, f"generic function differs for Q given as {what}")
        rec.expect(np.array_equal(np.array(B), keep), key, f"Q given as {what} modified")


def run(task, rec):
    from qmat import QDELTA_GENERATORS as G, Q_GENERATORS as QG
    from qmat.qcoeff.collocation import Collocation
    kind, name, par, quick = task
    if kind == "names":
        for alias, n in ALG.items():
            rec.state(alias); rec.step(); rec.trace()
            rec.expect(alias in G and G[alias] is G.get(n) and G[alias].__name__ == n, alias, "does not name " + n)
        return
    cls = G[name]
    if kind == "small":
        for x in A2:
            judge(rec, f"{name} Q=[[{x}]]", cls, [[x]])
        for i, e in enumerate(itertools.product(A2, repeat=4)):
            A = np.array(e).reshape(2, 2)
            judge(rec, f"{name} Q={A.tolist()}", cls, A)
            for s in (1e-12, 1e-9, 1e-6, 1e6, 1e10):
                judge(rec, f"{name} Q={s}*{A.tolist()}", cls, s * A)
            if i % 7 == 0 and reference(cls.__name__, A.tolist()) is not None:
                variants(rec, f"{name} Q={A.tolist()}", cls, A)
    elif kind == "three":
        top = A3Q if quick else A3T
        for e in itertools.product(top, repeat=7):
            A = np.array(par + e).reshape(3, 3)
            judge(rec, f"{name} Q={A.tolist()}", cls, A)
            if e[0] == e[-1] == 2:
                for s in (1e-11, 1e9):
                    judge(rec, f"{name} Q={s}*{A.tolist()}", cls, s * A)
    elif kind == "four":
        for e in itertools.product([-1., 2.], repeat=16):
            A = np.array(e).reshape(4, 4)
            judge(rec, f"{name} Q={A.tolist()}", cls, A)
        for e in itertools.product([-1., 0., 2.], repeat=10):
            A = np.zeros((4, 4))
            for (i, j), v in zip([(i, j) for i in range(4) for j in range(4) if abs(i - j) <= 1], e):
                A[i, j] = v
            judge(rec, f"{name} Q={A.tolist()}", cls, A)
    elif kind == "coll":
        for qt in X.QUAD_TYPES:
            top = 12 if quick else 16
            for n in list(range(X.nmin(qt), top + 1)) + [m for m in (16, 24, 33, 48)[:3 if quick else 4] if m > top and par != "EQUID"]:
                for a, b in ((0, 1), (1, 3), (-0.5, -0.25), (0, 1e-9), (-1e8, 1e8))[:None if n <= top else 1]:
                    c = Collocation(n, par, qt, a, b)
                    key = f"{name} {par} {qt} n={n} [{a},{b}]"
                    got = judge(rec, key, cls, c.Q, 1e-11, build=lambda: cls(qGen=c))
                    judge(rec, key, cls, c.Q, 1e-11)
                    if got is not None and cls.__name__ == "LU":
                        nilpotent(rec, key, got, np.array(c.Q), X.has_left(qt))
    else:
        for q, qc in QG.items():
            if qc is Collocation:
                continue
            for p in (None, "LEFT", "RIGHT", "BOTH"):
                c = qc(padding=p)
                judge(rec, f"{name} {q} padding={p}", cls, c.Q, 1e-12, build=lambda: cls(qGen=c))
    rec.sample(f"{name} {kind} {par}: equals exact elimination / triangle / diagonal of Q")


def nilpotent(rec, key, QD, Q, left):
    """stiff limit: I - QDelta^-1 Q is strictly upper triangular"""
    if left:
        QD, Q = QD[1:, 1:], Q[1:, 1:]
    n = len(Q)
    d = np.abs(np.diag(QD))
    if d.min() <= 1e-9 * np.abs(QD).max():
        rec.count("stiff_limit_too_ill_conditioned")
        return
    K = np.eye(n) - np.linalg.solve(QD, Q)
    rec.step()
    bound = 1e-13 * np.linalg.cond(QD) * max(1., np.abs(K).max())
    rec.expect(np.abs(np.tril(K)).max() <= max(bound, 1e-10), key, f"stiff iteration matrix is not nilpotent (lower part {np.abs(np.tril(K)).max():.1e})")
