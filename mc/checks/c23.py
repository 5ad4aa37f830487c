"""C23 numerical utilities: exhaustive small inputs against exact rational / extended precision arithmetic."""
import itertools
from fractions import Fraction as F
import numpy as np
from .. import exact as X
from ..core import *

PROPERTY = "C23"
STEPS = [1, 2, 3, 8, 10, 100]
ERRS = [1e-12, 3e-5, 0.1, 1.0, 20.]
GRID = [-1., -0.5, 0., 0.25, 1., 2., 3.]
BOUNDS = {"quick": "numericalOrder: nearly equal, huge and many (280) steps, errors 1e-300 to 1e100, all sequences of 2-3 (steps from 6 values, errors from 5), 4 from 3x3, exact power laws up to 12 points, 5 input forms; getExtrapolationMatrix: all ordered subsets up to 3 and all subsets up to 6 of a 7-point grid, all multisets up to 4 of 3 values, all degrees, 5 scales/offsets, integer nodes up to 14 points, equidistant and Chebyshev nodes up to 33 (degrees up to 13); lduFactorization: all matrices of size 1-3 over {-1,0,2}, size 4 over {1,-1} (float, integer, Fortran and strided), sizes 5-30 of six structures, scales 2^-100 to 2^60, all collocation matrices up to 8 nodes, all non-square shapes up to 4; Fejer rules with 1-400 points; all well-formed sequences of up to 4 start / stop / with / with-and-raise operations on two Timers",
          "thorough": "sequences of 4 from 4x4; 4-value matrices of size 3, {1,-1,3}-matrices of size 4 (sub-lattice); Fejer rules with 1-1500 points; all subsets of the grid"}
ASSUMPTIONS = ["normal equations may lose accuracy as the squared condition number of the Vandermonde matrix; sets for which that bound exceeds 1e-3 are not judged",
               "LDU factorization exists only when all leading minors but the last are non-zero; the others are not judged"]


def tasks(quick):
    for first in STEPS:
        yield ("order", first, quick)
    yield ("power", 0, quick)
    yield ("timer", 0, quick)
    yield ("order more", 0, quick)
    for n in (5, 8, 12, 16, 17, 20, 24, 30):
        yield ("ldu large", n, quick)
    for i in range(5):
        yield ("extra", i, quick)
    yield ("extra multi", 0, quick)
    yield ("extra int", 0, quick)
    yield ("extra many", 0, quick)
    for i in range(6):
        yield ("ldu", i, quick)
    yield ("ldu coll", 0, quick)
    yield ("ldu refuse", 0, quick)
    top = 400 if quick else 1500
    for c in range(8):
        yield ("fejer", (c, top), quick)


def timers(rec, quick):
    """all well-formed sequences of start / stop / with / with-and-raise on two timers; elapsed time bracketed by the harness"""
    import contextlib, io, time
    from qmat.utils import Timer
    ops = [(t, o) for t in (0, 1) for o in ("start", "stop", "with", "raise")]
    for depth in range(1, 5 if quick else 6):
        for seq in itertools.product(ops, repeat=depth):
            on, ok = set(), True
            for t, o in seq:
                ok = ok and (t in on if o == "stop" else t not in on)
                on = on - {t} if o == "stop" else on | {t} if o == "start" else on
            if not ok or on:
                continue
            T = [Timer("first"), Timer("second", scale=8, descr="scaled")]
            scale, begin = (1, 8), {}
            key = f"Timer {seq}"
            rec.state(key); rec.trace()
            buf = io.StringIO()

            def check(t, lo, hi):
                w = T[t].tWall * scale[t]
                rec.expect(lo * 0.99 - 5e-3 <= w <= hi * 1.01 + 5e-3, key, f"timer {t} measured {w} (times its scale), the real duration is in [{lo}, {hi}]")
            with contextlib.redirect_stdout(buf):
                for t, o in seq:
                    rec.step()
                    a = time.perf_counter()
                    if o == "start":
                        T[t].start()
                        begin[t] = (a, time.perf_counter())
                    elif o == "stop":
                        T[t].stop()
                        check(t, a - begin[t][1], time.perf_counter() - begin[t][0])
                    else:
                        try:
                            with T[t]:
                                b = time.perf_counter()
                                if len(seq) < 4:
                                    time.sleep(0.02)
                                if o == "raise":
                                    raise KeyError("harness")
                                c = time.perf_counter()
                            rec.expect(o == "with", key, "exception swallowed")
                        except KeyError:
                            c = time.perf_counter()
                            rec.expect(o == "raise", key, "raises")
                        check(t, c - b, time.perf_counter() - a)
                    if len(seq) < 4:
                        time.sleep(0.02)
            out = buf.getvalue()
            rec.expect(out.count("first") == sum(t == 0 and o != "stop" for t, o in seq) and out.count("scaled") == sum(t == 1 and o != "start" for t, o in seq), key, "printed report", got=out)
    rec.sample(key)


def slope(steps, errs):
    x = -np.log10(np.asarray(steps, dtype=np.longdouble))
    y = np.log10(np.asarray(errs, dtype=np.longdouble))
    dx, dy = x - x.mean(), y - y.mean()
    b = (dx * dy).sum() / (dx * dx).sum()
    r = np.sqrt((((dy - b * dx)) ** 2).mean())
    return float(b), float(r)


def order_case(num, steps, errs, rec, forms, key=None, ref=None):
    ref = ref or slope(steps, errs)
    ls = np.log10(np.asarray(steps, dtype=float))
    tol = 1e-11 * (1 + abs(ref[0]) + ref[1]) + 1e-14 * (1 + np.abs(ls).max()) * (abs(ref[0]) + np.abs(np.log10(np.asarray(errs, dtype=float))).max()) / np.std(ls)
    for f in forms:
        s = {"list": list(steps), "array": np.array(steps), "float": np.array(steps, dtype=float), "tuple": tuple(steps), "int32": np.array(steps, dtype=np.int32)}[f]
        e = list(errs) if f in ("list", "tuple") else np.array(errs)
        s0, e0 = np.array(s), np.array(e)
        out = num.numericalOrder(s, e)
        rec.state(("order", f, tuple(steps), tuple(errs))); rec.step(); rec.trace()
        k = f"numericalOrder steps={list(steps)} err={list(errs)} as {f}"
        rec.expect(len(out) == 2 and abs(out[0] - ref[0]) < tol, k, f"slope {out[0]} instead of {ref[0]}")
        rec.expect(abs(out[1] - ref[1]) < tol, k, f"root mean square deviation {out[1]} instead of {ref[1]}")
        rec.expect(np.array_equal(np.array(s), s0) and np.array_equal(np.array(e), e0), k, "arguments modified")


def fsolve(A, B):
    """exact solution of A X = B over the rationals (A invertible)"""
    n = len(A)
    M = [list(A[i]) + list(B[i]) for i in range(n)]
    for c in range(n):
        p = next(r for r in range(c, n) if M[r][c] != 0)
        M[c], M[p] = M[p], M[c]
        M[c] = [v / M[c][c] for v in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [a - f * b for a, b in zip(M[r], M[c])]
    return [row[n:] for row in M]


def fit_matrix(nodes, times, p):
    x, t = [F(v) for v in nodes], [F(v) for v in times]
    V = [[xi ** j for j in range(p + 1)] for xi in x]
    G = [[sum(V[i][a] * V[i][b] for i in range(len(x))) for b in range(p + 1)] for a in range(p + 1)]
    R = fsolve(G, [[V[i][a] for i in range(len(x))] for a in range(p + 1)])
    return np.array([[float(sum(ti ** a * R[a][i] for a in range(p + 1))) for i in range(len(x))] for ti in t]).reshape(len(t), len(x))


def extra_case(num, nodes, times, p, rec, form="array", skip=1e-3):
    deg = len(nodes) - 1 if p is None else p
    V = np.vander(np.array(nodes, dtype=float), deg + 1, increasing=True)
    T = np.vander(np.array(times, dtype=float), deg + 1, increasing=True)
    nrm = np.abs(V).max(0)
    nrm[nrm == 0] = 1
    raw = np.linalg.cond(V)
    V, T = V / nrm, T / nrm             # elimination is insensitive to the scaling of the unknowns
    bound = 1e-15 * np.linalg.cond(V) ** 2 * max(1, np.abs(T).sum(1).max() * np.abs(np.linalg.pinv(V)).sum())
    if not bound < skip:
        rec.count("ill_conditioned_not_judged")
        return
    ref = fit_matrix(nodes, times, deg)
    tol = 30 * bound + max(1e-13, min(1e-3, 1e-15 * raw)) * max(1, np.abs(ref).max())
    a = {"array": np.array, "list": list, "tuple": tuple}[form]
    n, t = a(nodes), a(times)
    n0, t0 = np.array(n), np.array(t)
    P = num.getExtrapolationMatrix(n, t) if p is None else num.getExtrapolationMatrix(n, t, pOrder=p)
    rec.state(("extra", form, tuple(nodes), tuple(times), p)); rec.step(); rec.trace()
    k = f"getExtrapolationMatrix nodes={list(nodes)} times={list(times)} pOrder={p} {form}"
    rec.expect(X.close(P, ref, tol, 1), k, f"not the least-squares fit: {X.err(P, ref)} (tolerance {tol:.1e})", got=P, expected=ref)
    rec.expect(np.array_equal(np.array(n), n0) and np.array_equal(np.array(t), t0), k, "arguments modified")


def pivots(A):
    """exact LDU factors or None"""
    n = len(A)
    M = [[F(v) for v in r] for r in A]
    L = [[F(int(i == j)) for j in range(n)] for i in range(n)]
    for c in range(n):
        if M[c][c] == 0:
            return None if c < n - 1 else (L, M)
        for r in range(c + 1, n):
            f = M[r][c] / M[c][c]
            L[r][c] = f
            M[r] = [a - f * b for a, b in zip(M[r], M[c])]
    return L, M


def ldu_case(num, A, rec, form, scale=1.0):
    f = pivots(A)
    if f is None:
        rec.count("matrices_without_factorization")
        return
    Lr, R = f
    n = len(A)
    g = max(1., max(abs(float(v)) for r in Lr for v in r)) * max(1., max(abs(float(v)) for r in R for v in r))
    A = np.array(A, dtype=float) * scale if form != "int" else np.array(A, dtype=int)
    if form == "fortran":
        A = np.asfortranarray(A)
    elif form == "strided":
        B = np.full((2 * n, 2 * n), 99.)
        B[::2, ::2] = A
        A = B[::2, ::2]
    A0 = A.copy()
    out = num.lduFactorization(A)
    rec.state(("ldu", form, A0.tobytes(), scale)); rec.step(); rec.trace()
    k = f"lduFactorization {A0.tolist()} {form}"
    rec.expect(len(out) == 3 and all(np.shape(o) == (n, n) for o in out), k, "not three matrices of the given size")
    L, D, U = out
    rec.expect(np.array_equal(np.triu(L), np.eye(n)), k, "L is not unit lower triangular", L=L)
    rec.expect(np.array_equal(np.tril(U), np.eye(n)), k, "U is not unit upper triangular", U=U)
    rec.expect(np.array_equal(D, np.diag(np.diag(D))), k, "D is not diagonal", D=D)
    rec.expect(X.close(L @ D @ U, A0, 1e-13 * g * n, abs(scale) * max(1, np.abs(A0).max() / abs(scale))), k, "the product is not the given matrix", L=L, D=D, U=U)
    rec.expect(X.close(L, np.array([[float(v) for v in r] for r in Lr]), 1e-12 * g ** 2, 1), k, "L is not the (unique) factor", L=L)
    rec.expect(X.close(np.diag(D), np.array([float(R[i][i]) for i in range(n)]) * scale, 1e-12 * g ** 2, abs(scale)), k, "D is not the (unique) factor", D=D)
    rec.expect(np.array_equal(A, A0), k, "argument modified")


def run(task, rec):
    import warnings
    warnings.simplefilter("ignore")
    from qmat.utils import num
    kind, arg, quick = task
    if kind == "timer":
        return timers(rec, quick)
    with np.errstate(all="ignore"):
        if kind == "order":
            for L in (2, 3):
                for r in itertools.product(STEPS, repeat=L - 1):
                    st = (arg,) + r
                    if len(set(st)) < 2:
                        continue
                    for er in itertools.product(ERRS, repeat=L):
                        order_case(num, st, er, rec, ("list", "array") if L == 3 else ("list", "array", "float", "tuple", "int32"))
            a4 = STEPS[1:4] if quick else STEPS[:4]
            if arg in a4:
                for r in itertools.product(a4, repeat=3):
                    st = (arg,) + r
                    if len(set(st)) < 2:
                        continue
                    for er in itertools.product(ERRS[1:4] if quick else ERRS[:4], repeat=4):
                        order_case(num, st, er, rec, ("array",))
        elif kind == "order more":
            # steps very close to each other, very many, very many points; errors of any size
            for st in ([100, 101], [1000, 1001, 1002], [10 ** 6, 10 ** 6 + 5], [1, 10 ** 9], [10 ** 7, 10 ** 8, 10 ** 9], [5, 5, 6], [7, 8, 8, 8, 9], [2 ** 30, 2 ** 31 - 1], list(range(1, 41)), list(range(200, 100, -1)), [10] * 5 + [20], list(range(10, 2000, 7)), [1, 2] * 50):
                for er in ([1e-16 * (i + 1) for i in range(len(st))], [1e-200, 1e-100], [1e-300, 1e-12], [1e100, 1e3, 1.], [1., 1.], [0.3, 0.2, 0.1], [1e-15, 2e-15, 0.7e-15], [5e-5 * (1 + i % 7) for i in range(len(st))]):
                    order_case(num, st, (er * len(st))[:len(st)], rec, ("list", "array", "float", "tuple", "int32") if max(st) < 2 ** 31 else ("list", "array", "float"))
        elif kind == "ldu large":
            n = arg
            i, j = np.meshgrid(np.arange(n), np.arange(n), indexing="ij")
            for nm, A in (("dominant", np.where(i == j, 4. * n, ((3 * i + 5 * j) % 7) - 3.)), ("lower", np.where(i == j, 2. + i, np.where(i > j, 0.25, 0.))), ("upper", np.where(i == j, 2. + i, np.where(i < j, 0.25, 0.))),
                          ("tridiagonal", np.where(i == j, 2., np.where(abs(i - j) == 1, -1., 0.))), ("diagonal", np.where(i == j, 1. + i, 0.)), ("last row zero", np.where(i == j, 4. * n, 1.) * (i < n - 1))):
                for form in ("float", "int", "fortran", "strided") if np.all(A == np.round(A)) else ("float", "fortran", "strided"):
                    ldu_case(num, A.tolist(), rec, form)
                if n <= 12:
                    for sc in (2. ** -40, 2. ** 40):
                        ldu_case(num, A.tolist(), rec, "float", sc)
        elif kind == "power":
            for p in (-1, 0, 0.5, 1, 2, 3, 4, 5, 8):
                for c in (1e-8, 1.0, 7.3):
                    for n0 in (1, 3, 10):
                        for n in range(2, 13):
                            st = [n0 * 2 ** i for i in range(n)]
                            for perm in (st, st[::-1], st[1::2] + st[::2]):
                                order_case(num, perm, [c * float(s) ** -p for s in perm], rec, ("list", "array", "float", "tuple"), ref=(float(p), 0.))
        elif kind == "extra":
            s, c = [(1., 0.), (0.125, 0.), (1., 0.5), (2. ** -13, 0.), (2. ** 13, 0.)][arg]
            top = 6 if quick else 7
            for m in range(1, top + 1):
                sets = itertools.permutations(GRID, m) if m <= 3 else itertools.combinations(GRID, m)
                for ns in sets:
                    nodes = [v * s + c for v in ns]
                    T = [nodes[0], nodes[-1], c + 1.25 * s, c - 2 * s, 0., c + 4 * s]
                    for p in [None] + list(range(m)):
                        extra_case(num, nodes, T, p, rec)
                        if m <= 2:
                            extra_case(num, nodes, T[2:3], p, rec, "list")
                            extra_case(num, nodes, T * 2, p, rec, "tuple")
        elif kind == "extra multi":
            for m in range(2, 5 if quick else 6):
                for nodes in itertools.product([0., 0.5, 2.], repeat=m):
                    for p in range(len(set(nodes))):
                        extra_case(num, list(nodes), [0.5, 1.25, 3.], p, rec)
        elif kind == "extra int":
            for m in range(1, 15):
                for nodes in (list(range(m)), list(range(1, m + 1)), list(range(0, 10 * m, 10)), list(range(-m, 0)), [10 ** 4 * i for i in range(1, m + 1)]):
                    for T in ([m], [m, 2 * m, 0], [2 * nodes[-1] - nodes[0] + 1, nodes[0]]):
                        for p in [None] + list(range(m)):
                            for form in ("list", "array"):
                                extra_case(num, nodes, T, p, rec, form)
                                extra_case(num, [float(v) for v in nodes], T, p, rec, form)
        elif kind == "extra many":
            # many nodes on a symmetric interval, where the problem is well conditioned
            for m in list(range(7, 15)) + ([20, 33] if quick else [17, 20, 24, 33, 40]):
                for nm in ("equid", "cheb"):
                    x = np.linspace(-1, 1, m) if nm == "equid" else np.round(-np.cos(np.pi * (np.arange(m) + 0.5) / m), 6)
                    for perm in (x, x[::-1], np.r_[x[1::2], x[::2]]):
                        for p in [None] + [q for q in range(m) if q < 5 or m - q < 4 or q == m // 2]:
                            if (m - 1 if p is None else p) < 14:
                                extra_case(num, perm.tolist(), [1.125, -1.0625, 0.3, float(x[0])], p, rec)
        elif kind == "ldu":
            al = [-1, 0, 2] if quick else [-1, 0, 1, 2]
            forms = ["float", "int", "fortran", "strided"]
            mats = []
            for n in (1, 2):
                mats += [(n, m) for m in itertools.product(al, repeat=n * n)]
            cnt = 0
            for n, m in itertools.chain(mats, ((3, m) for m in itertools.product(al, repeat=9)), ((4, m) for m in itertools.product([1, -1], repeat=16)),
                                        () if quick else ((4, (1, 3, 1, -1) + m) for m in itertools.product([1, -1, 3], repeat=12))):
                cnt += 1
                if cnt % 6 != arg or (n == 4 and quick and cnt % 4):
                    continue
                A = [list(m[i * n:(i + 1) * n]) for i in range(n)]
                if n <= 2:
                    for f in forms:
                        ldu_case(num, A, rec, f)
                    for e in (-20, -100, 60):
                        ldu_case(num, A, rec, "float", 2.0 ** e)
                else:
                    ldu_case(num, A, rec, forms[(cnt // 6) % 4])
        elif kind == "ldu coll":
            from qmat.qcoeff.collocation import Collocation
            for nt, qt in X.families():
                for n in range(X.nmin(qt), 9 if quick else 13):
                    Q = Collocation(n, nt, qt).Q
                    if X.has_left(qt):
                        Q = Q[1:, 1:]
                    for nm, A in (("", Q), ("T", Q.T)):
                        ldu_case(num, [[float(v) for v in r] for r in A], rec, "strided" if nm else "float")
        elif kind == "ldu refuse":
            for n in range(1, 5):
                for m in range(1, 5):
                    if n != m:
                        rec.state((n, m)); rec.step(); rec.trace()
                        rec.expect(X.refused(num.lduFactorization, np.ones((n, m))), f"lduFactorization shape {(n, m)}", "non-square matrix accepted")
        elif kind == "fejer":
            from qmat.lagrange import computeFejerRule
            c, top = arg
            for n in range(1 + c, top + 1, 8):
                x, w = computeFejerRule(n)
                rec.state(("fejer", n)); rec.step(); rec.trace()
                k = f"computeFejerRule({n})"
                if not rec.expect(np.shape(x) == (n,) and np.shape(w) == (n,), k, f"shapes {np.shape(x)} {np.shape(w)}"):
                    continue
                o = np.argsort(x)
                x, w = np.asarray(x)[o], np.asarray(w)[o]
                th = (2 * np.arange(n, 0, -1, dtype=np.longdouble) - 1) * np.longdouble(np.pi) / (2 * n)
                rec.expect(X.close(x, np.cos(th).astype(float), 1e-14, 1), k, "not the Chebyshev nodes")
                rec.expect(w.min() > 0, k, f"weight {w.min()} not positive")
                # T_k(x_i), k < n
                kk = np.arange(n)
                M = np.cos(kk[:, None] * np.arccos(np.clip(x, -1, 1))[None, :])
                ex = np.where(kk % 2 == 0, 2. / np.where(kk == 1, 1, 1 - kk.astype(float) ** 2), 0.)
                d = np.abs(M @ w - ex)
                rec.expect(d.max() < 2e-13 * (1 + n / 100), k, f"integral of the Chebyshev polynomial of degree {int(d.argmax())} wrong by {d.max():.2e}")
                if n <= 12:
                    x2, w2 = computeFejerRule(float(n))
                    x3, w3 = computeFejerRule(np.int64(n))
                    rec.expect(np.allclose(np.sort(x2), x) and np.allclose(np.sort(x3), x) and np.allclose(w2[np.argsort(x2)], w), k, "depends on the type of the number of points")
    rec.sample(f"{kind} {arg}")
