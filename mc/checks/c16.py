"""C16 sparse interpolation: all small input grids, orders and short sequences of output points, against the set of admissible exact stencils."""
import itertools
import numpy as np
from .. import exact as X
from ..core import *

PROPERTY = "C16"
GRID_Q = [0, 0.125, 0.25, 0.5, 0.6, 0.875]
GRID_T = [0, 0.125, 0.2, 0.25, 0.5, 0.6, 0.75, 0.875]
SCALES = [(1, 0), (1e-9, 0), (1e3, 0), (1, -4), (1e-4, 3)]
BOUNDS = {"quick": "all subsets of 1-5 points of a 6-point grid x 5 scales/shifts x every order; output: every single point, every ordered pair and one sequence of all of ~15 candidates (coincident, nearly coincident, between, outside); permuted inputs; periodic: same with 3 periods, inputs and outputs shifted by whole periods; 7 to 520 input points in 5 families, orders 1 to 8, output sequences with the same offset to every input point; 0 to 2050 output points; subsets of 1-4 integer points as 5 number types",
          "thorough": "8-point grid, subsets of 1-6 points, pairs with every order"}
ASSUMPTIONS = ["input points distinct (modulo the period)", "between equally distant points any choice is accepted"]


def tasks(quick):
    grid = GRID_Q if quick else GRID_T
    for m in range(1, 6 if quick else 7):
        for sub in itertools.combinations(range(len(grid)), m):
            for si in range(len(SCALES)):
                yield ("plain", sub, si, quick)
            yield ("periodic", sub, 0, quick)
    yield ("refuse", (), 0, quick)
    for n in LARGE:
        for fam in ("dyadic", "cheby", "clustered", "periodic", "periodic-uneven"):
            yield ("large", (fam,), n, quick)
    yield ("manyout", (), 0, quick)
    for m in range(1, 5):
        for sub in itertools.combinations((0, 1, 3, 4, 7, 12), m):
            yield ("types", sub, 0, quick)


LARGE = [7, 8, 12, 16, 20, 32, 33, 50, 64, 100, 129, 200, 257, 520]


def large(fam, n, rec, fn, quick):
    i = np.arange(n)
    period = None
    if fam == "dyadic":
        x, h = i / 64. - 1, 1 / 64
    elif fam == "cheby":
        x, h = -np.cos((i + 0.5) * np.pi / n), None
    elif fam == "clustered":
        x, h = (i // 4) * 1. + (i % 4) * 0.0625, 0.0625     # groups of four close points
    elif fam == "periodic":
        x, h, period = i / n, 1 / n, 1.
    else:
        x, h, period = i * 2 + np.where(i % 3 == 1, 0.5, 0.), 0.5, 2. * n
    d = np.diff(x)
    sh = np.argsort(np.sin(i * 2.3))
    seqs = {}
    for k, q in enumerate((0.25, 0.125, -0.25) if h else ()):
        seqs[f"all points {q:+} gap"] = x + q * h            # same offset to every input point
    seqs["points, middles-"] = np.sort(np.concatenate([x, x[:-1] + 0.4375 * d]))
    seqs["beyond the ends"] = np.array([x[0] - 0.25 * d[0], x[-1] + 0.25 * d[-1], x[0], x[-1], x[n // 2] + 0.4 * d[n // 2 - 1]])
    seqs["shuffled"] = (x + 0.3 * np.append(d, d[-1]))[sh]
    if period:
        seqs["two periods"] = np.concatenate([x[:40] + 0.25 * h, x[:40] + 0.25 * h + period, x[:40] - period])
    for order in {1, 2, 3, 4, 5, 6, 8}:
        if order > n or (n > 129 and order in (2, 5, 6)):
            continue
        ref = Ref(x, order, period)
        for name, ts in seqs.items():
            if len(ts) > 300:
                ts = np.concatenate([ts[:100], ts[len(ts) // 2 - 50:len(ts) // 2 + 50], ts[-100:]])
            judge(rec, fn, x, list(ts), order, period, ref, f"{n} {fam} points order={order} out={name}", 1e-9 if fam == "clustered" else 1e-11)
        y = x[sh]
        judge(rec, fn, y, list(seqs["shuffled"][:30]), order, period, Ref(y, order, period), f"{n} {fam} points shuffled order={order}", 1e-9 if fam == "clustered" else 1e-11)
    rec.sample(f"{n} {fam} points: every row is the exact interpolation on the nearest points")


TYPES = [np.int8, np.uint8, np.uint16, np.uint64, np.float32]


def types(rec, fn, sub):
    """integer points of every width and sign, in one or both arguments"""
    for y in {sub, sub[::-1]}:
        x = np.array(y, dtype=float)
        ts = [float(t) for t in (0, 5, 2, 12, 13, 20, 1, 4, 6)]
        for period in (None, 13., 40.):
            for order in range(1, len(y) + 1):
                ref = Ref(x, order, period)
                for d in TYPES:
                    for n, conv in (("both", lambda a, b: (np.array(a).astype(d), np.array(b).astype(d))), ("in", lambda a, b: (np.array(a).astype(d), np.array(b))), ("out", lambda a, b: (np.array(a), np.array(b).astype(d)))):
                        judge(rec, fn, x, ts, order, period, ref, f"in={list(y)} period={period} order={order} {n} as {np.dtype(d).name} out={ts}", 1e-10, conv)
    rec.sample(f"in={list(sub)} as {len(TYPES)} number types")


def manyout(rec, fn):
    """the number of output points does not matter"""
    for x, period in ((np.array([0., 0.125, 0.5, 1.]), None), (np.array([0., 0.25, 0.375]), 1.)):
        for order in range(1, len(x) + 1):
            ref = Ref(x, order, period)
            base = [0.0625, 0.3125 + 0.01, 0.6875, 0.9, 0.125, -0.2, 1.1, 0.7]
            for m in (0, 1, 2, 3, 5, 8, 9, 16, 33, 64, 100, 129, 256, 257, 500, 1001, 1025, 2050):
                judge(rec, fn, x, [base[k * k % len(base)] if k % 3 else base[k % len(base)] for k in range(m)], order, period, ref, f"in={x.tolist()} period={period} order={order} out={m} points", 1e-12)
                judge(rec, fn, x, [base[0]] * m, order, period, ref, f"in={x.tolist()} period={period} order={order} out={m} times the same point", 1e-12)


def outs(x, h):
    """candidate output points"""
    xs = np.sort(x)
    mid = (xs[1:] + xs[:-1]) / 2
    return list(xs) + list(mid) + list(xs[:-1] + 0.3 * np.diff(xs)) + [xs[0] - 0.4 * h, xs[-1] + 0.45 * h, xs[0] + 1e-9 * h, xs[-1] - 1e-9 * h, xs[0] + 1e-6 * h]


class Ref:
    """admissible rows of the matrix"""
    def __init__(self, x, order, period):
        self.x, self.order, self.period = np.array(x), order, period
        self.memo, self.lag = {}, {}

    def rows(self, t):
        t = float(t)
        if t in self.memo:
            return self.memo[t]
        if self.period:
            # images of the input points around t
            cand = []
            for j, xj in enumerate(self.x):
                k0 = round((t - xj) / self.period)
                cand += [(xj + k * self.period, j) for k in (k0 - 1, k0, k0 + 1)]
        else:
            cand = [(xj, j) for j, xj in enumerate(self.x)]
        span = self.period or (np.ptp(self.x) or 1)
        d = np.array([abs(c[0] - t) for c in cand])
        D = np.sort(d)[self.order - 1]
        eps = 1e-9 * max(span, D) if not self.period else 1e-9 * span
        must = [c for c, v in zip(cand, d) if v < D - eps]
        opt = [c for c, v in zip(cand, d) if D - eps <= v <= D + eps]
        rows = []
        for extra in itertools.combinations(opt, self.order - len(must)):
            st = must + list(extra)
            if len({j for _, j in st}) < len(st):
                continue
            key = tuple(sorted(st))
            if key not in self.lag:
                self.lag[key] = X.Lag([p for p, _ in key])
            row = np.zeros(len(self.x))
            row[[j for _, j in key]] = self.lag[key].interp([t])[0]
            rows.append(row)
        self.memo[t] = rows
        return rows


def judge(rec, fn, x, ts, order, period, ref, key, tol, conv=None):
    gx, gt = conv(x, ts) if conv else (np.array(x), np.array(ts, dtype=float))
    A = fn(gx, gt, order, **({"gridPeriod": period} if period else {}))
    rec.step(); rec.trace(); rec.state(key)
    rec.expect(np.array_equal(gx, x) and np.array_equal(gt, np.array(ts, dtype=float)), key, "points modified")
    if not rec.expect(hasattr(A, "tocsc") and A.shape == (len(ts), len(x)), key, f"no sparse matrix of shape {(len(ts), len(x))}"):
        return
    rec.expect(bool(np.all(np.diff(A.tocsr().indptr) <= order)), key, "more entries in a row than requested")
    B = A.toarray()
    for i, t in enumerate(ts):
        rows = ref.rows(t)
        assert rows, (key, t)
        ok = any(X.close(B[i], r, tol, max(1., np.abs(r).max())) for r in rows)
        rec.expect(ok, key, f"row {i} (output point {t!r}) is not the interpolation on the {order} nearest points", got=B[i], expected=rows[0])
        hit = np.where(gx == t)[0]
        if len(hit) and not period:
            rec.expect(B[i, hit[0]] == 1 and np.count_nonzero(B[i]) == 1, key, f"row {i} does not copy the value of the coincident input point", got=B[i])


def run(task, rec):
    from qmat.lagrange import getSparseInterpolationMatrix as fn
    kind, sub, si, quick = task
    if kind == "refuse":
        for n in range(1, 6):
            for order in range(n + 1, n + 4):
                for per in (-1, 1.):
                    rec.state((n, order, per)); rec.step(); rec.trace()
                    rec.expect(X.refused(fn, np.arange(n) / 7., np.array([0.1]), order, gridPeriod=per), f"{n} points order {order} period {per}", "more entries than input points accepted")
        return
    if kind == "large":
        return large(sub[0], si, rec, fn, quick)
    if kind == "types":
        return types(rec, fn, sub)
    if kind == "manyout":
        return manyout(rec, fn)
    grid = GRID_Q if quick else GRID_T
    base = np.array([grid[i] for i in sub], dtype=float)
    if kind == "plain":
        s, c = SCALES[si]
        x = base * s + c
        h = np.ptp(x) if len(x) > 1 else s
        cond = 1 + abs(c) / s
        cands = outs(x, h)
        for order in range(1, len(x) + 1):
            ref = Ref(x, order, None)
            tol = 1e-12 * cond
            key = f"in={x.tolist()} order={order}"
            for t in cands:
                judge(rec, fn, x, [t], order, None, ref, f"{key} out={[t]}", tol)
            judge(rec, fn, x, cands, order, None, ref, f"{key} out=all", tol)
            judge(rec, fn, x, cands[::-1], order, None, ref, f"{key} out=all reversed", tol)
            if si < 2 or not quick:
                for p in itertools.product(cands, repeat=2):
                    judge(rec, fn, x, list(p), order, None, ref, f"{key} out={list(p)}", tol)
            perms = list(itertools.permutations(range(len(x)))) if len(x) <= 3 else [tuple(range(len(x)))[::-1], tuple(np.argsort(np.sin(np.arange(len(x)) * 2.3)))]
            for p in perms:
                y = x[list(p)]
                judge(rec, fn, y, cands, order, None, Ref(y, order, None), f"in={y.tolist()} order={order} out=all", tol)
            rec.expect(fn(x, np.array([]), order).shape == (0, len(x)), key, "no output points")
        rec.sample(f"{key}: every row is the exact interpolation on the nearest points")
        return
    # periodic: the grid is taken as one period of several lengths, the largest gap being the wrap around
    for period, s in ((1., 1.), (2 * np.pi, 2 * np.pi), (1e-3, 1e-3)):
        for shift in (0, 1, -3, 0.4, -0.5):
            x = base * s + shift * period
            cands = outs(x, 0.5 * s)
            cond = 1 + abs(shift)
            for order in range(1, len(x) + 1):
                ref = Ref(x, order, period)
                tol = 2e-12 * cond * (1 if order < 4 else 20)
                key = f"in={x.tolist()} period={period} order={order}"
                for q in (0, 1, -1, 7):
                    ts = [t + q * period for t in cands]
                    judge(rec, fn, x, ts, order, period, ref, f"{key} out=all+{q} periods", tol * (1 + abs(q)))
                if shift in (0, -3) and period == 1.:
                    for t in cands:
                        judge(rec, fn, x, [t], order, period, ref, f"{key} out={[t]}", tol)
                    for p in itertools.permutations(cands[:6], 2):
                        judge(rec, fn, x, list(p), order, period, ref, f"{key} out={list(p)}", tol)
                    y = x[::-1].copy()
                    judge(rec, fn, y, cands, order, period, Ref(y, order, period), f"in={y.tolist()} period={period} order={order} out=all", tol)
    rec.sample(f"{key}: every row is the exact interpolation on the nearest images")
