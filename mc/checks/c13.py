"""C13 diagonal QDelta: every diagonal approximation, family, size and sweep index against its defining property."""
import itertools
import numpy as np
from .. import exact as X
from ..core import *
from ..tabledata import MIN3, VDHS

PROPERTY = "C13"
NAMES = {"MIN": "MIN", "MIN-Speck": "MIN", "MIN3": "MIN3", "Magic_Numbers": "MIN3", "MIN_VDHS": "MIN_VDHS", "VDHS": "MIN_VDHS", "MIN_SR_NS": "MIN_SR_NS", "MIN-SR-NS": "MIN_SR_NS", "MIN_GT": "MIN_SR_NS",
         "MIN_SR_S": "MIN_SR_S", "MIN-SR-S": "MIN_SR_S", "MIN_SR_FLEX": "MIN_SR_FLEX", "MIN-SR-FLEX": "MIN_SR_FLEX", "Jumper": "Jumper", "JUMPER": "Jumper", "FB": "Jumper",
         "FlexJumper": "FlexJumper", "FLEX-JUMPER": "FlexJumper", "FB2": "FlexJumper", "DNODES": "DNODES", "DNODES-1": "DNODES"}
for _i in range(2, 6):
    NAMES[f"DNODES{_i}"] = NAMES[f"DNODES-{_i}"] = f"DNODES{_i}"
FAR = [20, 51, 1000]                            # many more sweeps than nodes
KDEP = {"MIN_SR_FLEX", "Jumper", "FlexJumper"}
BOUNDS = {"quick": "all diagonal approximations; 24 families x n<=8 (variable ones: first M sweeps also n = 9, 12, 16, 25, 40; node-based ones to 12 and 16, 25, 40, 64, 100) and several intervals; every sweep index None, 1..M+3, 20, 51, 1000, refused indices 0, -1, -7; every table entry and every missing one up to n=12; node vectors of length 1-3 over 9 values",
          "thorough": "as quick with n<=12 for MIN-SR-S/FLEX, node vectors of length 4"}
ASSUMPTIONS = ["nodes and Q of collocation methods are judged by C01/C02", "stiff coefficients: nilpotency up to the rounding of the determinant based solve, 50*10^(-13+0.8(n-3))"]


def tasks(quick):
    for name in sorted(NAMES):
        cls = NAMES[name]
        if cls in ("MIN3", "MIN_VDHS"):
            yield ("table", name, None, quick)
        elif cls in ("MIN_SR_S", "MIN_SR_FLEX", "MIN"):
            for nt, qt in X.families():
                yield (cls, name, (nt, qt), quick)
        else:
            yield ("nodes", name, None, quick)
    yield ("names", "", None, quick)


def divider(cls, k, M):
    """documented coefficient = nodes / divider"""
    if cls == "MIN_SR_NS":
        return M
    if cls == "Jumper":
        return 2 * (k or 1)
    if cls == "FlexJumper":
        return 1 if k in (None, 1) else 2 * (k - 1)
    return int(cls[6:] or 1)                    # DNODESn


def diag(rec, key, A, M):
    A = np.array(A)
    rec.expect(A.shape == (M, M) and not (A - np.diag(np.diag(A))).any(), key, "not a diagonal matrix", got=A)
    return np.diag(A)


def run(task, rec):
    from qmat import QDELTA_GENERATORS as G
    kind, name, par, quick = task
    if kind == "names":
        for alias, n in NAMES.items():
            rec.state(alias); rec.step(); rec.trace()
            if rec.expect(alias in G and G[alias] is G.get(n) and G[alias].__name__ == n, alias, "does not name " + n):
                rec.expect(G[alias].isKDependent(G[alias]) == (n in KDEP), alias, "isKDependent")
        return
    cls = G[name]
    cn = NAMES[name]
    if cls.__name__ != cn:
        return rec.fail(name, f"names {cls.__name__}")
    {"table": table, "MIN_SR_S": stiff, "MIN_SR_FLEX": flex, "MIN": minimize, "nodes": node_based}[kind](rec, cls, cn, name, par, quick)


def refuse_k(rec, key, gen):
    for k in (0, -1, -7):
        rec.step()
        rec.expect(X.refused(gen.getQDelta, k) and X.refused(gen.genCoeffs, k) and X.refused(gen.genCoeffs, [1, k]), key, f"sweep index {k} accepted")


def node_based(rec, cls, cn, name, par, quick):
    from qmat.qcoeff.collocation import Collocation
    vals = [-2, -0.3, 0, 0.1, 0.5, 1, 1.25, 3, 1e3]

    def one(key, gen, nodes):
        nodes = np.array(nodes, dtype=float)
        M = len(nodes)
        rec.state((cn, nodes.tobytes()))
        for k in [None] + (list(range(1, M + 4)) if M < 13 else [1, 2, 3, 7, 12, 13, M - 1, M, M + 1, 2 * M, 2 * M + 1]) + FAR + ([np.int64(2), np.int32(M + 1)] if cn in KDEP else []):
            rec.step(2); rec.trace()
            exp = nodes / divider(cn, k, M)
            got = diag(rec, f"{key} k={k}", gen.getQDelta(k), M)
            rec.expect(X.close(got, exp, 1e-14, max(1e-300, np.abs(nodes).max())), f"{key} k={k}", "coefficients are not the documented ones", got=got, expected=exp)
            rec.expect(X.close(gen.genCoeffs(k), np.diag(exp), 1e-14, max(1e-300, np.abs(nodes).max())), f"{key} k={k}", "genCoeffs differs")
        rec.expect(X.close(gen.dTau, np.zeros(M), 0) and gen.size == M, key, "dTau or size")
        if cn in KDEP:
            refuse_k(rec, key, gen)
    for m in range(1, 4 if quick else 5):
        for v in itertools.product(vals, repeat=m):
            one(f"{name} nodes={v}", cls(v if len(v) % 2 else np.array(v, dtype=float)), v)
    one(f"{name} int nodes", cls(np.array([1, 2, 5])), [1, 2, 5])
    one(f"{name} list", cls([1, 2, 3, 7]), [1, 2, 3, 7])
    for nt, qt in X.families():
        for n in list(range(X.nmin(qt), 13)) + [16, 25, 40, 64, 100]:
            for a, b in ((0, 1), (1, 3))[:2 if n < 13 else 1]:
                c = Collocation(n, nt, qt, a, b)
                one(f"{name} {nt} {qt} n={n} [{a},{b}]", cls(qGen=c), c.nodes)
                if a == 0:
                    nilpotent_ns(rec, f"{name} {nt} {qt} n={n}", cls(qGen=c), cn, np.array(c.Q), n)
    rec.sample(f"{name}: diagonal nodes/divider for every sweep")


def nilpotent_ns(rec, key, gen, cn, Q, n):
    """the non-stiff coefficients make Q - QDelta nilpotent"""
    if cn == "MIN_SR_NS" and n <= 10:
        rec.step()
        p = np.poly(Q - gen.getQDelta())
        tol = 1e-14 * 10 ** (0.5 * n)
        rec.expect(np.abs(p[1:]).max() <= tol, key, f"Q - QDelta is not nilpotent ({np.abs(p[1:]).max():.1e})")


def stiff_ok(rec, key, d, Q, left, n):
    if left:
        rec.expect(d[0] == 0, key, "first coefficient is not zero although the first node is")
        d, Q = d[1:], Q[1:, 1:]
    rec.expect(bool(np.all(np.isfinite(d))) and (d > 0).all() and (np.diff(d) > 0).all(), key, "stiff coefficients are not positive and increasing with the nodes", got=d)
    p = np.poly(np.eye(len(Q)) - Q / d[:, None])
    tol = 50 * 10 ** (-13 + 0.8 * (n - 3))
    rec.expect(np.abs(p[1:]).max() <= tol, key, f"stiff iteration matrix is not nilpotent ({np.abs(p[1:]).max():.1e} > {tol:.1e})", got=d)


def stiff(rec, cls, cn, name, par, quick):
    from qmat.qcoeff.collocation import Collocation
    nt, qt = par
    for n in range(X.nmin(qt), 9 if quick else 13):
        c = Collocation(n, nt, qt)
        key = f"{name} {nt} {qt} n={n}"
        g = cls(qGen=c)
        rec.state(key); rec.step(4); rec.trace()
        d = diag(rec, key, g.getQDelta(), n)
        stiff_ok(rec, key, d, np.array(c.Q), X.has_left(qt), n)
        g2 = cls(n, nt, qt)
        for k in [1, 3, n, n + 1, n + 3, None] + FAR:
            rec.step()
            rec.expect(X.close(np.diag(g2.getQDelta(k)), d, 1e-13), f"{key} k={k}", "depends on the sweep")
        moved = Collocation(n, nt, qt, 2, 2.5)
        rec.expect(X.close(np.diag(cls(qGen=moved).getQDelta()), d, 1e-13), key, "coefficients do not correspond to the normalized nodes")
        rec.expect(g.size == n and X.close(g.dTau, np.zeros(n), 0), key, "dTau or size")
    rec.sample(f"{key}: {d}")


def flex(rec, cls, cn, name, par, quick):
    from qmat.qcoeff.collocation import Collocation
    nt, qt = par
    for n in (9, 12, 16, 25, 40):           # sizes for which the stiff coefficients are too expensive or inaccurate
        c = Collocation(n, nt, qt)
        nodes = np.array(c.nodes)
        fwd, bwd = cls(qGen=c), cls(n, nt, qt)
        ks = [None, 1, 2, 3, 5, 8, n - 1, n]
        B = {k: np.array(bwd.getQDelta(k)) for k in reversed(ks)}
        for k in ks:
            key = f"{name} {nt} {qt} n={n} k={k}"
            rec.state(key); rec.step(2); rec.trace()
            rec.expect(X.close(diag(rec, key, fwd.getQDelta(k), n), nodes / (k or 1), 1e-14), key, "not nodes/k")
            rec.expect(X.close(np.diag(B[k]), nodes / (k or 1), 1e-14), key, "depends on the order of the requests")
    for n in range(X.nmin(qt), 9 if quick else 13):
        c = Collocation(n, nt, qt)
        nodes, Q = np.array(c.nodes), np.array(c.Q)
        left = X.has_left(qt)
        key = f"{name} {nt} {qt} n={n}"
        fwd, bwd = cls(qGen=c), cls(n, nt, qt)
        ks = [None] + list(range(1, n + 4)) + [2 * n + 5] + FAR
        A = {k: np.array(fwd.getQDelta(k)) for k in ks}
        B = {k: np.array(bwd.getQDelta(k)) for k in reversed(ks)}
        stiffd = None
        for k in ks:
            rec.state((key, k)); rec.step(2); rec.trace()
            d = diag(rec, f"{key} k={k}", A[k], n)
            rec.expect(X.close(B[k], A[k], 1e-14), f"{key} k={k}", "depends on the order of the requests")
            if k is None or k <= n:
                rec.expect(X.close(d, nodes / (k or 1), 1e-14), f"{key} k={k}", "not nodes/k", got=d)
            else:
                stiff_ok(rec, f"{key} k={k}", d, Q, left, n)
                stiffd = d if stiffd is None else stiffd
                rec.expect(X.close(d, stiffd, 1e-14), f"{key} k={k}", "stiff coefficients vary with the sweep")
        s = slice(1 if left else 0, None)
        P = np.eye(n - left)
        mag = np.eye(n - left)
        for k in range(1, n + 1):
            K = np.eye(n - left) - np.linalg.solve(A[k][s, s], Q[s, s])
            P, mag = K @ P, np.abs(K) @ mag
        rec.step(n)
        rec.expect(np.abs(P).max() <= 1e-13 * max(1, np.abs(mag).max()), key, f"product of the stiff iteration matrices of the first M sweeps is not zero ({np.abs(P).max():.1e})")
        refuse_k(rec, key, cls(qGen=c))
        refuse_k(rec, key + " after other requests", fwd)
        rec.expect(fwd.size == n and X.close(fwd.dTau, np.zeros(n), 0), key, "dTau or size")
    rec.sample(f"{key}: nodes/k for k<={n}, then {stiffd}")


def minimize(rec, cls, cn, name, par, quick):
    from qmat.qcoeff.collocation import Collocation
    nt, qt = par
    for n in range(X.nmin(qt), 7 if quick else 9):
        c = Collocation(n, nt, qt)
        Q = np.array(c.Q)
        key = f"{name} {nt} {qt} n={n}"
        rec.state(key); rec.step(3); rec.trace()
        d = diag(rec, key, cls(qGen=c).getQDelta(), n)
        if not rec.expect(bool(np.all(np.isfinite(d))), key, "not finite", got=d):
            continue
        rec.expect(X.close(np.diag(cls(Q).getQDelta(3)), d, 1e-13, np.abs(d).max()), key, "not reproducible, or depends on the sweep")
        with np.errstate(all="ignore"):
            rho = lambda x: max(abs(np.linalg.eigvals(np.eye(n) - x[:, None] * Q)))
            r, r0 = rho(1 / d), rho(10 * np.ones(n))
        rec.expect(r <= r0 * (1 + 1e-6), key, f"spectral radius {r:.3g} is worse than that of the initial guess {r0:.3g}")
    rec.sample(f"{key}: spectral radius {r:.2e}")


def table(rec, cls, cn, name, par, quick):
    from qmat import genQDeltaCoeffs
    from qmat.qcoeff.collocation import Collocation
    data = MIN3 if cn == "MIN3" else VDHS
    for nt, qt in X.families():
        for n in range(X.nmin(qt), 13):
            key = f"{name} {nt} {qt} n={n}"
            rec.state(key); rec.step(2); rec.trace()
            c = Collocation(n, nt, qt)
            if (nt, qt, n) not in data:
                for call in (lambda: cls(n, nt, qt).getQDelta(), lambda: cls(qGen=c).getQDelta(2), lambda: genQDeltaCoeffs(name, qGen=c), lambda: cls(qGen=c).genCoeffs([1, 2], "N2N")):
                    try:
                        call()
                        rec.fail(key, "coefficients do not exist but are answered")
                    except NotImplementedError:
                        pass
                continue
            rho, coef = data[nt, qt, n]
            for k in (None, 1, 2, n + 1):
                d = diag(rec, key, cls(n, nt, qt).getQDelta(k), n)
                rec.expect(X.close(d, np.array(coef), 1e-12), key, "not the published coefficients", got=d, expected=coef)
            rec.expect(X.close(np.diag(cls(qGen=c).getQDelta()), np.array(coef), 1e-12), key, "not the published coefficients (qGen)")
            s = slice(1 if X.has_left(qt) else 0, None)
            Q = np.array(c.Q)[s, s]
            r = max(abs(np.linalg.eigvals(np.eye(len(Q)) - Q / d[s][:, None])))
            rec.step()
            rec.expect(r <= rho + 1e-6, key, f"spectral radius {r:.3g} of the stiff iteration is larger than documented ({rho})")
            rec.expect(cls(qGen=c).size == n, key, "size")
    for bad in ("LEG", "", None):
        rec.step()
        rec.expect(X.refused(lambda: cls(3, bad, "RADAU-RIGHT").getQDelta()) and X.refused(lambda: cls(3, "LEGENDRE", bad).getQDelta()), f"{name} {bad}", "unknown type accepted")
    rec.sample(f"{name}: {len(data)} tabulated entries, all other combinations refused")
