"""C04 Butcher tables: row sums, announced structure and stability, all rooted-tree order conditions."""
import numpy as np
from .. import trees as T
from ..core import *

PROPERTY = "C04"
BOUNDS = {"quick": "every registered Runge-Kutta class under every name; all rooted trees up to declared order + 1; A-stability on 2 x 3000 points of the imaginary axis",
          "thorough": "every registered Runge-Kutta class under every name; all rooted trees up to declared order + 2; A-stability on 2 x 40000 points of the imaginary axis"}
ASSUMPTIONS = ["order conditions judged with 1e-12 (1e-9 for the ARK343 pair, published with 10 digits)",
               "A-stability: poles in the right half plane plus |R(iy)| on the grid (maximum principle)"]

EX, DI, FULL = "explicit", "diagonally implicit", "fully implicit"
# name -> (kind, singly diagonal, explicit first stage, stiffly accurate, R(inf)=0)
STRUCT = {
    "FE": (EX,), "RK21": (EX,), "RK2": (EX,), "HEUN2": (EX,), "RK32": (EX,), "RK33": (EX,), "RK53": (EX,), "RK4": (EX,),
    "RK4_38": (EX,), "RK65": (EX,), "CashKarp": (EX,),
    "BE": (DI, 1, 0, 1, 1), "MidPoint": (DI, 1, 0, 0, 0), "TRAP": (DI, 1, 1, 1, 0), "SDIRK2": (DI, 1, 0, 1, 1),
    "SDIRK2_2": (DI, 1, 0, 1, 1), "SDIRK3": (DI, 1, 0, 1, 1), "DIRK43": (DI, 1, 0, 1, 1), "GAUSS_LG": (FULL,),
    "SDIRK54": (DI, 1, 0, 1, 1), "EDIRK43": (DI, 1, 0, 0, 0), "EDIRK4": (DI, 0, 1, 1, 0), "ESDIRK43": (DI, 1, 1, 1, 1),
    "ESDIRK53": (DI, 1, 1, 1, 1), "ARK548L2SAERK": (EX,), "ARK548L2SAESDIRK": (DI, 1, 1, 1, 1),
    "ARK548L2SAESDIRK2": (DI, 1, 1, 1, 1), "ARK548L2SAERK2": (EX,), "ARK324L2SAERK": (EX,),
    "ARK324L2SAESDIRK": (DI, 1, 1, 1, 1), "ARK222EDIRK": (DI, 1, 1, 1, 1), "ARK222ERK": (EX,), "ARK443ESDIRK": (DI, 1, 1, 1, 1),
    "ARK443ERK": (EX,), "ARK343ESDIRK": (DI, 1, 1, 1, 1), "ARK343ERK": (EX,), "ARK4EDIRK": (DI, 0, 1, 1, 0), "ARK4ERK": (EX,)}
EMBEDDED = {"HEUN2", "CashKarp", "EDIRK43", "ESDIRK43", "ESDIRK53", "ARK548L2SAERK", "ARK548L2SAESDIRK", "ARK548L2SAESDIRK2",
            "ARK548L2SAERK2", "ARK324L2SAERK", "ARK324L2SAESDIRK"}


def classes():
    from qmat.qcoeff.butcher import RK_SCHEMES
    out = {}
    for name, cls in RK_SCHEMES.items():
        out.setdefault(cls.__name__, []).append(name)
    return out


def tasks(quick):
    names = classes()
    for missing in sorted(set(STRUCT) - set(names)):
        yield ("missing", missing)
    for c in names:
        yield ("table", c, tuple(names[c]), 1 if quick else 2, 3000 if quick else 40000)


def run(task, rec):
    from qmat.qcoeff.butcher import RK_SCHEMES
    from qmat import Q_GENERATORS
    if task[0] == "missing":
        rec.fail(task[1], "method is not registered any more")
        return
    _, cname, names, more, ngrid = task
    tol = 1e-9 if cname.startswith("ARK343") else 1e-12
    rec.keepall = True
    g0 = None
    for name in names:
        rec.state((name,)); rec.step()
        rec.expect(Q_GENERATORS.get(name) is RK_SCHEMES[name], name, "RK_SCHEMES and Q_GENERATORS disagree")
        g = RK_SCHEMES[name]()
        A, b, c = (np.asarray(v, dtype=float) for v in (g.Q, g.weights, g.nodes))
        n = len(c)
        rec.expect(A.shape == (n, n) and b.shape == (n,), name, f"shapes {A.shape} {b.shape} {c.shape}")
        rec.expect(np.isfinite(A).all() and np.isfinite(b).all() and np.isfinite(c).all(), name, "non finite coefficients")
        if g0 is None:
            g0, A0, b0, c0 = g, A, b, c
        else:
            rec.expect(np.array_equal(A, A0) and np.array_equal(b, b0) and np.array_equal(c, c0) and g.order == g0.order,
                       name, "aliases give different tables")
        rec.trace()
    g, A, b, c, n = g0, A0, b0, c0, len(c0)
    d = np.diag(A)
    rec.expect(np.max(np.abs(A.sum(1) - c)) < tol, f"{cname} row sums", "nodes are not the row sums", rows=A.sum(1), nodes=c)
    st = STRUCT.get(cname)
    if st:
        if st[0] == EX:
            rec.expect(not np.any(np.triu(A)), f"{cname} structure", "explicit method is not strictly lower triangular", A=A)
        elif st[0] == DI:
            rec.expect(not np.any(np.triu(A, 1)), f"{cname} structure", "matrix is not lower triangular", A=A)
            rec.expect(np.all(d[st[2]:] > 0) and (not st[2] or not np.any(A[0])), f"{cname} structure", "first stage / diagonal", diag=d)
            if st[1]:
                rec.expect(np.ptp(d[st[2]:]) < tol, f"{cname} structure", "not singly diagonal", diag=d)
            if st[3]:
                rec.expect(np.max(np.abs(A[-1] - b)) < tol, f"{cname} structure", "not stiffly accurate", last=A[-1], b=b)
        else:
            rec.expect(np.any(np.triu(A, 1)), f"{cname} structure", "not fully implicit")
        rec.trace()
        if st[0] != EX:
            def R(z, w):
                return 1 + z * (w @ np.linalg.solve(np.eye(n) - z * A, np.ones(n)))
            ev = np.linalg.eigvals(A)
            rec.expect(np.all(ev.real > -1e-12), f"{cname} A-stability", "pole in the left half plane", eigs=ev)
            y = np.logspace(-5, 7, ngrid)
            amp = max(max(abs(R(1j * s, b)), abs(R(-1j * s, b))) for s in y)
            rec.step(2 * ngrid)
            rec.expect(amp <= 1 + 1e-9, f"{cname} A-stability", f"|R(iy)| reaches {amp}")
            rinf = abs(R(-1e7, b))
            rec.expect(rinf <= 1 + 1e-6 and (st[0] == FULL or not st[4] or rinf < 1e-4), f"{cname} stiff limit", f"|R(inf)| = {rinf}")
            rec.trace()
    # order conditions (main and embedded)
    Al = A.astype(np.longdouble)
    todo = [("main", b, g.order)]
    has2 = True
    try:
        b2 = np.asarray(g.weightsEmbedded, dtype=float)
    except NotImplementedError:
        has2 = False
    if cname in STRUCT:
        rec.expect(has2 == (cname in EMBEDDED), f"{cname} embedded", f"embedded weights available: {has2}")
    if has2:
        rec.expect(b2.shape == (n,) and np.max(np.abs(b2 - b)) > 1e-6, f"{cname} embedded", "embedded weights equal to the main ones / bad shape", b2=b2)
        todo.append(("embedded", b2, g.orderEmbedded))
    for which, w, order in todo:
        rec.step()
        if not rec.expect(isinstance(order, (int, np.integer)) and 1 <= order <= 8, f"{cname} {which}", f"order {order!r}"):
            continue
        cache, wl = {}, [w.astype(np.longdouble)]
        for k in range(1, order + more + 1):
            res = {t: float(T.residual(t, [Al], wl, cache)) for t in T.trees(k)}
            for t in res:
                rec.state((cname, which, t))
            if k <= order:
                for t, r in res.items():
                    rec.expect(abs(r) < tol, f"{cname} {which} order={order} tree={T.name(t)} residual={r:.4e}",
                               f"order condition of the tree {T.name(t)} ({k} vertices) fails: residual {r:.4e}")
            elif k == order + 1:
                if not any(key["key"].startswith(f"{cname} {which} order={order}") for key in rec.viol):
                    rec.expect(max(map(abs, res.values())) > 1e-5, f"{cname} {which} under-claimed", f"order is higher than the declared {order}")
            rec.step(len(res)); rec.trace(len(res))
    rec.sample(f"{cname}: declared order {g.order}, all {sum(len(T.trees(k)) for k in range(1, g.order+1))} order conditions evaluated")
