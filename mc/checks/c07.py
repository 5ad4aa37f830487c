"""C07 forms/accessors of Q-coefficients: full product of names x parameters x options against a model built from the plain properties."""
import itertools
import numpy as np
from .. import exact as X, usergens
from ..core import *

PROPERTY = "C07"
IVS = [(0, 1), (1, 3), (-0.5, 0.25)]
BOUNDS = {"quick": "all names and aliases; Collocation: 24 families x n<=5 x 3 intervals, n = 6, 8, 13, 20, 40 (EQUID to 13); Runge-Kutta: 4 paddings; 2 forms x hCoeffs x embedded; 126 user-defined classes (nodes at, beyond, before the boundaries, repeated, decreasing; stored, fresh, read-only arrays), classes derived from those of the library; refusals",
          "thorough": "as quick with Collocation n<=9 and n = 13, 20, 33, 40, 64"}
ASSUMPTIONS = ["the plain properties nodes/Q/weights are judged by C02, C04 and C06"]
TOL = 1e-12


def tasks(quick):
    from qmat import Q_GENERATORS
    for name, cls in Q_GENERATORS.items():
        if cls.__name__ == "Collocation":
            for nt, qt in X.families():
                yield ("coll", name, nt, qt, 5 if quick else 9)
        else:
            yield ("rk", name)
    yield ("refuse",)
    for n in (1, 2, 3, 4, 6):
        yield ("user", n)
    yield ("derived",)


def params(task):
    if task[0] == "coll":
        _, name, nt, qt, top = task
        more = (6, 8, 13, 20, 40) if top < 9 else (13, 20, 33, 40, 64)
        for n in list(range(X.nmin(qt), top + 1)) + [m for m in more if m < 14 or nt != "EQUID"]:
            for a, b in IVS if n <= top else IVS[:2]:
                p = dict(nNodes=n, nodeType=nt, quadType=qt)
                if (a, b) != (0, 1):
                    p.update(tLeft=a, tRight=b)
                yield p, b
    elif task[0] == "user":
        yield {}, 1
    else:
        yield {}, 1
        for p in (None, "LEFT", "RIGHT", "BOTH"):
            yield dict(padding=p), 1


def ref_h(nodes, tRight):
    """interpolation at the right boundary, first occurrence of duplicated nodes"""
    uniq, first = np.unique(nodes, return_index=True)
    row = X.Lag(uniq).interp([tRight])[0]
    out = np.zeros(len(nodes))
    out[first] = row
    return out


def run(task, rec):
    from qmat import Q_GENERATORS, genQCoeffs
    if task[0] == "refuse":
        return refuse(rec)
    if task[0] == "user":
        from qmat.qcoeff import register
        for name, cls in usergens.classes().items():
            if name.startswith(f"User_{task[1]}_"):
                register(cls)
                names(("user", name), rec, name, cls)
                names(("user", name), rec, name + "-alias", cls)
        return
    if task[0] == "derived":
        return derived(rec)
    name = task[1]
    names(task, rec, name, Q_GENERATORS[name])


def derived(rec):
    """unregistered classes derived from those of the library"""
    for name, mk in usergens.derived().items():
        g = mk()
        nodes, w, Q = (np.array(v, dtype=float) for v in (g.nodes, g.weights, g.Q))
        S = (np.eye(len(nodes)) - np.eye(len(nodes), k=-1)) @ Q
        h = ref_h(nodes, 3. if name == "MyCollocation" else 1.)
        for form, hC in itertools.product(("Z2N", "N2N"), (False, True)):
            rec.state((name, form, hC)); rec.step(); rec.trace()
            out = g.genCoeffs(form, hC)
            rec.expect(len(out) == 3 + hC and X.close(out[0], nodes, 1e-14) and X.close(out[1], w, 1e-14) and X.close(out[2], S if form == "N2N" else Q, TOL) and (not hC or X.close(out[3], h, 1e-10)), f"{name} form={form} hCoeffs={hC}", "coefficients", got=out)


def names(task, rec, name, cls):
    from qmat import Q_GENERATORS, genQCoeffs
    for p, tRight in params(task):
        g = cls(**p)
        key = f"{name} {p}"
        nodes, w, Q = (np.array(v, dtype=float) for v in (g.nodes, g.weights, g.Q))
        M = len(nodes)
        if not rec.expect(nodes.ndim == 1 and w.shape == (M,) and Q.shape == (M, M), key, f"shapes {nodes.shape} {w.shape} {Q.shape}"):
            continue
        T = np.eye(M) - np.eye(M, k=-1)
        Ti = np.tril(np.ones((M, M)))
        rec.step(6)
        rec.expect(np.array_equal(np.asarray(g.T), T), key, "T", got=g.T)
        rec.expect(np.array_equal(np.asarray(g.Tinv), Ti), key, "Tinv", got=g.Tinv)
        rec.expect(X.close(g.T @ g.Tinv, np.eye(M), 1e-15) and X.close(g.Tinv @ g.T, np.eye(M), 1e-15), key, "T Tinv is not the identity")
        sc = max(1., np.abs(Q).max())
        S = T @ Q
        rec.expect(X.close(g.S, S, TOL, sc), key, "S is not T Q", got=g.S, expected=S)
        rec.expect(X.close(g.Tinv @ g.S, Q, TOL, sc * M), key, "Q is not Tinv S")
        h = ref_h(nodes, tRight)
        rec.expect(X.close(g.hCoeffs, h, 1e-10, max(1, np.abs(h).max())), key, "hCoeffs", got=g.hCoeffs, expected=h)
        rec.expect(g.nNodes == M, key, "nNodes")
        rec.expect(bool(g.rightIsNode) == (nodes[-1] == tRight), key, f"rightIsNode {g.rightIsNode}")
        try:
            b2 = np.array(g.weightsEmbedded, dtype=float)
            rec.expect(b2.shape == (M,), key, f"embedded weights of shape {b2.shape}")
        except NotImplementedError:
            b2 = None
        for form, hC, emb in itertools.product(("Z2N", "N2N"), (False, True), (False, True)):
            k2 = f"{key} form={form} hCoeffs={hC} embedded={emb}"
            rec.state((name, str(p), form, hC, emb))
            calls = [lambda: cls(**p).genCoeffs(form, hC, emb), lambda: g.genCoeffs(form=form, hCoeffs=hC, embedded=emb),
                     lambda: genQCoeffs(name, form, hC, emb, **p), lambda: genQCoeffs(name, form=form, embedded=emb, hCoeffs=hC, **p)]
            if not hC and not emb:
                calls += [lambda: genQCoeffs(name, form=form, **p), lambda: g.genCoeffs(form=form)]
                if form == "Z2N":
                    calls += [lambda: genQCoeffs(name, **p), lambda: g.genCoeffs()]
            for i, call in enumerate(calls):
                rec.step()
                if emb and b2 is None:
                    rec.expect(X.refused(call), k2, f"embedded weights do not exist but call {i} answers")
                    rec.trace()
                    continue
                out = call()
                if not rec.expect(len(out) == 3 + hC, k2, f"call {i}: {len(out)} outputs"):
                    continue
                rec.expect(X.close(out[0], nodes, 1e-14), k2, f"call {i}: nodes", got=out[0], expected=nodes)
                rec.expect(X.close(out[1], np.vstack([w, b2]) if emb else w, 1e-14), k2, f"call {i}: weights", got=out[1], expected=w)
                rec.expect(X.close(out[2], S if form == "N2N" else Q, TOL, sc), k2, f"call {i}: matrix", got=out[2], expected=S if form == "N2N" else Q)
                if hC:
                    rec.expect(X.close(out[3], h, 1e-10, max(1, np.abs(h).max())), k2, f"call {i}: hCoeffs", got=out[3], expected=h)
                scribble(list(out))
                rec.trace()
        for bad in ("z2n", "n2n", "", "N2Z", "S", None, 0):
            rec.step(); rec.state((name, str(p), bad))
            rec.expect(X.refused(g.genCoeffs, form=bad) and X.refused(genQCoeffs, name, form=bad, **p), f"{key} form={bad!r}", "unknown form accepted")
        rec.trace()
    d = cls.getInstance()
    rec.step()
    if task[0] == "coll":
        r = cls(4, "LEGENDRE", "RADAU-RIGHT")
    else:
        r = cls()
    rec.expect(type(d) is cls and all(X.close(getattr(d, a), getattr(r, a), 1e-15) for a in ("nodes", "weights", "Q")), f"{name} getInstance", "default instance")
    rec.sample(k2)


def refuse(rec):
    from qmat import genQCoeffs, Q_GENERATORS
    for bad in ("", "rk4", "RK", "QGenerator", "collocation", "coll ", "LU", None, 4):
        rec.state(("bad", str(bad))); rec.step(); rec.trace()
        rec.expect(X.refused(genQCoeffs, bad), f"qType={bad!r}", "unknown method accepted")
    for p in (dict(nNodes=0), dict(nNodes=1, quadType="LOBATTO"), dict(nNodes=1, quadType="RADAU-LEFT"), dict(nodeType="LEG"), dict(quadType="RADAU")):
        q = dict(dict(nNodes=3, nodeType="LEGENDRE", quadType="GAUSS"), **p)
        rec.state(("badp", str(p))); rec.step(2); rec.trace()
        rec.expect(X.refused(genQCoeffs, "Collocation", **q) and X.refused(genQCoeffs, "coll", **q), f"Collocation {q}", "invalid parameters accepted")
    rec.expect(X.refused(genQCoeffs, "Collocation"), "Collocation", "missing parameters accepted")
    names = ["Collocation", "coll"]
    for n in names:
        rec.expect(n in Q_GENERATORS, n, "name not registered")
    rec.step()
