"""C06 padding: every method x every construction history of padded / unpadded instances, against the model table."""
import itertools
import numpy as np
from ..core import *

PROPERTY = "C06"
PADS = [None, "LEFT", "RIGHT", "BOTH"]
ZS = [(-1., 0.3), (0.8j, 0.5), (-2 + 1j, 1.), (0.29, 2.)]
BOUNDS = {"quick": "every registered Runge-Kutta class and 72 user-defined ones (nodes at, beyond and before the boundaries, 1 to 12 stages, embedded or not, lists / float / integer arrays); all sequences of 3 instances over 4 paddings, built through 3 constructors, each overwritten by the caller; 4 (lambda, dt) of the test problem",
          "thorough": "every registered and 72 user-defined Runge-Kutta classes; all sequences of 5 instances over 4 paddings, built through 3 constructors, each overwritten by the caller; 4 (lambda, dt)"}
ASSUMPTIONS = ["a table with the original block, zero weight added stages and the update as right stage gives the same step for every right-hand side"]


def tasks(quick):
    from qmat.qcoeff.butcher import RK_SCHEMES
    seen = {}
    for name, cls in RK_SCHEMES.items():
        seen.setdefault(cls.__name__, name)
    for name in seen.values():
        yield (name, 3 if quick else 5)
    for i in range(len(USERS)):
        yield (i, 3 if quick else 4)


# user-defined methods: node sets, kind of table, embedded weights, type of the given tables
USERS = list(itertools.product(((0.,), (1.,), (0.25,), (0., 1.), (1., 0.), (0., 0.5, 1.), (0., 1., 1.), (-0.5, 0., 1.5), (0.5, 0.5, 1.), (1., 0.5, 0., 1.), tuple(i / 6 for i in range(7)), tuple(i / 11 for i in range(12))),
                               ("explicit", "stiffly accurate", "full"), (False, True)))


def user(i):
    """a class a user could write"""
    from qmat.qcoeff.butcher import RK
    c, kind, emb = USERS[i]
    n = len(c)
    b = np.array([(k + 1) * (-1) ** (k // 3) for k in range(n)], dtype=float)
    b = b / b.sum() if n > 1 else np.ones(1)
    A = np.array([[(3 * k - 2 * j + 1) / 16 for j in range(n)] for k in range(n)])
    if kind == "explicit":
        A = np.tril(A, -1)
    if kind == "stiffly accurate":
        A = np.tril(A)
        A[-1] = b
    ns = dict(A=A, b=b, c=np.array(c), order=property(lambda self: 1))
    if emb:
        ns["b2"] = b[::-1].copy() if n > 1 else np.array([0.5])
    if i % 3 == 0 and i % 2:           # lists: only for registered classes
        ns.update({k: ns[k].tolist() for k in ns if k in ("A", "b", "c", "b2")})
    if i % 3 == 1 and n <= 2 and i % 2:
        ns.update(A=(np.array(A) * 16).astype(int) // 16, b=np.array([1] + [0] * (n - 1)), c=np.array(c).astype(int))
    return type(f"UserRK{i}", (RK,), ns)


def model(A, b, b2, c, pad):
    """The boring padded table"""
    n = len(c)
    l, r = int(pad in ("LEFT", "BOTH")), int(pad in ("RIGHT", "BOTH"))
    m = n + l + r
    PA, Pb, Pc = np.zeros((m, m)), np.zeros(m), np.zeros(m)
    PA[l:l + n, l:l + n] = A
    Pb[l:l + n] = b
    Pc[l:l + n] = c
    Pb2 = None
    if b2 is not None:
        Pb2 = np.zeros(m)
        Pb2[l:l + n] = b2
    if r:
        PA[-1] = Pb
        Pc[-1] = 1
    return PA, Pb, Pb2, Pc


def embedded(g):
    try:
        return np.array(g.weightsEmbedded)
    except NotImplementedError:
        return None


def same(x, y):
    if x is None or y is None:
        return x is y
    return x.shape == y.shape and np.allclose(x, y, rtol=1e-14, atol=1e-15)


def run(task, rec):
    from qmat.qcoeff.butcher import RK_SCHEMES
    from qmat import Q_GENERATORS, genQCoeffs
    name, depth = task
    if isinstance(name, int):
        from qmat.qcoeff.butcher import registerRK
        cls = user(name)
        if name % 2:                    # every other one is also registered
            cls = registerRK(cls)
        name = cls.__name__
    else:
        cls = RK_SCHEMES[name]
    known = name in Q_GENERATORS
    A, b, c = (np.array(v, dtype=float) for v in (cls.A, cls.b, cls.c))
    b2 = None if cls.b2 is None else np.array(cls.b2, dtype=float)
    order = cls().order
    model_of = {p: model(A, b, b2, c, p) for p in PADS}
    sols = {}
    for bad in ("left", "MIDDLE", "LEFT,RIGHT", 1, True, ["LEFT"]):
        rec.step(); rec.trace(); rec.state((name, "bad", str(bad)))
        rec.expect(refused(lambda: cls(padding=bad)), f"{name} padding={bad!r}", "unknown padding accepted")

    def build(p, how):
        if how == 0:
            return cls(padding=p) if p else cls()
        if how == 1:
            return Q_GENERATORS[name](p) if known else cls(p)
        return cls(padding=p or "")

    def judge(g, p, key):
        PA, Pb, Pb2, Pc = model_of[p]
        rec.step(4)
        rec.expect(same(np.array(g.nodes, float), Pc), key, "nodes of the padded table", got=g.nodes, expected=Pc)
        rec.expect(same(np.array(g.weights, float), Pb), key, "weights of the padded table", got=g.weights, expected=Pb)
        rec.expect(same(np.array(g.Q, float), PA), key, "matrix of the padded table", got=g.Q, expected=PA)
        rec.expect(same(embedded(g), Pb2), key, "embedded weights of the padded table", got=embedded(g), expected=Pb2)
        rec.expect(g.order == order and g.nNodes == len(Pc), key, f"order {g.order}, nNodes {g.nNodes}")

    for n in range(1, depth + 1):
        for seq in itertools.product(PADS, repeat=n):
            if n < depth and n > 1:
                continue          # longer sequences contain them as prefixes
            alive = []
            for i, p in enumerate(seq):
                key = f"{name} instances={seq[:i+1]}"
                rec.state((name, seq[:i + 1]))
                g = build(p, (i + len(seq)) % 3)
                judge(g, p, key)
                out = genQCoeffs(name, padding=p, embedded=b2 is not None) if known else cls(padding=p).genCoeffs(embedded=b2 is not None)
                rec.step()
                w = model_of[p][1] if b2 is None else np.vstack(model_of[p][1:3])
                rec.expect(same(out[0], model_of[p][3]) and same(out[1], w) and same(out[2], model_of[p][0]), key, "genQCoeffs of the padded table")
                scribble(list(out))
                # older instances keep their own table
                for (q, h) in alive[-1:]:
                    judge(h, q, key + " (older instance)")
                if i % 2:     # the caller overwrites what this generator gives
                    scribble([g.nodes, g.weights, g.Q] + ([g.weightsEmbedded] if b2 is not None else []))
                else:
                    alive.append((p, g))
            rec.expect(same(np.array(cls.A, float), A) and same(np.array(cls.b, float), b) and same(np.array(cls.c, float), c)
                       and same(None if cls.b2 is None else np.array(cls.b2, float), b2), key, "class tables changed")
            rec.trace()
    # same step result
    for p in PADS:
        g = cls(padding=p)
        for lam, dt in ZS:
            for emb in ([False, True] if b2 is not None else [False]):
                rec.step()
                rec.state((name, p, lam, dt, emb))
                u = g.solveDahlquist(lam, 1.3, 2 * dt, 2, useEmbeddedWeights=emb)
                ref = sols.setdefault((lam, dt, emb), u)
                rec.expect(np.allclose(u, ref, rtol=1e-11, atol=1e-11 * np.max(np.abs(ref))), f"{name} padding={p} lam={lam} dt={dt} embedded={emb}",
                           "padding changes the numerical solution", got=u, expected=ref)
                rec.trace()
    rec.sample(f"{name}: construction history {seq}")


def refused(fn):
    try:
        fn()
    except Exception:
        return True
    return False
