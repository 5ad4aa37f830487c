"""C08 QDelta generator caches: explicit-state search over all request histories, on the real generators."""
import types
import numpy as np
from .. import usergens
from ..core import *
from ..state import search, same

PROPERTY = "C08"
BOUNDS = {"quick": "every registered class, 2 parameter sets; 20+ operations per state (None, 1..M+2, 30, invalid indices, both forms, lists, dTau), caller overwrites results; "
                   "search until no new state (any history length), depth cap 8; plus two generators of one class side by side; 6 user-defined classes (handing out stored or caller-given matrices, derived from library classes) against their own formulas",
          "thorough": "as quick with 3 parameter sets, all sweep indices 1..M+3, depth cap 12, and two generators with the full alphabet"}
ASSUMPTIONS = ["state canonicalisation covers all Python-level state of qmat and of the generator (see mc/state.py)"]
PSETS = [(3, "LEGENDRE", "RADAU-RIGHT"), (2, "LEGENDRE", "LOBATTO"), (4, "CHEBY-1", "RADAU-LEFT")]


def available(cls, p):
    try:
        cls(qGen=_coll(p)).getQDelta()
        return True
    except NotImplementedError:
        return False


def agree(got, want):
    """as same; where coefficients do not exist (a factorization that does not exist gives NaN), differences of rows are
    compared where both are finite (how NaN spreads depends on how the difference is formed)"""
    if isinstance(want, np.ndarray) and isinstance(got, np.ndarray) and got.shape == want.shape and got.dtype.kind == "f" and not np.isfinite(want).all():
        both = np.isfinite(got) & np.isfinite(want)
        return same(np.where(both, got, 0.), np.where(both, want, 0.))
    return same(got, want)


def _coll(p):
    from qmat.qcoeff.collocation import Collocation
    return Collocation(*p)


def tasks(quick):
    from qmat import QDELTA_GENERATORS as G
    from qmat.utils import getClasses
    from ..core import forked
    names = sorted({c.__name__ for c in G.values()})
    kdep = forked(lambda: [n for n in names if G[n](qGen=_coll(PSETS[0])).isKDependent()])
    todo = []
    for n in names:
        for i in range(2 if quick else 3):
            todo.append(("one", n, i, n in kdep, quick))
        todo.append(("two", n, 0, n in kdep, quick))

    def user():
        return {n: u[2] for n, u in usergens.qdeltas().items()}
    for n, k in forked(user).items():
        if not quick or n in ("UserStored", "UserSweep", "UserQ", "UserPower", "UserBE", "UserHalfBE"):
            todo += [("one", n, i, k, quick) for i in range(1 if quick else 3)] + [("two", n, 0, k, quick)]
    return sorted(todo, key=lambda t: (not t[3], t))       # the large ones first


def operations(M, kdep, quick, plain=False):
    ops = []

    def op(name, fn):
        def call(env):
            r = fn(env)
            obs = _copy(r)
            scribble(list(r) if isinstance(r, tuple) else r)
            return obs
        ops.append((name, call))

    full = not quick
    ks = [None, 1, 2, M + 1] + ([M + 2, 3, M, M + 3] if full else [M + 2])
    ks += [30]
    if not kdep:
        ks = [None, 1, M + 1, 30]
    for k in ks:
        op(f"getQDelta({k})", lambda e, k=k: e.g.getQDelta(k))
    op("getQDelta()", lambda e: e.g.getQDelta())
    op("getQDelta(k=2,copy=True)", lambda e: e.g.getQDelta(k=2, copy=True))
    for k in (None, 1, M + 1) if kdep else (None, 2):
        op(f"getSDelta({k})", lambda e, k=k: e.g.getSDelta(k))
    for k in (None, 2, M + 1) if kdep else (None, 2):
        op(f"genCoeffs({k})", lambda e, k=k: e.g.genCoeffs(k))
    op("genCoeffs(k=1,dTau)", lambda e: e.g.genCoeffs(k=1, dTau=True))
    op(f"genCoeffs(k={M+1},N2N)", lambda e: e.g.genCoeffs(k=M + 1, form="N2N"))
    op("genCoeffs(N2N,dTau)", lambda e: e.g.genCoeffs(form="N2N", dTau=True))
    L = list(range(1, M + 2))
    op(f"genCoeffs({L})", lambda e: e.g.genCoeffs(list(L)))
    op(f"genCoeffs({L[::-1]},N2N,dTau)", lambda e: e.g.genCoeffs(L[::-1], "N2N", True))
    op("genCoeffs([1])", lambda e: e.g.genCoeffs(k=[1]))
    op(f"genCoeffs([{M+1}],N2N)", lambda e: e.g.genCoeffs(k=[M + 1], form="N2N"))
    op("genCoeffs([2,2])", lambda e: e.g.genCoeffs(k=(2, 2)))
    op("dTau", lambda e: e.g.dTau)
    op("getQDelta(0)", lambda e: e.g.getQDelta(0))
    op("getQDelta(-1)", lambda e: e.g.getQDelta(-1))
    op("genCoeffs([1,0])", lambda e: e.g.genCoeffs([1, 0]))
    op("genCoeffs(form=X)", lambda e: e.g.genCoeffs(form="X"))
    op("size", lambda e: int(e.g.size))
    # not overwritten: the caller explicitly asks for the internal matrix
    ops.append((f"getQDelta({M+1},copy=False)", lambda e: np.array(e.g.getQDelta(M + 1, copy=False))))
    if plain:
        ops.append(("computeQDelta()", lambda e: np.array(e.g.computeQDelta())))
        ops.append((f"computeQDelta({M+1})", lambda e: np.array(e.g.computeQDelta(M + 1))))
    return ops


def ops_two(M, M2, kdep, quick):
    keep = {"getQDelta(None)", "getQDelta(1)", f"getQDelta({M+1})", f"genCoeffs({list(range(1, M+2))})", "getQDelta(0)", "dTau"}
    a = operations(M, kdep, quick)
    b = operations(M2, kdep, quick)
    if quick:
        a = [o for o in a if o[0] in keep]
        b = [o for o in b if o[0] in {"getQDelta(None)", "getQDelta(1)", f"getQDelta({M2+1})", "dTau"}]
    swap = lambda f: (lambda e: f(types.SimpleNamespace(g=e.h)))
    return [("g." + n, f) for n, f in a] + [("h." + n, swap(f)) for n, f in b]


def _copy(r):
    if isinstance(r, np.ndarray):
        return r.copy()
    if isinstance(r, (list, tuple)):
        return type(r)(_copy(x) for x in r)
    return r


def run(task, rec):
    from qmat import QDELTA_GENERATORS as G
    kind, name, pi, kdep, quick = task
    p = PSETS[pi]
    user = usergens.qdeltas() if name in usergens.QDELTAS else {}
    cls = G[name]
    if not forked(available, cls, p):
        rec.state(("unavailable", name, pi)); rec.step()
        return
    coll = _coll(p)
    M = p[0]

    def make():
        e = types.SimpleNamespace(g=cls(qGen=coll))
        if kind == "two":
            p2 = (M + 1,) + p[1:]
            c2 = _coll(p2)
            try:
                e.h = cls(qGen=c2)
            except Exception:
                e.h = cls(qGen=coll)
        return e
    ops = ops_two(M, M + 1, kdep, quick) if kind == "two" else operations(M, kdep, quick, not user)
    golden = {}
    for n, f in ops:
        def first(_=None, f=f):
            try:
                return f(make())
            except Exception as e:
                return ("RAISED", type(e).__name__, str(e)[:200])
        golden[n] = forked(first)
    rec.step(len(ops))
    # a brand new generator is itself consistent
    if kind == "one":
        T = np.eye(M) - np.eye(M, k=-1)
        key = f"{name}{p} fresh"
        for n, v in golden.items():
            if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] == "RAISED":
                ok = n in ("getQDelta(0)", "getQDelta(-1)", "genCoeffs([1,0])") and kdep and v[1] == "ValueError" or n == "genCoeffs(form=X)" and v[1] == "ValueError"
                rec.expect(ok, f"{key} {n}", f"raises {v[1]}: {v[2]}")
        fresh = {}
        for k in [None] + list(range(1, M + 3)) + [30]:
            fresh[k] = forked(lambda: make().g.getQDelta(k))
        rec.step(M + 3)

        def exp(k, form="Z2N"):
            return T @ fresh[k] if form == "N2N" else fresh[k]
        want = {f"getQDelta({k})": exp(k) for k in fresh}
        want.update({f"getSDelta({k})": exp(k, "N2N") for k in fresh})
        want.update({f"genCoeffs({k})": exp(k) for k in fresh})
        want["getQDelta()"] = exp(None)
        want["getQDelta(k=2,copy=True)"] = exp(2)
        want[f"getQDelta({M+1},copy=False)"] = exp(M + 1)
        want["computeQDelta()"], want[f"computeQDelta({M+1})"] = exp(None), exp(M + 1)
        want[f"genCoeffs(k={M+1},N2N)"] = exp(M + 1, "N2N")
        if user:
            # (a class derived from a sweep dependent one may stay declared so)
            rec.expect(bool(make().g.isKDependent()) == kdep or name == "UserConst", key, f"isKDependent is not {kdep}")
            par = dict(Q=coll.Q, nodes=coll.nodes, tLeft=coll.tLeft, nNodes=p[0], nodeType=p[1], quadType=p[2])
            for k in fresh:
                rec.expect(same(fresh[k], user[name][1](par, k)), f"{key} getQDelta({k})", "is not what the class computes", got=fresh[k])
        L = list(range(1, M + 2))
        want[f"genCoeffs({L})"] = np.array([exp(k) for k in L])
        want["genCoeffs([1])"] = np.array([exp(1)])
        want[f"genCoeffs([{M+1}],N2N)"] = np.array([exp(M + 1, "N2N")])
        want["genCoeffs([2,2])"] = np.array([exp(2)] * 2)
        want["size"] = M
        for n, v in want.items():
            if n in golden:
                rec.trace()
                rec.expect(agree(golden[n], v), f"{key} {n}", "answer of a new generator differs from the documented combination of its matrices", got=golden[n], expected=v)
        dt = golden["dTau"]
        rec.expect(isinstance(dt, np.ndarray) and dt.shape == (M,), f"{key} dTau", f"dTau {dt!r}")
        for n, k, form in (("genCoeffs(k=1,dTau)", 1, "Z2N"), ("genCoeffs(N2N,dTau)", None, "N2N"), (f"genCoeffs({L[::-1]},N2N,dTau)", L[::-1], "N2N")):
            v = golden[n]
            m = np.array([exp(i, form) for i in k]) if isinstance(k, list) else exp(k, form)
            rec.expect(isinstance(v, (list, tuple)) and len(v) == 2 and agree(v[0], m) and same(v[1], dt), f"{key} {n}", "matrix and dTau", got=v)
        if not kdep:
            rec.expect(all(same(fresh[k], fresh[None]) for k in fresh), key, "depends on the sweep but is not declared so")
        else:
            rec.expect(any(not same(fresh[k], fresh[1]) for k in fresh), key, "declared sweep dependent but does not depend on it")

    def judge(n, obs):
        if not same(obs, golden[n]):
            return f"{n} answers {_short(obs)} instead of {_short(golden[n])} (answer of a new generator)"
    closed = search(rec, make, ops, judge, depth=8 if quick else 12, key=f"{kind} {name}{p}", roots=lambda e: [e.__dict__], maxstates=600 if quick else 4000)
    rec.sample(f"{kind} {name}{p}: {len(ops)} operations, state space closed: {closed}")
    rec.count("roots_closed", int(closed))


def _short(o):
    s = repr(o).replace("\n", "")
    return s if len(s) < 300 else s[:300] + "..."
