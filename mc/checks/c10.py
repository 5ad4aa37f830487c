"""C10 parameters of QDelta generators: every split of the parameters between positional, keyword and Q-generator, with overrides, against a
model that builds the generator from one complete set of keyword parameters."""
import inspect, itertools, warnings
import numpy as np
from .. import exact as X, usergens
from ..core import *

PROPERTY = "C10"
BOUNDS = {"quick": "all registered names and 11 user-defined approximations; 10 Q-generators (Collocation on 3 intervals, several families, Runge-Kutta) and 7 of user-defined classes; all subsets of parameters overridden by 2 alternatives each (also zero, integers, lists) x all positional prefixes x (qGen, coll, none) x extra parameters x class/generic function; refusals",
          "thorough": "as quick with 27 Q-generators"}
ASSUMPTIONS = ["matrices built from complete keyword parameters are judged by C11, C12 and C13"]
TOL = 1e-12


def qgens(quick):
    out = [("Collocation", dict(nNodes=3, nodeType="LEGENDRE", quadType="RADAU-RIGHT")),
           ("Collocation", dict(nNodes=3, nodeType="LEGENDRE", quadType="RADAU-RIGHT", tLeft=1, tRight=3)),
           ("Collocation", dict(nNodes=4, nodeType="CHEBY-1", quadType="GAUSS", tLeft=-0.5, tRight=0.25)),
           ("Collocation", dict(nNodes=2, nodeType="LEGENDRE", quadType="LOBATTO")),
           ("Collocation", dict(nNodes=4, nodeType="LEGENDRE", quadType="LOBATTO", tLeft=2, tRight=2.5)),
           ("Collocation", dict(nNodes=3, nodeType="EQUID", quadType="RADAU-LEFT")),
           ("RK4", {}), ("SDIRK2", {}), ("ESDIRK53", {}), ("RK4_38", dict(padding="BOTH"))]
    out += [(n, "user") for n in ("User_3_inside_view_plain", "User_2_before_fresh_emb", "User_3_right_readonly_plain", "MyCollocation", "MyShifted", "MyRK padded", "tLeft")]
    if not quick:
        out += [("Collocation", dict(nNodes=n, nodeType=nt, quadType=qt, tLeft=a, tRight=b)) for n, nt, qt, a, b in
                ((5, "LEGENDRE", "RADAU-RIGHT", 0, 1), (1, "LEGENDRE", "GAUSS", 0, 1), (6, "EQUID", "LOBATTO", 0, 1), (3, "CHEBY-3", "RADAU-LEFT", 10, 11), (2, "CHEBY-4", "GAUSS", -3, -2))]
        out += [("BE", {}), ("HEUN", {}), ("CASHKARP", {}), ("ARK548L2SAESDIRK", {}), ("DIRK43", dict(padding="LEFT"))]
    return [(n, p) for n, p in out]


def tasks(quick):
    from qmat import QDELTA_GENERATORS as G, Q_GENERATORS as QG
    for name in list(G) + list(usergens.QDELTAS):
        for i, (q, _) in enumerate(qgens(quick)):
            if q in QG or _ == "user":
                yield (name, i, quick)


TABLES = {"MIN3", "MIN_VDHS", "MIN_SR_S", "MIN_SR_FLEX"}
NODES = {"MIN_SR_NS", "Jumper", "FlexJumper", "DNODES", "DNODES2", "DNODES3", "DNODES4", "DNODES5"}
ALG = {"PIC", "Exact", "LU", "LU2", "QPar", "GS", "LDU", "MIN"}
STEP = {"BE", "FE", "TRAP", "BEPAR", "TRAPAR", "SOE"}


def pnames(cls):
    """documented parameters of the class, in order (read from the signature for classes unknown here)"""
    n = cls.__name__
    if n in usergens.QDELTAS:
        return usergens.QDELTA_PARAMS.get(n, ["nodes", "tLeft"])
    if n in TABLES:
        return ["nNodes", "nodeType", "quadType"]
    if n in NODES:
        return ["nodes"]
    if n in ALG:
        return ["Q"]
    if n in STEP:
        return ["nodes", "tLeft"]
    return [p.name for p in inspect.signature(cls.__init__).parameters.values() if p.kind == p.POSITIONAL_OR_KEYWORD and p.name != "self"]


def full_params(cls, q, names):
    """what the Q-generator stands for"""
    val = dict(Q=lambda: np.array(q.Q), nodes=lambda: np.array(q.nodes), tLeft=lambda: getattr(q, "tLeft", 0), nNodes=lambda: q.nNodes,
               nodeType=lambda: q.nodeType, quadType=lambda: q.quadType)
    return {n: val[n]() for n in names}


def alternatives(name, v, alt):
    """other values of one parameter"""
    if alt:
        if name == "Q":
            return (np.eye(len(v)) * 2 + np.tril(np.ones_like(v))).astype(int).tolist()
        if name == "nodes":
            return list(range(len(v)))
        if name == "tLeft":
            return 0 if v else -2
        if name == "nNodes":
            return v + 2 if v < 3 else 2
        if name == "nodeType":
            return "EQUID"
        return "LOBATTO"
    if name == "Q":
        return np.array(v) * 1.5 + np.tril(np.ones_like(v)) * .25
    if name == "nodes":
        return np.linspace(3.3, 4.1, len(v)) if len(v) else v
    if name == "tLeft":
        return v - 0.375
    if name == "nNodes":
        return v + 1
    if name == "nodeType":
        return "LEGENDRE" if v != "LEGENDRE" else "CHEBY-1"
    return "GAUSS" if v != "GAUSS" else "RADAU-RIGHT"


EXTRA = dict(unrelated=3, other=np.arange(4.), form_="x", scheme=None)


def observe(gen):
    """everything observable of a generator, for several sweeps"""
    out = {}
    for k in (None, 1, 2, 5):
        try:
            out[k] = np.array(gen.getQDelta(k))
        except NotImplementedError:
            return "unavailable"
    out["dTau"] = np.array(gen.dTau)
    return out


def agree(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str)
    for k in a:
        if a[k].shape != b[k].shape:
            return False
        f = np.isfinite(b[k])
        if not np.array_equal(f, np.isfinite(a[k])):
            return False
        if not X.close(a[k][f], b[k][f], TOL):
            return False
    return True


def user(n):
    """generators of user-defined classes"""
    if n == "tLeft":
        class Late(usergens.classes()["User_3_inside_stored_plain"]):
            tLeft = -0.5
        return Late()
    c = usergens.classes().get(n)
    return c() if c else usergens.derived()[n]()


def run(task, rec):
    warnings.simplefilter("ignore")
    from qmat import QDELTA_GENERATORS as G, Q_GENERATORS as QG, genQDeltaCoeffs
    name, i, quick = task
    users = usergens.qdeltas() if name in usergens.QDELTAS else {}
    qn, qp = qgens(quick)[i]
    q = user(qn) if qp == "user" else QG[qn](**qp)
    cls = G[name]
    names = pnames(cls)
    lab = f"{name} from {qn}{'' if qp == 'user' else list(qp.values())}"
    table = "nNodes" in names
    if table and not isinstance(q, QG["Collocation"]):
        rec.step(2); rec.trace(); rec.state((name, i))
        rec.expect(X.refused(lambda: cls(qGen=q)) and X.refused(genQDeltaCoeffs, name, qGen=q), lab, "a Runge-Kutta object cannot provide the parameters, but is accepted")
        # but explicit values are enough without it
        p = dict(nNodes=3, nodeType="LEGENDRE", quadType="RADAU-RIGHT")
        rec.expect(agree(observe(cls(**p)), observe(cls(*p.values()))), lab, "positional and keyword parameters")
        return
    base = full_params(cls, q, names)
    slow = name in ("MIN", "MIN-Speck")
    with np.errstate(all="ignore"):
        for r in range(len(names) + 1):
            for over, alt in itertools.product(itertools.combinations(names, r), (0, 1)):
                if alt and not over:
                    continue
                eff = dict(base)
                for n in over:
                    eff[n] = alternatives(n, base[n], alt)
                if "nodes" in over and "tLeft" in names and "tLeft" not in over:
                    pass                       # the left boundary still comes from the Q-generator
                exp = None
                try:
                    exp = observe(cls(**eff))
                except Exception as e:
                    exp = e
                if users and not isinstance(exp, Exception):
                    rec.expect(all(X.close(exp[k], users[name][1](eff, k), TOL) for k in (None, 1, 2, 5)), f"{lab} override={over}/{alt} keywords", "coefficients are not those of the class", got=exp)
                rec.state((lab, over, alt))
                # positional prefix p: parameters 0..p-1 by position, other overridden ones by keyword, the rest from qGen
                for p in range(len(names) + 1):
                    pos = [eff[n] for n in names[:p]]
                    kw = {n: eff[n] for n in over if n not in names[:p]}
                    rest = {n: eff[n] for n in names[p:]}
                    forms = [("qGen", pos, dict(kw, qGen=q)), ("coll", pos, dict(kw, coll=q)), ("explicit", pos, rest),
                             ("all explicit + qGen", pos, dict(rest, qGen=q)), ("qGen=None", pos, dict(rest, qGen=None)),
                             ("qGen + extra", pos, dict(kw, qGen=q, **EXTRA)), ("explicit + extra", pos, dict(rest, **EXTRA)),
                             ("extra first", pos, dict(dict(EXTRA, qGen=q), **kw))]
                    if slow:
                        forms = forms[:3]
                    for fn, a, k in forms:
                        key = f"{lab} override={over}/{alt} positional={p} {fn}"
                        rec.step(); rec.trace()
                        copies = [x.copy() if isinstance(x, np.ndarray) else x for x in a]
                        if isinstance(exp, Exception):
                            rec.expect(X.refused(lambda: observe(cls(*a, **k))), key, f"accepted although keyword parameters raise {type(exp).__name__}")
                            continue
                        got = observe(cls(*a, **k))
                        rec.expect(agree(got, exp), key, "differs from complete keyword parameters", got=got, expected=exp)
                        rec.expect(all(np.array_equal(x, y) for x, y in zip(a, copies)), key, "argument modified")
                        if p == 0 and "form_" not in k:
                            rec.step()
                            if isinstance(exp, str):
                                rec.expect(X.refused(genQDeltaCoeffs, name, **k), key, "generic function answers for unavailable coefficients")
                            else:
                                out = genQDeltaCoeffs(name, dTau=True, **k)
                                rec.expect(agree(dict(zip(("a", "b"), out)), dict(a=exp[None], b=exp["dTau"])), key + " generic", "generic function differs", got=out, expected=exp)
                                out = genQDeltaCoeffs(name, nSweeps=2, **k)
                                rec.expect(agree(dict(a=out[0], b=out[1]), dict(a=exp[1], b=exp[2])), key + " generic", "generic function with sweeps differs", got=out, expected=exp)
    if r:
        rec.sample(key)
    # ambiguous and useless Q-generators
    for bad, what in ((dict(qGen=q, coll=q), "Q-generator given under both names"), (dict(qGen=3), "qGen is not a generator"), (dict(coll="x"), "coll is not a generator"),
                      (dict(qGen=type(q)), "qGen is a class"), (dict(qGen=np.array(q.Q)), "qGen is a matrix")):
        for more in ({}, base):
            rec.step(2); rec.trace(); rec.state((lab, what, bool(more)))
            rec.expect(X.refused(lambda: cls(**bad, **more)), f"{lab} {sorted(bad)}", what + " but accepted")
            rec.expect(X.refused(genQDeltaCoeffs, name, **bad, **more), f"{lab} {sorted(bad)}", what + " but accepted by the generic function")
    required = [n for n in names if n != "tLeft"]
    for n in required:
        part = {k: v for k, v in base.items() if k != n}
        rec.step(2); rec.trace()
        rec.expect(X.refused(lambda: cls(**part)) and X.refused(genQDeltaCoeffs, name, **part), f"{lab} without {n}", "missing parameter accepted")
