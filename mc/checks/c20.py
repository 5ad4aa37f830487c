"""C20 registration histories: every sequence of registrations (valid and invalid class definitions) up to a depth, executed on the real
decorators in forked copies of a fresh process, against a model of the three registries."""
import inspect, itertools, warnings
import numpy as np
import json, os, subprocess, sys
from .. import exact as X, regnames, imports
from ..boot import REPO
from ..core import *

PROPERTY = "C20"
BOUNDS = {"quick": "initial registries; all pairs of registrations over 55 class definitions (Q-generators, Runge-Kutta, QDelta; valid, colliding by name/alias/own alias, ill-formed), all triples whose first two are among 26 of them; all pairs of 21 import statements (modules and star imports) from processes that never imported the library (single statements also for another hash seed)",
          "thorough": "all triples; sequences of 4 with the first, second and last among the 26; all triples of import statements, 6 hash seeds"}
ASSUMPTIONS = ["registrations from a single thread (threads: C22)"]
QM = np.array([[0.25, -0.125], [0.75, 0.5]])


# ---------------------------------------------------------------- class definitions: label -> (kind, names, well-formed, factory)
def mkQ(name, aliases=None, drop=None, method=None, init=None, params=None, base=None):
    def make():
        from qmat.qcoeff import QGenerator
        ns = {}
        vals = dict(nodes=np.array([0.25, 1.]), Q=QM, weights=np.array([0.75, 0.25]), order=2)
        for p, v in vals.items():
            if p == drop:
                continue
            ns[p] = property(lambda self, v=v: v)
            if p == method:
                ns[p] = lambda self, v=v: v
        if aliases is not None:
            ns["aliases"] = aliases() if callable(aliases) else aliases
        if init:
            ns["__init__"] = init
        if params is not None:
            ns["DEFAULT_PARAMS"] = params
        return type(name, (base() if base else QGenerator,), ns)
    return make


def mkRK(name, aliases=None, A=((0, 0), (.5, 0)), b=(0, 1), c=(0, .5), b2=None, order=2, base=None):
    def make():
        from qmat.qcoeff.butcher import RK
        ns = {}
        if base is None:
            ns.update(A=[list(r) for r in A], b=list(b), c=list(c))
            if b2:
                ns["b2"] = list(b2)
        if aliases is not None:
            ns["aliases"] = aliases() if callable(aliases) else aliases
        if order != "absent":
            ns["order"] = property(lambda self: order) if order else order
        return type(name, (base() if base else RK,), ns)
    return make


def mkD(name, aliases=None, compute="plain", init="none", base=None):
    def make():
        from qmat.qdelta import QDeltaGenerator
        ns = {}
        if compute == "plain":
            def computeQDelta(self, k=None):
                return np.tril(self.Q) * 2
        elif compute == "kdep":
            def computeQDelta(self, k=1):
                return np.tril(self.Q) / (1 if k is None else k)
        elif compute == "two":
            def computeQDelta(self, k=2):
                return np.tril(self.Q) / (1 if k is None else k)
        elif compute == "zero":
            def computeQDelta(self, k=0):
                return np.tril(self.Q) / (1 if k is None else k)
        elif compute == "factor":
            def computeQDelta(self, k=None):
                return np.tril(self.Q) * self.factor
        elif compute == "nok":
            def computeQDelta(self):
                return np.tril(self.Q)
        elif compute == "kwonly":
            def computeQDelta(self, *, k=None):
                return np.tril(self.Q)
        elif compute == "star":
            def computeQDelta(self, *k):
                return np.tril(self.Q)
        if compute:
            ns["computeQDelta"] = computeQDelta
        if init == "nokwargs":
            def __init__(self, Q):
                self.Q = np.asarray(Q)
            ns["__init__"] = __init__
        elif init == "poskwargs":
            def __init__(self, Q, kwargs=None):
                self.Q = np.asarray(Q)
            ns["__init__"] = __init__
        elif init == "factor":
            def __init__(self, Q, factor=2, **kwargs):
                self.Q = np.asarray(Q)
                self.factor = factor
            ns["__init__"] = __init__
        if aliases is not None:
            ns["aliases"] = aliases() if callable(aliases) else aliases
        return type(name, (base() if base else QDeltaGenerator,), ns)
    return make


def old(reg, name):
    """an already registered class"""
    def make():
        from qmat import Q_GENERATORS, QDELTA_GENERATORS
        return (QDELTA_GENERATORS if reg == "D" else Q_GENERATORS)[name]
    return make


def needs_arg(self, x):
    self.x = x


def raises(self):
    raise ValueError("no")


ODD = [" VA", "VA ", "va", "V A", "V-α.1/2(é)", "v" * 70, "RK4 ", "_VA", "None", "VA\n"]      # names differing in little from others

DEFS = {
    # Q-generators
    "Q1": ("Q", ["V1"], True, mkQ("V1")),
    "Q2": ("Q", ["V2", "VA", "VB"], True, mkQ("V2", lambda: ["VA", "VB"])),
    "Q emptyaliases": ("Q", ["V3"], True, mkQ("V3", lambda: [])),
    "Q defaultparams": ("Q", ["V4"], True, mkQ("V4", init=needs_arg, params={"x": 1})),
    "Q alias of V1": ("Q", ["V5", "V1"], True, mkQ("V5", lambda: ["V1"])),
    "Q named VA": ("Q", ["VA", "V1b"], True, mkQ("VA", lambda: ["V1b"])),
    "Q last alias RK4": ("Q", ["V6", "VC", "RK4"], True, mkQ("V6", lambda: ["VC", "RK4"])),
    "Q last alias VC": ("Q", ["V6b", "VC"], True, mkQ("V6b", lambda: ["VC"])),
    "Q named Collocation": ("Q", ["Collocation", "VD"], True, mkQ("Collocation", lambda: ["VD"])),
    "Q own name alias": ("Q", ["V7", "V7"], True, mkQ("V7", lambda: ["V7"])),
    "Q twice same alias": ("Q", ["V8", "VE", "VE"], True, mkQ("V8", lambda: ["VE", "VE"])),
    "Q tuple aliases": ("Q", ["V9", "VF"], False, mkQ("V9", ("VF",))),
    "Q string alias": ("Q", ["V9"], False, mkQ("V9", "VF")),
    "Q without nodes": ("Q", ["V1"], False, mkQ("V1", drop="nodes")),
    "Q without Q": ("Q", ["V1"], False, mkQ("V1", drop="Q")),
    "Q without weights": ("Q", ["V1"], False, mkQ("V1", lambda: ["VA"], drop="weights")),
    "Q without order": ("Q", ["V1"], False, mkQ("V1", drop="order")),
    "Q method weights": ("Q", ["V1"], False, mkQ("V1", method="weights")),
    "Q no params": ("Q", ["V1"], False, mkQ("V1", init=needs_arg)),
    "Q bad params": ("Q", ["V1"], False, mkQ("V1", lambda: ["VB"], init=needs_arg, params={"y": 1})),
    "Q raising": ("Q", ["V1"], False, mkQ("V1", init=raises)),
    "Q odd aliases": ("Q", ["V10"] + ODD, True, mkQ("V10", lambda: list(ODD))),
    "Q again Collocation": ("Q", ["Collocation"], True, old("Q", "Collocation")),
    # Runge-Kutta
    "RK1": ("RK", ["W1"], True, mkRK("W1", b2=(1, 0))),
    "RK2": ("RK", ["W2", "VA", "WA"], True, mkRK("W2", lambda: ["VA", "WA"])),
    "RK subclass": ("RK", ["W3"], True, mkRK("W3", lambda: [], base=old("Q", "RK4"), order="absent")),
    "RK named V1": ("RK", ["V1"], True, mkRK("V1")),
    "RK alias Collocation": ("RK", ["W4", "Collocation"], True, mkRK("W4", lambda: ["Collocation"])),
    "RK alias RK4": ("RK", ["W5", "WB", "RK4"], True, mkRK("W5", lambda: ["WB", "RK4"])),
    "RK sizes b": ("RK", ["W1"], False, mkRK("W1", b=(0, .5, .5))),
    "RK sizes A": ("RK", ["W1"], False, mkRK("W1", lambda: ["WA"], A=((0, 0, 0), (.5, 0, 0)))),
    "RK sizes c": ("RK", ["W1"], False, mkRK("W1", c=(0, .5, 1))),
    "RK no order": ("RK", ["W1"], False, mkRK("W1", order="absent")),
    "RK order None": ("RK", ["W1"], False, mkRK("W1", order=None)),
    "RK odd aliases": ("RK", ["W6", "w1", " VA2", "RK4  "], True, mkRK("W6", lambda: ["w1", " VA2", "RK4  "])),
    "RK again RK4": ("RK", ["RK4"], True, old("Q", "RK4")),
    # QDelta
    "D1": ("D", ["U1"], True, mkD("U1")),
    "D2": ("D", ["U2", "UA", "UB"], True, mkD("U2", lambda: ["UA", "UB"], compute="kdep")),
    "D subclass": ("D", ["U3", "V1"], True, mkD("U3", lambda: ["V1"], compute="kdep", base=old("D", "LU"))),
    "D default two": ("D", ["U5"], True, mkD("U5", compute="two")),
    "D default zero": ("D", ["U6"], True, mkD("U6", compute="zero")),
    "D own parameter": ("D", ["U7", "UE"], True, mkD("U7", lambda: ["UE"], compute="factor", init="factor")),
    "D scheme subclass": ("D", ["U8"], True, mkD("U8", lambda: [], compute="plain", base=old("D", "GS"))),
    "D nothing overridden": ("D", ["U9"], True, mkD("U9", lambda: [], compute=None, base=old("D", "QPar"))),
    "D alias LU": ("D", ["U4", "UC", "LU"], True, mkD("U4", lambda: ["UC", "LU"])),
    "D alias UC": ("D", ["U4b", "UC", "U1"], True, mkD("U4b", lambda: ["UC", "U1"])),
    "D named BE": ("D", ["BE", "UD"], True, mkD("BE", lambda: ["UD"])),
    "D no override": ("D", ["U1"], False, mkD("U1", compute=None)),
    "D without k": ("D", ["U1"], False, mkD("U1", lambda: ["UA"], compute="nok")),
    "D keyword only k": ("D", ["U1"], False, mkD("U1", compute="kwonly")),
    "D star k": ("D", ["U1"], False, mkD("U1", compute="star")),
    "D no kwargs": ("D", ["U1"], False, mkD("U1", lambda: ["UB"], init="nokwargs")),
    "D positional kwargs": ("D", ["U1"], False, mkD("U1", init="poskwargs")),
    "D odd aliases": ("D", ["U10", "lu", " LU", "ua", "UA ", "U,A"], True, mkD("U10", lambda: ["lu", " LU", "ua", "UA ", "U,A"])),
    "D again LU": ("D", ["LU"], True, old("D", "LU")),
}
LABELS = list(DEFS)
CORE = ["Q1", "Q2", "Q alias of V1", "Q named VA", "Q last alias RK4", "Q last alias VC", "Q own name alias", "Q tuple aliases", "Q without order", "Q bad params", "Q again Collocation",
        "RK1", "RK2", "RK subclass", "RK named V1", "RK alias RK4", "RK sizes A", "RK order None", "D1", "D2", "D subclass", "D alias LU", "D alias UC", "D without k", "D no kwargs", "D again LU"]


def tasks(quick):
    yield ("init",)
    for i in range(len(imports.STATEMENTS)):
        for seed in (0, 1) if quick else range(6):
            yield ("imports", i, seed, (2 - seed if quick else 2 if seed else 3))
    for i in LABELS:
        for j in LABELS:
            core = i in CORE and j in CORE
            yield ("seq", i, j, int(core) if quick else 1 + core)


def registries():
    from qmat import Q_GENERATORS as Q, QDELTA_GENERATORS as D
    from qmat.qcoeff.butcher import RK_SCHEMES as R
    return dict(Q=Q, RK=R, D=D)


def action(label, model, made):
    """perform one registration, return (accepted?, description of what is wrong or None)"""
    from qmat.qcoeff import register as regQ
    from qmat.qcoeff.butcher import registerRK as regRK
    from qmat.qdelta import register as regD
    kind, names, ok, make = DEFS[label]
    regs = ["Q", "RK"] if kind == "RK" else [kind]
    ok = ok and len(set(names)) == len(names) and not any(n in model[r] for r in regs for n in names)
    cls = make()
    try:
        ret = dict(Q=regQ, RK=regRK, D=regD)[kind](cls)
        done = True
    except Exception as e:
        done, ret = False, e
    if done != ok:
        return done, f"registration was {'accepted' if done else f'refused ({type(ret).__name__}: {ret})'}, expected {'acceptance' if ok else 'refusal'}"
    if done:
        if ret is not cls:
            return done, "the decorator does not return the class"
        for r in regs:
            for n in names:
                model[r][n] = cls
        made.append((label, cls))
    return done, None


def audit(model, made):
    """everything observable of the registries against the model"""
    from qmat import genQCoeffs, genQDeltaCoeffs
    real = registries()
    for r in model:
        if set(real[r]) != set(model[r]):
            return f"registry {r}: entries {sorted(set(real[r]) ^ set(model[r]))} missing or in excess"
        bad = [n for n in model[r] if real[r][n] is not model[r][n]]
        if bad:
            return f"registry {r}: entry {bad} belongs to another class"
    from qmat.utils import getClasses
    for r in model:
        for mod in (None, "butcher", "diag"):
            got = getClasses(real[r]) if mod is None else getClasses(real[r], module=mod)
            exp = {id(c) for c in model[r].values() if mod is None or c.__module__.endswith("." + mod)}
            if any(model[r].get(n) is not c for n, c in got.items()) or len(got) != len(exp) or {id(c) for c in got.values()} != exp:
                return f"registry {r}: the list of classes (module {mod}) is not every class exactly once"
    for label, cls in made:
        kind, names, _, _ = DEFS[label]
        for n in names:
            try:
                if kind == "D":
                    kd = label in ("D2", "D subclass", "D default two", "D default zero")
                    base = np.diag(np.diag(QM)) if label == "D nothing overridden" else np.tril(QM) if kd else 2 * np.tril(QM)
                    one = genQDeltaCoeffs(n, Q=QM.copy())
                    two = genQDeltaCoeffs(n, nSweeps=2, Q=QM.copy())
                    exp2 = np.array([base, base / 2 if kd else base])
                    if not (X.close(one, base, 1e-14) and X.close(two, exp2, 1e-14) and cls(Q=QM.copy()).isKDependent() == kd):
                        return f"{n} is registered but does not give its coefficients"
                    gq = real["Q"]["Collocation"](2, "LEGENDRE", "GAUSS")
                    for m, kw in ((QM, dict(Q=QM.copy())), (gq.Q, dict(qGen=gq)), (QM, dict(qGen=gq, Q=QM.copy()))):
                        for f in (None, 2, 5) if label == "D own parameter" else (None,):
                            kf = {} if f is None else {"factor": f}
                            e = np.diag(np.diag(m)) if label == "D nothing overridden" else np.tril(m) * (1 if kd else 2 if f is None else f)
                            if not X.close(genQDeltaCoeffs(n, unrelated=3, **kf, **kw), e, 1e-13) or not X.close(cls(**kf, **kw).getQDelta(), e, 1e-13):
                                return f"{n} is registered but does not take its parameters"
                else:
                    c, b, A = genQCoeffs(n, **getattr(cls, "DEFAULT_PARAMS", {}))
                    g = cls.getInstance()
                    if not (X.close(c, g.nodes, 1e-14) and X.close(b, g.weights, 1e-14) and X.close(A, g.Q, 1e-14)):
                        return f"{n} is registered but does not give its coefficients"
                    if kind == "Q" and not (X.close(A, QM, 1e-14) and X.close(c, [0.25, 1], 1e-14)):
                        return f"{n} is registered but does not give its coefficients"
                    if kind == "RK" and label == "RK1" and not (X.close(A, [[0, 0], [.5, 0]], 1e-14) and X.close(genQCoeffs(n, embedded=True)[1], [[0, 1], [1, 0]], 1e-14)
                                                                  and X.close(genQCoeffs(n, padding="LEFT")[0], [0, 0, .5], 1e-14)):
                        return f"{n} is registered but does not give its coefficients"
            except Exception as e:
                return f"{n} is registered but using it raises {type(e).__name__}: {e}"
    # classes that were there before still answer
    L = genQDeltaCoeffs("LU", nSweeps=2, Q=QM)
    if not X.close(L[1], L[0], 0) or real["D"]["LU"](QM).isKDependent() or real["D"]["BE"](nodes=[.5, 1]).isKDependent() or not real["D"]["MIN-SR-FLEX"](nNodes=2, nodeType="LEGENDRE", quadType="RADAU-RIGHT").isKDependent():
        return "a class registered before changed"
    if not X.close(genQCoeffs("RK4")[1], np.array([1, 2, 2, 1]) / 6, 1e-14) or genQCoeffs("Collocation", nNodes=2, nodeType="LEGENDRE", quadType="GAUSS")[0].size != 2:
        return "a class registered before changed"
    return None


def run(task, rec):
    warnings.simplefilter("ignore")
    model = {r: dict(d) for r, d in registries().items()}
    if task[0] == "init":
        init(rec, model)
        return
    if task[0] == "imports":
        importing(rec, *task[1:])
        return
    _, i, j, depth = task
    seq, made = [], []

    def do(label, rec):
        seq.append(label)
        rec.step()
        done, bad = action(label, model, made)
        bad = bad or audit(model, made)
        rec.state(tuple(sorted(n for r in model for n, c in model[r].items() if any(c is m for _, m in made))) + tuple(l for l, _ in made))
        rec.outcome((label, done))
        return rec.expect(bad is None, " ; ".join(seq), bad)
    if not do(i, rec) or not do(j, rec):
        return
    rec.trace()

    def deeper(depth):
        def leaf(label):
            r = Rec()
            try:
                if do(label, r):
                    r.trace()
                    if depth > 1:
                        for x in deeper(depth - 1):
                            r.merge(x)
            except Stop:
                pass
            return r
        for idx, r in fork_map(leaf, LABELS if depth == task[3] else CORE, nproc=1):
            if isinstance(r, tuple):
                raise RuntimeError(f"forked registration ended {r} after {seq}")
            yield r
    for r in deeper(depth) if depth else ():
        rec.merge(r)
        if len(rec.viol) >= rec.MAXV:
            raise Stop()
    if i == j:
        rec.sample(f"{i} ; {j} ; any: registries and their classes as in the model")


def init(rec, model):
    rec.keepall = True
    for r, table in (("Q", regnames.Q), ("RK", regnames.RK), ("D", regnames.QDELTA)):
        for cn, names in table.items():
            for n in names:
                rec.state((r, n)); rec.step(); rec.trace()
                if rec.expect(n in model[r], f"{r} {n}", "is not registered any more"):
                    rec.expect(model[r][n].__name__ == cn, f"{r} {n}", f"names {model[r][n].__name__} instead of {cn}")
        for n, cls in model[r].items():
            rec.state((r, n, "own")); rec.step(); rec.trace()
            al = getattr(cls, "aliases", None) or []
            rec.expect(n in [cls.__name__] + list(al), f"{r} {n}", f"is neither the name nor an alias of {cls.__name__}")
            for a in [cls.__name__] + list(al):
                rec.expect(model[r].get(a) is cls, f"{r} {a}", f"does not give {cls.__name__}")
    for n, cls in model["RK"].items():
        rec.state(("RK in Q", n)); rec.step(); rec.trace()
        rec.expect(model["Q"].get(n) is cls, f"RK {n}", "is not available as Q-generator")
    import qmat, qmat.qcoeff, qmat.qdelta
    rec.step(2)
    rec.expect(qmat.Q_GENERATORS is qmat.qcoeff.Q_GENERATORS and qmat.QDELTA_GENERATORS is qmat.qdelta.QDELTA_GENERATORS, "top level", "registries of the top level are others")


def importing(rec, i, seed, depth):
    """all histories of import statements beginning with the i-th one, each in a process that never imported qmat"""
    first = imports.STATEMENTS[i]
    seqs = [["import qmat"], [first]]
    for d in range(1, depth):
        seqs += [[first, *s] for s in itertools.product(imports.STATEMENTS, repeat=d)]
    p = subprocess.run([sys.executable, os.path.join(os.path.dirname(imports.__file__), "imports.py")], input=json.dumps(seqs), capture_output=True, text=True, cwd="/",
                       env=dict(os.environ, QMAT_REPO=REPO, PYTHONHASHSEED=str(seed)))
    if p.returncode:
        raise RuntimeError(p.stderr[-2000:])
    res = json.loads(p.stdout)
    ref = res[0]
    for s, o in zip(seqs, res):
        rec.state((seed, tuple(s))); rec.step(len(s)); rec.trace()
        rec.outcome(repr(o)[:300])
        key = " ; ".join(s)
        if not rec.expect(not o["errors"], key, "importing in this order fails", detail=o["errors"][:3]):
            continue
        if ref["errors"]:
            continue
        for r in o["registries"]:
            rec.expect(o["registries"][r] == ref["registries"][r], key, f"registry {r} is not the one after import qmat",
                       detail=sorted(set(o["registries"][r]) ^ set(ref["registries"][r]))[:5])
            table = dict(Q=regnames.Q, RK=regnames.RK, D=regnames.QDELTA)[r]
            rec.expect(all(o["registries"][r].get(n) == cn for cn, ns in table.items() for n in ns), key, f"registry {r} is incomplete")
        rec.expect(o["answers"] == ref["answers"], key, "answers depend on the imports")
