"""C09 multi-sweep QDelta coefficients: full product type/list x nSweeps x form x dTau against single-sweep answers of new generators."""
import itertools
import numpy as np
from .. import exact as X, usergens
from ..core import *

PROPERTY = "C09"
REPS_Q = ["BE", "LU", "MIN-SR-FLEX", "TRAP", "FB2", "MIN-SR-S", "FE", "PIC"]
REPS_T = REPS_Q + ["LF", "QPar", "FB", "TRAPAR", "MIN-SR-NS", "DNODES-3", "LDU", "EXACT"]
COLLS = [(3, "LEGENDRE", "RADAU-RIGHT"), (2, "CHEBY-2", "LOBATTO"), (4, "LEGENDRE", "GAUSS")]
BOUNDS = {"quick": "every registered name x nSweeps None,1..6,14,33 x 2 forms x dTau x 2 parameter sets x 2 ways to give parameters; all lists of length 1-3 over 8 types x nSweeps None,1..6 (9, 17, 40 reduced) x forms x dTau; lists of up to 24 types; 11 user-defined approximations, alone and in lists with each other; every list of 1-3 sweep indices of {1,2,3,5} asked to a generator of every name x forms x dTau; invalid arguments",
          "thorough": "as quick with 3 parameter sets, nSweeps to 12, all lists of length 1-3 over 16 types, length 4 over 5 types"}
ASSUMPTIONS = ["the single-sweep matrices of a new generator are judged by C11, C12 and C13"]
TOL = 1e-12


def tasks(quick):
    from qmat import QDELTA_GENERATORS as G
    for name in list(G) + list(usergens.QDELTAS) + ["user-sweep", "Q^k"]:
        yield ("single", name, quick)
    yield ("user lists", quick)
    for name in list(G) + list(usergens.QDELTAS):
        yield ("indices", name, quick)
    reps = REPS_Q if quick else REPS_T
    for first in reps:
        for ci in range(1 if quick else 2):
            yield ("lists", first, reps, 3, ci, quick)
    if not quick:
        for first in REPS_Q[:5]:
            yield ("lists", first, REPS_Q[:5], 4, 0, quick)
    yield ("refuse", tuple(reps))


class Model:
    """k-th matrix = matrix a new generator of that type gives for sweep k"""
    def __init__(self, params):
        self.params, self.memo = params, {}

    def mat(self, name, k, form):
        if (name, k) not in self.memo:
            from qmat import QDELTA_GENERATORS as G
            self.memo[name, k] = np.array(G[name](**self.params).getQDelta(k))
        m = self.memo[name, k]
        return (np.eye(len(m)) - np.eye(len(m), k=-1)) @ m if form == "N2N" else m

    def dtau(self, name):
        if (name, "dTau") not in self.memo:
            from qmat import QDELTA_GENERATORS as G
            self.memo[name, "dTau"] = np.array(G[name](**self.params).dTau)
        return self.memo[name, "dTau"]


def pset(ci):
    from qmat.qcoeff.collocation import Collocation
    p = COLLS[ci]
    c = Collocation(*p)
    return dict(qGen=c), dict(Q=c.Q.copy(), nodes=c.nodes.copy(), tLeft=0, nNodes=p[0], nodeType=p[1], quadType=p[2])


def same_args(a, b):
    return a.keys() == b.keys() and all(np.array_equal(a[k], b[k]) if isinstance(a[k], np.ndarray) else a[k] is b[k] or a[k] == b[k] for k in a)


def judge(rec, key, model, types, nSweeps, form, dTau, out, single):
    M = len(model.dtau(types[0]))
    if dTau:
        if not rec.expect(isinstance(out, (tuple, list)) and len(out) == 2, key, "no (QDelta, dTau) pair"):
            return
        QD, dt = out
        rec.expect(X.close(dt, model.dtau(types[0]), TOL), key, "dTau is not that of the first approximation", got=dt, expected=model.dtau(types[0]))
    else:
        QD = out
    if not rec.expect(isinstance(QD, np.ndarray), key, f"returns {type(QD).__name__}"):
        return
    if single:
        exp = model.mat(types[0], 1, form)
    else:
        n = nSweeps or len(types)
        exp = np.array([model.mat(types[min(k, len(types) - 1)], k + 1, form) for k in range(n)])
    rec.expect(QD.shape == exp.shape, key, f"shape {QD.shape} instead of {exp.shape}")
    rec.expect(X.close(QD, exp, TOL), key, "matrices are not those of the single sweeps", got=QD, expected=exp)


def run(task, rec):
    from qmat import genQDeltaCoeffs
    if task[0] == "refuse":
        return refuse(task, rec)
    usergens.qdeltas()
    if task[0] == "user lists":
        return user_lists(task, rec)
    if task[0] == "indices":
        return indices(task, rec)
    if task[0] == "single":
        _, name, quick = task
        for ci in range(2 if quick else 3):
            if name == "LDU" and ci == 1:
                continue                 # Q of LOBATTO nodes has a zero row : there is no LDU factorization
            gq, ex = pset(ci)
            model = Model(gq)
            try:
                model.mat(name, 1, "Z2N")
            except NotImplementedError:
                rec.state((name, ci, "unavailable")); rec.step()
                rec.expect(X.refused(genQDeltaCoeffs, name, **gq), f"{name} {COLLS[ci]}", "unavailable but answered")
                continue
            ns = [None] + list(range(1, 7 if quick else 13)) + [14, 33]
            if name in ("MIN", "MIN-Speck"):
                ns = [None, 1, 3]
            for params, pn in ((gq, "qGen"), (ex, "explicit")):
                for n, form, dTau in itertools.product(ns, ("Z2N", "N2N"), (False, True)):
                    key = f"{name} {COLLS[ci]} {pn} nSweeps={n} form={form} dTau={dTau}"
                    rec.state((name, ci, pn, n, form, dTau))
                    given = {k: v.copy() if isinstance(v, np.ndarray) else v for k, v in params.items()}
                    for rep in range(2):     # second call after the caller overwrote the first result
                        rec.step(); rec.trace()
                        out = genQDeltaCoeffs(name, nSweeps=n, form=form, dTau=dTau, **given)
                        judge(rec, key, model, [name], n, form, dTau, out, n is None)
                        rec.expect(same_args(given, params), key, "arguments modified")
                        scribble(list(out) if isinstance(out, tuple) else out)
                    if form == "Z2N" and not dTau:      # defaults and positional nSweeps
                        rec.step(2)
                        judge(rec, key, model, [name], n, form, dTau, genQDeltaCoeffs(name, n, **given), n is None)
                    rec.step()
                    judge(rec, key + " positional", model, [name], n, form, dTau, genQDeltaCoeffs(name, n, form, dTau, **given), n is None)
                    # list with one element: always several sweeps
                    L = [name]
                    rec.step(); rec.trace()
                    judge(rec, key + " [list]", model, [name], n, form, dTau, genQDeltaCoeffs(L, nSweeps=n, form=form, dTau=dTau, **given), False)
                    rec.expect(L == [name], key, "list modified")
        rec.sample(f"{key}: {2 if n is None else 3}-dimensional result, as the single sweeps")
        return
    _, first, reps, depth, ci, quick = task
    gq, ex = pset(ci)
    model = Model(gq)
    for length in range(1, depth + 1):
        for rest in itertools.product(reps, repeat=length - 1):
            types = [first] + list(rest)
            for n in [None] + list(range(1, 7)):
                for form, dTau in itertools.product(("Z2N", "N2N"), (False, True)):
                    if n == 5 and (form == "N2N") != dTau:
                        continue
                    L = list(types)
                    key = f"{types} nSweeps={n} form={form} dTau={dTau} {COLLS[ci]}"
                    rec.step(); rec.state(key); rec.trace()
                    if n is not None and n < length:
                        rec.expect(X.refused(genQDeltaCoeffs, L, nSweeps=n, form=form, dTau=dTau, **gq), key, "more approximations than sweeps accepted")
                    else:
                        judge(rec, key, model, types, n, form, dTau, genQDeltaCoeffs(L, nSweeps=n, form=form, dTau=dTau, **gq), False)
                    rec.expect(L == types, key, f"list modified to {L}")
            if length >= 2 and rest[0] != first and ci == 0:
                for n in (9, 17, 40):           # many more sweeps than approximations
                    key = f"{types} nSweeps={n} {COLLS[ci]}"
                    rec.step(); rec.state(key); rec.trace()
                    judge(rec, key, model, types, n, "Z2N", True, genQDeltaCoeffs(list(types), nSweeps=n, dTau=True, **gq), False)
    # longer lists than anyone uses: every approximation once, and the same one many times
    for types in (list(reps), list(reps) * 3, [first] * 20 + [reps[-1]], [reps[0]] + [first] * 12):
        for n in (None, len(types), len(types) + 5, len(types) - 1):
            key = f"{types} nSweeps={n} {COLLS[ci]}"
            rec.step(); rec.state(key); rec.trace()
            if n is not None and n < len(types):
                rec.expect(X.refused(genQDeltaCoeffs, list(types), nSweeps=n, **gq), key, "more approximations than sweeps accepted")
            else:
                judge(rec, key, model, types, n, "N2N", True, genQDeltaCoeffs(list(types), nSweeps=n, form="N2N", dTau=True, **gq), False)
    rec.sample(key)


def user_lists(task, rec):
    """lists mixing user-defined and library approximations, library matrices from a new generator, user-defined ones from their formulas"""
    from qmat import genQDeltaCoeffs
    users = usergens.qdeltas()
    for ci in range(len(COLLS)):
        gq, ex = pset(ci)
        model = Model(gq)

        class Both(Model):
            def mat(self, name, k, form):
                if name not in users:
                    return model.mat(name, k, form)
                m = users[name][1](ex, k)
                return (np.eye(len(m)) - np.eye(len(m), k=-1)) @ m if form == "N2N" else m
        both = Both(gq)
        reps = list(users) + ["BE", "MIN-SR-FLEX"]
        for length in (1, 2, 3):
            for types in itertools.product(reps, repeat=length):
                if length == 3 and (ci or len(set(types)) < 2 or (types[0] in ("BE", "UserFlex"))):
                    continue
                for n, form, dTau in ((None, "Z2N", False), (length + 2, "N2N", True), (length, "Z2N", True)):
                    key = f"{types} nSweeps={n} form={form} dTau={dTau} {COLLS[ci]}"
                    rec.step(); rec.state(key); rec.trace()
                    out = genQDeltaCoeffs(list(types), nSweeps=n, form=form, dTau=dTau, **gq)
                    judge(rec, key, both, list(types), n, form, dTau, out, False)
                    scribble(list(out) if isinstance(out, tuple) else out)
    rec.sample(key)


def indices(task, rec):
    """every list of sweep indices asked to one generator: the matrix of each index, in the order of the list"""
    from qmat import QDELTA_GENERATORS as G
    _, name, quick = task
    ks = (1, 2, 3) if name in ("MIN", "MIN-Speck") else (1, 2, 3, 5)
    for ci in range(2 if quick else 3):
        if name == "LDU" and ci == 1:
            continue
        gq, ex = pset(ci)
        model = Model(gq)
        try:
            model.mat(name, 1, "Z2N")
        except NotImplementedError:
            continue
        shared = G[name](**gq)
        for length in (1, 2, 3) if quick else (1, 2, 3, 4):
            for L in itertools.product(ks, repeat=length):
                for form, dTau in itertools.product(("Z2N", "N2N"), (False, True)):
                    exp = np.array([model.mat(name, k, form) for k in L])
                    key = f"{name} {COLLS[ci]} k={list(L)} form={form} dTau={dTau}"
                    rec.state(key)
                    for g, kk in ((shared, list(L)), (shared, L), (G[name](**gq) if length > 1 and form == "N2N" and dTau and name not in ("MIN", "MIN-Speck") else shared, list(L))):
                        rec.step(); rec.trace()
                        out = g.genCoeffs(kk, form=form, dTau=dTau)
                        if dTau:
                            if not rec.expect(isinstance(out, (tuple, list)) and len(out) == 2, key, "no (QDelta, dTau) pair"):
                                continue
                            out, dt = out
                            rec.expect(X.close(dt, model.dtau(name), TOL), key, "dTau is not that of the approximation", got=dt)
                        rec.expect(isinstance(out, np.ndarray) and out.shape == exp.shape and X.close(out, exp, TOL), key, "not the matrices of the sweep indices in the order of the list", got=out, expected=exp)
                        rec.expect(list(kk) == list(L), key, "list of indices modified")
                        scribble(out)
    rec.sample(key)


def refuse(task, rec):
    from qmat import genQDeltaCoeffs
    gq, ex = pset(0)
    types = ["BE", "MIN-SR-FLEX", ["BE"], ["BE", "LU"], ["LU", "MIN-SR-FLEX", "TRAP"]]
    for t in types:
        for n in (0, -1, -5, 1.5, 2.0, "2", [2], (1,)):
            for form, dTau in itertools.product(("Z2N", "N2N"), (False, True)):
                L = list(t) if isinstance(t, list) else t
                rec.step(); rec.trace(); rec.state((str(t), str(n), form, dTau))
                rec.expect(X.refused(genQDeltaCoeffs, L, nSweeps=n, form=form, dTau=dTau, **gq), f"{t} nSweeps={n!r}", "invalid number of sweeps accepted")
                rec.expect(L == t, f"{t} nSweeps={n!r}", "list modified by a refused call")
        for form in ("", "z2n", "n2n", "N2Z", "Q", None, 1):
            for n in (None, 1, 3, 4):
                for dTau in (False, True):
                    L = list(t) if isinstance(t, list) else t
                    rec.step(); rec.trace(); rec.state((str(t), n, "form", str(form), dTau))
                    rec.expect(X.refused(genQDeltaCoeffs, L, nSweeps=n, form=form, dTau=dTau, **gq), f"{t} nSweeps={n} form={form!r}", "unknown form accepted")
                    rec.expect(L == t, f"{t} form={form!r}", "list modified by a refused call")
    for t in ([], "", "be", "QDeltaGenerator", "TimeStepping", "FromTable", "BE ", "Collocation", None, 3, ["BE", "XX"], ["XX", "BE"], ["XX"], ["BE", None], {"BE": 1}):
        for n in (None, 1, 2, 4):
            for form, dTau in itertools.product(("Z2N", "N2N"), (False, True)):
                rec.step(); rec.trace(); rec.state((str(t), n, form, dTau, "type"))
                rec.expect(X.refused(genQDeltaCoeffs, t, nSweeps=n, form=form, dTau=dTau, **gq), f"type {t!r} nSweeps={n}", "unknown approximation accepted")
