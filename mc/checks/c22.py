"""C22 threads: stateless model checking of the real code under a controlled scheduler. All schedules of two threads with up to two preemptions
(any source line of qmat, for short scenarios any bytecode instruction), each in a forked copy of a fresh process."""
import inspect, itertools, warnings, random, time
import numpy as np
from .. import exact as X, state as S
from ..core import *
from ..sched import Run
from .c21 import clean

PROPERTY = "C22"
BOUNDS = {"quick": "2 threads; 145 scenarios x 2 starting threads (every QDelta generator shared; shared Collocation, Runge-Kutta, Lagrange and nodes objects; independent constructions and generic functions; first use of the library in both threads); all schedules with 1 preemption at every source line of qmat (every bytecode instruction for scenarios below 350 instructions per thread; at most 400 evenly spaced points for longer ones), all schedules with 2 preemptions at every pair of lines (scenarios with at most 600 pairs, 2500 when deprecation warnings or numpy error handling are involved), at pairs of function entries (at most 11 x 11 evenly spaced) for the others",
          "thorough": "bytecode granularity below 4000 instructions (at most 10000 points), 2 preemptions at all pairs of lines up to 26000 pairs (else 120 x 120 function entries); 3 threads with 1 preemption each"}
ASSUMPTIONS = ["preemption happens between bytecode instructions of qmat code (CPython with GIL); numpy, scipy and other library code runs without preemption except where it calls back into qmat",
               "a thread waiting for a lock held by a paused thread ends the control of that schedule: the threads then run freely"]


def q3():
    from qmat.qcoeff.collocation import Collocation
    return Collocation(3, "LEGENDRE", "RADAU-RIGHT")


def scenarios():
    """name -> (setup() -> env, [body of thread 0, body of thread 1], questions asked afterwards); each body / question is a list of fn(env)"""
    from qmat import genQCoeffs, genQDeltaCoeffs, Q_GENERATORS as QG, QDELTA_GENERATORS as DG
    from qmat.qcoeff.collocation import Collocation
    from qmat.lagrange import LagrangeApproximation as LA, getSparseInterpolationMatrix, computeFejerRule
    from qmat.nodes import NodesGenerator
    from qmat.utils import getClasses, num, sdc
    out = {}
    Qm = np.array([[0.3, -0.1, 0.05], [0.4, 0.25, -0.05], [0.35, 0.45, 0.2]])
    allk = [lambda e, k=k: e.getQDelta(k) for k in (None, 1, 2, 4)] + [lambda e: e.getSDelta(2), lambda e: e.dTau, lambda e: e.genCoeffs(k=[2, 1, 5], dTau=True)]
    for n, cls in getClasses(DG).items():
        if cls.__name__ == "MIN":
            mk = lambda cls=cls: cls(np.array([[0.6]]))
        elif cls.__name__ in ("MIN_SR_S", "MIN_SR_FLEX"):
            mk = lambda cls=cls: cls(nNodes=2, nodeType="LEGENDRE", quadType="RADAU-RIGHT")
        else:
            mk = lambda cls=cls: cls(qGen=q3())
        b = {"same": [[lambda e: e.getQDelta(1)], [lambda e: e.getQDelta(1)]],
             "sweeps": [[lambda e: e.getQDelta(1), lambda e: e.getQDelta(3)], [lambda e: e.getQDelta(2), lambda e: e.getQDelta(1)]],
             "forms": [[lambda e: e.genCoeffs(k=[1, 4], dTau=True)], [lambda e: e.genCoeffs(k=4, form="N2N"), lambda e: e.getSDelta(1)]]}
        for bn, bodies in b.items():
            out[f"shared {n} {bn}"] = (mk, bodies, allk)
    out["shared MIN_SR_FLEX refusals"] = (lambda: DG["MIN_SR_FLEX"](nNodes=2, nodeType="LEGENDRE", quadType="GAUSS"), [[lambda e: e.getQDelta(1)], [lambda e: e.getQDelta(0), lambda e: e.getQDelta(1)]], allk)
    # shared Q-generators
    qget = [lambda e: e.nodes, lambda e: e.weights, lambda e: e.Q, lambda e: e.S, lambda e: e.hCoeffs, lambda e: e.order, lambda e: e.genCoeffs(form="N2N", hCoeffs=True)]
    for n, mk in dict(Collocation=q3, CollocationLeft=lambda: Collocation(2, "EQUID", "LOBATTO", 1, 3), RK4=lambda: QG["RK4"](), RKpadded=lambda: QG["ESDIRK53"](padding="BOTH")).items():
        out[f"shared {n} coefficients"] = (mk, [[lambda e: e.genCoeffs(hCoeffs=True)], [lambda e: e.genCoeffs(form="N2N"), lambda e: e.T]], qget)
        out[f"shared {n} dahlquist"] = (mk, [[lambda e: e.solveDahlquist(-1, 1, 1, 2)], [lambda e: e.errorDahlquist(1j, 2, 1, 1), lambda e: e.S]], qget)
        out[f"shared {n} QDelta"] = (mk, [[lambda e: genQDeltaCoeffs("BE", qGen=e)], [lambda e: genQDeltaCoeffs("LU", nSweeps=2, qGen=e)]], qget)
    out["shared ESDIRK53 embedded"] = (lambda: QG["ESDIRK53"](), [[lambda e: e.genCoeffs(embedded=True)], [lambda e: e.genCoeffs(embedded=True), lambda e: e.solveDahlquist(-1, 1, 1, 1, useEmbeddedWeights=True)]], qget)
    # one object asked for different things by the two threads
    g = lambda n, mk, b0, b1, post: out.__setitem__(n, (mk, [b0, b1], post))
    E = lambda: QG["ESDIRK53"]()
    H = lambda: QG["HEUN2"]()
    for n, mk in dict(ESDIRK53=E, HEUN2=H, HEUN2padded=lambda: QG["HEUN2"](padding="RIGHT")).items():
        g(f"shared {n} main and embedded solve", mk, [lambda e: e.solveDahlquist(-1, 1, 1, 2)], [lambda e: e.solveDahlquist(-1, 1, 1, 1, useEmbeddedWeights=True)], qget)
        g(f"shared {n} main and embedded error", mk, [lambda e: e.errorDahlquist(-1, 1, 1, 1)], [lambda e: e.errorDahlquist(-1, 1, 1, 1, useEmbeddedWeights=True), lambda e: e.genCoeffs()], qget)
        g(f"shared {n} main and embedded coefficients", mk, [lambda e: e.genCoeffs(form="N2N")], [lambda e: e.genCoeffs(embedded=True), lambda e: e.weightsEmbedded, lambda e: e.weights], qget)
    g("shared Collocation different problems", q3, [lambda e: e.solveDahlquist(-1, 1, 1, 2)], [lambda e: e.solveDahlquist(1j, 3, 2, 3)], qget)
    g("shared Collocation form and transfer", q3, [lambda e: e.S, lambda e: e.hCoeffs], [lambda e: e.genCoeffs(form="N2N", hCoeffs=True), lambda e: e.Tinv, lambda e: e.rightIsNode], qget)
    g("shared Collocation sdc", q3, [lambda e: sdc.solveDahlquistSDC(-1, 1, 1, 1, 2, e.Q, np.tril(e.Q), e.weights)], [lambda e: sdc.errorDahlquistSDC(1j, 2, 1, 2, 1, e.Q, np.diag(e.nodes)), lambda e: sdc.getOrderSDC(e, 2, "BE", "QUADRATURE")], qget)
    # shared Lagrange objects
    P = [0.1, 0.35, 0.5, 0.9]
    lget = [lambda e: e.getInterpolationMatrix([0.2, 0.35]), lambda e: e.getIntegrationMatrix([(0, 1)]), lambda e: e.getDerivativeMatrix(), lambda e: e.weights]
    for n, mk in dict(plain=lambda: LA(P, fValues=[1., 2., 0., -1.]), duplicates=lambda: LA([.5, .1, .5, .9], fValues=[1., 2., 1., 0.]), right=lambda: LA([.5, .1, .5, .9], duplicates="USE_RIGHT", fValues=[1., 2., 1., 0.])).items():
        out[f"shared Lagrange {n} call"] = (mk, [[lambda e: e([.2, .5])], [lambda e: e(.3, [0., 1., 2., 3.]), lambda e: e(.3)]], lget)
        out[f"shared Lagrange {n} matrices"] = (mk, [[lambda e: e.getInterpolationMatrix([.2, .5]), lambda e: e.getIntegrationMatrix([(0, .5)])], [lambda e: e.getDerivativeMatrix(2)]], lget)
        out[f"shared Lagrange {n} ignored duplicates"] = (mk, [[lambda e: e.getInterpolationMatrix([.2, .5], duplicates=False)], [lambda e: e.getInterpolationMatrix([.3])]], lget)
    for n, mk in dict(plain=lambda: LA(P), duplicates=lambda: LA([.5, .1, .5, .9])).items():
        g(f"shared Lagrange {n} derivatives", mk, [lambda e: e.getDerivativeMatrix()], [lambda e: e.getDerivativeMatrix(2), lambda e: e.getDerivativeMatrix("ALL")], lget)
        g(f"shared Lagrange {n} integrals", mk, [lambda e: e.getIntegrationMatrix([(0, 1)])], [lambda e: e.getIntegrationMatrix([(0, .5), (.1, .3)], numQuad="LEGENDRE_NUMPY")], lget)
        g(f"shared Lagrange {n} interpolations", mk, [lambda e: e.getInterpolationMatrix([.2, .5])], [lambda e: e.getInterpolationMatrix([.7, .1]), lambda e: e.getInterpolationMatrix([.3])], lget)
        g(f"shared Lagrange {n} values", mk, [lambda e: e([.2, .5], [1., 0., 2., 3.])], [lambda e: e([.3, .1], [5., 4., 1., 2.])], lget)
    out["shared nodes"] = (lambda: NodesGenerator("CHEBY-2", "RADAU-LEFT"), [[lambda e: e.getNodes(3)], [lambda e: e.getNodes(4), lambda e: e.getNodes(2)]], [lambda e: e.getNodes(3), lambda e: e.getNodes(2)])
    out["shared nodes equid"] = (lambda: NodesGenerator("EQUID", "LOBATTO"), [[lambda e: e.getNodes(3)], [lambda e: e.getNodes(1), lambda e: e.getNodes(2)]], [lambda e: e.getNodes(3), lambda e: e.getNodes(2)])
    # deprecated ways, which warn
    out["deprecated coll"] = (q3, [[lambda e: DG["PIC"](coll=e)], [lambda e: DG["PIC"](coll=e)]], [lambda e: DG["PIC"](coll=e)])
    out["deprecated coll and generic"] = (q3, [[lambda e: genQDeltaCoeffs("BE", coll=e)], [lambda e: DG["FE"](coll=e), lambda e: e.nodes]], [lambda e: DG["PIC"](coll=e)])
    out["deprecated derivation"] = (lambda: LA([0., .5, 1.]), [[lambda e: e.getDerivationMatrix()], [lambda e: e.getDerivationMatrix(2)]], [lambda e: e.getDerivativeMatrix()])
    out["warning generators"] = (q3, [[lambda e: DG["MIN3"](qGen=e).getQDelta(2)], [lambda e: DG["LDU"](qGen=e).getQDelta()]], [lambda e: DG["MIN3"](qGen=e)])
    # independent use
    none = lambda: None
    C = lambda *a, **k: (lambda e: Collocation(*a, **k))
    out["independent collocations"] = (none, [[C(2, "LEGENDRE", "RADAU-RIGHT")], [C(3, "CHEBY-1", "GAUSS")]], [C(2, "LEGENDRE", "RADAU-RIGHT"), C(3, "CHEBY-1", "GAUSS"), C(3, "LEGENDRE", "LOBATTO")])
    out["independent same collocation"] = (none, [[C(2, "LEGENDRE", "LOBATTO")], [C(2, "LEGENDRE", "LOBATTO")]], [C(2, "LEGENDRE", "LOBATTO")])
    out["independent intervals"] = (none, [[C(2, "EQUID", "GAUSS", 0, 1)], [C(2, "EQUID", "GAUSS", 1, 3)]], [C(2, "EQUID", "GAUSS", 0, 1), C(2, "EQUID", "GAUSS", 1, 3)])
    out["independent paddings"] = (none, [[lambda e: QG["RK4"](padding="LEFT")], [lambda e: QG["RK4"](padding="RIGHT"), lambda e: QG["RK4"]()]], [lambda e: QG["RK4"](), lambda e: QG["RK4"](padding="BOTH")])
    out["independent generic Q"] = (none, [[lambda e: genQCoeffs("RK4", form="N2N")], [lambda e: genQCoeffs("HEUN", hCoeffs=True)]], [lambda e: genQCoeffs("RK4")])
    out["independent generic QDelta"] = (none, [[lambda e: genQDeltaCoeffs("BE", nodes=[.5, 1.], tLeft=0.25, dTau=True)], [lambda e: genQDeltaCoeffs("BE", nodes=[.1, .2, .7], dTau=True)]], [lambda e: genQDeltaCoeffs("BE", nodes=[.5, 1.], dTau=True)])
    out["independent flex"] = (none, [[lambda e: genQDeltaCoeffs("MIN-SR-FLEX", nSweeps=2, nNodes=2, nodeType="LEGENDRE", quadType="GAUSS")], [lambda e: genQDeltaCoeffs("MIN-SR-FLEX", nSweeps=2, nNodes=2, nodeType="LEGENDRE", quadType="RADAU-RIGHT")]],
                               [lambda e: genQDeltaCoeffs("MIN-SR-FLEX", nSweeps=2, nNodes=2, nodeType="LEGENDRE", quadType="GAUSS")])
    out["independent MIN-SR-S"] = (none, [[lambda e: genQDeltaCoeffs("MIN-SR-S", nNodes=2, nodeType="LEGENDRE", quadType="GAUSS")], [lambda e: genQDeltaCoeffs("MIN-SR-S", nNodes=2, nodeType="EQUID", quadType="RADAU-RIGHT")]],
                                   [lambda e: genQDeltaCoeffs("MIN-SR-S", nNodes=2, nodeType="LEGENDRE", quadType="GAUSS")])
    out["independent sweeps"] = (none, [[lambda e: genQDeltaCoeffs(["LU", "GS"], nSweeps=3, Q=Qm)], [lambda e: genQDeltaCoeffs("MIN-SR-FLEX", nSweeps=2, form="N2N", nNodes=1, nodeType="LEGENDRE", quadType="GAUSS")]], [lambda e: genQDeltaCoeffs("GS", Q=Qm)])
    shared = ["LU", "GS"]
    out["shared list of sweeps"] = (lambda: list(shared), [[lambda e: genQDeltaCoeffs(e, nSweeps=3, Q=Qm)], [lambda e: genQDeltaCoeffs(e, Q=Qm)]], [lambda e: list(e), lambda e: genQDeltaCoeffs(e, Q=Qm)])
    out["independent errors and results"] = (none, [[lambda e: genQCoeffs("NOPE"), lambda e: genQCoeffs("RK4", form="N2Z")], [lambda e: genQCoeffs("BE", hCoeffs=True)]], [lambda e: genQCoeffs("RK4")])
    out["overflow and interpolation on points"] = (none, [[lambda e: LA(np.arange(5) * 1e-80).weights], [lambda e: LA([0., .5, 1.]).getInterpolationMatrix([.5, .2])]], [lambda e: LA([0., .5, 1.]).getInterpolationMatrix([.5])])
    out["independent derivatives"] = (none, [[lambda e: LA([0., .5, 1.]).getDerivativeMatrix()], [lambda e: LA([0., .25, 1., .25]).getDerivativeMatrix(2)]], [lambda e: LA([0., .5, 1.]).getDerivativeMatrix()])
    out["independent sparse"] = (none, [[lambda e: getSparseInterpolationMatrix(np.array([0., .5, 1.]), np.array([.25]), 2)], [lambda e: getSparseInterpolationMatrix(np.array([0., .3, .6]), np.array([.25]), 2, gridPeriod=1)]], [lambda e: getSparseInterpolationMatrix(np.array([0., .5, 1.]), np.array([.25]), 2)])
    out["independent fejer"] = (none, [[lambda e: computeFejerRule(3)], [lambda e: computeFejerRule(4)]], [lambda e: computeFejerRule(3)])
    out["independent sdc"] = (none, [[lambda e: sdc.solveDahlquistSDC(-1, 1, 1, 1, 1, Qm, np.tril(Qm), monitors=["residuals"])], [lambda e: sdc.errorDahlquistSDC(1j, 1, 1, 1, 2, Qm, Qm)]], [lambda e: sdc.errorDahlquistSDC(1j, 1, 1, 1, 2, Qm, Qm)])
    out["independent utilities"] = (none, [[lambda e: num.lduFactorization(Qm), lambda e: num.numericalOrder([1, 2], [1., .5])], [lambda e: num.lduFactorization(Qm.T), lambda e: num.getExtrapolationMatrix([0., 1.], [2.])]], [lambda e: num.lduFactorization(Qm)])
    out["independent instances"] = (none, [[lambda e: QG["RK4"].getInstance()], [lambda e: QG["Collocation"].getInstance().nodes]], [lambda e: QG["RK4"].getInstance()])
    # classes registered while another thread uses the library
    from . import c20
    from qmat.qcoeff import register as regQ
    from qmat.qcoeff.butcher import registerRK as regRK
    from qmat.qdelta import register as regD
    reg = {"Q": regQ, "RK": regRK, "D": regD}
    R = lambda kind, mk: (lambda e: reg[kind](mk()).__name__)
    listed = lambda D, *a: (lambda e: sorted(n for n, c in getClasses(D, *a).items() if not n.startswith(("XV", "YV"))))
    mkD, mkQ, mkRK = c20.mkD, c20.mkQ, c20.mkRK
    both = [lambda e: sorted(n for D in (QG, DG) for n in D if n.startswith(("XV", "YV")))]
    useD = lambda n: (lambda e: genQDeltaCoeffs(n, nSweeps=2, Q=Qm))
    useQ = lambda n: (lambda e: genQCoeffs(n))
    g("registered QDelta and lists", none, [R("D", mkD("XV1", ["XVa"]))], [listed(DG), listed(DG, "algebraic")], both + [useD("XV1"), useD("XVa")])
    g("registered QDelta and use", none, [R("D", mkD("XV1", ["XVa"], compute="kdep"))], [useD("LU"), useD("GS")], both + [useD("XV1"), useD("LU")])
    g("registered Q and lists", none, [R("Q", mkQ("XV1", ["XVa"]))], [listed(QG)], both + [useQ("XV1"), useQ("XVa")])
    g("registered RK and lists", none, [R("RK", mkRK("XV1", ["XVa"], b2=(1, 0)))], [listed(QG, "butcher"), useQ("RK4")], both + [useQ("XV1"), useQ("XVa")])
    g("registered RK and use", none, [R("RK", mkRK("XV1", ["XVa"]))], [lambda e: genQCoeffs("RK4", padding="LEFT")], both + [useQ("XV1")])
    g("two registered QDelta", none, [R("D", mkD("XV1", ["XVa"]))], [R("D", mkD("YV1", ["YVa"], compute="kdep"))], both + [useD("XV1"), useD("YVa")])
    g("two registered Q", none, [R("Q", mkQ("XV1", ["XVa"]))], [R("RK", mkRK("YV1", ["YVa"]))], both + [useQ("XV1"), useQ("YVa")])
    g("refused QDelta and use", none, [R("D", mkD("XV1", ["XVa", "LU"]))], [useD("LU"), lambda e: genQDeltaCoeffs("XVa", Q=Qm)], both + [useD("LU")])
    g("refused RK and use", none, [R("RK", mkRK("XV1", ["RK4"]))], [useQ("RK4"), useQ("XV1")], both + [useQ("RK4")])
    return out


def tasks(quick):
    for n in scenarios():
        for first in (0, 1):
            yield (n, first, quick)
    if not quick:
        for n in scenarios():
            yield (n, "three", quick)


def outcome(bodies, env, plan, grain, post):
    """run one schedule in this process: everything observable"""
    random.seed(20240229)
    amb0 = light_ambient()
    res, events, segs, blocked = Run([[(lambda f=f: clean(f(env))) for f in b] for b in bodies], plan, grain).go()
    if res is None:
        return None, events, segs, blocked
    after = []
    for f in post:
        try:
            after.append(clean(f(env)))
        except Exception as e:
            after.append(("RAISED", type(e).__name__))
    amb1 = light_ambient()
    return (res, after, [k for k in amb0 if amb0[k] != amb1[k]]), events, segs, blocked


def light_ambient():
    import os
    return dict(err=np.geterr(), pr=str(np.get_printoptions()), filters=[(f[0], str(f[1]), str(f[2]), str(f[3]), f[4]) for f in warnings.filters], rnd=np.random.get_state()[1].tobytes(), pyrnd=hash(random.getstate()), env=dict(os.environ))


def run(task, rec):
    name, first, quick = task
    warnings.resetwarnings()
    warnings.filterwarnings("ignore", message=".*", category=Warning)     # not the list any plain "ignore" would give
    sc = scenarios()
    if name not in sc:
        return
    setup, bodies, post = sc[name]
    budget = time.time() + (100 if quick else 900)

    def sequential():
        d0 = S.canon(amb=False)
        env = setup()
        res = []
        for b in bodies:
            r = []
            for f in b:
                try:
                    r.append(clean(f(env)))
                except Exception as e:
                    r.append(("RAISED", type(e).__name__))
            res.append(r)
        # afterwards: what a fresh object answers
        env2 = setup()
        aft = []
        for f in post:
            try:
                aft.append(clean(f(env2)))
            except Exception as e:
                aft.append(("RAISED", type(e).__name__))
        return res, aft, d0, S.canon(amb=False) == d0
    ref = forked(sequential)
    if isinstance(ref[0], str):
        raise RuntimeError(f"{name}: sequential run {ref}")
    # pure: using the library leaves its complete state as it was, then many schedules can share one process (verified at its end)
    pure = ref[3]
    rec.count("roots_sharing_processes" if pure else "roots_with_one_process_per_schedule")

    def one(plan, grain, bods, r):
        """execute one schedule here and judge it"""
        key = f"{name} schedule={plan} by {grain}"
        obs, events, segs, blocked = outcome(bods, setup(), plan, grain, post)
        r.step(); r.trace()
        r.state((name, tuple(plan), grain))
        if blocked:
            r.count("schedules_ending_uncontrolled")
        if obs is None:
            r.viol.append(dict(key=key, what="deadlock: the threads do not finish", detail={}))
            return events, segs, blocked, True
        res, after, amb = obs
        for i, rr in enumerate(res):
            exp = ref[0][i % 2]
            for j, (x, y) in enumerate(zip(rr, exp)):
                if not S.same(x, y):
                    what = "raised " + " ".join(map(str, x[1:])) if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] == "RAISED" else "answers something else than sequentially"
                    r.viol.append(dict(key=f"{key} thread {i} call {j}", what=what, detail=dict(got=repr(x)[:300], sequential=repr(y)[:300])))
        if not all(S.same(x, y) for x, y in zip(after, ref[1])):
            r.viol.append(dict(key=f"{key} afterwards", what="the shared object (or the library) answers wrongly after the threads ended", detail={}))
        if amb:
            r.viol.append(dict(key=f"{key} ambient", what=f"ambient state of the process changed: {amb}", detail={}))
        r.outcome((name, tuple(segs), repr(obs)[:200]))
        return events, segs, blocked, bool(r.viol)

    def single(plan, grain, bods):
        def f():
            r = Rec()
            return one(plan, grain, bods, r), r
        out = forked(f)
        if isinstance(out[0], str):
            if out[0] == "TIMEOUT":
                rec.fail(f"{name} schedule={plan} by {grain}", "does not end")
            raise RuntimeError(f"{name} {plan}: {out}")
        return out

    def explore(plans, grain, bods):
        """plans: callable giving a generator which is sent (segs, blocked) of the plan it yielded"""
        def walk(r, step):
            g = plans()
            n = 0
            try:
                p = next(g)
                while True:
                    events, segs, blocked, stop = step(p, r)
                    n += blocked
                    if stop:
                        return n, True
                    if time.time() > budget or n > 300:
                        r.extra["all_closed"] = False
                        r.count("truncated_roots")
                        return n, True
                    p = g.send((segs, blocked))
            except StopIteration:
                return n, False

        def shared():
            r = Rec()
            w = walk(r, lambda p, r: one(p, grain, bods, r))
            return w, r, S.canon(amb=False) == ref[2]
        if pure:
            out = forked(shared)
            if not isinstance(out[0], str) and (out[2] or out[1].viol):
                rec.merge(out[1])
                if rec.viol:
                    raise Stop()
                return out[0]

        def apart(p, r):
            res, rr = single(p, grain, bods)
            r.merge(rr)
            return res
        r = Rec()
        w = walk(r, apart)
        rec.merge(r)
        if rec.viol:
            raise Stop()
        return w

    def listed(ps):
        def gen():
            for p in ps:
                yield p
        return gen
    if first == "three":
        bods = [bodies[0], bodies[1], bodies[0]]
        (ev, _, _, _), r = single([(0, 10 ** 9)], "line", bods)
        rec.merge(r)
        st = max(1, max(ev) // 12)
        for p in itertools.permutations(range(3)):
            for i in range(1, ev[p[0]], st):
                if explore(listed([[(p[0], i), (p[1], j), (p[2], 10 ** 9)] for j in range(1, ev[p[1]], st)]), "line", bods)[1]:
                    return
        return
    other = 1 - first
    n = {}
    for grain in ("opcode", "line", "call"):        # undisturbed runs: numbers of events
        (n[grain], _, _, _), r = single([(first, 10 ** 9)], grain, bodies)
        rec.merge(r)
    if rec.viol:
        raise Stop()
    # one preemption: every point of the first thread
    grain = "opcode" if max(n["opcode"]) <= (350 if quick else 4000) else "line"
    n1 = n[grain][first]
    stride = 1 + n1 // (400 if quick else 10000)
    if stride > 1:
        rec.count("roots_with_strided_points")
    pts = list(range(1, n1, stride))
    for c in range(0, len(pts), 60):
        if explore(listed([[(first, i)] for i in pts[c:c + 60]]), grain, bodies)[1]:
            return
    # two preemptions: every pair of lines for short scenarios, else function entries (every stride-th)
    if n["line"][0] * n["line"][1] <= ((2500 if name.startswith(("deprecated", "overflow", "warning")) else 600) if quick else 26000):
        grain, si, sj = "line", 1, 1
    else:
        cap = 11 if quick else 120
        grain, si, sj = "call", 1 + n["call"][first] // cap, 1 + n["call"][other] // cap
        if max(si, sj) > 1:
            rec.count("roots_with_strided_pairs")
    for i in range(1, n[grain][first], si):
        def pairs(i=i):
            j = 1
            while True:
                segs, blocked = yield [(first, i), (other, j)]
                if blocked or len(segs) < 2 or not segs[1]:
                    return                      # the second thread ended before its j-th point
                j += sj
        if explore(pairs, grain, bodies)[1]:
            return
    rec.sample(f"{name}, thread {first} first: {n['opcode']} instructions, {n['line']} lines, {n['call']} function entries per thread")
