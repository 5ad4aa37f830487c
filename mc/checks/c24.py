"""C24 copies of generators: explicit-state search over histories of requests and copies (copy, deep copy, pickle) on the real objects."""
import copy, pickle, os, subprocess, sys, types, warnings
import numpy as np
from .. import copies as C, exact as X, state as S
from ..core import *
from ..boot import REPO, VERIF

PROPERTY = "C24"
BOUNDS = {"quick": "every node family, 12 Lagrange objects, every registered Q-generator (collocation families, Runge-Kutta with 2 paddings), every registered QDelta approximation; 6-10 requests to each of two objects, "
                   "each replaced by a copy, deep copy or pickled and restored other; caller overwrites results; search until no new state (cap 150); restored in processes that never imported the library after every request",
          "thorough": "as quick with 4 paddings, 3 parameter sets, all pickle protocols, cap 2000"}
ASSUMPTIONS = ["state canonicalisation covers all Python-level state of qmat and of the objects (see mc/state.py)"]
LAGRANGE = [((0, 0.5, 1), ()), ((0.1, 0.9, 0.3, 0.2), ()), ((0.5, 0.1, 0.5, 0.9, 0.1), ()), ((0.5, 0.1, 0.5, 0.9, 0.1), (("duplicates", "USE_RIGHT"),)), ((1., 2., 4., 8.), (("weightComputation", "STABLE"), ("scaleWeights", True))),
            ((1., 2., 4., 8.), (("weightComputation", "CHEBFUN"),)), ((3,), ()), ((0.25, 0.75), (("weightComputation", "FAST"), ("scaleRef", "ZERO"))), ((0., 0.5, 1.), (("fValues", (1., 2., 4.)),)),
            ((0.5, 0.5, 1.), (("fValues", (1., 2., 4.)),)), ((2., 1., 2.), (("duplicates", "USE_RIGHT"), ("weightComputation", "STABLE"))), ((1, 0, 3), (("weightComputation", "STABLE"),))]


def specs(quick):
    from qmat import QDELTA_GENERATORS as DG, Q_GENERATORS as QG
    from qmat.qcoeff.butcher import RK_SCHEMES as RS
    for nt, qt in X.families():
        yield ("nodes", nt, qt)
        yield ("Q", "Collocation", (("nNodes", 3), ("nodeType", nt), ("quadType", qt), ("tLeft", 1), ("tRight", 3)) if nt < "D" else (("nNodes", 3), ("nodeType", nt), ("quadType", qt)))
    for p, kw in LAGRANGE:
        yield ("lagrange", p, kw)
    done = set()
    for n, c in RS.items():
        if c not in done:
            done.add(c)
            for pad in (None, "BOTH") if quick else (None, "LEFT", "RIGHT", "BOTH"):
                yield ("Q", n, (("padding", pad),))
    done = set()
    for n, c in DG.items():
        if c not in done and (c.__name__ != "MIN" or not quick):
            done.add(c)
            for ps in [(3, "LEGENDRE", "RADAU-RIGHT"), (2, "CHEBY-1", "GAUSS"), (4, "LEGENDRE", "LOBATTO")][:1 if quick else 3]:
                yield ("QDelta", n, ps)


def tasks(quick):
    todo = list(specs(quick))
    todo.sort(key=lambda s: (s[0] != "QDelta", str(s)))
    return [("search", s, quick) for s in todo] + [("fresh process", k, i, quick) for k, n in (("nodes", 1), ("lagrange", 1), ("Q", 6), ("QDelta", 2)) for i in range(n)]


COPIES = [("copy", copy.copy), ("deepcopy", copy.deepcopy), ("pickle", lambda o: pickle.loads(pickle.dumps(o)))]


def answers(spec):
    return [C.ask(C.build(spec), q) for q in C.REQUESTS[spec[0]]]


def available(spec):
    try:
        o = C.build(spec)
        if spec[0] == "QDelta":
            o.getQDelta()
        return True
    except (NotImplementedError, ValueError):
        return False


def run(task, rec):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    if task[0] == "fresh process":
        return elsewhere(task, rec)
    _, spec, quick = task
    if not forked(available, spec):
        rec.state(("unavailable", spec)); rec.step(); rec.trace()
        return
    reqs = C.REQUESTS[spec[0]]
    golden = forked(answers, spec)
    kinds = COPIES + ([] if quick else [(f"pickle {p}", lambda o, p=p: pickle.loads(pickle.dumps(o, p))) for p in range(pickle.HIGHEST_PROTOCOL + 1)])
    ops, want = [], {}
    for who in "gh":
        for q, v in zip(reqs, golden):
            name = f"{who}: {q[1] if q[0] != 'apply' else 'call'}{q[2:] if q[0] == 'call' else ''}"
            want[name] = v
            ops.append((name, lambda e, who=who, q=q: C.ask(getattr(e, who), q)))
    for (cn, f), (dst, src) in [(k, d) for k in kinds for d in (("h", "g"), ("g", "h"))]:
        name = f"{dst} = {cn} of {src}"
        want[name] = type(C.build(spec)).__name__

        def op(e, f=f, dst=dst, src=src):
            setattr(e, dst, f(getattr(e, src)))
            return type(getattr(e, dst)).__name__
        ops.append((name, op))

    for cn, f in COPIES[1:]:
        for dst, src in (("h", "g"), ("g", "h")):
            name = f"{dst} = {cn} of {src}, which is ruined and replaced"
            want[name] = type(C.build(spec)).__name__

            def op(e, f=f, dst=dst, src=src):
                setattr(e, dst, f(getattr(e, src)))
                C.ruin(getattr(e, src))
                setattr(e, src, C.build(spec))
                return type(getattr(e, dst)).__name__
            ops.append((name, op))

    def make():
        return types.SimpleNamespace(g=C.build(spec), h=C.build(spec))

    def judge(name, obs):
        if not S.same(obs, want[name]):
            return f"{name} answers {str(obs)[:200]} instead of {str(want[name])[:200]}, the answer of a new object"
    closed = S.search(rec, make, ops, judge, depth=8, key=str(spec), roots=lambda e: [e.__dict__], maxstates=150 if quick else 2000)
    rec.sample(f"{spec}: {len(ops)} operations on an object and its copies, state space closed: {closed}")
    rec.count("roots_closed", int(closed))


def elsewhere(task, rec):
    """pickled after each single request, restored in a process that never imported the library"""
    _, kind, part, quick = task
    nparts = {"Q": 6, "QDelta": 2}.get(kind, 1)
    todo, want = {}, {}

    def prepare(spec):
        if not available(spec):
            return None
        reqs = C.REQUESTS[kind]
        golden = answers(spec)
        out = {}
        for i in range(-1, len(reqs)):
            o = C.build(spec)
            if i >= 0:
                C.ask(o, reqs[i])
            for p in ((2, pickle.HIGHEST_PROTOCOL)[i % 2],) if quick else range(pickle.HIGHEST_PROTOCOL + 1):
                out[spec, "nothing" if i < 0 else reqs[i], p] = pickle.dumps(o, p)
        return golden, out
    for spec in [s for s in specs(quick) if s[0] == kind][part::nparts]:
        r = forked(prepare, spec)
        if r is None:
            continue
        if r[0] in ("DIED", "TIMEOUT"):
            rec.fail(f"{spec}", "cannot be pickled")
            continue
        for k, data in r[1].items():
            todo[k], want[k] = (data, kind), r[0]
    p = subprocess.run([sys.executable, os.path.join(VERIF, "mc", "copies.py"), REPO], input=pickle.dumps(todo), capture_output=True, cwd="/")
    if p.returncode:
        raise RuntimeError(p.stderr.decode()[-2000:])
    got = pickle.loads(p.stdout)
    for k, v in got.items():
        rec.step(); rec.trace(); rec.state(k)
        if not rec.expect(isinstance(v, list), f"{k} restored", f"cannot be restored in a fresh process: {v}"):
            continue
        for q, a, b in zip(C.REQUESTS[kind], v, want[k]):
            rec.step()
            rec.expect(S.same(a, b), f"{k} restored, then {q}", "answers something else than a new object", got=a, expected=b)
    rec.sample(f"{k}: restored in a fresh process")
