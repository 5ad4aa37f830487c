"""Canonical form of the complete Python-level state of the library (plus chosen objects), and explicit-state search over
histories of real calls.

The canonical form covers: the objects handed in (recursively, with aliasing of arrays/containers), every module of qmat
(globals, classes and their attributes, function defaults, closures and attributes, sizes of functools caches), and the
ambient state of the process (numpy error handling and print options, warning filters, random states, environment).
Two states with the same form have the same futures, as far as state reachable from Python goes; results of functools
caches are represented by their number only.
"""
import sys, os, types, hashlib, collections, random, warnings, numbers
import numpy as np
from .core import fork_map, digest

SKIP = {"__warningregistry__", "__builtins__", "__cached__", "__file__", "__loader__", "__spec__", "__doc__", "__path__",
        "__annotations__", "__weakref__", "__dict__", "__module__", "__firstlineno__", "__static_attributes__",
        "__abstractmethods__", "_abc_impl", "__orig_bases__", "__parameters__", "__wrapped__", "__type_params__"}


class Canon:
    def __init__(self):
        self.h = hashlib.sha1()
        self.memo = {}
        self.keep = []

    def put(self, *xs):
        for x in xs:
            self.h.update(x if isinstance(x, bytes) else str(x).encode())
            self.h.update(b"\0")

    def ref(self, o):
        i = id(o)
        if i in self.memo:
            self.put("@", self.memo[i])
            return True
        self.memo[i] = len(self.memo)
        self.keep.append(o)
        return False

    def walk(self, o):
        t = type(o)
        if o is None or t in (bool, int, float, complex, str, bytes, type(Ellipsis)):
            self.put(t.__name__, repr(o))
        elif isinstance(o, np.ndarray):
            base = o
            while isinstance(base.base, np.ndarray):
                base = base.base
            if self.ref(o):
                return
            self.put("arr", o.dtype.str, o.shape, o.strides, o.flags.writeable)
            i = id(base)
            self.memo.setdefault(i, len(self.memo))
            self.keep.append(base)
            self.put(self.memo[i])
            if o.dtype.hasobject:
                for x in o.ravel():
                    self.walk(x)
            else:
                self.put(o.tobytes())
        elif isinstance(o, np.generic):
            self.put("np", o.dtype.str, o.tobytes())
        elif isinstance(o, (list, tuple, collections.deque)):
            if self.ref(o):
                return
            self.put(t.__name__, len(o))
            for x in o:
                self.walk(x)
        elif isinstance(o, (set, frozenset)):
            self.put(t.__name__, len(o))
            for x in sorted(o, key=repr):
                self.walk(x)
        elif isinstance(o, (dict, types.MappingProxyType)):
            if self.ref(o):
                return
            self.put(t.__name__, len(o))
            for k in sorted(o, key=lambda k: (str(type(k)), repr(k))):
                self.walk(k)
                self.walk(o[k])
        elif isinstance(o, types.FunctionType):
            if self.ref(o):
                return
            self.put("fn", o.__module__, o.__qualname__)
            if (o.__module__ or "").split(".")[0] == "qmat" or getattr(o, "__wrapped__", None) is not None:
                self.walk(o.__defaults__)
                self.walk(o.__kwdefaults__)
                for c in o.__closure__ or ():
                    try:
                        self.walk(c.cell_contents)
                    except ValueError:
                        self.put("emptycell")
                self.walk({k: v for k, v in o.__dict__.items() if k not in SKIP})
                w = getattr(o, "__wrapped__", None)
                if w is not None:
                    self.walk(w)
        elif isinstance(o, (staticmethod, classmethod)):
            self.put(t.__name__)
            self.walk(o.__func__)
        elif isinstance(o, property):
            self.put("prop")
            for f in (o.fget, o.fset, o.fdel):
                self.walk(f)
        elif isinstance(o, types.MethodType):
            self.put("method")
            self.walk(o.__func__)
            self.walk(o.__self__)
        elif isinstance(o, types.ModuleType):
            self.put("module", o.__name__)
        elif isinstance(o, type):
            if self.ref(o):
                return
            self.put("class", o.__module__, o.__qualname__)
            if o.__module__.split(".")[0] == "qmat" or getattr(o, "_verif_", False):
                for b in o.__bases__:
                    self.walk(b)
                self.attrs(vars(o))
        elif hasattr(o, "cache_info") and callable(o):
            self.put("lru", getattr(o, "__qualname__", ""), o.cache_info().currsize)
            self.walk(getattr(o, "__wrapped__", None))
        elif isinstance(o, np.random.RandomState):
            self.walk(o.get_state(legacy=True))
        elif isinstance(o, np.random.Generator):
            self.put(repr(o.bit_generator.state))
        elif hasattr(o, "tocsc"):
            self.put("sparse", t.__name__, o.shape)
            self.walk(o.toarray())
        elif hasattr(o, "__dict__"):
            if self.ref(o):
                return
            self.put("obj", t.__module__, t.__qualname__)
            if t.__module__.split(".")[0] == "qmat" or getattr(t, "_verif_", False) or isinstance(o, types.SimpleNamespace):
                self.walk(t)
            self.attrs(o.__dict__)
            if isinstance(o, (list, dict)):
                self.walk(list(o))
        else:
            self.put("other", t.__module__, t.__qualname__)

    def attrs(self, d):
        for k in sorted(d):
            if k in SKIP or not isinstance(k, str):
                continue
            self.put(k)
            self.walk(d[k])


def ambient():
    return dict(err=np.geterr(), errcall=repr(np.geterrcall()), pr={k: str(v) for k, v in np.get_printoptions().items()},
                filters=[(f[0], str(f[1]), str(f[2]), str(f[3]), f[4]) for f in warnings.filters],
                rnd=np.random.get_state()[1].tobytes() + str(np.random.get_state()[2:]).encode(), pyrnd=hashlib.sha1(repr(random.getstate()).encode()).hexdigest(),
                env=dict(os.environ), cwd=os.getcwd(), reclimit=sys.getrecursionlimit())


def canon(*roots, modules=True, amb=True):
    c = Canon()
    for r in roots:
        c.walk(r)
    if modules:
        for name in sorted(m for m in sys.modules if m == "qmat" or m.startswith("qmat.")):
            c.put("MODULE", name)
            c.attrs(vars(sys.modules[name]))
    if amb:
        c.walk(ambient())
    return c.h.digest()[:12]


def search(rec, make, ops, judge, depth, key, roots=lambda env: [env], nproc=1, maxstates=4000):
    """Breadth-first search over histories of real calls, one forked process per transition (a process is a perfect
    snapshot of the state). make() -> env; ops: list of (name, fn(env) -> observation); judge(name, obs) -> None or text.
    Every transition is judged; states are merged when their canonical forms agree. Returns True if the reachable state
    space was closed within the depth (then the result covers histories of any length over the alphabet)."""
    seen = {}

    def replay(hist):
        env = make()
        for i in hist:
            try:
                ops[i][1](env)
            except Exception:
                pass
        return env

    def expand(hist):
        env = replay(hist)
        out = []

        def one(i):
            random.seed(20240229)          # Python reseeds it in each forked process
            try:
                obs = ops[i][1](env)
            except Exception as e:
                obs = ("RAISED", type(e).__name__, str(e)[:200])
            bad = judge(ops[i][0], obs)
            return bad, canon(*roots(env)), digest(_obskey(obs))
        todo = range(len(ops))
        for j, res in fork_map(one, todo, nproc=1):
            out.append((j, res))
        return out

    def start(_):
        random.seed(20240229)
        return canon(*roots(make()))
    for _, h0 in fork_map(start, [0], nproc=1):
        seen[h0] = ()
    rec.state((key, h0))
    frontier, d = [()], 0
    closed = False
    while frontier and d < depth:
        nxt = []
        for idx, outs in fork_map(expand, frontier, nproc=nproc):
            hist = frontier[idx]
            if isinstance(outs, tuple) and outs and outs[0] in ("DIED", "TIMEOUT"):
                raise RuntimeError(f"{key}: {outs} after {hist}")
            for j, res in sorted(outs):
                rec.step()
                rec.trace()
                names = [ops[i][0] for i in hist + (j,)]
                if isinstance(res[0], str) and res[0] in ("DIED", "TIMEOUT"):
                    raise RuntimeError(f"{key}: {res} after {names}")
                bad, h, o = res
                rec.outcomes.add(o)
                if bad:
                    rec.fail(f"{key} history={names}", bad)
                if h not in seen:
                    if len(seen) >= maxstates:
                        rec.extra["all_closed"] = False
                        rec.count("capped_roots")
                        return False
                    seen[h] = hist + (j,)
                    rec.state((key, h))
                    nxt.append(hist + (j,))
        frontier = nxt
        d += 1
    closed = not frontier
    rec.extra["all_closed"] = rec.extra.get("all_closed", True) and closed
    rec.extra["max_depth"] = max(rec.extra.get("max_depth", 0), d)
    return closed


def _obskey(o):
    if isinstance(o, np.ndarray):
        return ("a", o.shape, np.round(o, 9).tobytes() if o.dtype.kind in "fc" else o.tobytes())
    if isinstance(o, (list, tuple)):
        return [_obskey(x) for x in o]
    if isinstance(o, dict):
        return {str(k): _obskey(v) for k, v in o.items()}
    return repr(o)


def same(x, y, tol=1e-11):
    """Same observation up to rounding: shapes, types of containers and errors must agree."""
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
        if not (isinstance(x, np.ndarray) and isinstance(y, np.ndarray)) or x.shape != y.shape or x.dtype.kind != y.dtype.kind:
            return False
        if x.dtype.kind not in "fc":
            return bool(np.array_equal(x, y))
        with np.errstate(all="ignore"):
            s = max(1e-300, float(np.nanmax(np.abs(y)))) if y.size and np.isfinite(y).any() else 1.
            return bool(np.allclose(x, y, rtol=tol, atol=tol * s, equal_nan=True))
    if isinstance(x, (list, tuple)) or isinstance(y, (list, tuple)):
        if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] == "RAISED":      # error messages may differ, kinds may not
            return isinstance(y, tuple) and y[:2] == x[:2]
        return type(x) is type(y) and len(x) == len(y) and all(same(a, b, tol) for a, b in zip(x, y))
    if isinstance(x, dict):
        return isinstance(y, dict) and x.keys() == y.keys() and all(same(x[k], y[k], tol) for k in x)
    if isinstance(x, numbers.Integral) and isinstance(y, numbers.Integral) and not isinstance(x, bool) and not isinstance(y, bool):
        return int(x) == int(y)
    if isinstance(x, float) and isinstance(y, float):
        return x == y or abs(x - y) <= tol * max(abs(x), abs(y)) or (x != x and y != y)
    return type(x) is type(y) and x == y
