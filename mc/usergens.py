"""Q-generators as a user of the library would define them: label -> class derived from the base classes of the library."""
import itertools
import numpy as np


def _values(n, shape):
    i = np.arange(1, n + 1)
    nodes = {"inside": i / (n + 1.), "right": i / float(n), "left": (i - 1.) / max(n, 2), "both": (i - 1.) / max(n - 1, 1), "beyond": i * 0.75, "before": i * 0.5 - 1.5,
             "decreasing": 1. - (i - 1.) / n, "twice": np.append((i[:-1] - 1.) / max(n - 1, 1), (n - 2.) / max(n - 1, 1)) if n > 1 else np.array([1.]), "almost": np.append(i[:-1] / (n + 1.), 1 - 1e-10)}[shape]
    Q = np.sin(np.outer(i, i + 0.5)) / (1 + np.add.outer(i, i)) + 0.25 * np.eye(n)
    w = 1. / (i + 1)
    return nodes, Q, w / w.sum(), np.ones(n) / n


SHAPES = ("inside", "right", "left", "both", "beyond", "before", "decreasing", "twice", "almost")
STYLES = ("stored", "fresh", "read-only", "view")


def classes():
    from qmat.qcoeff import QGenerator
    out = {}
    for n, shape, style, emb in itertools.product((1, 2, 3, 4, 6), SHAPES, STYLES, (False, True)):
        if style != "stored" and (n not in (2, 3) or shape not in ("inside", "right", "before")):
            continue
        vals = dict(zip(("nodes", "Q", "weights", "weightsEmbedded"), _values(n, shape)))
        if not emb:
            del vals["weightsEmbedded"]
        name = f"User_{n}_{shape}_{style.replace('-', '')}_{'emb' if emb else 'plain'}"
        ns = {"order": property(lambda self: 2), "aliases": [name + "-alias"], "_vals": vals}
        if style in ("stored", "read-only", "view"):
            def init(self, vals=vals, style=style):
                self._v = {k: v.copy() for k, v in vals.items()}
                if style == "view":
                    self._v = {k: np.repeat(np.repeat(v, 2, 0), 2, 1)[::2, ::2] if v.ndim == 2 else np.repeat(v, 2)[::2] for k, v in vals.items()}
                if style == "read-only":
                    for v in self._v.values():
                        v.flags.writeable = False
            # no positional parameters for the caller
            ns["__init__"] = (lambda f: (lambda self: f(self)))(init)
            for k in vals:
                ns[k] = property(lambda self, k=k: self._v[k])
        else:
            ns["__init__"] = lambda self: None
            for k in vals:
                ns[k] = property(lambda self, k=k, vals=vals: vals[k].copy())
        out[name] = type(name, (QGenerator,), ns)
    return out


def derived():
    """classes derived from those of the library, not registered"""
    from qmat.qcoeff.collocation import Collocation
    from qmat import Q_GENERATORS as QG
    from qmat.qcoeff.butcher import RK

    class MyCollocation(Collocation):
        def __init__(self, n=3):
            super().__init__(n, "LEGENDRE", "RADAU-RIGHT", 1, 3)

    class MyShifted(Collocation):
        pass

    class MyRK4(QG["RK4"]):
        pass

    class MyRK(RK):
        A = [[0, 0, 0], [.5, 0, 0], [-1, 2, 0]]
        b = [1 / 6, 4 / 6, 1 / 6]
        c = [0, .5, 1]
        b2 = [0, 1, 0]

        @property
        def order(self):
            return 3
    return {"MyCollocation": lambda: MyCollocation(), "MyShifted": lambda: MyShifted(2, "CHEBY-1", "GAUSS", tLeft=-1), "MyRK4": lambda: MyRK4(), "MyRK4 padded": lambda: MyRK4(padding="BOTH"),
            "MyRK": lambda: MyRK(), "MyRK padded": lambda: MyRK("LEFT")}


def qdeltas():
    """QDelta approximations as a user would define and register them: label -> (class factory, model(params, k) -> matrix, sweep dependent).
    The models use nothing of the library."""
    from qmat.qdelta import QDeltaGenerator, register
    from qmat.qcoeff import QGenerator
    from qmat.qcoeff.collocation import Collocation as G_COLL
    from qmat import QDELTA_GENERATORS as G
    n_ = lambda p: len(p["nodes"])
    low = lambda n: np.tril(1. / (1 + np.add.outer(np.arange(n), np.arange(n))))

    class ByNodes(QDeltaGenerator):
        """parameters of the time-stepping kind, matrix stored and handed out directly"""
        def __init__(self, nodes, tLeft=0, **kwargs):
            self.nodes = np.asarray(nodes, dtype=float)
            self.tLeft = tLeft

        @staticmethod
        def extractParams(qGen):
            assert isinstance(qGen, QGenerator)
            return {"nodes": qGen.nodes, "tLeft": getattr(qGen, "tLeft", 0)}

        @property
        def size(self):
            return self.nodes.size

    class UserStored(ByNodes):
        def __init__(self, nodes, tLeft=0, **kwargs):
            super().__init__(nodes, tLeft)
            self.mat = low(self.size) + np.diag(self.nodes - tLeft)

        def computeQDelta(self, k=None):
            return self.mat

    class UserSweep(ByNodes):
        aliases = ["user-sweep", "User Sweep"]

        def computeQDelta(self, k=1):
            k = 1 if k is None else k
            if k < 1:
                raise ValueError("sweeps start at one")
            out = self.zeros
            np.fill_diagonal(out, (self.nodes - self.tLeft) / (k + 1))
            return out + low(self.size) / k

        @property
        def dTau(self):
            return self.nodes / 7

    class UserQ(QDeltaGenerator):
        """default constructor of the base class, hands out the matrix given by the caller"""
        aliases = []

        def computeQDelta(self, k=None):
            return self.Q

    class UserPower(QDeltaGenerator):
        aliases = ["Q^k"]

        def __init__(self, Q, **kwargs):
            super().__init__(Q, **kwargs)

        def computeQDelta(self, k=1):
            k = 1 if k is None else k
            if k < 1:
                raise ValueError("sweeps start at one")
            return np.linalg.matrix_power(self.Q, min(k, 3))

        @property
        def dTau(self):
            return self.Q[0].copy()

    class UserFortran(ByNodes):
        def computeQDelta(self, k=None):
            return np.asfortranarray(low(self.size))

    class UserReadOnly(ByNodes):
        def computeQDelta(self, k=1):
            k = 1 if k is None else k
            if k < 1:
                raise ValueError("sweeps start at one")
            out = low(self.size) * k
            out.flags.writeable = False
            return out

    class UserFamily(QDeltaGenerator):
        def __init__(self, nNodes, nodeType, quadType, **kwargs):
            self.nNodes, self.nodeType, self.quadType = nNodes, nodeType, quadType

        @staticmethod
        def extractParams(qGen):
            assert isinstance(qGen, G_COLL)
            return {"nNodes": qGen.nNodes, "nodeType": qGen.nodeType, "quadType": qGen.quadType}

        @property
        def size(self):
            return self.nNodes

        def computeQDelta(self, k=None):
            return low(self.nNodes) * len(self.nodeType) + np.eye(self.nNodes) * len(self.quadType)

    class UserHalfBE(G["BE"]):
        """derived from a class of the library"""
        aliases = []

        def computeQDelta(self, k=None):
            return super().computeQDelta() / 2

    class UserBE(G["BE"]):
        """becomes sweep dependent"""
        aliases = []

        def computeQDelta(self, k=1):
            if k is not None and k < 1:
                raise ValueError("sweeps start at one")
            return super().computeQDelta() / (k or 1)

    class UserFlex(G["MIN-SR-NS"]):
        aliases = ["User-Flex"]

        def computeQDelta(self, k=None):
            return super().computeQDelta() * 3

    class UserConst(G["FB"]):
        """not sweep dependent, derived from a class that is"""
        aliases = []

        def computeQDelta(self, k=None):
            return super().computeQDelta(1) * 2

    def be(p):
        d = np.diff(np.append(p.get("tLeft", 0), p["nodes"]))
        return np.tril(np.ones((len(d), 1)) * d)
    one = lambda k, d=1: d if k is None else k
    out = {
        "UserStored": (UserStored, lambda p, k: low(n_(p)) + np.diag(np.asarray(p["nodes"]) - p.get("tLeft", 0)), False),
        "UserSweep": (UserSweep, lambda p, k: np.diag((np.asarray(p["nodes"]) - p.get("tLeft", 0)) / (one(k) + 1)) + low(n_(p)) / one(k), True),
        "UserQ": (UserQ, lambda p, k: np.array(p["Q"], dtype=float), False),
        "UserPower": (UserPower, lambda p, k: np.linalg.matrix_power(np.array(p["Q"], dtype=float), min(one(k), 3)), True),
        "UserFortran": (UserFortran, lambda p, k: low(n_(p)), False),
        "UserReadOnly": (UserReadOnly, lambda p, k: low(n_(p)) * one(k), True),
        "UserFamily": (UserFamily, lambda p, k: low(p["nNodes"]) * len(p["nodeType"]) + np.eye(p["nNodes"]) * len(p["quadType"]), False),
        "UserHalfBE": (UserHalfBE, lambda p, k: be(p) / 2, False),
        "UserBE": (UserBE, lambda p, k: be(p) / one(k), True),
        "UserFlex": (UserFlex, lambda p, k: np.diag(np.asarray(p["nodes"], dtype=float)) / n_(p) * 3, False),
        "UserConst": (UserConst, lambda p, k: np.diag(np.asarray(p["nodes"], dtype=float)), False),
    }
    for name, (cls, _, _) in out.items():
        if name not in G:
            register(cls)
    return out


QDELTAS = ("UserStored", "UserSweep", "UserQ", "UserPower", "UserFortran", "UserReadOnly", "UserFamily", "UserHalfBE", "UserBE", "UserFlex", "UserConst")
QDELTA_PARAMS = {"UserQ": ["Q"], "UserPower": ["Q"], "UserFamily": ["nNodes", "nodeType", "quadType"], "UserFlex": ["nodes"], "UserConst": ["nodes"]}
