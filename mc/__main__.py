import sys, importlib, gc, os
from . import boot


def setup():
    """Sanity of the machinery itself (nothing has to be built): reference mathematics against textbook values, all checks importable."""
    import numpy as np
    from . import exact as X, trees as T
    assert [len(T.trees(k)) for k in range(1, 7)] == [1, 1, 2, 4, 9, 20]
    assert [len(T.trees(k, 2)) for k in range(1, 4)] == [2, 4, 14]
    assert X.close(X.ref_nodes("LEGENDRE", "GAUSS", 2).astype(float), np.array([-1, 1]) / np.sqrt(3), 1e-15)
    assert X.close(X.ref_nodes("LEGENDRE", "RADAU-RIGHT", 3).astype(float), np.array([-(1 + 6 ** .5) / 5, (6 ** .5 - 1) / 5, 1]), 1e-15)
    assert X.close(X.Lag([0., .5, 1.]).integ([(0, 1)]), np.array([[1, 4, 1]]) / 6, 1e-15)
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks")
    n = 0
    for f in sorted(os.listdir(here)):
        if f.startswith("c") and f.endswith(".py"):
            m = importlib.import_module("mc.checks." + f[:-3])
            n += 1
            assert m.PROPERTY.lower() == f[:-3] and set(m.BOUNDS) == {"quick", "thorough"}
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    print(f"{n} checks ready")


def main():
    pid = sys.argv[1]
    if pid == "--setup":
        return setup()
    mod = importlib.import_module(f"mc.checks.{pid.lower()}")
    from .core import main
    import qmat
    assert os.path.realpath(qmat.__file__).startswith(os.path.realpath(boot.REPO)), qmat.__file__
    gc.collect(); gc.freeze()
    sys.exit(main(mod))


main()
