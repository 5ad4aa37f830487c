"""Process set-up shared by all checks: import qmat from the tree under test, and nothing else of it."""
import os, sys
for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS", "BLIS_NUM_THREADS"):
    os.environ[v] = "1"
REPO = os.environ.get("QMAT_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
# never *read* stale bytecode of the tree under test either (same-size same-second edits)
sys.pycache_prefix = "/nonexistent-qmat-verif-pycache"
sys.path[:] = [p for p in sys.path if os.path.realpath(p or ".") != os.path.realpath(REPO)]
sys.path.insert(0, REPO)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
QUICK = TIER == "quick"
