"""Process environment: single-threaded BLAS, no bytecode, no display, and the
code under test imported from the working tree of the repository."""
import os
import sys

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ["MPLBACKEND"] = "Agg"
# Never read a cached .pyc of an earlier state of the tree, never write one.
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-pycache"

REPO = os.path.realpath(os.environ.get("TFTB_REPO", "/repo"))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if REPO in sys.path:
    sys.path.remove(REPO)
sys.path.insert(0, REPO)


def load():
    """Import the code under test; every module a check may call."""
    import importlib
    import tftb
    where = os.path.realpath(tftb.__file__)
    if not where.startswith(REPO + os.sep):
        raise RuntimeError("tftb imported from %s, not from %s" % (where, REPO))
    for name in ("generators", "processing", "utils", "processing.ambiguity",
                 "processing.linear", "processing.cohen", "processing.affine",
                 "processing.reassigned", "processing.postprocessing",
                 "processing.utils", "processing.plotifl"):
        importlib.import_module("tftb." + name)
    return tftb
