"""Process bootstrap: a pinned environment, then the import of the code under test from /repo."""
import os, sys

REPO = os.environ.get("SIM_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PINNED = {
    "HOME": "/root", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg",
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "1", "PYTHONWARNINGS": "ignore", "JOBLIB_MULTIPROCESSING": "1",
    "TZ": "UTC", "LC_ALL": "C.UTF-8",
}


def pin(keep=()):
    """Re-executes the interpreter once with the pinned environment."""
    want = {k: v for k, v in PINNED.items() if k not in keep}
    if all(os.environ.get(k) == v for k, v in want.items()):
        return
    env = dict(os.environ, **want)
    os.execve(sys.executable, [sys.executable, "-B"] + sys.orig_argv[1:], env)


def load():
    import warnings
    warnings.simplefilter("ignore")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import chainladder as cl
    got = os.path.realpath(cl.__file__)
    if not got.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("chainladder imported from %s, not %s" % (got, REPO))
    warnings.simplefilter("ignore")
    return cl
