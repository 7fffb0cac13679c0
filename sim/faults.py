"""Fault injection at events of the code under test.

kind "mem":  a failing allocation - MemoryError out of a call the package makes into numpy, pandas, sparse,
             scipy, scikit-learn or an allocating builtin (CALL events).
kind "int":  an asynchronous interrupt - KeyboardInterrupt between two source lines (LINE events).
kind "memline": MemoryError between two source lines (a failing allocation of the interpreter itself).

No fault lands in an except/finally body, on a `try:` line or on a `with` header (see monitor.lineinfo).
A fault is addressed by (task, n): the n-th eligible event of the thread; that makes a replay exact.
"""
import dis, functools
from . import monitor

CALL_EX = dis.opmap["CALL_FUNCTION_EX"]


@functools.lru_cache(None)
def _code(c):
    return c.co_code

LIBS = ("numpy", "pandas", "sparse", "scipy", "sklearn", "dask", "numba", "json", "dill", "patsy", "copy", "joblib", "statsmodels")
CHEAP = {"isinstance", "len", "type", "hasattr", "getattr", "setattr", "id", "callable", "issubclass", "super", "iter", "next", "print", "vars", "delattr"}


def allocating(callee):
    m = getattr(callee, "__module__", None)
    if m is None:
        o = getattr(callee, "__self__", None)
        m = type(o).__module__ if o is not None else type(callee).__module__
    m = str(m).split(".")[0]
    if m in LIBS:
        return True
    if m == "builtins":
        return getattr(callee, "__name__", "") not in CHEAP
    return False


class Sites(list):
    """Recorded events; `guarded` indexes those inside the body of a try statement with handlers."""

    def __init__(self):
        super().__init__()
        self.guarded = []


class Fault:
    def __init__(self, kind=None, at=None, tid=None, names=None, times=1, record=False):
        self.kind, self.at, self.tid, self.names, self.times, self.record = kind, at, tid, names, times, record
        self.calls = kind == "mem"
        self.n = {}
        self.sites = Sites()     # (tid, n, "file:line") of every eligible event, when recording
        self.fired = []

    def _hit(self, t, where):
        k = self.n.get(t.tid, 0)
        self.n[t.tid] = k + 1
        if self.record:
            if monitor.guarded():
                self.sites.guarded.append(len(self.sites))
            self.sites.append((t.tid, k, where))
            return
        if self.at is None or len(self.fired) >= self.times:
            return
        if (self.tid is None or t.tid == self.tid) and k == self.at:
            self.fired.append((self.kind, t.tid, where))
            if self.kind == "int":
                raise KeyboardInterrupt("injected at %s" % where)
            raise MemoryError("injected at %s" % where)

    def on_line(self, s, t, code, line, protected):
        if self.kind == "mem" or protected:
            return
        if self.names is not None and t.name not in self.names:
            return
        self._hit(t, "%s:%d" % (monitor.short(code), line))

    def on_call(self, s, t, code, offset, callee):
        if self.kind != "mem":
            return
        if self.names is not None and t.name not in self.names:
            return
        if not allocating(callee) or _code(code)[offset] == CALL_EX:
            return      # CPython 3.12 corrupts its stack when a monitoring callback raises on CALL_FUNCTION_EX
        line = monitor.line_of(code, offset)
        if line in monitor.lineinfo(code.co_filename)[0]:
            return
        self._hit(t, "%s:%d" % (monitor.short(code), line))


def choose(rng, sites):
    """Uniform over events, over distinct source lines (so that rare lines count), or over those from which a
    handler of the package could swallow the failure."""
    if not sites:
        return None
    u = rng.random()
    if u < 0.4:
        return rng.choice(sites)
    g = getattr(sites, "guarded", None)
    lines = {}
    for s in ([sites[i] for i in g] if g and u < 0.65 else sites):
        lines.setdefault(s[2], []).append(s)
    return rng.choice(lines[rng.choice(sorted(lines))])
