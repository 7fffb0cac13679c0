"""The instrumentation seam: sys.monitoring events raised by the code under test.

Every source line (and, in `fine` mode, every call) that chainladder's own code executes is an event.
The scheduler pre-empts at these events, and the fault injector raises at them.  Nothing in /repo is
edited; without an active simulation the events are switched off.
"""
import ast, functools, gc, os, sys, types
from .boot import REPO

TOOL = 4
mon = sys.monitoring
E = mon.events
_PREFIX = os.path.realpath(os.path.join(REPO, "chainladder")) + os.sep
_active = None          # object with .on_line(code, line) and .on_call(code, line, callee)
_installed = None


def codes(prefixes=(_PREFIX,), skip=(os.sep + "tests" + os.sep,)):
    """All code objects of the package, including nested ones."""
    seen, out, stack = set(), [], []
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            stack.append(o.__code__)
    while stack:
        c = stack.pop()
        if id(c) in seen:
            continue
        seen.add(id(c))
        f = c.co_filename
        if any(f.startswith(p) for p in prefixes) and not any(s in f for s in skip):
            out.append(c)
            stack.extend(k for k in c.co_consts if isinstance(k, types.CodeType))
    return out


@functools.lru_cache(None)
def lineinfo(filename):
    """(protected, stores): lines where no fault is injected (cleanup handlers, `try:` and `with` headers:
    a failure in the middle of clean-up is beyond what any code promises), and lines that store into an
    attribute or item, i.e. where shared state may change."""
    protected, stores = set(), set()
    try:
        tree = ast.parse(open(filename).read())
    except Exception:
        return frozenset(), frozenset()
    for n in ast.walk(tree):
        if isinstance(n, ast.Try):
            protected.add(n.lineno)
            for h in n.handlers:
                protected.update(range(h.lineno, h.end_lineno + 1))
            for b in n.finalbody:
                protected.update(range(b.lineno, b.end_lineno + 1))
        elif isinstance(n, ast.With):
            protected.update(range(n.lineno, n.body[0].lineno))
        elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            stores.add(n.lineno)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr"):
            stores.add(n.lineno)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and (
                isinstance(n.func.value, ast.Name) and n.func.value.id in ("os", "sys", "warnings", "locale", "signal", "shutil", "tempfile")
                or n.func.attr in ("set_option", "reset_option", "seterr", "seed", "set_state", "simplefilter", "filterwarnings")):
            stores.add(n.lineno)        # state of the process
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            stores.add(n.lineno)
    return frozenset(protected), frozenset(stores)


@functools.lru_cache(None)
def tried(filename):
    """Lines inside the body of a try statement that has handlers: where a failure may be caught."""
    out = set()
    try:
        tree = ast.parse(open(filename).read())
    except Exception:
        return frozenset()
    for n in ast.walk(tree):
        if isinstance(n, ast.Try) and n.handlers:
            out.update(range(n.body[0].lineno, n.body[-1].end_lineno + 1))
    return frozenset(out)


_tried_in, _keep = {}, []


def _tries(c):
    """Whether this function of the package has such a line."""
    t = c.co_filename.startswith(_PREFIX) and tried(c.co_filename)
    r = bool(t) and any(l in t for _, _, l in c.co_lines())
    _tried_in[id(c)] = r
    _keep.append(c)
    return r


def guarded(depth=2):
    """Whether any function of the package on this thread's stack is inside a try statement with handlers."""
    f = sys._getframe(depth)
    get = _tried_in.get
    while f is not None:
        c = f.f_code
        r = get(id(c))
        if (r or r is None and _tries(c)) and f.f_lineno in tried(c.co_filename):
            return True
        f = f.f_back
    return False


def _line(code, line):
    a = _active
    if a is not None:
        a.on_line(code, line)


def _call(code, offset, callee, arg0):
    a = _active
    if a is not None:
        a.on_call(code, offset, callee)


def install(calls=False):
    global _installed
    want = "calls" if calls else "lines"
    if _installed == want:
        return
    if _installed is None:
        if mon.get_tool(TOOL) is None:
            mon.use_tool_id(TOOL, "sim")
        mon.register_callback(TOOL, E.LINE, _line)
        mon.register_callback(TOOL, E.CALL, _call)
    ev = E.LINE | (E.CALL if calls else 0)
    for c in codes():
        mon.set_local_events(TOOL, c, ev)
    _installed = want


def uninstall():
    global _installed
    if _installed is not None:
        for c in codes():
            mon.set_local_events(TOOL, c, 0)
        _installed = None


class active:
    """Context manager: events go to `target` while the block runs."""
    def __init__(self, target):
        self.target = target

    def __enter__(self):
        global _active
        self.prev, _active = _active, self.target
        return self.target

    def __exit__(self, *a):
        global _active
        _active = self.prev
        return False


def suspend():
    return active(None)


def short(code):
    return code.co_filename[len(_PREFIX):] if code.co_filename.startswith(_PREFIX) else os.path.basename(code.co_filename)


@functools.lru_cache(None)
def _offsets(code):
    return [(s, e, l) for s, e, l in code.co_lines() if l is not None]


def line_of(code, offset):
    for s, e, l in _offsets(code):
        if s <= offset < e:
            return l
    return code.co_firstlineno
