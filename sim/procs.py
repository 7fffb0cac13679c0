"""Other processes: pristine interpreters with a chosen string-hash seed, one per seed and run, from each of
which a fresh process is forked per request - the process that a restarted workflow, or another user on
another day, would be running in.  The request is 'module:function' with plain arguments."""
import importlib, os, pickle, signal, socket, struct, subprocess, sys, traceback
from . import boot

_servers = {}                           # hash seed -> socket path, shared by forked children
_dir = None


def _send(s, o):
    b = pickle.dumps(o, protocol=4)
    s.sendall(struct.pack("<Q", len(b)) + b)


def _exact(s, n):
    out = bytearray()
    while len(out) < n:
        d = s.recv(min(1 << 20, n - len(out)))
        if not d:
            raise EOFError("process went away")
        out += d
    return bytes(out)


def _recv(s):
    return pickle.loads(_exact(s, struct.unpack("<Q", _exact(s, 8))[0]))


class Remote(Exception):
    pass


class Died(Exception):
    """The other process went away without answering."""


def _path():
    global _dir
    if _dir is None:
        _dir = os.path.join(boot.VERIF, ".scratch", "p%d" % os.getpid())
        os.makedirs(_dir, exist_ok=True)
    return _dir


def start(seeds):
    """Starts the interpreters of these hash seeds, in parallel, and waits for them."""
    new = [h for h in seeds if h not in _servers]
    ps = []
    for h in new:
        p = os.path.join(_path(), "h%s-%d" % (h, os.getpid()))
        env = dict(os.environ, PYTHONHASHSEED=str(h))
        r, w = os.pipe()
        subprocess.Popen([sys.executable, "-B", "-m", "sim.procs", p, str(w), str(os.getpid())], cwd=boot.VERIF, env=env, pass_fds=[w],
                         stdin=subprocess.DEVNULL)
        os.close(w)
        ps.append((h, p, r))
    for h, p, r in ps:
        if os.read(r, 5) != b"ready":
            raise RuntimeError("interpreter with hash seed %s did not start" % h)
        os.close(r)
        _servers[h] = p


def call(seed, fn, *args):
    """fn(*args) in a fresh process whose string-hash seed is `seed`."""
    if seed not in _servers:
        start([seed])
    s = socket.socket(socket.AF_UNIX)
    s.settimeout(600)
    s.connect(_servers[seed])
    try:
        _send(s, (fn, args))
        try:
            kind, v = _recv(s)
        except EOFError:
            raise Died(fn)
    finally:
        s.close()
    if kind == "err":
        raise Remote(v)
    return v


def _serve(path, ready, parent):
    boot.load()
    from . import flow
    flow.warm()
    ls = socket.socket(socket.AF_UNIX)
    ls.bind(path)
    ls.listen(64)
    os.write(ready, b"ready")
    os.close(ready)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)

    def gone(*a):
        if os.getppid() != parent:
            os._exit(0)
    signal.signal(signal.SIGALRM, gone)
    signal.setitimer(signal.ITIMER_REAL, 1, 1)          # ends with the search that started it
    while True:
        c, _ = ls.accept()
        if os.fork():
            c.close()
            continue
        ls.close()
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.signal(signal.SIGCHLD, signal.SIG_DFL)
        fresh()
        try:
            fn, args = _recv(c)
            m, f = fn.split(":")
            try:
                out = ("ok", getattr(importlib.import_module(m), f)(*args))
            except BaseException:
                out = ("err", traceback.format_exc()[-3000:])
            _send(c, out)
        finally:
            os._exit(0)


def fresh():
    """Threads do not survive a fork: whatever pools the imports or the warm-up left are forgotten."""
    import dask.threaded as dt
    dt.default_pool = None
    dt.pools.clear()


def hashprobe():
    return [hash("chainladder"), list({"a", "b", "c", "d", "e"})]


if __name__ == "__main__":
    boot.pin(keep=("PYTHONHASHSEED",))
    _serve(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]))
