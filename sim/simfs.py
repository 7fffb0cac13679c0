"""The file layer seam.  Files under a private scratch directory (and reads of the package's bundled data)
opened through Python's open are real files under real buffering, but the raw layer - what the operating
system would answer - is simulated: short writes and reads, interrupted calls, no space, I/O errors,
failing closes that lose data, failing opens, renames and removals, and a crash of the process at any
such call, after which nothing more reaches the disk."""
import builtins, errno, io, os, shutil, tempfile
from .boot import VERIF, REPO

_open, _ioopen = builtins.open, io.open
_DATA = os.path.realpath(os.path.join(REPO, "chainladder")) + os.sep
_os = {k: getattr(os, k) for k in ("replace", "rename", "remove", "unlink", "fsync", "open", "write", "close", "link", "truncate", "ftruncate")}
_fs = None


class Crash(BaseException):
    """The simulated process is gone; only what was written stays."""


ERR = {"enospc": errno.ENOSPC, "eio": errno.EIO, "eacces": errno.EACCES, "emfile": errno.EMFILE, "eintr": errno.EINTR, "edquot": errno.EDQUOT}


class Raw(io.FileIO):
    def __init__(self, fs, *a, **k):
        self.fs = fs
        fs.tick("open")
        super().__init__(*a, **k)
        fs.files.append(self)

    def write(self, b):
        with memoryview(b) as mv:
            n = mv.nbytes
            data = bytes(mv)
        k = self.fs.tick("write")
        room = self.fs.room
        if room is not None and n > room:
            self._put(data[:room])
            self.fs.room = 0
            if room:
                self.fs.hit("full")
                return room
            self.fs.hit("full")
            raise OSError(errno.ENOSPC, "no space left (simulated)")
        if k is None:
            self._put(data)
            return n
        kind, arg = k
        cut = max(0, min(n, int(arg * n)))
        if kind == "short":
            cut = max(1, min(n, cut))
            self._put(data[:cut])
            return cut
        if kind == "eintr":         # a signal in mid-call: the system answers with what was done so far
            self._put(data[:1])
            return 1
        self._put(data[:cut])
        self.fs.throw(kind)

    def _put(self, d):
        if self.fs.room is not None:
            self.fs.room -= len(d)
        while d:
            d = d[super().write(d):]

    def _rd(self, fn):
        k = self.fs.tick("read")
        if k is None:
            return fn(None)
        kind, arg = k
        if kind == "short":
            return fn(arg)
        if kind == "eintr":
            return fn(0.0)
        self.fs.throw(kind)

    def readinto(self, b):
        def go(arg):
            if arg is None:
                return super(Raw, self).readinto(b)
            mv = memoryview(b).cast("B")
            return super(Raw, self).readinto(mv[: max(1, int(len(mv) * arg))])
        return self._rd(go)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        return self._rd(lambda arg: super(Raw, self).read(size if arg is None else max(1, int(size * arg))))

    def readall(self):
        out = []
        while True:
            d = self.read(1 << 16)
            if not d:
                return b"".join(out)
            out.append(d)

    def close(self):
        if self.closed:
            return
        k, size = None, None
        try:
            if not self.fs.gone and self.writable():
                k = self.fs.tick("close")
                if k is not None and k[0] in ("eio", "edquot", "enospc"):
                    size = os.fstat(self.fileno()).st_size
                    os.ftruncate(self.fileno(), int(size * min(k[1], 0.999)))      # what was not on the disk yet is lost
        finally:
            super().close()
        if k is not None:
            self.fs.throw(k[0])


class SimFS:
    def __init__(self):
        base = os.path.join(VERIF, ".scratch")
        os.makedirs(base, exist_ok=True)
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="fs", dir=base))
        self.files, self.fds = [], set()
        self.data = False
        self.bufsize = None
        self.arm()

    # one operation: (op, index) -> (kind, arg)
    def arm(self, plan=None, room=None):
        self.plan, self.room = dict(plan or {}), room
        self.n, self.fired, self.sites, self.gone = {}, [], [], False

    def tick(self, op):
        if self.gone:
            raise Crash()
        i = self.n.get(op, 0)
        self.n[op] = i + 1
        self.sites.append((op, i))
        k = self.plan.get((op, i))
        if k is not None:
            self.fired.append("%s_%s" % (op, k[0]))
        return k

    def hit(self, what):
        self.fired.append("write_" + what)

    def throw(self, kind):
        if kind == "crash":
            self.gone = True
            raise Crash()
        if kind == "mem":
            raise MemoryError("simulated")
        if kind == "int":
            raise KeyboardInterrupt("simulated")
        raise OSError(ERR[kind], "%s (simulated)" % kind)

    def mine(self, p):
        try:
            p = os.path.realpath(os.fspath(p))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p.startswith(self.root + os.sep) or (self.data and p.startswith(_DATA) and not p.endswith((".py", ".pyc")))

    def path(self, name):
        return os.path.join(self.root, name)

    def leaked(self):
        l = [f.name for f in self.files if not f.closed]
        return l

    def forget(self):
        for f in self.files:
            if not f.closed:
                self.gone = True
                try:
                    f.close()
                except BaseException:
                    pass
        self.files = []

    def close(self):
        global _fs
        self.forget()
        if _fs is self:
            _fs = None
        shutil.rmtree(self.root, ignore_errors=True)

    def __enter__(self):
        global _fs
        install()
        _fs = self
        return self

    def __exit__(self, *a):
        self.close()
        return False


def _simopen(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    fs = _fs
    if fs is None or not (file in fs.fds if isinstance(file, int) else fs.mine(file)):
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    text = "b" not in mode
    rawmode = mode.replace("b", "").replace("t", "").replace("U", "")
    raw = Raw(fs, file, rawmode, closefd=closefd, opener=opener)
    try:
        if buffering == 0:
            if text:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = buffering if buffering > 1 else (fs.bufsize or io.DEFAULT_BUFFER_SIZE)
        buf = io.BufferedRandom(raw, size) if "+" in mode else io.BufferedReader(raw, size) if rawmode == "r" else io.BufferedWriter(raw, size)
        if not text:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        t.mode = mode
        return t
    except BaseException:
        raw.close()
        raise


def _wrap(name):
    real = _os[name]

    def f(p, *a, **k):
        fs = _fs
        if fs is None or not (p in fs.fds if isinstance(p, int) else fs.mine(p)):
            return real(p, *a, **k)
        t = fs.tick(name)
        if t is None:
            return real(p, *a, **k)
        if t[0] == "crash" and t[1] > 0.5:
            real(p, *a, **k)
        fs.throw(t[0])
    f.__name__ = name
    return f


def _osopen(p, *a, **k):
    fs = _fs
    if fs is None or not fs.mine(p):
        return _os["open"](p, *a, **k)
    fs.tick("open")
    fd = _os["open"](p, *a, **k)
    fs.fds.add(fd)
    return fd


def _osclose(fd):
    if _fs is not None:
        _fs.fds.discard(fd)
    return _os["close"](fd)


def _oswrite(fd, data):
    fs = _fs
    if fs is None or fd not in fs.fds:
        return _os["write"](fd, data)
    t = fs.tick("write")
    data = bytes(data)
    if t is None:
        return _os["write"](fd, data)
    cut = int(t[1] * len(data))
    if t[0] == "short":
        return _os["write"](fd, data[: max(1, cut)])
    if t[0] == "eintr":
        return _os["write"](fd, data)       # os.write itself retries (PEP 475)
    _os["write"](fd, data[:cut])
    fs.throw(t[0])


_done = False


def install():
    global _done
    if _done:
        return
    _done = True
    builtins.open = io.open = _simopen
    for n in ("replace", "rename", "remove", "unlink", "fsync", "link", "truncate", "ftruncate"):
        setattr(os, n, _wrap(n))
    os.open, os.close, os.write = _osopen, _osclose, _oswrite


def reset():
    global _fs
    if _fs is not None:
        _fs.close()
    _fs = None
