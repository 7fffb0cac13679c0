"""A cooperative scheduler over real threads that are parked and released one at a time.

Exactly one registered thread holds the baton.  At every event of the instrumented code (see monitor.py)
and at every blocking operation behind a seam, the policy - a seeded generator, or a recorded schedule on
replay - decides who runs next.  Nothing reads a clock; simulated time is the count of events.
"""
import hashlib, threading
from . import monitor


class Stuck(BaseException):
    """Raised inside threads when the step budget is exhausted or no thread can run."""


class HarnessError(Exception):
    pass


class Task:
    __slots__ = ("tid", "name", "fn", "sem", "thread", "local", "state", "pred", "result", "exc", "ident", "slot", "daemon")

    def __init__(self, tid, name, fn):
        self.tid, self.name, self.fn = tid, name, fn
        self.sem = threading.Semaphore(0)
        self.thread = None
        self.local = 0
        self.state = "ready"      # ready | waiting | done
        self.pred = None
        self.result = self.exc = None


class RandomPolicy:
    """Pre-empts with probability p at plain events and q at (or right after) events on lines that store
    shared state; `burst` makes a chosen few events very likely to be pre-empted (PCT-style depth)."""
    def __init__(self, rng, p, q):
        self.rng, self.p, self.q = rng, p, q
        self.hot = False

    def preempt(self, sched, task, hot):
        h, self.hot = (hot or self.hot), hot
        if self.rng.random() < (self.q if h else self.p):
            r = sched.runnable(exclude=task)
            if r:
                return self.rng.choice(r)
        return None

    def choose(self, sched, runnable):
        return self.rng.choice(runnable)


class ReplayPolicy:
    """Follows a recorded list of pre-emptions [tid, local event number, target tid] and forced choices."""
    def __init__(self, preempts, choices):
        self.pre = {(a, b): c for a, b, c in preempts}
        self.choices = {(a, b): c for a, b, c in choices}

    def preempt(self, sched, task, hot):
        t = self.pre.get((task.tid, task.local))
        if t is None:
            return None
        for r in sched.runnable(exclude=task):
            if r.tid == t:
                return r
        return None

    def choose(self, sched, runnable):
        last = sched.last
        t = self.choices.get((last.tid, last.local) if last else (-1, 0))
        for r in runnable:
            if r.tid == t:
                return r
        return runnable[0]


_current = None


def current():
    return _current


class Sched:
    def __init__(self, policy, max_steps=2_000_000, fault=None, fine=False):
        self.policy, self.max_steps, self.fault, self.fine = policy, max_steps, fault, fine
        self.tasks, self.steps, self.cur, self.last = [], 0, None, None
        self.main = threading.Semaphore(0)
        self.preempts, self.choices = [], []
        self.switches = 0
        self.h = hashlib.blake2b(digest_size=8)
        self.stuck = None
        self.nopreempt = 0

    # -- building -----------------------------------------------------------------------------------
    def spawn(self, fn, name="", pred=None):
        t = Task(len(self.tasks), name, fn)
        if pred is not None:
            t.state, t.pred = "waiting", pred
        self.tasks.append(t)
        t.thread = threading.Thread(target=self._body, args=(t,), daemon=True, name="sim-%d-%s" % (t.tid, name))
        t.thread.start()
        return t

    def _body(self, t):
        t.sem.acquire()
        t.ident = threading.get_ident()
        try:
            if self.stuck:
                raise Stuck(self.stuck)
            t.result = t.fn()
        except BaseException as e:      # the harness inspects t.exc
            t.exc = e
        t.state = "done"
        self.last = t
        self._handover()

    # -- choosing -----------------------------------------------------------------------------------
    def runnable(self, exclude=None):
        out = []
        for t in self.tasks:
            if t is exclude or t.state == "done":
                continue
            if t.state == "waiting":
                if not (self.stuck or t.pred()):
                    continue
            out.append(t)
        return out

    def _next(self):
        r = self.runnable()
        if not r:
            if any(t.state != "done" for t in self.tasks):
                self.stuck = "deadlock: " + ", ".join("%s waits" % t.name for t in self.tasks if t.state != "done")
                r = self.runnable()
            else:
                return None
        if len(r) == 1:
            return r[0]
        t = self.policy.choose(self, r)
        self.choices.append([self.last.tid if self.last else -1, self.last.local if self.last else 0, t.tid])
        return t

    def _handover(self):
        t = self._next()
        if t is None:
            self.cur = None
            self.main.release()
        else:
            self._go(t)

    def _go(self, t):
        if t.state == "waiting":
            t.state, t.pred = "ready", None
        self.cur = t
        self.switches += 1
        self.h.update(b"%d:%d;" % (t.tid, t.local))
        t.sem.release()

    # -- called on simulated threads ----------------------------------------------------------------
    def on_line(self, code, line):
        t = self.cur
        if t is None or t.ident != threading.get_ident():
            return
        prot, stores = monitor.lineinfo(code.co_filename)
        if self.fault is not None:
            self.fault.on_line(self, t, code, line, line in prot)
        self.event(t, line in stores)

    def on_call(self, code, offset, callee):
        t = self.cur
        if t is None or t.ident != threading.get_ident():
            return
        if self.fault is not None:
            self.fault.on_call(self, t, code, offset, callee)
        if self.fine:
            self.event(t, False)

    def event(self, t, hot):
        t.local += 1
        self.steps += 1
        if self.stuck:
            raise Stuck(self.stuck)
        if self.steps > self.max_steps:
            self.stuck = "no progress: %d steps" % self.steps
            raise Stuck(self.stuck)
        if self.nopreempt:
            return
        n = self.policy.preempt(self, t, hot)
        if n is not None:
            self.preempts.append([t.tid, t.local, n.tid])
            self._switch(t, n)

    def _switch(self, t, n):
        self.last = t
        self._go(n)
        t.sem.acquire()
        if self.stuck:
            raise Stuck(self.stuck)

    def block(self, pred):
        """The current thread waits until pred() holds (evaluated by whoever hands over the baton)."""
        t = self.cur
        if t is None or t.ident != threading.get_ident():
            raise HarnessError("block outside a simulated thread")
        t.local += 1
        self.steps += 1
        if pred():
            return
        t.state, t.pred = "waiting", pred
        self.last = t
        n = self._next()
        if n is not t:
            self._go(n)
            t.sem.acquire()
        else:
            t.state, t.pred = "ready", None
        if self.stuck:
            raise Stuck(self.stuck)

    # -- running ------------------------------------------------------------------------------------
    def run(self):
        global _current
        if _current is not None:
            raise HarnessError("nested simulation")
        _current = self
        try:
            with monitor.active(self):
                t = self._next()
                if t is not None:
                    self._go(t)
                    if not self.main.acquire(timeout=600):
                        raise HarnessError("simulated threads hang outside the scheduler's control: cur=%r" % (
                            self.cur and self.cur.name))
            for t in self.tasks:
                t.thread.join(10)
        finally:
            _current = None
        return self

    def signature(self):
        return self.h.hexdigest()


class SimLock:
    """Replaces module-level locks of libraries on the call path, so that a thread pre-empted while
    holding one blocks the others inside the simulation, not outside it.  Re-entrant."""
    def __init__(self):
        self.owner, self.depth, self.real = None, 0, threading.RLock()

    def acquire(self, blocking=True, timeout=-1):
        s = _current
        if s is None or s.cur is None or s.cur.ident != threading.get_ident():
            return self.real.acquire(blocking)
        me = s.cur
        if self.owner is not me:
            if self.owner is not None and self.owner.state != "done":
                if not blocking:
                    return False
                s.block(lambda: self.owner is None or self.owner.state == "done")
            self.owner, self.depth = me, 0
        self.depth += 1
        return True

    def release(self):
        s = _current
        if s is None or self.owner is None or s.cur is not self.owner:
            self.real.release()
            return
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()
