"""Seams between the code under test and the thread pools, worker pools, clocks and locks it reaches
through its libraries.  All of them are existing extension points or module attributes of dask and joblib;
/repo is not edited."""
import contextlib, threading, types
from concurrent.futures import Executor, Future
from . import sched as S


# --------------------------------------------------------------------------------------------- dask ----
class SimPool(Executor):
    """A thread pool whose workers are simulated threads.  `poolsize` bounds how many run at once."""
    def __init__(self, n):
        self._max_workers = n
        self.busy = 0
        self.submitted = 0
        self.on_task = None

    def submit(self, fn, /, *args, **kwargs):
        s = S.current()
        if s is None:
            raise S.HarnessError("thread pool used outside a simulation")
        fut = Future()
        self.submitted += 1
        slot = {"got": False}

        def free():
            return self.busy < self._max_workers

        def body():
            # the baton is held since free() was true, so taking the slot is atomic
            while not free():
                s.block(free)
            self.busy += 1
            try:
                try:
                    r = fn(*args, **kwargs)
                except BaseException as e:
                    fut.set_exception(e)
                else:
                    fut.set_result(r)
            finally:
                self.busy -= 1
        s.spawn(body, "pool-worker", pred=free)
        return fut

    def shutdown(self, *a, **k):
        pass


def _queue_get(q):
    s = S.current()
    if s is None:
        return q.get()
    s.block(lambda: not q.empty())
    return q.get_nowait()


_pools = []


def _current_pool_size():
    return _pools[-1] if _pools else 4


class _AnyPool(SimPool):
    """Stands in for dask.threaded.ContextAwareThreadPoolExecutor: any pool dask (or a caller's
    num_workers) asks for is simulated, with the size the simulation chose unless one was requested."""
    def __init__(self, n=None, *a, **k):
        super().__init__(n or _current_pool_size())


@contextlib.contextmanager
def dask_pool(n):
    import dask
    with dask.config.set(pool=SimPool(n)):
        _pools.append(n)
        try:
            yield
        finally:
            _pools.pop()


# ------------------------------------------------------------------------------------------- joblib ----
class WorkerDied(Exception):
    """What the caller of a process pool sees when a worker process vanishes."""


class _Job:
    def __init__(self):
        self.done, self.result, self.exc = False, None, None


class JoblibCfg:
    """Per-run configuration of simulated worker pools."""
    def __init__(self, batch=1, die=None):
        self.batch, self.die = batch, die     # die: index of the submission whose worker dies
        self.submitted = 0
        self.died = 0
        self.pools = []


_jcfg = [JoblibCfg()]


def jcfg():
    return _jcfg[-1]


@contextlib.contextmanager
def joblib_cfg(**k):
    c = JoblibCfg(**k)
    _jcfg.append(c)
    try:
        yield c
    finally:
        _jcfg.pop()


def _make_backends():
    from joblib._parallel_backends import ParallelBackendBase, SequentialBackend

    class SimBackend(ParallelBackendBase):
        supports_retrieve_callback = True
        supports_return_generator = True
        supports_timeout = False

        def effective_n_jobs(self, n_jobs):
            if n_jobs == 0:
                raise ValueError("n_jobs == 0 in Parallel has no meaning")
            if n_jobs is None:
                return 1
            return n_jobs if n_jobs > 0 else max(8 + 1 + n_jobs, 1)

        def configure(self, n_jobs=1, parallel=None, prefer=None, require=None, **kw):
            n = self.effective_n_jobs(n_jobs)
            if n == 1:
                from joblib._parallel_backends import FallbackToBackend
                raise FallbackToBackend(SequentialBackend(nesting_level=self.nesting_level))
            if S.current() is None:
                raise S.HarnessError("worker pool used outside a simulation")
            self.parallel, self.n, self.busy = parallel, n, 0
            self.aborted = False
            jcfg().pools.append(n)
            return n

        def compute_batch_size(self):
            return jcfg().batch

        def submit(self, func, callback=None):
            s, job, cfg = S.current(), _Job(), jcfg()
            i = cfg.submitted
            cfg.submitted += 1
            payload = self.ship(func)

            def free():
                return self.busy < self.n or self.aborted

            def body():
                while not free():
                    s.block(free)
                self.busy += 1
                try:
                    if self.aborted:
                        job.exc = WorkerDied("aborted")
                    elif cfg.die == i:
                        cfg.died += 1
                        job.exc = WorkerDied("a worker process was terminated abruptly")
                    else:
                        try:
                            job.result = self.work(payload)
                        except BaseException as e:
                            job.exc = e
                finally:
                    self.busy -= 1
                job.done = True
                if callback is not None and not self.aborted:
                    try:
                        callback(job)
                    except S.Stuck:
                        pass
            s.spawn(body, self.kind, pred=free)
            return job

        def retrieve_result(self, job, timeout=None):
            S.current().block(lambda: job.done)
            if job.exc is not None:
                raise job.exc
            return self.receive(job.result)

        def retrieve_result_callback(self, job):
            return self.retrieve_result(job)

        def abort_everything(self, ensure_ready=True):
            self.aborted = True

        def get_nested_backend(self):
            return SequentialBackend(nesting_level=(self.nesting_level or 0) + 1), None

    class SimThreads(SimBackend):
        kind = "joblib-thread"
        uses_threads = True
        supports_sharedmem = True

        def ship(self, f):
            return f

        def work(self, f):
            return f()

        def receive(self, r):
            return r

    class SimProcesses(SimBackend):
        """Work is pickled to the worker and results pickled back, as loky does; the worker itself is a
        simulated thread with private copies of everything it was sent."""
        kind = "joblib-process"

        def ship(self, f):
            from cloudpickle import dumps
            return dumps(f)

        def work(self, p):
            from cloudpickle import loads, dumps
            return dumps(loads(p)())

        def receive(self, r):
            from cloudpickle import loads
            return loads(r)

    return SimThreads, SimProcesses


# ---------------------------------------------------------------------------------------- install ----
_done = False


def install():
    global _done
    if _done:
        return
    _done = True
    import dask.local, dask.threaded, dask.tokenize, joblib.parallel as jp
    dask.local.queue_get = _queue_get
    dask.threaded.ContextAwareThreadPoolExecutor = _AnyPool
    dask.threaded.pools_lock = S.SimLock()
    dask.tokenize.tokenize_lock = S.SimLock()
    import concurrent.futures, concurrent.futures.thread
    for m in (concurrent.futures, concurrent.futures.thread):
        pass
    th, pr = _make_backends()
    for name in list(jp.BACKENDS):
        if name in ("threading", "loky", "multiprocessing"):
            jp.BACKENDS[name] = th if name == "threading" else pr
    jp.BACKENDS["simthreads"], jp.BACKENDS["simprocs"] = th, pr

    class _Time:
        """Simulated clock for joblib: time is the number of events executed so far, in microseconds."""
        def __getattr__(self, k):
            import time
            return getattr(time, k)

        def time(self):
            s = S.current()
            return s.steps * 1e-6 if s else 0.0

        def sleep(self, dt):
            s = S.current()
            if s is None:
                return
            at, me = s.steps, s.cur
            s.block(lambda: s.steps > at + 1 or len([t for t in s.tasks if t.state != "done"]) <= 1)
    class _Threading:
        def __getattr__(self, k):
            return getattr(threading, k)

        RLock = staticmethod(lambda: S.SimLock())
    jp.time = _Time()
    jp.threading = _Threading()
