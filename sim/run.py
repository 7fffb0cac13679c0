"""Running closures under the scheduler, with the seams configured from a scenario."""
import hashlib, random
from . import sched as S, monitor, seams, fp


def gen_sched(rng, fine=0.15, ps=(0.0, 0.003, 0.02, 0.1, 0.5), qs=(0.15, 0.4, 0.8)):
    p = rng.choice(ps)
    return dict(seed=rng.getrandbits(48), p=p, q=rng.choice((p,) + tuple(qs)), fine=rng.random() < fine, pool=rng.choice([1, 2, 3, 8]))


def policy(sc):
    if sc is None:
        return S.ReplayPolicy([], [])
    if "preempts" in sc:
        return S.ReplayPolicy(sc["preempts"], sc["choices"])
    return S.RandomPolicy(random.Random(sc["seed"]), sc["p"], sc["q"])


def sim(fns, sc=None, fault=None, max_steps=1_500_000, names=None):
    """Runs the closures as concurrent callers.  Returns the finished Sched."""
    fine = bool(sc and sc.get("fine"))
    monitor.install(calls=fine or bool(fault and fault.calls))
    s = S.Sched(policy(sc), max_steps=max_steps, fault=fault, fine=fine)
    for k, f in enumerate(fns):
        s.spawn(f, names[k] if names else "caller%d" % k)
    with seams.dask_pool((sc or {}).get("pool", 4)):
        s.run()
    return s


def solo(fn, fault=None, pool=4, max_steps=1_500_000):
    """One caller, no pre-emption; re-raises what it raised."""
    s = sim([fn], dict(preempts=[], choices=[], pool=pool), fault=fault, max_steps=max_steps)
    t = s.tasks[0]
    if t.exc is not None:
        raise t.exc
    return t.result


def recorded(s, sc):
    return dict(preempts=s.preempts, choices=s.choices, fine=s.fine, pool=(sc or {}).get("pool", 4))


def trap(fn):
    """Outcome of an operation as plain data; simulator control exceptions pass through."""
    try:
        return ("ok", fn())
    except S.Stuck:
        raise
    except (Exception, KeyboardInterrupt) as e:
        return ("exc", e)


def outview(o, **kw):
    kind, v = o
    if kind == "exc":
        return {"raises": type(v).__name__}
    return fp.view(v, **kw)


def loghash(*parts):
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        h.update(repr(p).encode())
    return h.hexdigest()


def liveness(s):
    """Violation text when the simulated callers could not finish."""
    if s.stuck:
        return s.stuck
    return None
