"""C14: computations leave the process as they found it."""
import builtins, contextlib, decimal, gc, json, locale, logging, os, random, signal, sys, threading, warnings
import numpy as np, pandas as pd
from .. import world, est as E, fp, run as R, monitor, faults
from ..world import cl

ID = "C14"
COUNT = {"quick": 900, "thorough": 60000}
RULE = ("1-3 callers run seeded programs of operations, constructions, JSON round trips, displays, fits and predictions, pre-empted by a seeded schedule, or one caller is failed at a point drawn from the "
        "recorded events of that very program and the program is repeated; afterwards every process-wide setting is what it was. Non-trivial: callers were pre-empted, or a fault fired.")
MEASURE = "hash of programs, schedule switches and fault sites"
REAL = ["chainladder (all)", "warnings, numpy, pandas, scikit-learn, dask and joblib settings"]
STUB = ["thread scheduling", "dask's thread pool"]
ASSUME = ["settings that libraries change of themselves when first imported are settled by a warm-up"]
FITS = sorted(E.SPECS)
HOT = ["BerquistSherman", "BerquistSherman_est", "TailCurve", "TailCurve_inv", "Development_reg", "Mack", "Development", "ClarkLDF", "CapeCod", "MunichAdjustment", "Bootstrap", "Trend"]
OPS = sorted(set(world.PURE))


def state(many=False):
    """What a caller elsewhere in the process depends on, by name."""
    gc.collect()
    out = {}
    out["warnings.filters"] = [repr(f) for f in warnings.filters]
    out["warnings.showwarning"] = id(warnings.showwarning)
    out["numpy error handling"] = dict(np.geterr())
    out["numpy print options"] = {k: repr(v) for k, v in np.get_printoptions().items()}
    s = np.random.get_state()
    out["numpy.random state"] = (s[0], R.loghash(s[1].tobytes()), s[2], s[3], s[4])
    out["random state"] = R.loghash(random.getstate())
    # pandas sets this one for the process while DataFrame.apply(axis=1) runs, and is not thread-safe about it
    out["pandas options"] = {k: repr(pd.get_option(k)) for k in _pdkeys() if k != "mode.chained_assignment" or not many}
    out["chainladder options"] = {k: repr(cl.options.get_option(k)) for k in ("ARRAY_BACKEND", "AUTO_SPARSE", "ARRAY_PRIORITY", "ULT_VAL")}
    out["environment"] = dict(os.environ)
    out["working directory"] = os.getcwd()
    out["files in the working directory"] = sorted(os.listdir("."))
    out["locale"] = locale.setlocale(locale.LC_ALL)
    out["interpreter limits"] = (sys.getrecursionlimit(), gc.isenabled(), gc.get_threshold(), sys.gettrace() is None)
    out["decimal context"] = repr(decimal.getcontext().prec), repr(decimal.getcontext().rounding)
    out["signal handlers"] = [repr(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)]
    out["logging"] = (logging.root.level, logging.root.disabled, logging.root.manager.disable, len(logging.root.handlers))
    out["streams and hooks"] = [id(x) for x in (sys.stdout, sys.stderr, sys.stdin, sys.excepthook, sys.displayhook, threading.excepthook)]
    import sklearn, dask, dill
    out["scikit-learn config"] = {k: repr(v) for k, v in sklearn.get_config().items()}
    out["dask config"] = {k: repr(v) for k, v in sorted(dask.config.config.items())}
    out["dill settings"] = {k: repr(v) for k, v in dill.settings.items()}
    out["joblib default"] = _joblib()
    out["module path"] = list(sys.path)
    out["threads"] = sorted(t.name for t in threading.enumerate() if not t.daemon)
    out["open files"] = sorted(_fds())
    if "matplotlib" in sys.modules and hasattr(sys.modules["matplotlib"], "rcParams"):
        out["matplotlib"] = R.loghash(sorted((k, repr(v)) for k, v in dict.items(sys.modules["matplotlib"].rcParams)))
    return out


def local():
    """The same for what a library keeps per thread: read by a caller before and after its own program."""
    import sklearn
    c = decimal.getcontext()
    return {"numpy error handling": dict(np.geterr()), "scikit-learn config": {k: repr(v) for k, v in sklearn.get_config().items()}, "decimal context": {"prec": c.prec, "rounding": c.rounding, "traps": repr(c.traps)},
            "joblib default": _joblib()}


USER = {"display.max_rows": 17, "display.max_columns": 5, "display.precision": 3, "display.max_colwidth": 11, "display.width": 61, "display.expand_frame_repr": False,
        "display.float_format": None, "display.notebook_repr_html": False, "mode.chained_assignment": None, "display.min_rows": 4, "display.show_dimensions": True,
        "compute.use_numexpr": False, "display.multi_sparse": False, "display.chop_threshold": 0.01}


def settings(sc):
    """What a user may have set for the whole process, by the scenario."""
    u = sc.get("user") or []
    for k in u:
        if k in USER:
            pd.set_option(k, USER[k])
        elif k == "warn":
            warnings.simplefilter("always", RuntimeWarning)
        elif k == "error":
            warnings.simplefilter("error")
        elif k == "quiet":
            warnings.simplefilter("ignore")
        elif k == "logging":
            logging.disable(logging.INFO)
        elif k == "options":
            cl.options.set_option("AUTO_SPARSE", False)
        elif k == "print":
            np.set_printoptions(precision=3, suppress=True)
        elif k == "seed":
            np.random.seed(77)
            random.seed(5)


def mine(sc):
    """... and for its own thread."""
    u = sc.get("user") or []
    if "seterr" in u:
        np.seterr(over="warn", under="ignore", invalid="ignore")
    if "raise" in u:
        np.seterr(divide="raise", invalid="raise")
    if "decimal" in u:
        decimal.getcontext().prec = 19


WISHES = ["warn", "error", "quiet", "logging", "options", "seed", "seterr", "raise", "print", "decimal"]


def _joblib():
    from joblib import parallel
    b, n = parallel.get_active_backend()
    return type(b).__name__, n


def _fds():
    for f in os.listdir("/proc/self/fd"):
        try:
            p = os.readlink("/proc/self/fd/" + f)
        except OSError:
            continue
        if p.startswith("/") and not p.startswith(("/dev/", "/proc/")):
            yield p


_PD = []


def _pdkeys():
    if not _PD:
        skip = ("io.", "plotting.")
        from pandas._config import config
        _PD.extend(k for k in sorted(config._registered_options) if not k.startswith(skip) and k not in config._deprecated_options)
    return _PD


def modules():
    """Functions of libraries, which nobody replaces for the whole process."""
    import sparse
    out = {}
    for n, m in (("builtins", builtins), ("numpy", np), ("pandas", pd), ("warnings", warnings), ("sparse", sparse), ("sparse.COO", sparse.COO), ("pandas.DataFrame", pd.DataFrame), ("pandas.Series", pd.Series), ("json", json)):
        for k, v in vars(m).items():
            if callable(v) and not k.startswith("__"):
                out[n + "." + k] = id(v)
    return out


def gen_step(rng):
    u = rng.random()
    be = rng.choice(["numpy", "numpy", "sparse"])
    if u < 0.1:
        n = rng.choice(FITS)
        return ["bad", n, rng.choice(E.SPECS[n].trains), be, rng.getrandbits(20)]
    if u < 0.16:
        return ["wrong", rng.choice(sorted(WRONG))]
    if u < 0.36:
        return ["op", rng.choice(OPS), rng.choice(world.TRIS), be]
    if u < 0.68:
        n = rng.choice(FITS) if rng.random() < 0.5 else rng.choice(HOT)
        return ["fit", n, rng.choice(E.SPECS[n].trains), be, rng.choice([None, "same", "older", "scaled", "origins"])]
    if u < 0.75:
        return ["frame", rng.randrange(30), rng.randrange(8)]
    if u < 0.83:
        return ["show", rng.choice(world.TRIS), be, rng.choice(["repr", "html", "json", "frame", "str"])]
    if u < 0.89:
        return ["grid", rng.choice(["raa", "genins"]), rng.choice([None, 2])]
    return ["sample", rng.choice(["raa", "genins", "quarterly", "mcl", "abc"])]


def _wrong(key):
    t = world.tri("raa", "numpy")
    return lambda: WRONG[key](t)


# requests that cannot be met
WRONG = {
    "sample": lambda t: cl.load_sample("no such sample"), "json": lambda t: cl.read_json('{"kdims": 1}'), "json_text": lambda t: cl.read_json("not json"),
    "column": lambda t: t["no such column"], "backend": lambda t: t.set_backend("no such backend"), "grain": lambda t: t.grain("OXDX"), "rename": lambda t: t.rename("columns", ["a", "b", "c"]),
    "frame": lambda t: cl.Triangle(pd.DataFrame({"a": [1]}), origin="b", columns="a"), "dates": lambda t: cl.Triangle(pd.DataFrame({"o": ["x", "y"], "v": [1.0, 2.0]}), origin="o", columns="v"),
    "add": lambda t: t + "text", "shape": lambda t: t + np.ones((3, 7)), "pickle": lambda t: cl.read_pickle("no-such-file.pkl"), "csv": lambda t: cl.read_csv("no-such-file.csv"),
    "save": lambda t: t.to_pickle("no-such-directory/file.pkl"), "concat": lambda t: cl.concat((t, t.latest_diagonal), axis=3), "option": lambda t: cl.options.get_option("NOT_AN_OPTION"),
    "unfitted": lambda t: cl.Chainladder().predict(t), "assign": lambda t: t.copy().__setitem__("x", "text"), "query": lambda t: t.groupby("no such key").sum(), "iloc": lambda t: t.iloc[99, 99],
}


def _bad(e, k):
    """The estimator with a parameter nobody can work with."""
    names = sorted(n for n in e.get_params(deep=False) if n not in ("random_state", "apriori_sigma", "memory", "verbose"))   # these ask for draws, files and output
    if names:
        setattr(e, names[k % len(names)], ("zzz", -99, object, [], {"a": 1}, np.nan, "1066")[(k >> 6) % 7])
    return e


def gen(rng, tier, i):
    nc = rng.choice([1, 1, 2, 2, 3])
    progs = [[gen_step(rng) for _ in range(rng.randint(1, 3) if nc == 1 else rng.randint(1, 2))] for _ in range(nc)]
    if nc > 1 and rng.random() < 0.5:       # the same work at the same time
        for p in progs[1:]:
            p[0] = progs[0][0]
    sc = dict(progs=progs, sched=R.gen_sched(rng), user=sorted(set(rng.sample(sorted(USER), rng.randint(0, 5)) + rng.sample(WISHES, rng.randint(0, 3)))) if rng.random() < 0.6 else [])
    if nc == 1 and rng.random() < 0.8:
        sc["fault"] = [rng.choice(["mem", "mem", "memline", "int"]), rng.getrandbits(30)]
    return sc


def _score(m):
    return float(m.ibnr_.sum("origin").values[0, 0, 0, 0])


def prepare(st):
    """The closure that runs one step, its inputs made beforehand."""
    with monitor.suspend():
        if st[0] == "op":
            t = world.tri(st[2], st[3])
            o = t.copy()
            return lambda: world.PURE[st[1]](t, o)
        if st[0] == "fit":
            X, w = E.data(st[2], st[3])
            e = E.SPECS[st[1]].make()
            V = None
            if st[4]:
                try:
                    V = E.variant(st[4], X, w)
                except Exception:
                    V = X, w

            def go():
                E.fit(e, st[1], X, w)
                return E.use(e, st[1], *V) if V else e
            return go
        if st[0] == "wrong":
            return _wrong(st[1])
        if st[0] == "bad":
            X, w = E.data(st[2], st[3])
            e = _bad(E.SPECS[st[1]].make(), st[4])

            def go():
                E.fit(e, st[1], X, w)
                return E.use(e, st[1], X, w)
            return go
        if st[0] == "frame":
            from . import c04
            df, a = world.synth(st[1], n_idx=2 + st[1] % 3)
            df, a = c04._dates(df, a, st[2])
            return lambda: cl.Triangle(df, **a)
        if st[0] == "show":
            t = world.tri(st[1], st[2])
            return {"repr": lambda: repr(t), "html": lambda: t._repr_html_(), "json": lambda: cl.read_json(t.to_json()), "frame": lambda: t.to_frame(keepdims=True),
                    "str": lambda: str(t.to_frame())}[st[3]]
        if st[0] == "grid":
            X, w = E.data(st[1], "numpy")
            g = cl.GridSearch(cl.Pipeline([("d", cl.Development()), ("t", cl.TailCurve()), ("m", cl.Chainladder())]), {"d__n_periods": [3, -1], "t__extrap_periods": [20, 60]}, _score, n_jobs=st[2])
            return lambda: g.fit(X)
        return lambda: cl.load_sample(st[1])


def differ(a, b):
    for k in a:
        if a[k] != b.get(k):
            x, y = a[k], b[k]
            if isinstance(x, dict):
                d = [q for q in sorted(set(x) | set(y)) if x.get(q) != y.get(q)]
                return k, "%s: %r -> %r" % (d[0], x.get(d[0]), y.get(d[0]))
            if isinstance(x, list):
                return k, "%s appeared, %s went" % ([q for q in y if q not in x][:3] or ("%d entries" % len(y)), [q for q in x if q not in y][:3] or ("%d entries" % len(x)))
            return k, "%r -> %r" % (x, y)
    return None


def run(sc):
    rec = [prepare(st) for st in sc["progs"][0]]
    fns = [[prepare(st) for st in p] for p in sc["progs"]]
    outs = [[] for _ in sc["progs"]]
    with restoring():
        settings(sc)
        return _run(sc, rec, fns, outs)


@contextlib.contextmanager
def restoring():
    """The settings of this harness's process, kept over a run."""
    pdv = {k: pd.get_option(k) for k in USER}
    err, po, dis, st, rs = np.geterr(), np.get_printoptions(), logging.root.manager.disable, np.random.get_state(), random.getstate()
    try:
        with warnings.catch_warnings():
            yield
    finally:
        for k, v in pdv.items():
            pd.set_option(k, v)
        np.seterr(**err)
        np.set_printoptions(**po)
        logging.disable(dis)
        np.random.set_state(st)
        random.setstate(rs)
        cl.options.reset_option()


def _run(sc, recfns, fns, outs):
    viol, fired, fault = None, [], None
    many = len(sc["progs"]) > 1
    a, ma = state(many), modules()
    if sc.get("fault"):
        f = sc["fault"]
        if len(f) < 3:
            rec = faults.Fault(f[0], record=True)
            R.sim([lambda: mine(sc) or [R.trap(g) for g in recfns]], dict(preempts=[], choices=[], pool=3), fault=rec)
            f = sc["fault"] = [f[0], f[1], faults.choose(random.Random(f[1]), rec.sites)]
        if f[2] is not None:
            fault = faults.Fault(f[0], at=f[2][1], tid=f[2][0])
    own = {}

    def caller(k):
        def go():
            mine(sc)
            x = local()
            for g in fns[k]:
                outs[k].append(R.trap(g))
            own[k] = x, local()
        return go
    sched = sc["sched"] if len(sc["progs"]) > 1 else dict(preempts=[], choices=[], pool=3)
    s = R.sim([caller(k) for k in range(len(fns))], sched, fault=fault, max_steps=3_000_000)
    b, mb = state(many), modules()
    if R.liveness(s):
        viol = {"class": "liveness", "msg": R.liveness(s)}
    for t in s.tasks[: len(fns)]:
        if t.exc is not None and not viol:
            raise t.exc
    if fault is not None and fault.fired:
        fired.append(fault.fired[0])
    how = "after %s%s" % (json.dumps(sc["progs"]), ", %s at %s" % (fired[0][0], fired[0][2]) if fired else ", %d pre-emptions" % len(s.preempts) if len(fns) > 1 else "")
    d = differ(a, b)
    if d and not viol:
        viol = {"class": "state:%s" % d[0], "msg": "%s: %s %s" % (d[0], d[1], how)}
    for k in sorted(own):
        d = differ(*own[k])
        if d and not viol:
            viol = {"class": "state:%s" % d[0], "msg": "%s of the calling thread: %s %s" % (d[0], d[1], how)}
    d = [k for k in ma if mb.get(k) != ma[k]]
    if d and not viol:
        viol = {"class": "replaced:%s" % d[0], "msg": "%s is another function %s" % (d[0], how)}
    ops = {}
    for p in sc["progs"]:
        for st in p:
            ops["%s:%s" % (st[0], st[1])] = ops.get("%s:%s" % (st[0], st[1]), 0) + 1
    sig = R.loghash(sc["progs"], s.signature() if len(fns) > 1 else "", [x[2] for x in fired])
    fl = {}
    for x in fired:
        fl[x[0]] = fl.get(x[0], 0) + 1
    return dict(viol=viol, sig=sig, steps=s.steps, ops=ops, faults=fl, nontrivial=bool(fired or s.preempts), sched=R.recorded(s, sc["sched"]) if len(fns) > 1 else None,
                probes={"preemptions": len(s.preempts), "raising": sum(o[0] == "exc" for x in outs for o in x), "done": sum(o[0] == "ok" for x in outs for o in x), "settings": len(a)},
                log=R.loghash(sig, viol and viol["class"]))


def warm(tier):
    for n, sp in E.SPECS.items():
        for be in ("numpy", "sparse"):
            for t in sp.trains:
                E.data(t, be)
        X, w = E.data(sp.trains[0])
        e = sp.make()
        R.trap(lambda: E.use(E.fit(e, n, X, w), n, X, w))
    for n in world.TRIS:
        for be in ("numpy", "sparse"):
            world._prebuilt(n, be)
    t = world.tri("clrd", "sparse")
    for op in OPS:
        R.solo(lambda: R.trap(lambda: world.PURE[op](t, t.copy())))
        x = world.tri("raa", "numpy")
        R.solo(lambda: R.trap(lambda: world.PURE[op](x, x.copy())))
    for st in (["grid", "raa", 2], ["grid", "raa", None], ["frame", 3, 2], ["frame", 4, 6]):
        R.solo(lambda: R.trap(prepare(st)))
    for k in ("repr", "html", "json", "frame", "str"):
        R.solo(lambda: R.trap(prepare(["show", "clrd", "numpy", k])))


def shrink(sc):
    if len(sc["progs"]) > 1:
        for i in range(len(sc["progs"])):
            yield dict(sc, progs=sc["progs"][:i] + sc["progs"][i + 1:])
    for i, p in enumerate(sc["progs"]):
        for k in range(len(p)):
            if len(p) > 1:
                q = dict(sc, progs=sc["progs"][:i] + [p[:k] + p[k + 1:]] + sc["progs"][i + 1:])
                if q.get("fault"):
                    q["fault"] = q["fault"][:2]
                yield q
    for u in sc["user"]:
        yield dict(sc, user=[x for x in sc["user"] if x != u])
