"""C08: with a fixed random state stochastic results are reproducible and the global generator is left alone;
with none given the global generator governs them."""
import copy, random
import numpy as np, joblib
from .. import world, est as E, fp, run as R, monitor, seams, sched as S
from ..world import cl

ID = "C08"
COUNT = {"quick": 250, "thorough": 40000}
RULE = ("1-3 callers, each with its own stochastic estimator (bootstrap, process variance, lognormal a-prioris, pipelines, ensembles and grids of them) and random state - small and "
        "large integers, zero, a generator, or none - fit repeatedly, transform and predict while noise callers draw from and reseed the global generator, create generators, "
        "and leave garbage on the heap. Each caller is compared with itself alone in a clean world, and the global generator's state with what the noise alone leaves. "
        "Non-trivial: a pre-emption happened or an estimator was fitted more than once.")
MEASURE = "hash of schedule switches, callers, seeds and noise"
REAL = ["chainladder (all)", "numpy's generators", "pandas", "sparse", "scikit-learn", "joblib's dispatch"]
STUB = ["worker pools (simulated)", "thread scheduling"]

ONE = ["raa", "genins", "abc", "ukmotor"]
EXPO = ["raa", "genins", "lob", "abc"]


def _boot(rs, **k):
    return cl.BootstrapODPSample(n_sims=4, random_state=rs, **k)


def _get(u):
    return u.ultimate_, u.ibnr_


class Spec8:
    def __init__(self, make, trains, go, weight=False, single=True):
        self.make, self.trains, self.go, self.weight, self.single = make, trains, go, weight, single


def go_boot(e, X, w):
    e.fit(X)
    return e.resampled_triangles_, e.scale_, e.hat_


def go_boot_tr(e, X, w):
    t = e.fit_transform(X)
    return t, e.transform(X)


def go_boot_cl(e, X, w):
    b = e.fit_transform(X)
    m = cl.Chainladder().fit(b)
    m2 = cl.Chainladder().fit(b)
    return _get(m), _get(m2), m.full_triangle_, m.process_variance_


def go_boot_cl_pred(e, X, w):
    b = e.fit_transform(X)
    m = cl.Chainladder().fit(cl.Development().fit_transform(b))
    return m.ultimate_, m.predict(b).ultimate_, m.predict(X).ultimate_


def go_boot_mult(e, X, w):
    e.fit(X)
    return e.resampled_triangles_, e.scale_


def go_exp(e, X, w):
    e.fit(X, sample_weight=w)
    p = e.predict(X, sample_weight=w)
    return _get(e), e.expectation_, p.ultimate_, p.expectation_


def go_pipe(e, X, w):
    e.fit(X, sample_weight=w)
    return _get(e.named_steps.m), e.predict(X, sample_weight=w).ultimate_


def go_boot_bf(e, X, w):
    b = e.fit_transform(X)
    m = cl.BornhuetterFerguson(0.7, 0.1, copy.deepcopy(e.random_state)).fit(b, sample_weight=w)
    return _get(m), m.predict(X, sample_weight=w).ultimate_


def go_vote(e, X, w):
    e.fit(X, sample_weight=w)
    return _get(e), [x.ultimate_ for x in e.estimators_]


def go_grid(e, X, w):
    e.fit(X, sample_weight=w)
    return e.results_.drop(columns=[c for c in e.results_.columns if e.results_[c].dtype == object])


def _total(m):
    return float(np.nansum(fp.dense(m.ibnr_.values)))


def _voting(rs):
    f = copy.deepcopy
    return cl.VotingChainladder([("a", cl.BornhuetterFerguson(0.7, 0.1, rs)), ("b", cl.CapeCod(apriori_sigma=0.2, random_state=f(rs))),
                                 ("c", cl.Benktander(0.8, 2, 0.1, f(rs)))], n_jobs=2)


def _grid(rs):
    p = cl.Pipeline([("dev", cl.Development()), ("m", cl.BornhuetterFerguson(0.7, 0.1, rs))])
    return cl.GridSearch(p, dict(m__apriori=[0.6, 0.8], dev__n_periods=[-1, 4]), scoring=lambda x: _total(x.named_steps.m), n_jobs=2)


def _pipe_boot(rs):
    return cl.Pipeline([("boot", _boot(rs)), ("dev", cl.Development()), ("m", cl.BornhuetterFerguson(0.7, 0.1, copy.deepcopy(rs)))])


SPECS = {
    "boot": Spec8(_boot, ONE, go_boot),
    "boot_big": Spec8(lambda rs: cl.BootstrapODPSample(n_sims=2000, random_state=rs), ["raa"], go_boot),
    "boot_1000": Spec8(lambda rs: cl.BootstrapODPSample(random_state=rs), ["raa", "genins"], go_boot_tr),
    "boot_nohat": Spec8(lambda rs: _boot(rs, hat_adj=False, n_periods=5), ONE[:2], go_boot),
    "boot_drop": Spec8(lambda rs: _boot(rs, drop_high=1, drop_valuation="1985"), ["raa", "genins"], go_boot),
    "boot_transform": Spec8(_boot, ONE, go_boot_tr),
    "boot_cl": Spec8(_boot, ONE, go_boot_cl, single=False),
    "boot_cl_pred": Spec8(_boot, ONE[:2], go_boot_cl_pred, single=False),
    "boot_bf": Spec8(_boot, ONE[:3], go_boot_bf, True, single=False),
    "boot_mult": Spec8(_boot, ["mcl"], go_boot_mult, single=False),
    "bf": Spec8(lambda rs: cl.BornhuetterFerguson(0.7, 0.1, rs), EXPO, go_exp, True, single=False),
    "benk": Spec8(lambda rs: cl.Benktander(0.7, 3, 0.15, rs), EXPO, go_exp, True, single=False),
    "capecod": Spec8(lambda rs: cl.CapeCod(0.02, 0.9, apriori_sigma=0.2, random_state=rs), EXPO, go_exp, True, single=False),
    "exploss": Spec8(lambda rs: cl.ExpectedLoss(0.7, 0.1, rs), EXPO, go_exp, True, single=False),
    "pipe_boot": Spec8(_pipe_boot, ONE[:2], go_pipe, True, single=False),
    "voting": Spec8(_voting, EXPO[:3], go_vote, True, single=False),
    "grid": Spec8(_grid, EXPO[:3], go_grid, True, single=False),
}
NAMES = sorted(SPECS)
INTS = [0, 0, 1, 2, 7, 42, 12345, 2**31, 2**32 - 2, 2**32 - 1]


def gen(rng, tier, i):
    callers, none = [], rng.random() < 0.3
    for c in range(rng.choice([1, 1, 2, 2, 3])):
        n = NAMES[(i + c) % len(NAMES)] if rng.random() < 0.6 else rng.choice(NAMES)
        mode = "none" if none and c == 0 else rng.choice(["int", "int", "int", "npint", "inst"])
        if mode == "none" and n in ("voting", "grid"):
            n = "boot_cl"       # what several workers draw from one global generator depends on their order
        callers.append(dict(spec=n, mode=mode, seed=rng.choice(INTS), train=rng.choice(SPECS[n].trains), backend=rng.choice(["numpy", "numpy", "sparse"]),
                            fits=rng.choice([1, 1, 1, 2, 2, 3])))
    noise = []
    for k in range(rng.choice([0, 1, 1, 2])):
        kinds = ["dirty", "own"] if none else ["draw", "seed", "draw", "dirty", "own", "legacy"]
        noise.append([[rng.choice(kinds), rng.getrandbits(16)] for _ in range(rng.randint(1, 6))])
    return dict(callers=callers, noise=noise, gseed=rng.getrandbits(20), other=rng.choice([0, 1, 3, 99, 2**20]), kind=rng.choice(["threads", "procs"]), extra=rng.choice(["constant", "kinds", "kinds", ""]),
                sched=R.gen_sched(rng, ps=(0.0, 0.003, 0.02, 0.1)))


def state(c):
    if c["mode"] == "none":
        return None
    return {"int": int, "npint": np.int64, "inst": np.random.RandomState}[c["mode"]](c["seed"])


def dirty(k):
    """Leaves garbage in freed heap blocks of many sizes."""
    r = np.random.RandomState(k)
    junk = [np.full(n, v) for n in (1, 4, 8, 9, 10, 16, 30, 55, 64, 90, 100, 110, 121, 400, 3025) for v in r.choice([1e300, -7.5, np.nan, 0.5, 3.0], 3)]
    del junk


class Noise:
    def __init__(self, steps):
        self.steps = steps

    def __call__(self):
        for kind, k in self.steps:
            if kind == "draw":
                np.random.random(1 + k % 50)
            elif kind == "legacy":
                np.random.shuffle(np.arange(5 + k % 7)), np.random.normal(size=3)
            elif kind == "seed":
                np.random.seed(k)
            elif kind == "own":
                np.random.RandomState(k).random_sample(5), np.random.default_rng(k).random(3)
            else:
                dirty(k)
            s = S.current()
            if s is not None:
                s.event(s.cur, True)


class Caller:
    def __init__(self, c, e=None):
        self.c, self.e = c, e if e is not None else SPECS[c["spec"]].make(state(c))
        self.trace = []
        self.X, self.w = E.data(c["train"], c["backend"])

    def __call__(self):
        for k in range(self.c["fits"]):
            self.trace.append(R.outview(R.trap(lambda: SPECS[self.c["spec"]].go(self.e, self.X, self.w))))
            s = S.current()
            if s is not None:
                s.event(s.cur, True)


def gstate():
    return fp.view(list(np.random.get_state()))


def world_run(sc, callers, noise=(), sched=None, gseed=0):
    np.random.seed(gseed)
    with joblib.parallel_config(backend="simthreads" if sc["kind"] == "threads" else "simprocs"), seams.joblib_cfg(batch=1):
        fns = list(callers) + list(noise)
        fns = [_inpool(f, sc["kind"]) for f in fns]
        s = R.sim(fns, sched or dict(preempts=[], choices=[], pool=3))
    return s, gstate()


def _inpool(f, kind):
    def go():
        with joblib.parallel_config(backend="simthreads" if kind == "threads" else "simprocs"):
            return f()
    return go


def desc(c):
    return "%s(random_state=%s) on %s/%s" % (c["spec"], {"none": None, "inst": "RandomState(%d)" % c["seed"]}.get(c["mode"], c["seed"]), c["train"], c["backend"])


def samefits(c, trace):
    """Fits of one estimator with a fixed integer state are all alike; with a generator or none they go on."""
    for k in range(1, len(trace)):
        d = fp.diff(trace[0], trace[k])
        if c["mode"] in ("int", "npint"):
            if d:
                return {"class": "refit:%s" % c["spec"], "msg": "fit %d of %s differs from its first fit: %s" % (k + 1, desc(c), "; ".join(d))}
        elif not d and "raises" not in trace[0] and c["mode"] == "none":
            return {"class": "stuck:%s" % c["spec"], "msg": "%s gave the same sample twice: the process-wide generator does not govern it" % desc(c)}
    return None


def solo(sc, c, gseed, pre=()):
    x = Caller(c)
    Noise(pre)()
    s, g = world_run(sc, [x], gseed=gseed)
    if s.tasks[0].exc is not None:
        raise s.tasks[0].exc
    return x, g


def run(sc):
    viol, s, cs = None, None, []
    g0 = sc["gseed"]
    np.random.seed(g0)
    untouched = gstate()
    alone, ends = [], []
    for c in sc["callers"]:
        x, g = solo(sc, c, g0)
        alone.append(x)
        ends.append(g)
        fixed = c["mode"] != "none"
        viol = samefits(c, x.trace)
        ok = "raises" not in x.trace[0]
        if not viol and fixed and fp.diff(untouched, g):
            viol = {"class": "advanced:%s" % c["spec"], "msg": "%s advanced or reseeded the process-wide generator" % desc(c)}
        if not viol and not fixed and ok and not fp.diff(untouched, g):
            viol = {"class": "ungoverned:%s" % c["spec"], "msg": "%s did not draw from the process-wide generator" % desc(c)}
        if not viol:
            # the same again in another world
            y, _ = solo(sc, dict(c, fits=1), g0 if not fixed else g0 + 1, [["dirty", g0]] if not fixed else [["dirty", g0], ["draw", 7]])
            for k in range(len(y.trace)):
                d = fp.diff(x.trace[k], y.trace[k])
                if d:
                    viol = {"class": "again:%s" % c["spec"], "msg": "%s gave something else the second time (fit %d): %s" % (desc(c), k + 1, "; ".join(d))}
                    break
        if not viol and ok and sc["extra"] == "constant":
            one = dict(c, fits=1)
            if fixed:
                z, _ = solo(sc, dict(one, seed=sc["other"] if sc["other"] != c["seed"] else sc["other"] + 5), g0)
            else:
                z, _ = solo(sc, one, g0 + 1)
            if not fp.diff(x.trace[0], z.trace[0]):
                viol = {"class": "constant:%s" % c["spec"], "msg": "%s gives the same sample for different random states" % desc(c)}
        if not viol and ok and sc["extra"] == "kinds" and c["mode"] in ("inst", "none") and SPECS[c["spec"]].single:
            z, _ = solo(sc, dict(c, mode="int", fits=1, seed=c["seed"] if c["mode"] == "inst" else g0), g0)
            d = fp.diff(z.trace[0], x.trace[0], ignore=lambda k: k.endswith(".random_state"))
            if d:
                viol = {"class": "kinds:%s" % c["spec"], "msg": "%s differs from the same seed given as an integer: %s" % (desc(c), "; ".join(d))}
        if viol:
            return res(None, sc, viol, alone)
    if len(sc["callers"]) + len(sc["noise"]) > 1:
        noise = [Noise(n) for n in sc["noise"]]
        cs = [Caller(c) for c in sc["callers"]]
        s, g = world_run(sc, cs, noise, sc["sched"], gseed=g0)
        st = R.liveness(s)
        if st:
            viol = {"class": "liveness", "msg": st}
        for t in s.tasks[: len(cs)]:
            if t.exc is not None and not viol:
                raise t.exc
        for c, x, a in zip(sc["callers"], cs, alone):
            if viol:
                break
            for k in range(len(a.trace)):
                d = fp.diff(a.trace[k], x.trace[k])
                if d:
                    viol = {"class": "concurrent:%s" % c["spec"], "msg": "with %d other callers and %d callers drawing, fit %d of %s differs from the same alone: %s" % (
                        len(cs) - 1, len(noise), k + 1, desc(c), "; ".join(d))}
                    break
        if not viol:
            # what the noise (or the one caller governed by the global generator) leaves when it runs alone
            gov = [e for c, e in zip(sc["callers"], ends) if c["mode"] == "none"]
            if gov:
                want = gov[0]
            elif len(noise) <= 1:
                _, want = world_run(sc, noise, gseed=g0)
            else:
                want = g
            if fp.diff(want, g):
                viol = {"class": "advanced", "msg": "with %s running, the process-wide generator ended in another state than without" % ", ".join(desc(c) for c in sc["callers"] if c["mode"] != "none")}
    return res(s, sc, viol, cs or alone)


def res(s, sc, viol, cs):
    ops = {}
    for c in sc["callers"]:
        for k in (c["spec"], "state:" + c["mode"]):
            ops[k] = ops.get(k, 0) + 1
    faults = {}
    for n in sc["noise"]:
        for k, _ in n:
            k = {"draw": "foreign_draw", "legacy": "foreign_draw", "seed": "foreign_reseed", "own": "foreign_generator", "dirty": "dirty_heap"}[k]
            faults[k] = faults.get(k, 0) + 1
    sig = R.loghash(s.signature() if s else "", sc["callers"], sc["noise"], sc["gseed"])
    return dict(viol=viol, sig=sig, steps=s.steps if s else 0, sched=R.recorded(s, sc["sched"]) if s else None, ops=ops, faults=faults,
                nontrivial=bool(s and s.preempts) or any(c["fits"] > 1 for c in sc["callers"]),
                probes={"preemptions": len(s.preempts) if s else 0, "raising": sum("raises" in t for c in cs for t in c.trace), "fits": sum(len(c.trace) for c in cs)},
                log=R.loghash(sig, [[fp.digest(t) for t in c.trace] for c in cs], viol and viol["class"]))


def warm(tier):
    for n, sp in SPECS.items():
        for t in sp.trains[:1]:
            for be in ("numpy", "sparse"):
                sc = dict(callers=[dict(spec=n, mode="int", seed=1, train=t, backend=be, fits=1)], noise=[], gseed=1, other=3, kind="threads", extra="", sched=None)
                R.trap(lambda: run(sc))


def shrink(sc):
    for i in range(len(sc["noise"])):
        yield dict(sc, noise=sc["noise"][:i] + sc["noise"][i + 1:])
    for i in range(len(sc["callers"])):
        if len(sc["callers"]) > 1:
            yield dict(sc, callers=sc["callers"][:i] + sc["callers"][i + 1:])
    for i, n in enumerate(sc["noise"]):
        for k in range(len(n)):
            yield dict(sc, noise=sc["noise"][:i] + [n[:k] + n[k + 1:]] + sc["noise"][i + 1:])
    for i, c in enumerate(sc["callers"]):
        for k, v in (("fits", 1), ("backend", "numpy"), ("mode", "int")):
            if c[k] != v and not (k == "mode" and c[k] == "none"):
                yield dict(sc, callers=sc["callers"][:i] + [dict(c, **{k: v})] + sc["callers"][i + 1:])
