"""C07: a voting ensemble equals the weighted mean of independently fitted members, however it is scheduled."""
import copy, random
import numpy as np, joblib
from .. import world, est as E, fp, run as R, monitor, faults, seams
from ..world import cl

ID = "C07"
COUNT = {"quick": 320, "thorough": 40000}
RULE = ("an ensemble of 1-4 members (methods and pipelines-free estimators of the package, some dropped), a weighting (none, default, list, array of 2 to 4 dimensions, dict, callable) and data "
        "are fitted and applied over a simulated pool of worker threads or processes with a seeded size, batch size and schedule; some scenarios first suffer a failing or dying worker, or refit "
        "after dropping a member. Non-trivial: at least two members in flight at once, or a fault.")
class Own(cl.Chainladder):
    """A user's own member, able to predict before it is fitted."""

    def fit(self, X, y=None, sample_weight=None):
        super().fit(X, y, sample_weight)
        self.scale_ = 1.25
        return self

    def predict(self, X, sample_weight=None):
        if hasattr(self, "scale_"):
            return super().predict(X, sample_weight)
        p = X.copy()
        p.ultimate_ = X.latest_diagonal * 1.0
        return p


class Refuses(Own):
    def fit(self, X, y=None, sample_weight=None):
        raise ValueError("a member that cannot be fitted")


MEMBERS = {
    "own": lambda: Own(), "refuses": lambda: Refuses(),
    "cl": lambda: cl.Chainladder(), "bf": lambda: cl.BornhuetterFerguson(0.7), "bf2": lambda: cl.BornhuetterFerguson(1.1), "cc": lambda: cl.CapeCod(trend=0.01),
    "bk": lambda: cl.Benktander(0.8, n_iters=2), "el": lambda: cl.ExpectedLoss(0.9), "mack": lambda: cl.MackChainladder(),
    "bfs": lambda: cl.BornhuetterFerguson(0.7, apriori_sigma=0.1, random_state=4),
}
TRAINS = ["raa", "genins", "lob", "lob_ragged", "quarterly", "synth4", "cos", "abc"]
WKINDS = ["none", "default", "list", "array2", "array3", "array4", "dict", "callable"]


def gen(rng, tier, i):
    train = rng.choice(TRAINS)
    be = rng.choice(["numpy", "numpy", "sparse"])
    pool = [m for m in sorted(MEMBERS) if not (m in ("mack", "bfs") and (be == "sparse" or train in ("cos", "lob", "lob_ragged", "synth4")))]
    mem = [rng.choice(pool) for _ in range(rng.randint(1, 4))]
    mem = [m if m != "refuses" or rng.random() < 0.3 else "own" for m in mem]
    kind = rng.choice(["threads", "threads", "procs"])
    sc = dict(members=mem, drop=[], train=train, backend=be, weights=rng.choice(WKINDS), wseed=rng.getrandbits(20), kind=kind, n_jobs=rng.choice([1, None, 2, 3, 4, -1, 2]),
              batch=rng.choice([1, 1, 2]), callers=rng.choice([1, 1, 2]), shared=rng.random() < 0.3, developed=rng.random() < 0.4, apply=rng.choice(E.VARIANTS[:4] + ("same",)),
              sched=R.gen_sched(rng, ps=(0.0, 0.0005, 0.002, 0.01, 0.05), qs=(0.02, 0.1, 0.3)), fault=None)
    if len(mem) > 1 and rng.random() < 0.4:
        sc["drop"] = sorted(rng.sample(range(len(mem)), rng.randint(1, len(mem) - 1)))
        sc["drop_late"] = rng.random() < 0.5 and "refuses" not in mem    # fitted with all members first, then dropped and refitted
    if rng.random() < 0.4:
        k = rng.choice(["mem", "memline", "int", "die"])
        sc["fault"] = dict(kind=k, seed=rng.getrandbits(30))
        if k == "die":
            sc.update(kind="procs", n_jobs=rng.choice([2, 3, -1]))
        sc["callers"] = 1
    return sc


def weights(sc, X):
    """(constructor arguments, weights as an array of shape (index, column, origin, member))."""
    r = np.random.RandomState(sc["wseed"])
    n, (k, v, o, d) = len(sc["members"]), X.shape
    live = [i for i in range(n) if i not in sc["drop"]]

    def draw(*shape):
        w = np.round(r.gamma(1.0, 1.0, shape + (n,)), 3)
        w[r.rand(*w.shape) < 0.2] = 0.0
        w[..., live] += 0.05
        return w
    default = tuple(int(x) for x in r.randint(1, 6, n)) if sc["wseed"] % 3 else None
    dfull = np.broadcast_to(np.array(default or (1,) * n, float), (k, v, o, n))
    kw = {"default_weighting": default}
    w = sc["weights"]
    if w in ("none", "default"):
        if w == "none":
            return {}, np.ones((k, v, o, n))
        return kw, dfull
    if w == "list":
        a = draw(o)
        return dict(kw, weights=a.tolist()), np.broadcast_to(a, (k, v, o, n))
    if w == "array2":
        a = draw(o)
        return dict(kw, weights=a), np.broadcast_to(a, (k, v, o, n))
    if w == "array3":
        a = draw(v, o)
        return dict(kw, weights=a), np.broadcast_to(a, (k, v, o, n))
    if w == "array4":
        a = draw(k, v, o)
        return dict(kw, weights=a), a
    a = draw(o)
    org = list(X.origin)
    if w == "dict":
        keep = [j for j in range(o) if r.rand() < 0.7] or [0]
        full = np.array(dfull[0, 0])
        for j in keep:
            full[j] = a[j]
        return dict(kw, weights={str(org[j]): tuple(a[j].tolist()) for j in keep}), np.broadcast_to(full, (k, v, o, n))
    tab = {str(p): tuple(x) for p, x in zip(org, a.tolist())}
    return dict(kw, weights=_Fn(tab)), np.broadcast_to(a, (k, v, o, n))


class _Fn:
    """A callable weighting."""
    def __init__(self, tab):
        self.tab = tab

    def __call__(self, o):
        return self.tab[str(o)]

    def __eq__(self, o):
        return isinstance(o, _Fn) and o.tab == self.tab

    __hash__ = None


def make(sc):
    with monitor.suspend():
        X, w = E.data(sc["train"], sc["backend"])
        if sc["developed"]:
            X = copy.deepcopy(cl.TailConstant(1.01).fit_transform(cl.Development().fit_transform(X)))
        kw, arr = weights(sc, X)
        one = {}
        est = []
        for i, m in enumerate(sc["members"]):
            e = one.setdefault(m, MEMBERS[m]()) if sc["shared"] else MEMBERS[m]()
            est.append(("%s%d" % (m, i), e))
        return est, kw, arr, X, w


def reference(sc):
    est, kw, arr, X, w = make(sc)
    live = [i for i in range(len(est)) if i not in sc["drop"]]
    num, names = 0.0, []
    for i in live:
        e = make(sc)[0][i][1]
        _, _, _, X1, w1 = make(sc)

        def fit():
            return e.fit(X1, sample_weight=w1).predict(X1, sample_weight=w1).ultimate_
        o = R.trap(lambda: R.solo(fit))
        if o[0] != "ok":
            return ("exc", o[1])
        u = fp.dense(o[1].values).astype(float)
        num = num + np.nan_to_num(u) * arr[..., i][..., None]
        names.append((est[i][0], type(e).__name__))
    return ("ok", num / arr[..., live].sum(-1)[..., None], names)


def applied(sc, X, w):
    with monitor.suspend():
        try:
            return E.variant(sc["apply"], X, w)
        except Exception:
            return X, w


def run(sc):
    ref = reference(sc)
    est, kw, arr, X, w = make(sc)
    viol, fired, s, pools = None, [], None, []
    watch = [("members supplied", [e for _, e in est]), ("training triangle", X), ("exposure triangle", w)]
    before = [fp.view(x) for _, x in watch]

    def build():
        with monitor.suspend():
            v = cl.VotingChainladder(list(est), n_jobs=sc["n_jobs"], **kw)
            if not sc.get("drop_late"):
                for i in sc["drop"]:
                    v.set_params(**{est[i][0]: "drop"})
            return v

    def check_watch(when):
        for (lab, x), b in zip(watch, before):
            d = fp.diff(b, fp.view(x))
            if d:
                return {"class": "changed:%s" % lab, "msg": "%s the %s changed: %s" % (when, lab, "; ".join(d))}
        return None

    def fitter(v):
        def go():
            with joblib.parallel_config(backend="simthreads" if sc["kind"] == "threads" else "simprocs"):
                v.fit(X, sample_weight=w)
                if sc.get("drop_late"):
                    for i in sc["drop"]:
                        v.set_params(**{est[i][0]: "drop"})
                    v.fit(X, sample_weight=w)
            return v
        return go

    first = build()
    p0 = fp.view(first.get_params(deep=False))
    if sc["fault"] and ref[0] == "ok":
        fk, f, die = sc["fault"], None, None
        if fk["kind"] == "die":
            die = random.Random(fk["seed"]).randrange(max(1, len(est) - len(sc["drop"])))
        else:
            if "at" in fk:
                site = fk["at"]
            else:
                rec = faults.Fault(fk["kind"], record=True)
                with seams.joblib_cfg(batch=sc["batch"]):
                    R.sim([fitter(build())], dict(sc["sched"]), fault=rec)
                site = fk["at"] = faults.choose(random.Random(fk["seed"]), rec.sites)
            if site:
                f = faults.Fault(fk["kind"], at=site[1], tid=site[0])
        out = []
        with seams.joblib_cfg(batch=sc["batch"], die=die) as jc:
            s = R.sim([lambda: out.append(R.trap(fitter(first)))], sc["sched"], fault=f)
        st = R.liveness(s)
        fired = list(f.fired) if f is not None else [("die", 0, str(die))] if jc.died else []
        if st:
            viol = {"class": "liveness", "msg": st}
        elif s.tasks[0].exc is not None:
            raise s.tasks[0].exc
        elif fired and out[0][0] == "ok":
            viol = judge(sc, ref, first, est, "although %s " % (fired[0],), "swallowed")
        viol = viol or check_watch("after a fit that %s" % ("failed" if fired else "ran"))
        if not viol and not sc.get("drop_late"):
            d = fp.diff(p0, fp.view(first.get_params(deep=False)))
            if d:
                viol = {"class": "params", "msg": "a failed fit changed the ensemble's parameters: %s" % "; ".join(d)}
    if not viol:
        vs = [first] + [build() for _ in range(sc["callers"] - 1)]
        outs = [None] * len(vs)

        def call(k):
            def go():
                outs[k] = R.trap(fitter(vs[k]))
            return go
        with seams.joblib_cfg(batch=sc["batch"]) as jc:
            s = R.sim([call(k) for k in range(len(vs))], sc["sched"])
        pools = jc.pools
        st = R.liveness(s)
        if st:
            viol = {"class": "liveness", "msg": st}
        for t in s.tasks[: len(vs)]:
            if t.exc is not None and not viol:
                raise t.exc
        for v, o in zip(vs, outs):
            if viol:
                break
            if ref[0] != "ok":
                if o[0] == "ok":
                    viol = {"class": "missing-error", "msg": "a member fails with %s: %s on its own but the ensemble was fitted" % (type(ref[1]).__name__, str(ref[1])[:200])}
            elif o[0] != "ok":
                viol = {"class": "raises", "msg": "the ensemble raised %s: %s although every member fits" % (type(o[1]).__name__, str(o[1])[:300])}
            else:
                viol = judge(sc, ref, v, est, "", "mean")
                if not viol and not sc.get("drop_late"):
                    d = fp.diff(p0, fp.view(v.get_params(deep=False)))
                    if d:
                        viol = {"class": "params", "msg": "fitting changed the ensemble's parameters: %s" % "; ".join(d)}
                if not viol:
                    viol = predict_check(sc, v, arr, X, w)
        viol = viol or check_watch("after the fit")
    fc = {}
    for k, _, _ in fired:
        fc[k] = fc.get(k, 0) + 1
    sig = R.loghash(s.signature() if s else "", {k: v for k, v in sc.items() if k not in ("sched", "fault")}, fired)
    return dict(viol=viol, sig=sig, steps=s.steps if s else 0, faults=fc,
                ops={"weights:" + sc["weights"]: 1, sc["kind"]: 1, "n_jobs=%s" % sc["n_jobs"]: 1, "dropped": int(bool(sc["drop"])), "refit_after_drop": int(bool(sc.get("drop_late") and sc["drop"]))},
                nontrivial=bool(fired) or bool(pools and s.switches > 4), sched=R.recorded(s, sc["sched"]) if s and not sc["fault"] else None,
                probes={"preemptions": len(s.preempts) if s else 0, "workers": max(0, len(s.tasks) - sc["callers"]) if s else 0, "pool_runs": len(pools), "failing_member": int(ref[0] != "ok")},
                log=R.loghash(sig, np.round(ref[1], 6).tobytes() if ref[0] == "ok" else "exc", viol and viol["class"]), fault=sc["fault"])


def judge(sc, ref, v, est, how, cls):
    u = fp.dense(v.ultimate_.values).astype(float)
    if u.shape != ref[1].shape:
        return {"class": cls, "msg": "%sthe ensemble's ultimate has shape %s, not %s" % (how, u.shape, ref[1].shape)}
    bad = ~np.isclose(np.nan_to_num(u), ref[1], rtol=1e-8, atol=1e-6)
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        return {"class": cls, "msg": "%sthe ultimate at cell %s is %r, the weighted mean of the members is %r (%d cells differ; weights %s, dropped %s)" % (
            how, tuple(int(x) for x in i), float(u[i]), float(ref[1][i]), int(bad.sum()), sc["weights"], sc["drop"])}
    names = [(n, type(e).__name__) for n, e in v.named_estimators_.items() if not isinstance(e, str)]
    if names != ref[2] or [type(e).__name__ for e in v.estimators_] != [n[1] for n in ref[2]]:
        return {"class": "members", "msg": "%sthe fitted members are %s, expected %s" % (how, names, ref[2])}
    for n, e in est:
        if any(e is x for x in v.estimators_):
            return {"class": "members", "msg": "the ensemble fitted the supplied %s itself, not a copy" % n}
    return None


def predict_check(sc, v, arr, X, w):
    """Predicting on a triangle averages the members' own predictions on it."""
    with monitor.suspend():
        X2, w2 = applied(sc, X, w)
    o = R.trap(lambda: R.solo(lambda: v.predict(X2, sample_weight=w2)))
    if X2.shape[:3] != X.shape[:3]:
        return None
    live = [i for i in range(len(sc["members"])) if i not in sc["drop"]]
    num = 0.0
    for i, e in zip(live, v.estimators_):
        with monitor.suspend():
            X3, w3 = applied(sc, *make(sc)[3:])
        m = R.trap(lambda: R.solo(lambda: e.predict(X3, sample_weight=w3).ultimate_))
        if m[0] != "ok":
            if o[0] == "ok":
                return {"class": "predict:missing-error", "msg": "member %d cannot predict but the ensemble did" % i}
            return None
        u = fp.dense(m[1].values).astype(float)
        if u.shape != arr.shape[:3] + (1,):
            return None
        num = num + np.nan_to_num(u) * arr[..., i][..., None]
    if o[0] != "ok":
        return {"class": "predict:raises", "msg": "the ensemble cannot predict although every member can: %s: %s" % (type(o[1]).__name__, str(o[1])[:200])}
    u = np.nan_to_num(fp.dense(o[1].ultimate_.values).astype(float))
    num = num / arr[..., live].sum(-1)[..., None]
    if u.shape != num.shape or not np.isclose(u, num, rtol=1e-8, atol=1e-6).all():
        return {"class": "predict:mean", "msg": "the ensemble's prediction on %s data is not the weighted mean of the members' predictions" % sc["apply"]}
    return None


def warm(tier):
    for t in TRAINS:
        for be in ("numpy", "sparse"):
            E.data(t, be)
            sc = dict(members=["cl", "bf", "cc", "bk", "el"], drop=[], train=t, backend=be, weights="none", wseed=1, kind="threads", n_jobs=1, batch=1, callers=1, shared=False, developed=False,
                      apply="same", sched=None, fault=None)
            R.trap(lambda: reference(sc))


def shrink(sc):
    if sc["fault"] and "at" not in sc["fault"]:
        r = run(copy.deepcopy(sc))
        if r.get("fault"):
            yield dict(sc, fault=r["fault"])
    if sc["fault"]:
        yield dict(sc, fault=None)
    if sc["callers"] > 1:
        yield dict(sc, callers=1)
    if sc["n_jobs"] not in (1, 2):
        yield dict(sc, n_jobs=2)
    if sc["n_jobs"] != 1:
        yield dict(sc, n_jobs=1)
    if sc["kind"] != "threads":
        yield dict(sc, kind="threads")
    for i in range(len(sc["members"])):
        if len(sc["members"]) - len(sc["drop"]) > 1 or i in sc["drop"]:
            yield dict(sc, members=sc["members"][:i] + sc["members"][i + 1:], drop=[d - (d > i) for d in sc["drop"] if d != i])
    if sc["weights"] != "none":
        yield dict(sc, weights="none")
    if sc["backend"] != "numpy":
        yield dict(sc, backend="numpy")
    if sc["developed"]:
        yield dict(sc, developed=False)
    if sc["train"] != "raa":
        yield dict(sc, train="raa")
