"""C05: a failed fit surfaces, leaves its inputs untouched, and can simply be repeated; a refit equals a fresh fit."""
import copy, random
from .. import world, est as E, fp, run as R, monitor, faults
from ..world import cl

ID = "C05"
COUNT = {"quick": 340, "thorough": 50000}
RULE = ("one estimator goes through a seeded history of fits - undisturbed or with a failure injected at a point drawn from the recorded events of that very fit - on its "
        "training data and on variants of it, predictions and transforms in between, and ends with an undisturbed fit that is compared with a fresh estimator's. "
        "Non-trivial: a fault fired, or the estimator had been fitted before.")
MEASURE = "hash of estimator, data, storage, history and the fault sites that fired"
NAMES = sorted(E.SPECS)
HOT = ["Bootstrap", "CapeCod", "Mack", "MunichAdjustment", "TailCurve", "TailClark", "BerquistSherman", "Pipeline_bf", "Voting", "IncrementalAdditive", "CaseOutstanding",
       "DevelopmentML", "ClarkLDF", "Trend_multi", "Development_drop", "TailBondy"]
DATAVAR = ("same", "same", "same", "scaled", "older", "origins", "other_backend", "short", "train")


def gen(rng, tier, i):
    name = NAMES[i % len(NAMES)] if rng.random() < 0.7 else rng.choice(HOT)
    s = E.SPECS[name]
    hist = []
    for k in range(rng.choice([1, 1, 2, 2, 3])):
        u = rng.random()
        if u < 0.72:
            hist.append(["fail", rng.choice(DATAVAR), rng.choice(["mem", "mem", "memline", "int"]), rng.getrandbits(30)])
        elif u < 0.9:
            hist.append(["fit", rng.choice(DATAVAR[3:])])
        else:
            hist.append(["use", rng.choice(E.VARIANTS)])
    return dict(est=name, train=rng.choice(s.trains), backend=rng.choice(["numpy", "numpy", "numpy", "sparse"]), hist=hist, pool=rng.choice([1, 3]))


def params(e):
    """Parameters as the user sees them; estimators among them count with their own parameters."""
    out = {}
    with monitor.suspend():
        for k, v in e.get_params(deep=True).items():
            if hasattr(v, "get_params"):
                out["(%s)" % k] = type(v).__name__
            elif isinstance(v, (list, tuple)) and any(hasattr(x, "get_params") for y in v if isinstance(y, (list, tuple)) for x in y):
                out["(%s)" % k] = tuple(y[0] for y in v)
            else:
                for p, l in fp.view(v).items():
                    out["(%s)%s" % (k, p)] = l
    return out


def dataset(sc, v):
    s = E.SPECS[sc["est"]]
    if v == "train":
        names = [t for t in s.trains if t != sc["train"]]
        if names:
            return E.data(names[0], sc["backend"])
        v = "scaled"
    X, w = E.data(sc["train"], sc["backend"])
    if v == "same":
        return X, w
    with monitor.suspend():
        try:
            return E.variant(v, X, w)
        except Exception:
            return X, w


def once(fn, sc, fault=None):
    out = []
    s = R.sim([lambda: out.append(R.trap(fn))], dict(preempts=[], choices=[], pool=sc["pool"]), fault=fault)
    if s.tasks[0].exc is not None:
        raise s.tasks[0].exc
    return s, out[0]


def fresh(sc, v, cache):
    """What a fresh estimator gives on that data, and the events of its fit."""
    if v not in cache:
        X, w = dataset(sc, v)
        e = E.SPECS[sc["est"]].make()
        s, o = once(lambda: E.fit(e, sc["est"], X, w), sc)
        cache[v] = (o[0], fp.view(e, props=True) if o[0] == "ok" else {"raises": type(o[1]).__name__})
    return cache[v]


def run(sc):
    name = sc["est"]
    cache, viol, fired, steps = {}, None, [], 0
    ok, want = fresh(sc, "same", cache)
    if ok != "ok":
        return res(sc, None, [], 0, want, {"unfittable": 1})
    with monitor.suspend():
        e = E.SPECS[name].make()
    p0 = params(e)
    first = False
    hist = sc["hist"] + [["fit", "same"]]
    for n, st in enumerate(hist):
        X, w = dataset(sc, st[1] if st[0] != "use" else "same")
        b = [fp.view(X), fp.view(w)]
        if st[0] == "use":
            if first:
                with monitor.suspend():
                    R.trap(lambda: None)
                    try:
                        Xu, wu = E.variant(st[1], X, w)
                    except Exception:
                        Xu, wu = X, w
                once(lambda: E.use(e, name, Xu, wu), sc)
            continue
        f = None
        if st[0] == "fail":
            if len(st) > 4:
                site = st[4]
            else:
                rec = faults.Fault(st[2], record=True)
                with monitor.suspend():
                    e2 = E.SPECS[name].make()
                    X2, w2 = dataset(sc, st[1])
                once(lambda: E.fit(e2, name, X2, w2), sc, rec)
                site = faults.choose(random.Random(st[3]), rec.sites)
                st.append(site)
            if site is None:
                continue
            f = faults.Fault(st[2], at=site[1], tid=site[0])
        s, o = once(lambda: E.fit(e, name, X, w), sc, f)
        steps += s.steps
        where = "undisturbed"
        if f is not None and f.fired:
            fired.append(f.fired[0])
            where = "%s at %s" % ({"int": "an interrupt"}.get(st[2], "a failed allocation"), f.fired[0][2])
        live = R.liveness(s)
        if live:
            viol = {"class": "liveness", "msg": live}
            break
        d = fp.diff(p0, params(e))
        if d:
            viol = {"class": "params:%s" % name, "msg": "%s.fit (%s) changed its parameters: %s" % (name, where, "; ".join(d))}
            break
        for x, bb, lab in ((X, b[0], "training triangle"), (w, b[1], "exposure triangle")):
            d = fp.diff(bb, fp.view(x))
            if d:
                viol = {"class": "input:%s" % name, "msg": "%s.fit (%s) changed the %s: %s" % (name, where, lab, "; ".join(d))}
                break
        if viol:
            break
        if o[0] == "ok":
            fok, ref = fresh(sc, st[1], cache)
            d = fp.diff(ref, fp.view(e, props=True)) if fok == "ok" else ["a fresh estimator fails here"]
            if d:
                swallowed = f is not None and bool(f.fired)
                viol = {"class": "%s:%s" % ("swallowed" if swallowed else "refit", name),
                        "msg": "%s fitted on %s data (%s) after %s differs from a fresh estimator: %s" % (name, st[1], where, hist[:n], "; ".join(d))}
                break
        elif n == len(hist) - 1:
            viol = {"class": "refit:%s" % name, "msg": "%s cannot be fitted after %s: %s: %s" % (name, hist[:n], type(o[1]).__name__, str(o[1])[:200])}
        elif f is None or not f.fired:
            fok, ref = fresh(sc, st[1], cache)
            if fok == "ok":
                viol = {"class": "refit:%s" % name, "msg": "%s cannot be fitted on %s data after %s although a fresh one can: %s: %s" % (
                    name, st[1], hist[:n], type(o[1]).__name__, str(o[1])[:200])}
                break
        first = first or o[0] == "ok"
    return res(sc, viol, fired, steps, want, {})


def res(sc, viol, fired, steps, want, probes):
    fc = {}
    for k, _, _ in fired:
        fc[k] = fc.get(k, 0) + 1
    sig = R.loghash({k: v for k, v in sc.items() if k != "hist"}, [h[:3] for h in sc["hist"]], fired)
    return dict(viol=viol, sig=sig, steps=steps, faults=fc, ops={sc["est"]: 1}, nontrivial=bool(fired) or any(h[0] != "fail" for h in sc["hist"]),
                probes=dict(probes, refits=sum(h[0] == "fit" for h in sc["hist"])), log=R.loghash(sig, fp.digest(want), viol and viol["class"]), hist=sc["hist"])


def warm(tier):
    for n, s in E.SPECS.items():
        for be in ("numpy", "sparse"):
            for t in s.trains:
                E.data(t, be)
            R.trap(lambda: run(dict(est=n, train=s.trains[0], backend=be, hist=[["fail", "same", "mem", 1]], pool=2)))


def shrink(sc):
    r = run(copy.deepcopy(sc))
    if any(len(h) == 4 and h[0] == "fail" for h in sc["hist"]) and r.get("hist") != sc["hist"]:
        yield dict(sc, hist=r["hist"])
    for k in range(len(sc["hist"])):
        yield dict(sc, hist=sc["hist"][:k] + sc["hist"][k + 1:])
    for k, h in enumerate(sc["hist"]):
        if h[0] == "fail":
            yield dict(sc, hist=sc["hist"][:k] + [["fit", h[1]]] + sc["hist"][k + 1:])
    if sc["backend"] != "numpy":
        yield dict(sc, backend="numpy")
    t = E.SPECS[sc["est"]].trains[0]
    if sc["train"] != t:
        yield dict(sc, train=t)
