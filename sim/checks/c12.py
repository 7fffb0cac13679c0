"""C12: global storage options change representation only, never results."""
import copy, functools, random, re
import numpy as np, pandas as pd
from .. import world, est as E, fp, run as R, monitor
from ..world import cl

ID = "C12"
COUNT = {"quick": 900, "thorough": 60000}
RULE = ("seeded programs of 1-5 operations or estimator uses on one or two triangles, each operand in a storage of its own, while the global options have seeded settings and a second caller "
        "changes or resets them at scheduled moments; results against the same program on plain arrays under the defaults. Also triangles built or read under the options, large sparse ones for "
        "which automatic conversion acts, and reset to the defaults. Non-trivial: the options were changed while the program ran, or an operand was not a plain array.")
MEASURE = "hash of program, storages, initial options and the schedule of option changes"
REAL = ["chainladder (all)", "sparse, numpy"]
STUB = ["thread scheduling"]
ASSUME = ["cupy and dask storage are not installed or not covered"]
PRIO = [["dask", "sparse", "cupy", "numpy"], ["numpy", "sparse", "cupy", "dask"], ["cupy", "numpy", "dask", "sparse"], ["sparse", "numpy", "cupy", "dask"]]
DEFAULT = {"ARRAY_BACKEND": "numpy", "AUTO_SPARSE": True, "ARRAY_PRIORITY": PRIO[0], "ULT_VAL": "2261-12-31 23:59:59.999999999"}
SKIP = {"to_numpy", "to_sparse", "deep_backend", "repr", "in_"}
OPS = sorted(set(world.PURE) - SKIP)
ESTS = sorted(E.SPECS)
BIG = ["cum_to_incr", "incr_to_cum", "dev_to_val", "sum", "latest_diagonal", "groupby", "add", "link_ratio", "by_val", "iloc_od", "grain_OYDY", "scalar", "sum_d", "sub", "round_trip", "div_latest"]


def gen_opt(rng):
    u = rng.random()
    if u < 0.35:
        return ["ARRAY_BACKEND", rng.choice(["numpy", "sparse"])]
    if u < 0.65:
        return ["AUTO_SPARSE", rng.random() < 0.4]
    if u < 0.85:
        return ["ARRAY_PRIORITY", rng.randrange(len(PRIO))]
    return ["reset", None]


def gen(rng, tier, i):
    u = rng.random()
    be = lambda: rng.choice(["numpy", "sparse"])
    sc = dict(init=[gen_opt(rng) for _ in range(rng.choice([0, 1, 2, 3]))], flips=[gen_opt(rng) for _ in range(rng.choice([0, 1, 3, 6, 12]))], sched=R.gen_sched(rng, ps=(0.0, 0.01, 0.05, 0.2, 0.5)),
              be=[be(), be(), be()])
    if u < 0.52:
        sc.update(kind="ops", tri=rng.choice(world.TRIS), virtual=rng.random() < 0.15, ops=[[rng.choice(OPS), rng.choice(["self", "copy", "slice", "scaled"])] for _ in range(rng.randint(1, 5))], chain=rng.random() < 0.3)
        if sc["chain"]:     # powers leave explicit zeros where other operations leave gaps; comparisons make no amounts
            sc["ops"] = [[n if n not in ("pow", "lt") else "neg", h] for n, h in sc["ops"]]
    elif u < 0.56:
        sc.update(kind="big", seed=rng.randrange(2), ops=[rng.choice(BIG) for _ in range(rng.randint(1, 3))])
    elif u < 0.90:
        n = ESTS[i % len(ESTS)]
        s = E.SPECS[n]
        sc.update(kind="est", est=n, train=rng.choice(s.trains), variant=rng.choice([v for v in E.VARIANTS if v != "other_backend"]), then=rng.random() < 0.4)
    elif u < 0.97:
        sc.update(kind="build", what=rng.choice(["sample", "frame", "json", "pickle"]), key=rng.choice(["raa", "genins", "quarterly", "mcl", "ukmotor", "berqsherm", "clrd"]), seed=rng.randrange(30),
                  explicit=rng.choice([None, None, "numpy", "sparse"]))
    else:
        sc.update(kind="reset")
    return sc


EXPECT = {}                     # the settings as users left them


def setopt(o):
    if o[0] == "reset":
        cl.options.reset_option()
        EXPECT.update(DEFAULT)
    else:
        EXPECT[o[0]] = PRIO[o[1]] if o[0] == "ARRAY_PRIORITY" else o[1]
        cl.options.set_option(o[0], list(PRIO[o[1]]) if o[0] == "ARRAY_PRIORITY" else o[1])


@functools.lru_cache(None)
def _bigframe(seed):
    r = np.random.RandomState(seed)
    n = 5000
    o = pd.Timestamp("2014-01-01") + pd.to_timedelta(r.randint(0, 365 * 4, n), unit="D")
    d = pd.DatetimeIndex(np.minimum((o + pd.to_timedelta(r.randint(0, 900, n), unit="D")).values, np.datetime64("2017-12-31", "ns")))
    return pd.DataFrame(dict(key=["p%04d" % k for k in r.randint(0, 1700, n)], grp=["g%d" % k for k in r.randint(0, 4, n)], o=o.to_period("M").to_timestamp(), d=d, paid=np.round(r.gamma(2, 50, n), 2)))


@functools.lru_cache(None)
def _big(seed, be):
    with monitor.suspend():
        return cl.Triangle(_bigframe(seed), origin="o", development="d", columns=["paid"], index=["key", "grp"], cumulative=False, array_backend=be)


def second(t, how):
    if how == "copy":
        return copy.deepcopy(t)
    if how == "scaled":
        return t * 1.5
    if how == "slice":
        return t[t.origin > t.origin[0]] if len(t.odims) > 1 else t
    return t


def v(x):
    """Results as plain data; zero and missing are one thing, as for the library's own ==; text with rounded numbers."""
    return {k: re.sub(r"-?\d+\.\d{6,}(e-?\d+)?", lambda m: "%.9g" % float(m.group()), x) if isinstance(x, str) else x
            for k, x in R.outview(x, backend=False, nan0=True).items()}


def senseless(name, x):
    """Development factors of a single age, ages of development factors regrouped: no storage gives a meaningful answer."""
    return name in ("link_ratio", "age_to_age", "pattern_cum") and x.shape[-1] < 2 or x.is_pattern and name.startswith("grain")


def program(sc, bes):
    """The closure that the program runs; `bes` None for plain arrays throughout."""
    b = bes or ["numpy"] * 3
    out = []
    if sc["kind"] == "ops":
        t = world.tri(sc["tri"], b[0], virtual=sc["virtual"])
        others = {}
        with monitor.suspend():
            for _, how in sc["ops"]:
                if how not in others:
                    o = second(t, how)
                    others[how] = o if how == "self" else o.set_backend(b[1])

        def go():
            x = t
            for name, how in sc["ops"]:
                if senseless(name, x):
                    continue
                o = R.trap(lambda: world.PURE[name](x, others[how]))
                out.append((name, o))
                if sc["chain"] and o[0] == "ok" and hasattr(o[1], "odims"):
                    x = o[1]
    elif sc["kind"] == "big":
        t = copy.copy(_big(sc["seed"], "sparse"))       # plain arrays of this size are what is being decided about

        def go():
            x = t
            for name in sc["ops"]:
                if senseless(name, x):
                    continue
                o = R.trap(lambda: world.PURE[name](x, x))
                out.append((name, o))
                if o[0] == "ok" and hasattr(o[1], "odims"):
                    x = o[1]
    elif sc["kind"] == "est":
        n = sc["est"]
        X, w = E.data(sc["train"], b[0])
        w = w if w is None else w.set_backend(b[1])
        with monitor.suspend():
            V, vw = E.variant(sc["variant"], *E.data(sc["train"], "numpy"))
            V = V.set_backend(b[2])
            vw = vw if vw is None else vw.set_backend(b[1])
        e = E.SPECS[n].make()

        def go():
            o = R.trap(lambda: E.fit(e, n, X, w))
            out.append(("fit", o))
            if o[0] != "ok":
                return
            o = R.trap(lambda: E.use(e, n, V, vw))
            out.append(("use", o))
            if sc["then"] and o[0] == "ok" and E.SPECS[n].kind[0] == "t":
                out.append(("then", R.trap(lambda: cl.Chainladder().fit(o[1]).ultimate_)))
    elif sc["kind"] == "build":
        key = sc["key"]
        ref = bes is None
        kw = {} if sc["explicit"] is None or ref else dict(array_backend=sc["explicit"])
        if sc["what"] == "sample":
            def go():
                out.append(("sample", R.trap(lambda: cl.load_sample(key, **kw))))
        elif sc["what"] == "frame":
            df, a = world.synth(sc["seed"], n_idx=2 + sc["seed"] % 3)

            def go():
                out.append(("frame", R.trap(lambda: cl.Triangle(df, **a, **kw))))
        else:
            with monitor.suspend():
                t = world._sample(key)
                js = t.to_json()
            if sc["what"] == "json":
                def go():
                    out.append(("json", R.trap(lambda: cl.read_json(js, **kw))))
            else:
                import dill
                p = dill.dumps(t)

                def go():
                    out.append(("pickle", R.trap(lambda: dill.loads(p))))
    return go, out


def run(sc):
    if sc["kind"] == "reset":
        return reset(sc)
    viol = None
    setopt(["reset", None])
    with monitor.suspend():
        go, ref = program(sc, None)
    R.solo(go)
    with monitor.suspend():
        want = [(n, v(o), o) for n, o in ref]
    go, out = program(sc, sc["be"])
    for o in sc["init"]:
        setopt(o)

    def flipper():
        for o in sc["flips"]:
            setopt(o)
    s = R.sim([go, flipper], sc["sched"], max_steps=3_000_000)
    left = {k: cl.options.get_option(k) for k in EXPECT}
    left = [(k, left[k], x) for k, x in EXPECT.items() if left[k] != x]
    cl.options.reset_option()
    if R.liveness(s):
        viol = {"class": "liveness", "msg": R.liveness(s)}
    elif s.tasks[0].exc is not None:
        raise s.tasks[0].exc
    elif left:
        viol = {"class": "option-left:" + left[0][0], "msg": "option %s is %r after the program, %r was set last" % left[0]}
    where = "%s, operands %s, options %s then %s" % ({k: sc[k] for k in ("tri", "est", "train", "variant", "what", "key") if k in sc}, sc["be"], sc["init"], sc["flips"])
    for (n, w, wo), (n2, o) in zip(want, out):
        g = v(o)
        key = sc.get("est", n) if n in ("fit", "use", "then") else n
        if wo[0] == "exc":
            if o[0] == "exc":
                continue
        if o[0] == "exc" or wo[0] == "exc":
            bad = o if o[0] == "exc" else wo
            if not viol:
                viol = {"class": "raises:%s:%s:%s" % (key, n, "plain" if wo[0] == "exc" else "storage"), "msg": "%s of %s raises %r on %s only" % (n, where, bad[1], "plain arrays" if wo[0] == "exc" else "other storage")}
            break
        dd = fp.diff(w, g, rtol=1e-7, atol=1e-7, ignore=lambda k: k.endswith(".array_backend"))
        if dd and not viol:
            viol = {"class": "differs:%s:%s" % (key, n), "msg": "%s of %s: %s" % (n, where, "; ".join(dd))}
            break
    ops = {"kind:" + sc["kind"]: 1}
    for n, o in out:
        k = (sc.get("est") + "." if sc["kind"] == "est" else "op:") + n
        ops[k] = ops.get(k, 0) + 1
    flipped = sum(1 for p in s.preempts) if sc["flips"] else 0
    sig = R.loghash({k: x for k, x in sc.items() if k != "sched"}, s.preempts, s.choices)
    return dict(viol=viol, sig=sig, steps=s.steps, faults={"option_change": len(sc["flips"])}, ops=ops, nontrivial=bool(flipped or "sparse" in sc["be"] or sc["init"]),
                probes={"results": sum(o[0] == "ok" for _, o in out), "raising": sum(o[0] == "exc" for _, o in out), "switches": len(s.preempts)}, sched=R.recorded(s, sc["sched"]), log=R.loghash(sig, viol and viol["class"]))


def reset(sc):
    cl.options.reset_option()
    viol = None
    for o in sc["init"] + sc["flips"]:
        setopt(o)
        k, x = o
        if k != "reset":
            want = PRIO[x] if k == "ARRAY_PRIORITY" else x
            if cl.options.get_option(k) != want:
                viol = {"class": "option", "msg": "option %s set to %r reads %r" % (k, want, cl.options.get_option(k))}
    cl.options.set_option("ULT_VAL", "2200-12-31 23:59:59.999999999")
    cl.options.ARRAY_PRIORITY.reverse()
    cl.options.reset_option()
    for k, x in DEFAULT.items():
        if cl.options.get_option(k) != x:
            viol = {"class": "reset", "msg": "after reset option %s is %r, not %r" % (k, cl.options.get_option(k), x)}
    sig = R.loghash(sc["init"], sc["flips"])
    return dict(viol=viol, sig=sig, steps=len(sc["flips"]), faults={"option_change": len(sc["flips"])}, ops={"kind:reset": 1}, nontrivial=True, probes={}, log=R.loghash(sig, viol and viol["class"]))


def warm(tier):
    for n in sorted(E._DATA):
        for b in ("numpy", "sparse"):
            E._data(n, b)
    for n in world.TRIS:
        for b in ("numpy", "sparse"):
            world._prebuilt(n, b)
    for s in (0, 1):
        _big(s, "sparse")


def shrink(sc):
    for k in ("init", "flips", "ops"):
        for i in range(len(sc.get(k, []))):
            if k != "ops" or len(sc[k]) > 1:
                yield dict(sc, **{k: sc[k][:i] + sc[k][i + 1:]})
    for i in range(3):
        if sc["be"][i] == "sparse":
            yield dict(sc, be=sc["be"][:i] + ["numpy"] + sc["be"][i + 1:])
