"""C04: a failed triangle operation surfaces and leaves the operands as they were."""
import random, copy, warnings
import numpy as np, pandas as pd
from .. import world, fp, run as R, faults, monitor
from ..world import cl

ID = "C04"
COUNT = {"quick": 1700, "thorough": 120000}
RULE = ("one operation (or construction) is run once undisturbed, then with one to three failures injected at points drawn from the recorded events of that very run "
        "(failing allocation in a library call, failing allocation between lines, interrupt between lines), then repeated undisturbed. Non-trivial: a fault fired.")
MEASURE = "hash of operation, triangle, storage, schedule and the fault sites that fired"
OPS = sorted(set(world.PURE) - {"heatmap"})
INPLACE = ["incr_to_cum", "cum_to_incr", "to_sparse", "to_numpy", "deep_backend", "fillna", "assign", "assign_over"]


def _dates(df, a, k):
    """Construction variants that take the different date-inference paths."""
    df = df.copy()
    a = dict(a)
    if k == 1:
        df["o"] = df["o"].dt.year
        df["d"] = df["d"].dt.year
    elif k == 2:
        df["o"] = df["o"].dt.strftime("%Y-%m-%d")
        df["d"] = df["d"].dt.strftime("%Y-%m-%d")
    elif k == 3:
        df["o"] = df["o"].dt.strftime("%Y%m").astype(int)
        df["d"] = df["d"].dt.strftime("%Y%m").astype(int)
        a.update(origin_format="%Y%m", development_format="%Y%m")
    elif k == 4:
        df["oy"], df["om"] = df["o"].dt.year, df["o"].dt.month
        a["origin"] = ["oy", "om"]
    elif k == 5:
        df["o"] = df["o"].dt.year.astype(str)
        df["d"] = df["d"].dt.strftime("%Y-%m")
    elif k == 6:
        df["o"] = df["o"].dt.strftime("%m/%d/%Y")
        df["d"] = df["d"].dt.strftime("%m/%d/%Y")
    elif k == 7:
        a["development"] = None
        a["cumulative"] = True
        df = df.drop(columns="d").drop_duplicates(["key", "grp", "o"])
    return df, {k: v for k, v in a.items() if v is not None}


def construct(df, a):
    return cl.Triangle(df, **a)


CONSTRUCT = list(range(8))
JSON = {
    "read_json": lambda t, o: cl.read_json(t.to_json()),
    "minmax": lambda t, o: cl.maximum(cl.minimum(t, 500.0), o),
    "to_json_dev": lambda t, o: t.iloc[0, 0].to_json(),
}


def op(name):
    return world.PURE.get(name) or JSON[name]


def gen(rng, tier, i):
    u = rng.random()
    sc = dict(kind=rng.choice(["mem", "mem", "memline", "int", "int"]), seed=rng.getrandbits(40), times=rng.choice([1, 1, 1, 2, 3]), auto_sparse=rng.random() < 0.6,
              pool=rng.choice([1, 2, 4]))
    if u < 0.2:
        sc.update(what="construct", variant=rng.choice(CONSTRUCT), data=rng.randrange(6), name="construct")
        return sc
    name, be = world.pick_tri(rng)
    if u < 0.32:
        sc.update(what="inplace", op=rng.choice(INPLACE), kind="mem", name=name, backend=be, start=rng.choice(["asis", "incr", "sub", "pattern"]))
        return sc
    sub = rng.random() < 0.2
    if sub:
        name = rng.choice(["raa", "genins", "abc", "ukmotor", "mcl"])
    names = OPS + sorted(JSON)
    sc.update(what="pure", op=names[i % len(names)] if rng.random() < 0.7 else rng.choice(names), name=name, backend=be, sub=sub, virtual=not sub and rng.random() < 0.3)
    return sc


def family(sc):
    """(function to run, objects that must not change)"""
    with monitor.suspend():
        if sc["what"] == "construct":
            df, a = world.synth(sc["data"], n_idx=2, n_col=1 + sc["data"] % 2, years=3, ograin="YQ"[sc["data"] % 2] if sc["variant"] not in (1, 5) else "Y",
                                dgrain="Y" if sc["variant"] == 1 else "YQ"[sc["data"] % 2])
            df, a = _dates(df, a, sc["variant"])
            return (lambda: construct(df, a)), [df, a]
        if sc["what"] == "inplace":
            t = world.subtri_family(sc["name"], sc["backend"]) if sc["start"] == "sub" and sc["name"] in ("raa", "genins", "abc", "ukmotor", "mcl") else world.tri(sc["name"], sc["backend"])
            if sc["start"] == "incr":
                t = copy.deepcopy(t.cum_to_incr())
            if sc["start"] == "pattern":
                try:
                    t = copy.deepcopy(t.set_backend("numpy").link_ratio.iloc[:, :, :1].set_backend(sc["backend"]))
                except Exception:
                    pass
            rel = [t.copy()]
            f = world.EDITS.get(sc["op"])
            if f is None:
                x = copy.deepcopy(t.iloc[:, 0] * 2)
                rel.append(x)
                f = lambda t, k: t.__setitem__("asg" if sc["op"] == "assign" else t.columns[-1], x)

            def run():
                f(t, 0)
                return t
            return run, rel
        if sc.get("sub"):
            t = world.subtri_family(sc["name"], sc["backend"])
        else:
            t = world.tri(sc["name"], sc["backend"], virtual=sc.get("virtual", False))
        c = t.copy()
        rel = [t, c, t.iloc[..., : max(1, t.shape[-2] // 2), :]]
        f = op(sc["op"])
        return (lambda: f(t, c)), rel


def run(sc):
    cl.options.set_option("AUTO_SPARSE", sc["auto_sparse"])
    sched = dict(preempts=[], choices=[], pool=sc["pool"])

    def once(fn, fault=None):
        out = []
        s = R.sim([lambda: out.append(R.trap(fn))], sched, fault=fault)
        if s.tasks[0].exc is not None:
            raise s.tasks[0].exc
        return s, out[0]

    fn, rel = family(sc)
    s, o = once(fn)
    want = R.outview(o)
    viol, fired, steps = None, [], s.steps
    sites = sc.get("at")
    if sites is None:
        rec = faults.Fault(sc["kind"], record=True)
        fn, rel = family(sc)
        once(fn, rec)
        rng = random.Random(sc["seed"])
        sites = [p for p in (faults.choose(rng, rec.sites) for _ in range(sc["times"])) if p]
    fn, rel = family(sc)
    before = [fp.view(x) for x in rel]
    label = sc.get("op", "construct:%s" % sc.get("variant"))
    for site in sites:
        f = faults.Fault(sc["kind"], at=site[1], tid=site[0])
        s, o = once(fn, f)
        steps += s.steps
        st = R.liveness(s)
        if st:
            viol = {"class": "liveness", "msg": st}
            break
        if not f.fired:
            continue
        fired.append(f.fired[0])
        if o[0] == "ok":
            d = fp.diff(want, R.outview(o))
            if d and not (sc["what"] == "inplace"):
                viol = {"class": "swallowed:%s" % label, "msg": "%s returned a wrong result although %s failed at %s: %s" % (
                    label, "an allocation" if sc["kind"] != "int" else "an interrupt", f.fired[0][2], "; ".join(d))}
                break
        for x, b in zip(rel, before):
            d = fp.diff(b, fp.view(x))
            if d:
                viol = {"class": "operand:%s" % label, "msg": "after %s failed at %s %s changed: %s" % (
                    label, f.fired[0][2], "a relative" if sc["what"] == "inplace" else "an operand", "; ".join(d))}
                break
        if viol:
            break
    if not viol and fired:
        s, o = once(fn)
        steps += s.steps
        d = fp.diff(want, R.outview(o))
        if d:
            viol = {"class": "retry:%s" % label, "msg": "%s repeated after failing at %s gives something else: %s" % (label, [x[2] for x in fired], "; ".join(d))}
        else:
            for x, b in zip(rel, before):
                d = fp.diff(b, fp.view(x))
                if d:
                    viol = {"class": "operand:%s" % label, "msg": "after the retry of %s: %s" % (label, "; ".join(d))}
    fc = {}
    for k, _, _ in fired:
        fc[k] = fc.get(k, 0) + 1
    sig = R.loghash({k: v for k, v in sc.items() if k not in ("seed", "at")}, fired)
    return dict(viol=viol, sig=sig, steps=steps, faults=fc, ops={label: 1, sc["what"]: 1}, nontrivial=bool(fired),
                probes={"surfaced": int(bool(fired) and o[0] == "ok"), "no_site": int(not sites), "undisturbed_raises": int("raises" in want)},
                log=R.loghash(sig, fp.digest(want), viol and viol["class"]), at=sites)


def warm(tier):
    for be in ("numpy", "sparse"):
        for n in ("raa", "clrd", "synth1"):
            t = world.tri(n, be)
            for name in OPS + sorted(JSON):
                R.trap(lambda: R.solo(lambda: R.trap(lambda: op(name)(t, t.copy()))))
        for n in world.TRIS:
            world.tri(n, be)
        for n in ["raa", "genins", "abc", "ukmotor", "mcl"]:
            world.subtri_family(n, be)
        for o in INPLACE:
            for st in ("asis", "incr", "sub", "pattern"):
                R.trap(lambda: run(dict(what="inplace", op=o, kind="mem", name="raa", backend=be, start=st, seed=1, times=1, auto_sparse=True, pool=1)))
    for k in CONSTRUCT:
        for d in range(2):
            R.trap(lambda: run(dict(what="construct", variant=k, data=d, name="construct", kind="mem", seed=1, times=1, auto_sparse=True, pool=1)))
    cl.options.reset_option()


def shrink(sc):
    if sc.get("at") is None:
        r = run(copy.deepcopy(sc))
        if r.get("at"):
            yield dict(sc, at=r["at"])
    else:
        for k in range(len(sc["at"])):
            if len(sc["at"]) > 1:
                yield dict(sc, at=sc["at"][:k] + sc["at"][k + 1:])
    if sc["what"] == "pure":
        if sc.get("virtual"):
            yield dict(sc, virtual=False)
        if sc["backend"] != "numpy":
            yield dict(sc, backend="numpy")
        if sc["name"] != "raa":
            yield dict(sc, name="raa")
