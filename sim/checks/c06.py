"""C06: a grid search equals one independent fit per grid point, however it is scheduled."""
import copy, random
import numpy as np, pandas as pd, joblib
from sklearn.model_selection import ParameterGrid
from sklearn.base import clone
from .. import world, est as E, fp, run as R, monitor, faults, seams, sched as S
from ..world import cl

ID = "C06"
COUNT = {"quick": 210, "thorough": 30000}
RULE = ("a template, a grid (plain values, nested parameters, estimator objects, lists of grids) and data are searched by 1-2 callers over a simulated pool of worker threads or "
        "worker processes with a seeded size, batch size and schedule; half of the scenarios first suffer a failing or dying worker. Non-trivial: at least two grid points in flight at once, or a fault.")


def _ult(m):
    m = m[-1] if hasattr(m, "steps") else m
    return m.ultimate_


def s_ult(m):
    return float(np.nansum(fp.dense(_ult(m).values)))


def s_ibnr(m):
    m = m[-1] if hasattr(m, "steps") else m
    return float(m.ibnr_.sum("origin").sum(0).sum(1)) if m.ibnr_.shape[:2] != (1, 1) else float(m.ibnr_.sum("origin"))


def s_first(m):
    return float(np.nansum(fp.dense(_ult(m).values)[..., 0, :]))


def s_steps(m):
    """Reads the intermediate estimators: exposes fits leaking from one grid point into another."""
    if not hasattr(m, "steps"):
        return repr(m)
    return "|".join("%s" % m.steps[k][1] for k in range(len(m.steps))) + "|%.9g" % (
        float(np.nansum(fp.dense(m.steps[0][1].ldf_.values))) if hasattr(m.steps[0][1], "ldf_") else 0.0)


def s_ldf(m):
    m = m.steps[0][1] if hasattr(m, "steps") else m
    return float(np.nansum(fp.dense(m.ldf_.values)))


P = lambda *s: cl.Pipeline(list(s))


def _shared_grid():
    a, b = cl.Development(average="simple"), cl.Development(n_periods=5)
    return {"dev": [a, b, a], "dev__drop_high": [False, True], "model": [cl.Chainladder(), cl.CapeCod()]}


def _shared_grid2():
    d = cl.Development()
    return {"dev": [d], "dev__n_periods": [3, 4, 5, 6, 7], "dev__average": ["simple", "volume"]}


# name -> (template, grid, scoring, needs exposure, trains, may a point fail)
CASES = {
    "dev_cl": lambda: (P(("dev", cl.Development()), ("model", cl.Chainladder())), {"dev__n_periods": [3, 5, 7, -1], "dev__average": ["simple", "volume"]},
                       dict(ibnr=s_ibnr, ldf=s_ldf), False, ["raa", "genins", "abc", "lob"]),
    "dev_cl_one": lambda: (P(("dev", cl.Development()), ("model", cl.Chainladder())), {"dev__n_periods": [4, 6, -1]}, s_ibnr, False, ["raa", "quarterly"]),
    "dev_obj": lambda: (P(("dev", cl.Development()), ("model", cl.Chainladder())), _shared_grid(), dict(u=s_ult, st=s_steps), True, ["raa", "genins", "lob"]),
    "dev_obj2": lambda: (P(("dev", cl.Development()), ("model", cl.Chainladder())), _shared_grid2(), dict(st=s_steps, u=s_ult), False, ["raa", "abc"]),
    "listgrid": lambda: (P(("dev", cl.Development()), ("tail", cl.TailCurve()), ("model", cl.Chainladder())),
                         [{"tail": [cl.TailConstant(1.05), cl.TailCurve("inverse_power")]}, {"dev__average": ["simple", "volume"], "tail__curve": ["exponential", "weibull"]}],
                         dict(u=s_ult, st=s_steps), False, ["raa", "genins"]),
    "bf": lambda: (cl.BornhuetterFerguson(), {"apriori": [0.5, 0.6, 0.7, 0.8, 0.9, 1.0]}, dict(u=s_ult, i=s_ibnr), True, ["raa", "genins", "lob", "synth4"]),
    "bk": lambda: (cl.Benktander(), {"n_iters": [1, 2, 3, 50], "apriori": [0.5, 1.0]}, s_ibnr, True, ["raa", "genins"]),
    "cc": lambda: (cl.CapeCod(), {"trend": [0.0, 0.02, 0.05], "decay": [1.0, 0.8]}, dict(u=s_ult, f=s_first), True, ["raa", "lob"]),
    "pipe_bf": lambda: (P(("dev", cl.Development()), ("tail", cl.TailConstant(1.0)), ("bf", cl.BornhuetterFerguson())),
                        {"tail__tail": [1.0, 1.05, 1.1], "bf__apriori": [0.6, 0.9]}, dict(u=s_ult, st=s_steps), True, ["raa", "genins"]),
    "boot": lambda: (P(("boot", cl.BootstrapODPSample(n_sims=5, random_state=3)), ("dev", cl.Development()), ("model", cl.Chainladder())),
                     {"boot__random_state": [1, 2, 3], "dev__average": ["simple", "volume"]}, dict(u=s_ult), False, ["raa"]),
    "sigma": lambda: (cl.BornhuetterFerguson(apriori_sigma=0.1), {"random_state": [1, 2, 3, 4], "apriori": [0.6, 0.8]}, dict(u=s_ult, f=s_first), True, ["raa", "genins"]),
    "munich": lambda: (P(("mun", cl.MunichAdjustment(paid_to_incurred=("paid", "incurred"))), ("model", cl.Chainladder())),
                       {"mun__fillna": [True, False]}, dict(u=s_ult), False, ["mcl"]),
    "voting": lambda: (cl.VotingChainladder([("cl", cl.Chainladder()), ("bf", cl.BornhuetterFerguson(0.7)), ("cc", cl.CapeCod())]),
                       {"default_weighting": [(1, 0, 0), (0, 1, 0), (1, 2, 3)], "bf__apriori": [0.5, 0.9]}, dict(u=s_ult), True, ["raa", "genins"]),
    "drop": lambda: (P(("dev", cl.Development()), ("model", cl.Chainladder())), {"dev__drop": [None, ("1982", 12), [("1983", 24), ("1982", 12)]], "dev__drop_high": [False, True]},
                     dict(ldf=s_ldf, u=s_ult), False, ["raa"]),
    "trend": lambda: (P(("tr", cl.Trend(0.02)), ("dev", cl.Development()), ("cc", cl.CapeCod())), {"tr__trends": [0.0, 0.03], "cc__decay": [1.0, 0.7]}, dict(u=s_ult), True, ["raa"]),
    "tail": lambda: (P(("dev", cl.Development()), ("tail", cl.TailCurve()), ("model", cl.Chainladder())),
                     {"tail__curve": ["exponential", "inverse_power"], "tail__fit_period": [(12, None), (36, None), (24, 84)], "tail__extrap_periods": [10, 100]}, dict(u=s_ult), False, ["raa", "genins", "abc"]),
    "bad": lambda: (P(("dev", cl.Development()), ("model", cl.Chainladder())), {"dev__average": ["simple", "volume", "nonsense", "regression"]}, s_ibnr, False, ["raa", "genins"]),
}
NAMES = sorted(CASES)


def gen(rng, tier, i):
    name = NAMES[i % len(NAMES)] if rng.random() < 0.75 else rng.choice(["dev_obj", "dev_obj2", "listgrid", "voting"])
    trains = CASES[name]()[4]
    kind = rng.choice(["threads", "threads", "threads", "procs", "procs"])
    sc = dict(case=name, train=rng.choice(trains), backend=rng.choice(["numpy", "numpy", "sparse"]), kind=kind, n_jobs=rng.choice([1, None, 2, 2, 3, 4, -1, 8]),
              batch=rng.choice([1, 1, 2, 3]), callers=rng.choice([1, 1, 1, 2]), sched=R.gen_sched(rng, ps=(0.0, 0.0005, 0.002, 0.01, 0.05), qs=(0.02, 0.1, 0.3)), fault=None)
    if rng.random() < 0.5:
        k = rng.choice(["mem", "memline", "int", "die"])
        if k == "die":
            sc.update(kind="procs", n_jobs=rng.choice([2, 3, -1]))
        sc["fault"] = dict(kind=k, seed=rng.getrandbits(30))
        sc["callers"] = 1
    if rng.random() < (0.8 if tier == "quick" else 0.5):
        sc["sub"] = rng.getrandbits(20) + 1
    if rng.random() < 0.15:
        sc["template_fitted"] = True
    if rng.random() < 0.1:
        sc["iter_grid"] = True
    return sc


def make(sc):
    with monitor.suspend():
        tpl, grid, scoring, w, _ = CASES[sc["case"]]()
        if sc.get("sub"):
            r = random.Random(sc["sub"])
            gs = grid if isinstance(grid, list) else [grid]
            cut = [{k: sorted(r.sample(range(len(v)), min(len(v), 3 if len(g) == 1 else 2))) for k, v in g.items()} for g in gs]
            gs = [{k: [v[i] for i in c[k]] for k, v in g.items()} for g, c in zip(gs, cut)]
            grid = gs if isinstance(grid, list) else gs[0]
        if sc.get("iter_grid"):
            grid = [{k: tuple(v) if isinstance(v, list) else v for k, v in g.items()} for g in (grid if isinstance(grid, list) else [grid])]
        X, sw = E.data(sc["train"], sc["backend"])
        if sc.get("template_fitted"):
            try:
                tpl.fit(X.copy(), sample_weight=sw) if w else tpl.fit(X.copy())
            except Exception:
                pass
        return tpl, grid, scoring, X, (sw if w else None)


def reference(sc):
    """One fresh estimator per grid point, one after the other."""
    rows = []
    n = len(list(ParameterGrid(make(sc)[1])))
    for k in range(n):
        tpl, grid, scoring, X, w = make(sc)
        sc2 = {x: y for x, y in sc.items() if x != "template_fitted"}
        tpl = make(sc2)[0]
        item = list(ParameterGrid(grid))[k]
        label = {a: b for a, b in copy.deepcopy(item).items()}
        with monitor.suspend():
            # the grid value applies to a private copy
            est = tpl.set_params(**copy.deepcopy(item))
            scoring = scoring if type(scoring) is dict else dict(score=scoring)

        def fit():
            m = est.fit(X, None, sample_weight=w) if w is not None else est.fit(X, None)
            return {s: f(m) for s, f in scoring.items()}
        o = R.trap(lambda: R.solo(fit))
        if o[0] != "ok":
            return ("exc", o[1])
        rows.append(dict(label, **o[1]))
    return ("ok", rows)


def tableview(df):
    return {"cols": tuple(df.columns), "n": len(df), "rows": fp.view([dict(zip(df.columns, r)) for r in zip(*[df[c].tolist() for c in df.columns])])} if len(df) else {"cols": (), "n": 0, "rows": {}}


def rowsview(rows):
    cols = list(dict.fromkeys(c for r in rows for c in r))
    return {"cols": tuple(cols), "n": len(rows), "rows": fp.view([{c: r.get(c, float("nan")) for c in cols} for r in rows])}


def tdiff(a, b):
    if a["cols"] != b["cols"] or a["n"] != b["n"]:
        return ["columns %s rows %s != columns %s rows %s" % (a["cols"], a["n"], b["cols"], b["n"])]
    return fp.diff(norm(a["rows"]), norm(b["rows"]), rtol=1e-9)


def norm(v):
    """A missing grid value is NaN in the table whatever its column's type; tuples stay tuples."""
    return {k: (float("nan") if x is None else x) for k, x in v.items()}


def shrinkable(sc):
    return sc


def search_fn(sc, tpl, grid, scoring, X, w):
    def go():
        g = cl.GridSearch(tpl, grid, scoring, n_jobs=sc["n_jobs"])
        with joblib.parallel_config(backend="simthreads" if sc["kind"] == "threads" else "simprocs"):
            g.fit(X, None, **({"sample_weight": w} if w is not None else {}))
        return g.results_
    return go


def run(sc):
    ref = reference(sc)
    want = rowsview(ref[1]) if ref[0] == "ok" else None
    tpl, grid, scoring, X, w = make(sc)
    items = list(ParameterGrid(grid))
    watch = [("template estimator", tpl), ("grid", grid), ("training triangle", X), ("exposure triangle", w)]
    before = [fp.view(x) for _, x in watch]
    viol, fired, s, pools = None, [], None, []

    def check_watch(when):
        for (lab, x), b in zip(watch, before):
            d = fp.diff(b, fp.view(x))
            if d:
                return {"class": "changed:%s" % lab, "msg": "%s the %s changed: %s" % (when, lab, "; ".join(d))}
        return None

    if sc["fault"]:
        fk = sc["fault"]
        f, die = None, None
        if fk["kind"] == "die":
            die = random.Random(fk["seed"]).randrange(len(items)) if "at" not in fk else fk["at"]
        else:
            if "at" in fk:
                site = fk["at"]
            else:
                rec = faults.Fault(fk["kind"], record=True)
                t2 = make(sc)
                with seams.joblib_cfg(batch=sc["batch"]):
                    R.sim([search_fn(sc, *t2)], dict(sc["sched"]), fault=rec)
                site = faults.choose(random.Random(fk["seed"]), rec.sites)
                fk["at"] = site
            if site:
                f = faults.Fault(fk["kind"], at=site[1], tid=site[0])
        out = []
        with seams.joblib_cfg(batch=sc["batch"], die=die) as jc:
            s = R.sim([lambda: out.append(R.trap(search_fn(sc, tpl, grid, scoring, X, w)))], sc["sched"], fault=f)
        st = R.liveness(s)
        if f is not None:
            fired = list(f.fired)
        elif jc.died:
            fired = [("die", 0, str(die))]
        if st:
            viol = {"class": "liveness", "msg": st}
        elif s.tasks[0].exc is not None:
            raise s.tasks[0].exc
        elif fired and out[0][0] == "ok":
            d = tdiff(want, tableview(out[0][1])) if want else ["a grid point fails on its own"]
            if d:
                viol = {"class": "swallowed", "msg": "the search returned a table although %s: %s" % (fired[0], "; ".join(d))}
        viol = viol or check_watch("after a search that %s" % ("failed" if fired else "ran"))
    if not viol:
        cs = [search_fn(sc, tpl, grid, scoring, X, w) for _ in range(sc["callers"])]
        outs = [None] * len(cs)

        def call(k):
            def go():
                outs[k] = R.trap(cs[k])
            return go
        with seams.joblib_cfg(batch=sc["batch"]) as jc:
            s = R.sim([call(k) for k in range(len(cs))], sc["sched"])
        pools = jc.pools
        st = R.liveness(s)
        if st:
            viol = {"class": "liveness", "msg": st}
        for t in s.tasks[: len(cs)]:
            if t.exc is not None and not viol:
                raise t.exc
        for k, o in enumerate(outs):
            if viol:
                break
            if want is None:
                if o[0] == "ok":
                    viol = {"class": "missing-error", "msg": "a grid point fails with %s on its own but the search returned a table" % type(ref[1]).__name__}
            elif o[0] != "ok":
                viol = {"class": "raises", "msg": "the search raised %s: %s although every grid point fits" % (type(o[1]).__name__, str(o[1])[:300])}
            else:
                d = tdiff(want, tableview(o[1]))
                if d:
                    viol = {"class": "table", "msg": "grid search %s over %s differs from independent fits: %s" % (
                        sc["case"], "%s %s" % (sc["n_jobs"], sc["kind"]), "; ".join(d))}
        viol = viol or check_watch("after the search")
    fc = {}
    for k, _, _ in fired:
        fc[k] = fc.get(k, 0) + 1
    sig = R.loghash(s.signature() if s else "", sc["case"], sc["train"], sc["backend"], sc["kind"], sc["n_jobs"], fired)
    return dict(viol=viol, sig=sig, steps=s.steps, faults=fc, ops={sc["case"]: 1, sc["kind"]: 1, "n_jobs=%s" % sc["n_jobs"]: 1},
                nontrivial=bool(fired) or bool(pools and s.switches > 4), sched=R.recorded(s, sc["sched"]) if not sc["fault"] else None,
                probes={"preemptions": len(s.preempts), "workers": max(0, len(s.tasks) - sc["callers"]), "points": len(items), "pool_runs": len(pools), "failing_point": int(want is None)},
                log=R.loghash(sig, repr(want)[:2000] if want else "exc", viol and viol["class"]), fault=sc["fault"])


def warm(tier):
    for n in NAMES:
        for t in CASES[n]()[4]:
            for be in ("numpy", "sparse"):
                E.data(t, be)
        for be in ("numpy", "sparse"):
            sc = dict(case=n, train=CASES[n]()[4][0], backend=be, kind="procs", n_jobs=2, batch=1, callers=1, sched=dict(seed=1, p=0, q=0, fine=False, pool=2), fault=None, sub=5)
            R.trap(lambda: reference(sc))


def shrink(sc):
    if sc["fault"] and "at" not in sc["fault"]:
        c = copy.deepcopy(sc)
        r = run(c)
        if r.get("fault"):
            yield dict(sc, fault=r["fault"])
    if sc["fault"]:
        yield dict(sc, fault=None)
    if sc["callers"] > 1:
        yield dict(sc, callers=1)
    if sc["batch"] != 1:
        yield dict(sc, batch=1)
    if sc["kind"] == "procs":
        yield dict(sc, kind="threads")
    if sc["n_jobs"] not in (1, 2):
        yield dict(sc, n_jobs=2)
        yield dict(sc, n_jobs=1)
    if sc["backend"] != "numpy":
        yield dict(sc, backend="numpy")
    if sc.get("template_fitted"):
        yield {k: v for k, v in sc.items() if k != "template_fitted"}
