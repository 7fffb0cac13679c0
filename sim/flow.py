"""Workflows: seeded lists of reserving steps over named objects, and their execution in one go, or in segments
in separate processes that hand their objects on through files."""
import os, random
import numpy as np, pandas as pd
from . import est as E, world, fp, monitor, run as R
from .world import cl
from sklearn.base import BaseEstimator

DEV = ["Development", "Development_simple", "Development_reg", "Development_mix", "Development_drop", "Development_drop2", "Development_fillna", "Development_group", "DevConstant",
       "DevConstant_cdf", "IncrementalAdditive", "IncrementalAdditive2", "MunichAdjustment", "MunichAdjustment_us", "CaseOutstanding", "ClarkLDF", "ClarkLDF_cc", "TweedieGLM", "DevelopmentML",
       "DevelopmentML_incr", "BarnettZehnwirth", "Development_preserve", "Development_above", "Development_one", "Development_twice", "Development_sub", "DevConstant_call", "DevConstant_group",
       "IncrementalAdditive_tr", "MunichAdjustment_lob", "CaseOutstanding_group", "ClarkLDF_lob", "DevelopmentML_auto"]
ADJ = ["Bootstrap", "Bootstrap_nohat", "BerquistSherman", "Parallelogram", "Parallelogram_vl", "Trend", "Trend_multi", "Trend_val", "Parallelogram_group", "BerquistSherman_est"]
TAIL = ["TailCurve", "TailCurve_inv", "TailConstant", "TailConstant_att", "TailBondy", "TailClark", "TailCurve_thr", "TailCurve_thr2", "TailCurve_sub", "TailBondy_att", "TailBondy_late"]
METH = ["Chainladder", "Mack", "BF", "Benktander", "CapeCod", "CapeCod_group", "ExpectedLoss", "BF_sigma", "CapeCod_sigma", "CapeCod_trended", "CapeCod_olf"]
WHOLE = ["Pipeline", "Pipeline_bf", "Pipeline_cc", "Pipeline_boot", "Voting", "Voting_fn", "Voting_list", "GridSearch"]
# patterns that the methods and tails do not take on
ENDS = {"MunichAdjustment", "MunichAdjustment_us", "CaseOutstanding", "BerquistSherman", "Parallelogram", "Parallelogram_vl", "BarnettZehnwirth", "Parallelogram_group", "BerquistSherman_est", "MunichAdjustment_lob", "CaseOutstanding_group"}

ASK = ["cum_to_incr", "incr_to_cum", "dev_to_val", "val_to_dev", "latest_diagonal", "link_ratio", "trend", "sum", "sum_o", "sum_d", "groupby", "to_frame", "to_frame_keep", "to_frame_impl", "dropna", "iloc", "iloc_od",
       "by_origin", "by_dev", "by_val", "column", "columns", "add", "sub", "div_latest", "add_total", "scalar", "lt", "is_full", "labels", "grain_OYDY", "shift", "sort_index", "virtual", "mul_column", "subtri", "cdf",
       "repr", "copy", "at", "in_", "nan_triangle", "head", "fillna", "round", "append", "concat", "eq_copy", "describe",
       "full_grain", "full_minus", "ult_frame", "grain_trail", "loc_tuple", "loc_col", "at_get", "frame_io", "frame_co", "trend_dates", "val_cum", "add_older", "group_item", "pow_tri", "add_morecols", "axes", "link_sub", "sort_o"]
JASK = [a for a in ASK if a not in ("repr", "in_", "nan_triangle", "describe", "mean", "lt", "fillna", "iloc", "columns", "virtual", "full_grain", "axes")]


def _grid_score(x):
    return float(x.named_steps.model.ibnr_.sum("origin").set_backend("numpy").values[0, 0, 0, 0])


def make(spec):
    if spec == "GridSearch":
        p = cl.Pipeline([("dev", cl.Development()), ("model", cl.Chainladder())])
        return cl.GridSearch(p, dict(dev__n_periods=[3, 5, -1], dev__average=["simple", "volume"]), scoring=_grid_score)
    return E.SPECS[spec].make()


TRAINS = {"GridSearch": ["raa", "genins", "abc"]}


def trains(spec):
    return TRAINS.get(spec) or E.SPECS[spec].trains


def gen(rng, js):
    """steps.  Variables: x* triangles, e* estimators; w<k> is the exposure that belongs to x<k>."""
    steps, n = [], [0, 0]

    def newx():
        n[0] += 1
        return "x%d" % n[0]

    def newe():
        n[1] += 1
        return "e%d" % n[1]
    tris, ests, attrs = [], [], set()
    for _ in range(rng.choice([1, 1, 2])):
        u = rng.random()
        plan = []
        if u < 0.5:
            d = rng.choice(DEV)
            tr = rng.choice(trains(d))
            if rng.random() < 0.15:
                tr = rng.choice(["raa", "genins"])
                plan.append(rng.choice(["Bootstrap", "Trend", "Trend_val"]))
                if tr not in trains(d):
                    d = "Development"
            plan.append(d)
            if d not in ENDS:
                if rng.random() < 0.5:
                    c = [t for t in TAIL if tr in trains(t)]
                    if c and d not in ("IncrementalAdditive", "IncrementalAdditive2", "IncrementalAdditive_tr"):
                        plan.append(rng.choice(c))
                c = [m for m in METH if tr in trains(m)] or ["Chainladder"]
                plan += rng.sample(c, min(len(c), rng.choice([1, 1, 2])))
        elif u < 0.7:
            plan.append(rng.choice(WHOLE))
            tr = rng.choice(trains(plan[0]))
        elif u < 0.85:
            plan.append(rng.choice(ADJ))
            tr = rng.choice(trains(plan[0]))
            if plan[0].startswith(("Boot", "Trend")):
                plan += ["Development", "CapeCod" if "Trend" in plan[0] and tr in E.EXP else "Chainladder"]
        else:
            tr = rng.choice(list(world.TRIS))
            tr = "tri:" + tr
        x = newx()
        be = rng.choice(["numpy", "numpy", "numpy", "sparse"])
        steps.append(["data", x, tr, be, rng.random() < 0.25])
        tris.append(x)
        w = x
        for p in plan:
            e = newe()
            steps.append(["make", e, p])
            ests.append(e)
            if rng.random() < 0.15 and p in E.SPECS:
                # last year's triangle first, then refitted on this year's
                xo = newx()
                steps.append(["older", x, xo])
                steps.append(["fit", e, p, xo, w])
            steps.append(["fit", e, p, x, w])
            if p in TAIL + DEV + ADJ:
                x2 = newx()
                steps.append(["transform", e, p, x, w, x2])
                x = x2
                tris.append(x)
            else:
                if rng.random() < 0.7:
                    x2 = newx()
                    steps.append(["predict", e, p, x if rng.random() < 0.6 else w, w, x2, rng.choice(["same", "older", "scaled"])])
                    if rng.random() < 0.3:
                        tris.append(x2)
                a = rng.choice(["ultimate_", "ibnr_", "full_triangle_", "full_expectation_", "summary_", "total_mack_std_err_"])
                x3 = newx()
                steps.append(["attr", e, a, x3])
                if a in ("ultimate_", "ibnr_") and rng.random() < 0.5:
                    tris.append(x3)
                    attrs.add(x3)               # one object with the estimator's own, until it is saved
        for _ in range(rng.randint(0, 2)):
            v = rng.choice(tris)
            u = rng.random()
            if u < 0.6:
                xn = newx()
                steps.append(["op", rng.choice(JASK if js else [a for a in ASK if a != "repr"]), v, rng.choice([v, v, rng.choice(tris)]), xn])
            elif v not in attrs and (not js or u < 0.8):
                steps.append(["edit", rng.choice(["setcol", "overwrite", "rename_col", "virtual", "iat", "to_sparse", "to_numpy", "index", "cum_to_incr", "incr_to_cum", "deep_backend", "columns"]), v, rng.randrange(6)])
    asks = []
    for _ in range(rng.randint(2, 5)):
        v = rng.choice(tris)
        asks.append(["ask", rng.choice(JASK if js else ASK), v])
    for e in ests:
        if rng.random() < 0.5:
            asks.append(["look", e])
    return steps, asks


# ------------------------------------------------------------------------------------- execution ----
def _v(x):
    v = fp.view(x)
    if hasattr(x, "odims") and len(x.virtual_columns.columns):
        # the cells a reader of each column sees
        with monitor.suspend():
            r = R.trap(lambda: np.concatenate([fp.dense(x[c].values).astype(float) for c in x.columns], 1))
        v[".values"] = r[1] if r[0] == "ok" else repr(type(r[1]))
    return v


def step(st, s):
    k = s[0]
    if k == "data":
        if s[2].startswith("tri:"):
            st[s[1]] = world.tri(s[2][4:], s[3], virtual=s[4])
            return st[s[1]]
        X, w = E.data(s[2], s[3])
        if s[4]:
            c = [str(v) for v in X.vdims]
            import functools
            X["virt"] = functools.partial(world._virt, a=c[0], b=c[-1])
            X = X[c]                    # carries no virtual column any more
        st[s[1]], st["w" + s[1]] = X, w
        return X
    if k == "make":
        st[s[1]] = make(s[2])
        return st[s[1]]
    if k == "older":
        X = st[s[1]]
        st[s[2]] = X[X.valuation < X.valuation_date]
        return st[s[2]]
    if k == "fit":
        _, e, p, x, w = s
        if p in E.SPECS and E.SPECS[p].weight:
            return st[e].fit(st[x], sample_weight=st["w" + w])
        return st[e].fit(st[x])
    if k == "transform":
        _, e, p, x, w, x2 = s
        if E.SPECS[p].kind == "tw":
            try:
                st[x2] = st[e].transform(st[x], sample_weight=st["w" + w])
            except TypeError:
                st[x2] = st[e].transform(st[x])
        else:
            st[x2] = st[e].transform(st[x])
        return st[x2]
    if k == "predict":
        _, e, p, x, w, x2, var = s
        X = st[x]
        if var == "older":
            X = X[X.valuation < X.valuation_date]
        elif var == "scaled":
            X = X * 1.25
        if p in E.SPECS and E.SPECS[p].weight:
            r = st[e].predict(X, sample_weight=st["w" + w])
        else:
            r = st[e].predict(X)
        st[x2] = r
        return r
    if k == "attr":
        r = getattr(st[s[1]], s[2])
        if hasattr(r, "odims"):
            st[s[3]] = r
        return r
    if k == "op":
        r = world.PURE[s[1]](st[s[2]], st[s[3]])
        if hasattr(r, "odims"):
            st[s[4]] = r
        return r
    if k == "edit":
        world.EDITS[s[1]](st[s[2]], s[3])
        return st[s[2]]
    if k == "ask":
        t = st[s[2]]
        return world.PURE[s[1]](t, t)
    if k == "look":
        return {"view": fp.view(st[s[1]], props=True)}
    raise ValueError(k)


def execute(st, steps, lo, hi, die=None):
    hist = []
    for i in range(lo, hi):
        if die == i:
            os._exit(9)
        o = R.trap(lambda: step(st, steps[i]))
        hist.append((i, R.outview(o)))
    return hist


def save_all(st, d, fmts, torn):
    """One file per object; returns what happened per object."""
    os.makedirs(d, exist_ok=True)
    out = {}
    for name, o in sorted(st.items()):
        if not hasattr(o, "to_pickle"):
            import dill
            dill.dump(o, open(os.path.join(d, name + ".dill"), "wb"))
            continue
        f = fmts(name, o)
        if f == "json":
            r = R.trap(o.to_json)
            if r[0] == "ok":
                with open(os.path.join(d, name + ".json"), "w") as fh:
                    fh.write(r[1])
                out[name] = ("json", getattr(o, "array_backend", None), jsonclass(o) if hasattr(o, "odims") else "")
                if plain(o):
                    continue
                out[name] = ("json+pickle",) + out[name][1:]
            else:
                out[name] = ("nojson", None, type(r[1]).__name__)
        p = os.path.join(d, name + ".pkl")
        r = R.trap(lambda: o.to_pickle(p))
        if r[0] == "exc":
            return {"cannot": (name, type(o).__name__, repr(r[1])[:300])}
        if name not in out:
            out[name] = ("pickle", None, "")
    return out


def load_all(d):
    import dill
    st = {}
    for f in sorted(os.listdir(d)):
        name, ext = f.rsplit(".", 1)
        p = os.path.join(d, f)
        if ext == "dill":
            st[name] = dill.load(open(p, "rb"))
        elif ext == "pkl":
            st[name] = cl.read_pickle(p)
    return st


def load_json(d, saved):
    st = {}
    for name, (f, be, _) in saved.items():
        if f in ("json", "json+pickle"):
            txt = open(os.path.join(d, name + ".json")).read()
            st[name] = cl.read_json(txt, be) if be else cl.read_json(txt)
    return st


STATE = {"columns_label", "origin_label", "index_label", "kdims", "vdims", "odims", "ddims", "key_labels", "values", "array_backend", "valuation_date", "origin_grain", "development_grain",
         "origin_close", "is_cumulative", "is_pattern", "virtual_columns", "iloc", "loc", "iat", "at"}


def plain(o):
    """Whether everything the triangle carries is something its JSON has a place for."""
    if hasattr(o, "odims") and len(o.virtual_columns.columns):
        return False                    # its values are held, which is not how it goes on
    return all(k in STATE or hasattr(v, "odims") and plain(v) or isinstance(v, (pd.DataFrame, pd.Series)) for k, v in vars(o).items()) if hasattr(o, "odims") else True


def jsonclass(o):
    c = R.trap(lambda: _jsonclass(o))
    return c[1] if c[0] == "ok" else "no-val"


def _jsonclass(o):
    """What is known to be lost in a triangle's JSON: the document has the non-zero increments by calendar date only."""
    with monitor.suspend():
        for x in [o] + [v for k, v in sorted(vars(o).items()) if hasattr(v, "odims")]:
            d = np.asarray(x.ddims)
            a = np.abs(np.nan_to_num(fp.dense(x.cum_to_incr().values)))
            if not a.any():
                return "empty"
            if not x.is_ultimate or (d.dtype.kind != "M" and len(d) > 1 and d[-1] >= 9999):
                # cells later than the last origin period
                with_ = np.asarray(x.valuation)[a.sum((0, 1)).ravel(order="F") > 0] if d.dtype.kind != "M" else np.asarray(x.ddims)[a.sum((0, 1, 2)) > 0]
                if pd.Timestamp(with_.max()) > pd.Timestamp(np.asarray(x.odims)[-1]) + pd.DateOffset(months={"Y": 12, "S": 6, "Q": 3, "M": 1}[x.origin_grain]):
                    return "full"
            o_, d_ = a.sum((0, 1, 3)), a.sum((0, 1, 2))
            if not (o_[0] and o_[-1] and d_[0] and d_[-1]):
                return "edge"
            v = R.trap(lambda: fp.dense(x.cum_to_incr().dev_to_val().values))
            if v[0] == "exc":
                return "no-val"
            v = v[1]
            if not np.abs(np.nan_to_num(v))[..., -1].any():
                return "edge"
            if not a.sum((1, 2, 3)).all():
                return "edge"
        return ""


def jsonable(o):
    if hasattr(o, "odims"):
        return True
    if [k for k in vars(o) if k.endswith("_") and not k.startswith("_")]:
        return False
    inner = list(getattr(o, "steps", [])) + list(getattr(o, "estimators", []))
    return isinstance(o, BaseEstimator) and all(jsonable(e[1]) for e in inner) and (not hasattr(o, "estimator") or jsonable(o.estimator))


def queries(st, asks):
    out = []
    for a in asks:
        if a[0] == "ask" and a[2] in st and hasattr(st[a[2]], "odims"):
            out.append((a, R.outview(R.trap(lambda: step(st, a)))))
        elif a[0] == "look" and a[1] in st:
            out.append((a, R.outview(R.trap(lambda: step(st, a)))))
    return out


def segment(job):
    """Runs in a fresh process.  job: steps, asks, lo, hi, load (dir, saved) or None, save dir or None, js seed or None, die."""
    np.random.seed(job["npseed"])
    random.seed(job["npseed"])
    out = {}
    st = {}
    if job.get("load"):
        d, saved = job["load"]
        r = R.trap(lambda: load_all(d))
        if r[0] == "exc":
            return {"cannot_load": repr(r[1])[:300]}
        st.update(r[1])
        r = R.trap(lambda: load_json(d, saved))
        if r[0] == "exc":
            return {"cannot_load": repr(r[1])[:300], "json": True}
        out["viajson"] = {k: _v(v) for k, v in r[1].items()}
        for k, v in r[1].items():
            st.setdefault(k, v)         # where the document cannot hold all there is, the pickle goes on
        out["restored"] = {k: _v(v) for k, v in st.items()}
        out["answers"] = queries(st, job["asks"])
    out["hist"] = execute(st, job["steps"], job["lo"], job["hi"], job.get("die"))
    if job.get("ask"):
        out["answers"] = queries(st, job["asks"])
    if job.get("save"):
        rng = random.Random(job["fmtseed"])
        want = {k: (rng.random() < 0.6) for k in sorted(st)}

        def fmts(name, o):
            ok = job["js"] and want[name] and jsonable(o) and sortedidx(o)
            if ok and not job.get("wild") and hasattr(o, "odims") and jsonclass(o):
                return "pickle"
            return "json" if ok else "pickle"
        out["before"] = {k: _v(v) for k, v in st.items()}
        out["asked"] = queries(st, job["asks"])
        out["saved"] = save_all(st, job["save"], fmts, None)
        out["torn"] = torn(job, rng) if "cannot" not in out["saved"] else None
    else:
        out["final"] = {k: _v(v) for k, v in st.items()}
    return out


def sortedidx(o):
    if not hasattr(o, "odims"):
        return True
    try:
        return list(map(tuple, o.index.values)) == list(map(tuple, o.sort_index().index.values))
    except Exception:
        return False


def torn(job, rng):
    """JSON documents cut short must be refused."""
    bad = []
    for f in sorted(os.listdir(job["save"])):
        if f.endswith(".json"):
            txt = open(os.path.join(job["save"], f)).read()
            for _ in range(6):
                k = rng.choice([0, 1, len(txt) - 1, len(txt) - 2, rng.randrange(len(txt)), rng.randrange(len(txt))])
                r = R.trap(lambda: cl.read_json(txt[:k]))
                if r[0] == "ok":
                    bad.append((f, k, len(txt), type(r[1]).__name__))
    return bad


def warm():
    """What a process that imports the package pays for once: data sets read, array code compiled."""
    for n in sorted(E._DATA):
        for be in ("numpy", "sparse"):
            E._data(n, be)
    for n in world.TRIS:
        for be in ("numpy", "sparse"):
            t = world.tri(n, be)
    t = world.tri("clrd_lob", "sparse")
    for p in sorted(world.PURE):
        R.trap(lambda: world.PURE[p](t, t))
    for n in ("Development", "Trend", "Mack", "CapeCod"):
        R.trap(lambda: E.use(E.fit(make(n), n, t, None), n, t, None))
    cl.options.reset_option()
