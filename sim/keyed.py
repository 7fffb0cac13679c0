"""Triangles with several text keys, and the operations that line such triangles up with each other."""
import functools, random
import numpy as np, pandas as pd
from . import est as E, world, fp, run as R, monitor
from .world import cl

KEYS = ["Company", "LOB", "State", "Region"]


def frame(seed, nk, ncol, nval, years=4, hole=0.1):
    r = np.random.RandomState(seed)
    names = ["".join(chr(97 + int(x)) for x in r.randint(0, 26, 5)) for _ in range(nval * nk)]
    keys = KEYS[:nk]
    vals = {k: names[i * nval:(i + 1) * nval] for i, k in enumerate(keys)}
    rows = []
    combos = [[]]
    for k in keys:
        combos = [c + [v] for c in combos for v in vals[k]]
    combos = [c for c in combos if r.rand() > 0.25] or combos[:1]
    for c in combos:
        for o in range(years):
            for d in range(o, years):
                if r.rand() > hole or d == o:
                    rows.append(c + [2015 + o, 2015 + d] + [float(np.round(r.gamma(2, 100), 2)) for _ in range(ncol)])
    cols = ["loss%d" % i for i in range(ncol)]
    df = pd.DataFrame(rows, columns=keys + ["o", "d"] + cols).sample(frac=1, random_state=r).reset_index(drop=True)
    return df, keys, cols


def build(sc):
    df, keys, cols = frame(sc["seed"], sc["nk"], sc["ncol"], sc["nval"])
    if sc["catkeys"]:
        for k in keys:
            df[k] = df[k].astype("category")
    t = cl.Triangle(df, origin="o", development="d", columns=cols, index=keys, cumulative=False).incr_to_cum()
    return t.set_backend(sc["be"])


def other(t, how, a):
    """A second triangle, whose rows, keys or columns are others or stand in another order."""
    n = len(t)
    if how == "perm":
        o = list(np.random.RandomState(a).permutation(n))
        return t.iloc[o]
    if how == "rev":
        return t.iloc[::-1]
    if how == "some":
        return t.iloc[: max(1, n // 2)]
    if how == "odd":
        return t.iloc[1::2] if n > 2 else t
    if how == "group1":
        return t.groupby(t.key_labels[a % len(t.key_labels)]).sum()
    if how == "group2":
        k = [t.key_labels[a % len(t.key_labels)], t.key_labels[(a + 1) % len(t.key_labels)]]
        return t.groupby(k).sum()
    if how == "group3":
        return t.groupby(list(t.key_labels[:3])[::-1]).sum()
    if how == "total":
        return t.sum(0)
    if how == "colperm":
        return t[list(t.columns[::-1])]
    if how == "colsome":
        return t[list(t.columns[: max(1, len(t.columns) - 1)])]
    if how == "colnew":
        return t.rename("columns", ["c%d" % i if i % 2 else c for i, c in enumerate(t.columns)]) if False else _ren(t)
    if how == "relabel":
        return world._relabel(t)
    return t


def _ren(t):
    t = t.copy()
    t.columns = [c if i % 2 else c + "x" for i, c in enumerate(t.columns)]
    return t


HOW = ["perm", "rev", "some", "odd", "group1", "group2", "group3", "total", "colperm", "colsome", "colnew", "same", "relabel"]
ARITH = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "div": lambda x, y: x / y, "lt": lambda x, y: x < y, "eq": lambda x, y: bool(x == y), "ne": lambda x, y: bool(x != y),
         "radd": lambda x, y: y + x}


def rates(t, groups, seed):
    r = random.Random(seed)
    idx = t.index[groups].drop_duplicates() if groups else pd.DataFrame(index=[0])
    rows = []
    for _, g in idx.iterrows():
        for y in (2014, 2015, 2016, 2017):
            rows.append([g[k] for k in groups] + ["%d-%02d-01" % (y, r.randint(1, 12)), r.choice([0.05, -0.03, 0.1, 0.02])])
    r.shuffle(rows)
    return pd.DataFrame(rows, columns=list(groups) + ["date", "change"])


def _pl(t, a):
    k = list(t.key_labels)
    g = [[], k[:1], k[:2], k[1:3], k[::-1][:2], k][a % 6]
    return cl.ParallelogramOLF(rates(t, g, a), change_col="change", date_col="date").fit_transform(t[t.columns[0]]).olf_


def _fitpredict(meth, trainhow, predhow, weighthow):
    def go(t, a):
        c = t[t.columns[0]]
        tr = other(c, trainhow, a)
        m = {"cl": cl.Chainladder(), "bf": cl.BornhuetterFerguson(0.7), "cc": cl.CapeCod(), "bk": cl.Benktander(0.8, n_iters=2), "el": cl.ExpectedLoss(0.6)}[meth]
        d = cl.Development().fit_transform(tr)
        w = tr.latest_diagonal * 0 + 900.0
        m = m.fit(d) if meth == "cl" else m.fit(d, sample_weight=w)
        p = other(c, predhow, a)
        r = m.predict(p) if meth == "cl" else m.predict(p, sample_weight=other(c.latest_diagonal * 0 + 800.0, weighthow, a))
        return r.ultimate_
    return go


def _virt(x, a):
    return x[a] * 2


OPS = {
    "parallelogram": _pl,
    "devgroup": lambda t, a: cl.Development(groupby=list(t.key_labels[: 1 + a % 2])).fit_transform(t[t.columns[0]]).cdf_,
    "devgroup_cl": lambda t, a: cl.Chainladder().fit(cl.Development(groupby=t.key_labels[a % len(t.key_labels)]).fit_transform(t[t.columns[0]])).ultimate_,
    "ccgroup": lambda t, a: cl.CapeCod(groupby=t.key_labels[a % len(t.key_labels)]).fit(cl.Development().fit_transform(t[t.columns[0]]), sample_weight=t[t.columns[0]].latest_diagonal * 0 + 500.0).ultimate_,
    "groupby_list": lambda t, a: t.groupby(list(t.key_labels[: 1 + a % len(t.key_labels)])).sum(),
    "groupby_mean": lambda t, a: t.set_backend("numpy").groupby(t.key_labels[a % len(t.key_labels)]).mean(),
    "groupby_callable": lambda t, a: t.groupby(lambda i: str(i)[:1] if False else i % 2).sum(),
    "groupby_cols": lambda t, a: t.groupby(["g%d" % (i % 2) for i in range(t.shape[1])], axis=1).sum(),
    "concat_cols": lambda t, a: cl.concat((t, other(_ren(t), "relabel", 0)), axis=0),
    "concat_missing": lambda t, a: cl.concat((t, other(t[list(t.columns[:1])], "relabel", 0)), axis=0),
    "concat1": lambda t, a: cl.concat((t, _ren(_ren(t)).rename("columns", ["z%d" % i for i in range(t.shape[1])])), axis=1),
    "append": lambda t, a: t.append(other(t, "relabel", 0)),
    "to_frame": lambda t, a: t.to_frame(),
    "to_frame_keep": lambda t, a: t.to_frame(keepdims=True),
    "to_frame_impl": lambda t, a: t.to_frame(keepdims=True, implicit_axis=True),
    "json": lambda t, a: t.to_json(),
    "json_back": lambda t, a: cl.read_json(t.to_json()),
    "repr": lambda t, a: repr(t) + t._repr_html_(),
    "sort_index": lambda t, a: other(t, "perm", a).sort_index(),
    "drop_duplicates": lambda t, a: t.drop_duplicates() if hasattr(t, "drop_duplicates") else 0,
    "virt_frame": lambda t, a: _withvirt(t).to_frame(keepdims=True),
    "virt_json": lambda t, a: _withvirt(t).to_json(),
    "virt_groupby": lambda t, a: _withvirt(t).groupby(t.key_labels[0]).sum().to_frame(keepdims=True),
    "virt_col": lambda t, a: _withvirt(t)[["twice", t.columns[0]]],
    "loc": lambda t, a: t.loc[t.index.iloc[0, 0]],
    "filter": lambda t, a: t[t[t.key_labels[-1]] == t.index.iloc[-1, -1]],
    "voting": lambda t, a: cl.VotingChainladder([("cl", cl.Chainladder()), ("bf", cl.BornhuetterFerguson(0.7))], weights={t.origin[0]: (0.2, 0.8)} if False else None).fit(
        cl.Development().fit_transform(t[t.columns[0]]), sample_weight=t[t.columns[0]].latest_diagonal * 0 + 700.0).ultimate_,
    "diagnostics": lambda t, a: cl.model_diagnostics(cl.BornhuetterFerguson(0.7).fit(cl.Development().fit_transform(t[t.columns[0]]), sample_weight=t[t.columns[0]].latest_diagonal * 0 + 700.0), name="x",
                                                     groupby=t.key_labels[a % len(t.key_labels)] if a % 2 else None),
    "gridsearch": lambda t, a: cl.GridSearch(cl.Pipeline([("dev", cl.Development()), ("model", cl.Chainladder())]), dict(dev__average=["simple", "volume"], dev__n_periods=[2, 3]),
                                             scoring=dict(ibnr=_score, ult=_score2)).fit(t[t.columns[0]].sum(0)).results_,
    "boot": lambda t, a: cl.BootstrapODPSample(n_sims=4, random_state=3).fit_transform(t[t.columns[0]].sum(0)),
    "ml": lambda t, a: cl.DevelopmentML(E._ml(), y_ml=t.columns[0], fit_incrementals=False).fit(t.sum(0)).triangle_ml_,
    "glm": lambda t, a: cl.TweedieGLM(design_matrix="C(development)+C(LOB)" if "LOB" in t.key_labels else "C(development)+C(origin)", response=t.columns[0]).fit(t).ldf_,
    "trend_group": lambda t, a: cl.Trend(trends=[0.05, -0.02], dates=[(None, "2016"), ("2016", None)], axis="origin").fit_transform(t).trend_,
    "label_meta": lambda t, a: (list(t.key_labels), list(t.columns), t.index, list(map(str, t.origin))),
    "json_est": lambda t, a: cl.GridSearch(cl.Pipeline([("dev", cl.Development())]), dict(dev__average=["simple"]), scoring=None).estimator.to_json(),
    "clone_params": lambda t, a: str(cl.Pipeline([("dev", cl.Development()), ("tail", cl.TailCurve()), ("model", cl.Benktander())]).get_params(deep=True).keys()),
    "rename": lambda t, a: t.rename("index", t.index) if False else t.rename("columns", ["q%d" % i for i in range(t.shape[1])]),
    "describe": lambda t, a: t.iloc[0, 0].describe(),
    "melt": lambda t, a: t.iloc[0, 0].melt(),
    "case": lambda t, a: cl.CaseOutstanding(paid_to_incurred=(t.columns[0], t.columns[1])).fit(t).transform(t).ldf_ if t.shape[1] > 1 else 0,
    "munich": lambda t, a: cl.MunichAdjustment(paid_to_incurred=[(t.columns[0], t.columns[1])], fillna=True).fit(t).transform(t).ldf_ if t.shape[1] > 1 else 0,
}
for _m in ("cl", "bf", "cc", "bk", "el"):
    for _t, _p, _w in (("group1", "same", "same"), ("group2", "same", "same"), ("same", "perm", "perm"), ("same", "some", "some"), ("group2", "group3", "group3"), ("total", "same", "same"), ("some", "same", "same"),
                       ("group1", "group2", "group2"), ("same", "odd", "same")):
        OPS["%s:%s>%s/%s" % (_m, _t, _p, _w)] = _fitpredict(_m, _t, _p, _w)


def _score(x):
    return float(np.nansum(x.named_steps.model.ibnr_.set_backend("numpy").values))


def _score2(x):
    return float(np.nansum(x.named_steps.model.ultimate_.set_backend("numpy").values))


def _withvirt(t):
    """Two virtual columns, one of which needs the other."""
    t = t.copy()
    t["twice"] = functools.partial(_virt, a=str(t.columns[0]))
    t["thrice"] = functools.partial(_virt, a="twice")
    t["again"] = functools.partial(_virt, a="thrice")
    return t


def answers(sc, full=None):
    """The scenario's results in this process: [label, digest], or the whole view of number `full`."""
    np.random.seed(sc["np"])
    random.seed(sc["np"])
    out = []
    t = build(sc)
    for k, op in enumerate(sc["ops"]):
        if op[0] == "arith":
            _, f, how1, how2, a = op
            o = R.trap(lambda: ARITH[f](other(t, how1, a), other(t, how2, a + 1)))
        elif op[0] == "how":
            o = R.trap(lambda: other(t, op[1], op[2]))
        else:
            o = R.trap(lambda: OPS[op[1]](t, op[2]))
        v = R.outview(o)
        if full == k:
            return v
        out.append((op, fp.digest(v), "raises" in v))
        if op[0] == "how" and o[0] == "ok":
            t = o[1]
    return out


def gen(rng):
    ops = []
    for _ in range(rng.randint(4, 9)):
        u = rng.random()
        if u < 0.4:
            ops.append(["arith", rng.choice(sorted(ARITH)), rng.choice(HOW), rng.choice(HOW), rng.randrange(12)])
        elif u < 0.5:
            ops.append(["how", rng.choice(["perm", "rev", "some", "group2", "group3", "colperm", "relabel"]), rng.randrange(12)])
        else:
            ops.append(["op", rng.choice(sorted(OPS)), rng.randrange(12)])
    return dict(seed=rng.randrange(40), nk=rng.choice([1, 2, 3, 3, 4]), ncol=rng.choice([1, 2, 3, 4]), nval=rng.choice([2, 2, 3]), be=rng.choice(["numpy", "sparse"]), catkeys=False, ops=ops, np=rng.getrandbits(31))
