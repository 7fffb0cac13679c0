"""Workload material: triangles, and catalogues of pure operations, in-place edits and estimators."""
import copy, functools
import numpy as np, pandas as pd
import chainladder as cl
from . import monitor


# ---------------------------------------------------------------------------------------- triangles ----
@functools.lru_cache(None)
def _sample(key):
    with monitor.suspend():
        return cl.load_sample(key)


def _clrd(n=5):
    t = _sample("clrd")
    return t[["IncurLoss", "CumPaidLoss", "EarnedPremDIR"]].iloc[: n * 2]


def _clrd_lob():
    t = _sample("clrd")[["IncurLoss", "CumPaidLoss", "EarnedPremDIR"]]
    return t.groupby("LOB").sum().iloc[:3]


def synth(seed, n_idx=3, n_col=2, years=4, ograin="Q", dgrain="Q", hole=0.15, cumulative=False, shuffle=True):
    """A ragged triangle from random records: missing cells, missing index/origin combinations."""
    r = np.random.RandomState(seed)
    o = {"Y": "YS", "Q": "QS", "M": "MS"}[ograin]
    step = {"Y": 12, "Q": 3, "M": 1}
    origins = pd.date_range("2015-01-01", periods=years * 12 // step[ograin], freq=o)
    end = pd.Timestamp("%d-12-31" % (2014 + years))
    rows = []
    for i in range(n_idx):
        for og in origins:
            d = og + pd.DateOffset(months=step[dgrain]) - pd.DateOffset(days=1)
            while d <= end:
                if r.rand() > hole:
                    rows.append(("k%d" % i, "g%d" % (i % 2), og, d) + tuple(
                        float(np.round(r.gamma(2.0, 100.0), 2)) for _ in range(n_col)))
                d = d + pd.DateOffset(days=1) + pd.DateOffset(months=step[dgrain]) - pd.DateOffset(days=1)
    cols = ["v%d" % c for c in range(n_col)]
    df = pd.DataFrame(rows, columns=["key", "grp", "o", "d"] + cols)
    if shuffle:
        df = df.sample(frac=1, random_state=r).reset_index(drop=True)
    return df, dict(origin="o", development="d", columns=cols, index=["key", "grp"], cumulative=cumulative)


@functools.lru_cache(None)
def _synth_tri(seed, kw):
    df, a = synth(seed, **dict(kw))
    with monitor.suspend():
        t = cl.Triangle(df, **a)
        return t


def _mk(name):
    if name.startswith("synth"):
        s = int(name[5:].split("-")[0] or 0)
        kw = {"n_idx": 2 + s % 3, "n_col": 1 + s % 3, "years": 3 + s % 2,
              "ograin": "YQ"[s % 2], "dgrain": "YQ"[(s // 2) % 2] if s % 2 == 0 else "Q"}
        t = _synth_tri(s, tuple(sorted(kw.items())))
        return t if name.endswith("-i") else t.incr_to_cum()
    if name in ("month", "semi", "oqdm"):
        kw = {"n_idx": 2, "n_col": 1, "years": 2, "ograin": "M", "dgrain": "M"} if name == "month" else {"n_idx": 2, "n_col": 2, "years": 3, "ograin": "Q", "dgrain": "Q" if name == "semi" else "M"}
        t = _synth_tri(9, tuple(sorted(kw.items()))).incr_to_cum()
        return t.grain("OSDS") if name == "semi" else t
    if name == "clrd":
        return _clrd()
    if name == "clrd_lob":
        return _clrd_lob()
    if name == "clrd_all_lob":
        return _sample("clrd").groupby("LOB").sum()
    if name == "tail":
        return _sample("tail_sample")
    return _sample(name)


TRIS = ("raa", "clrd", "clrd_lob", "quarterly", "genins", "ukmotor", "mcl", "abc", "synth0", "synth1", "synth3", "synth2-i",
        "usauto", "berqsherm", "xyz", "month", "semi", "oqdm", "liab", "m3ir5")


@functools.lru_cache(None)
def _prebuilt(name, backend):
    with monitor.suspend():
        return _mk(name).set_backend(backend)


def tri(name, backend="numpy", virtual=False):
    """A private triangle: nothing in it is shared with any other (deep copy made by the copy module)."""
    with monitor.suspend():
        t = copy.deepcopy(_prebuilt(name, backend))
        if virtual:
            c = [str(x) for x in t.vdims]
            t["virt"] = functools.partial(_virt, a=c[0], b=c[-1])
        return t


def _virt(x, a, b):
    return x[a] / x[b]


def pick_tri(rng, names=TRIS, backends=("numpy", "sparse")):
    return rng.choice(names), rng.choice(backends)


# --------------------------------------------------------------------------------------- operations ----
# Each pure operation: f(t, o) -> value, where t is the triangle and o another triangle of the family
# (a copy, slice or conversion of t, or t itself).  They are called concurrently on shared operands.
def _mid(t):
    return max(1, t.shape[-2] // 2), max(1, t.shape[-1] // 2)


PURE = {
    "cum_to_incr": lambda t, o: t.cum_to_incr(),
    "incr_to_cum": lambda t, o: t.incr_to_cum(),
    "round_trip": lambda t, o: t.cum_to_incr().incr_to_cum(),
    "dev_to_val": lambda t, o: t.dev_to_val(),
    "val_to_dev": lambda t, o: t.dev_to_val().val_to_dev(),
    "incr_val": lambda t, o: t.cum_to_incr().dev_to_val(),
    "grain_OYDY": lambda t, o: t.grain("OYDY"),
    "grain_OYDQ": lambda t, o: t.grain("OYDQ"),
    "grain_incr": lambda t, o: t.cum_to_incr().grain("OYDY"),
    "latest_diagonal": lambda t, o: t.latest_diagonal,
    "link_ratio": lambda t, o: t.link_ratio,
    "age_to_age": lambda t, o: t.age_to_age,
    "pattern_cum": lambda t, o: t.link_ratio.iloc[0, 0].incr_to_cum(),
    "trend": lambda t, o: t.trend(0.05),
    "trend_val": lambda t, o: t.trend(0.03, axis="valuation"),
    "shift": lambda t, o: t.shift(-1),
    "shift_o": lambda t, o: t.shift(1, axis=2),
    "shift2": lambda t, o: t.shift(2),
    "sort_index": lambda t, o: t.sort_index(),
    "sort_axis": lambda t, o: t.sort_axis(1),
    "sum": lambda t, o: t.sum(),
    "sum_all": lambda t, o: t.sum(0).sum(1).sum(2).sum(3),
    "sum_o": lambda t, o: t.sum("origin"),
    "sum_d": lambda t, o: t.sum("development"),
    "mean": lambda t, o: t.mean(2),
    "max": lambda t, o: t.set_backend("numpy").max(3),
    "std": lambda t, o: t.set_backend("numpy").std(2),
    "median": lambda t, o: t.set_backend("numpy").median(0),
    "quantile": lambda t, o: t.set_backend("numpy").quantile(axis=2, q=0.4),
    "cumsum": lambda t, o: t.set_backend("numpy").cumsum(3),
    "groupby": lambda t, o: t.groupby(t.key_labels[-1]).sum(),
    "groupby_first": lambda t, o: t.groupby(t.key_labels[:1]).sum(),
    "groupby_mean": lambda t, o: t.set_backend("numpy").groupby(t.key_labels[-1]).mean(),
    "groupby_col": lambda t, o: t.groupby([0] * t.shape[1], axis=1).sum(),
    "groupby_origin": lambda t, o: t.groupby(t.origin.year, axis=2).sum(),
    "to_frame": lambda t, o: t.to_frame(),
    "to_frame_keep": lambda t, o: t.to_frame(keepdims=True),
    "to_frame_impl": lambda t, o: t.to_frame(keepdims=True, implicit_axis=True, origin_as_datetime=False),
    "to_json": lambda t, o: t.to_json(),
    "repr": lambda t, o: repr(t),
    "repr_html": lambda t, o: t._repr_html_(),
    "dropna": lambda t, o: t.dropna(),
    "drop": lambda t, o: t.drop(t.columns[0]) if t.shape[1] > 1 else t,
    "fillna": lambda t, o: t.fillna(5.0),
    "copy": lambda t, o: t.copy(),
    "append": lambda t, o: t.append(_relabel(o)),
    "dev_corr": lambda t, o: t.iloc[0, 0].development_correlation(p_critical=0.5),
    "val_corr": lambda t, o: t.iloc[0, 0].valuation_correlation(p_critical=0.1, total=True),
    "val_corr_years": lambda t, o: t.iloc[0, 0].valuation_correlation(p_critical=0.1, total=False),
    "heatmap": lambda t, o: t.iloc[0, 0].link_ratio.heatmap().to_html() if hasattr(t.iloc[0, 0].link_ratio.heatmap(), "to_html") else "",
    "iloc": lambda t, o: t.iloc[0, -1],
    "iloc_od": lambda t, o: t.iloc[..., : _mid(t)[0], : _mid(t)[1]],
    "iloc_rev": lambda t, o: t.iloc[::-1],
    "loc": lambda t, o: t.loc[t.index.iloc[0].iloc[0]] if t.shape[0] > 1 else t.loc[..., t.development.iloc[0]],
    "at": lambda t, o: float(t.iat[0, 0, 0, 0]),
    "by_origin": lambda t, o: t[t.origin > t.origin[0]],
    "by_dev": lambda t, o: t[t.development <= t.development.iloc[_mid(t)[1]]],
    "by_val": lambda t, o: t[t.valuation < t.valuation_date],
    "column": lambda t, o: t[t.columns[-1]],
    "columns": lambda t, o: t[list(t.columns[::-1])],
    "by_index": lambda t, o: t[t[t.key_labels[0]] == t.index.iloc[0, 0]],
    "virtual": lambda t, o: t["virt"],
    "add": lambda t, o: t + o,
    "sub": lambda t, o: t - o,
    "mul": lambda t, o: t * o,
    "div": lambda t, o: t / o,
    "div_latest": lambda t, o: t / o.latest_diagonal,
    "add_total": lambda t, o: t + o.sum(0),
    "mul_column": lambda t, o: t * o[o.columns[0]],
    "add_incr": lambda t, o: t - o[o.valuation < o.valuation_date],
    "sub_short": lambda t, o: t.iloc[..., :-1, :] + o.iloc[..., :-1],
    "radd": lambda t, o: 1.5 + t,
    "rsub": lambda t, o: 2 - t,
    "rdiv": lambda t, o: 1 / t,
    "scalar": lambda t, o: (t + 1) * 2 - 3,
    "pow": lambda t, o: t ** 2,
    "neg": lambda t, o: -t,
    "abs": lambda t, o: abs(t),
    "round": lambda t, o: round(t / 7, 2),
    "lt": lambda t, o: (t < o).values.sum() if False else (t < 100.0),
    "eq": lambda t, o: bool(t == o),
    "ne": lambda t, o: bool(t == o * 2),
    "minimum": lambda t, o: t.minimum(500.0),
    "maximum": lambda t, o: t.maximum(500.0),
    "log": lambda t, o: t.set_backend("numpy").log(),
    "exp": lambda t, o: (t / 1e7).exp(),
    "sqrt": lambda t, o: t.sqrt(),
    "to_numpy": lambda t, o: t.set_backend("numpy"),
    "to_sparse": lambda t, o: t.set_backend("sparse"),
    "deep_backend": lambda t, o: t.set_backend("sparse" if t.array_backend == "numpy" else "numpy", deep=True),
    "reindex": lambda t, o: t.reindex(columns=list(t.columns) + ["extra"], fill_value=3.0),
    "head": lambda t, o: t.head(1),
    "tail": lambda t, o: t.tail(1),
    "T": lambda t, o: t.iloc[0, 0].T,
    "describe": lambda t, o: t.iloc[0, 0].describe(),
    "melt": lambda t, o: t.iloc[0, 0].melt(),
    "unstack": lambda t, o: t.iloc[0, 0].unstack(),
    "to_dict": lambda t, o: t.iloc[0, 0].to_dict(),
    "to_csv": lambda t, o: t.iloc[0, 0].to_csv(),
    "is_full": lambda t, o: (bool(t.is_full), bool(t.is_ultimate), bool(t.is_val_tri), t.shape, len(t)),
    "labels": lambda t, o: (t.index, list(t.columns), list(map(str, t.origin)), list(map(str, t.development)), list(map(str, t.valuation))),
    "nan_triangle": lambda t, o: np.asarray(t.set_backend("numpy").nan_triangle, dtype=float),
    "set_index": lambda t, o: t.set_index(t.index),
    "concat": lambda t, o: cl.concat((t, _relabel(o)), axis=0),
    "concat_cols": lambda t, o: cl.concat((t, _recol(o)), axis=1),
    "concat_missing": lambda t, o: cl.concat((t, _relabel(o[list(o.columns[:1])])), axis=0),
    "minmax_fn": lambda t, o: cl.minimum(t, 300.0) + cl.maximum(o, 200.0),
    "drop_dup": lambda t, o: t.iloc[0, 0].drop_duplicates(),
    "eq_copy": lambda t, o: bool(t.copy() == t),
    "pipe": lambda t, o: t.pipe(lambda x: x.sum(0)),
    "in_": lambda t, o: ("values" in t, "ldf_" in t),
    "dev_sub": lambda t, o: t.iloc[..., 1:] - t.iloc[..., :-1].values,
    "subtri": lambda t, o: t.ldf_.incr_to_cum() if hasattr(t, "ldf_") else 0,
    "cdf": lambda t, o: t.cdf_ if hasattr(t, "ldf_") else 0,
    "compute": lambda t, o: t.compute() if hasattr(t, "compute") else 0,
}


def _relabel(o):
    """o with different index labels, so that it can be appended."""
    idx = o.index
    idx.iloc[:, 0] = idx.iloc[:, 0].astype(str) + "#"
    return o.set_index(idx)


def _recol(o):
    return o.copy().rename("columns", [str(c) + "#" for c in o.columns])


def _two(o):
    """o with one column more, made of its first."""
    o = o.copy()
    o["extra"] = o[o.columns[0]] * 2
    return o


def _full(t):
    return cl.Chainladder().fit(t).full_triangle_


PURE.update({
    "np_sum": lambda t, o: np.sum(t, axis=0),
    "np_round": lambda t, o: np.round(t / 7, 1),
    "np_concat": lambda t, o: np.concatenate((t, _relabel(o)), axis=0),
    "np_mean": lambda t, o: np.mean(t.set_backend("numpy"), axis=2),
    "np_exp": lambda t, o: np.exp(t / 10000000.0),
    "np_array": lambda t, o: np.asarray(t.set_backend("numpy")),
    "np_min": lambda t, o: np.minimum(t, 500.0),
    "group_item": lambda t, o: t.groupby(t.key_labels[-1])[[t.columns[0]]].sum(),
    "group_max": lambda t, o: t.set_backend("numpy").groupby(t.key_labels[-1]).max(),
    "group_std": lambda t, o: t.set_backend("numpy").groupby(t.key_labels[-1]).std(),
    "group_dev": lambda t, o: t.cum_to_incr().groupby([i // 2 for i in range(t.shape[3])], axis=3).sum(),
    "pow_tri": lambda t, o: t ** (o * 0 + 2),
    "add_morecols": lambda t, o: t + _two(o),
    "rmul": lambda t, o: 3 * t,
    "sum_builtin": lambda t, o: sum([t, o, t]),
    "mul_array": lambda t, o: t * np.full(t.shape, 1.5),
    "add_sparse": lambda t, o: t + o.set_backend("sparse").values,
    "full": lambda t, o: _full(t),
    "full_incr": lambda t, o: _full(t).cum_to_incr(),
    "full_val": lambda t, o: _full(t).dev_to_val(),
    "full_valdev": lambda t, o: _full(t).dev_to_val().val_to_dev(),
    "full_grain": lambda t, o: _full(t).grain("OYDY"),
    "full_minus": lambda t, o: _full(t) - t,
    "full_exp_val": lambda t, o: cl.Chainladder().fit(t).full_expectation_.cum_to_incr().dev_to_val(),
    "ult_frame": lambda t, o: cl.Chainladder().fit(t).ultimate_.to_frame(keepdims=True),
    "full_frame": lambda t, o: _full(t).to_frame(keepdims=True),
    "full_link": lambda t, o: _full(t).link_ratio,
    "ult_json": lambda t, o: cl.Chainladder().fit(t).ultimate_.to_json(),
    "full_latest": lambda t, o: _full(t).latest_diagonal,
    "ult_pull": lambda t, o: cl.Chainladder().fit(t).ibnr_ + o.latest_diagonal,
    "grain_OYDS": lambda t, o: t.grain("OYDS"),
    "grain_trail": lambda t, o: t.grain("OYDY", trailing=True),
    "grain_val": lambda t, o: t.dev_to_val().grain("OYDY"),
    "loc_tuple": lambda t, o: t.loc[tuple(t.index.iloc[0])],
    "loc_col": lambda t, o: t.loc[:, t.columns[0]],
    "loc_origin": lambda t, o: t.loc[..., t.origin[0]:t.origin[-1], :],
    "loc_dev": lambda t, o: t.loc[..., :t.development.iloc[-2]],
    "loc_year": lambda t, o: t.loc[..., str(t.origin[0].year):, :],
    "at_get": lambda t, o: float(t.at[tuple(t.index.iloc[0]), t.columns[0], t.origin[0], t.development.iloc[0]]),
    "iloc_step": lambda t, o: t.iloc[..., ::2, :],
    "iloc_mask": lambda t, o: t.iloc[:, [0]],
    "iloc_neg": lambda t, o: t.iloc[..., -1:, :-1],
    "getitem_str": lambda t, o: t[t.origin >= str(t.origin[0].year)],
    "between": lambda t, o: t[(t.origin > t.origin[0]) & (t.origin < t.origin[-1])],
    "dev_list": lambda t, o: t[t.development.isin(list(t.development)[:2])],
    "frame_io": lambda t, o: t.iloc[:, 0].latest_diagonal.to_frame(),
    "frame_id": lambda t, o: t.iloc[:, 0, 0].to_frame(),
    "frame_ic": lambda t, o: t.iloc[:, :, 0, 0].to_frame(),
    "frame_cd": lambda t, o: t.iloc[0, :, 0].to_frame(),
    "frame_co": lambda t, o: t.iloc[0, :, :, 0].to_frame(),
    "le": lambda t, o: t <= 100.0,
    "trend_dates": lambda t, o: t.trend(0.05, start=str(t.origin[0].year + 1) + "-01-01", end=str(t.valuation_date.year - 1) + "-12-31"),
    "trend_ult": lambda t, o: t.trend(0.05, axis="origin", ultimate_lag=24),
    "broadcast": lambda t, o: t.iloc[..., :1].broadcast_axis("development", t.development),
    "sort_o": lambda t, o: t.iloc[..., ::-1, :].sort_axis(2),
    "sort_d": lambda t, o: t.sort_axis(3),
    "rename_o": lambda t, o: t.copy().rename("columns", [str(c).lower() for c in t.columns]),
    "prod": lambda t, o: (t.iloc[..., :2] / 1000000.0).set_backend("numpy").prod(3),
    "var": lambda t, o: t.set_backend("numpy").var(3),
    "min": lambda t, o: t.set_backend("numpy").min(2),
    "pct": lambda t, o: t.iloc[0, 0].pct_change(),
    "stack": lambda t, o: t.iloc[0, 0].stack(),
    "idx": lambda t, o: t.iloc[0, 0].idxmax(),
    "multiply_exposure": lambda t, o: t / (o.latest_diagonal * 0 + 1000.0),
    "fillna_tri": lambda t, o: t.fillna(0),
    "assign": lambda t, o: t.assign(z=lambda x: x[x.columns[0]] * 2),
    "setind2": lambda t, o: t.set_index(t.index.iloc[:, :1]),
    "axes": lambda t, o: (t.shape, t.key_labels, t.origin_grain, t.development_grain, t.origin_close, str(t.valuation_date)),
    "link_sub": lambda t, o: t.link_ratio - 1,
    "lr_sum": lambda t, o: t.link_ratio.mean("origin"),
    "val_latest": lambda t, o: t.dev_to_val().latest_diagonal,
    "val_cum": lambda t, o: t.cum_to_incr().dev_to_val().incr_to_cum(),
    "val_sum": lambda t, o: t.cum_to_incr().dev_to_val().sum("origin"),
    "val_slice": lambda t, o: t.dev_to_val()[t.dev_to_val().valuation <= str(t.valuation_date.year - 1)],
    "val_add": lambda t, o: t.dev_to_val() + o.dev_to_val(),
    "add_older": lambda t, o: t + o[o.valuation < o.valuation_date],
    "iloc_pick": lambda t, o: t.iloc[[0, -1]] if len(t) > 1 else t.iloc[[0]],
    "grain_S": lambda t, o: t.grain("OSDS"),
})


def run_pure(name, t, o):
    return PURE[name](t, o)


# In-place edits of the receiver: f(t, rng-ish integer)
def _e_setcol(t, k):
    t["new%d" % (k % 3)] = t[t.columns[k % len(t.columns)]] * 2


def _e_overwrite(t, k):
    c = t.columns[k % len(t.columns)]
    t[c] = t[c] + 1


def _e_virtual(t, k):
    c = [str(x) for x in t.vdims]
    t["virt%d" % (k % 2)] = functools.partial(_virt, a=c[0], b=c[-1])


def _e_unvirtual(t, k):
    vc = list(t.virtual_columns.columns)
    if vc:
        t[vc[k % len(vc)]] = t[t.vdims[0]]


def _e_iat(t, k):
    t.iat[0, 0, k % t.shape[2], 0] = float(1000 + k)


def _e_at(t, k):
    t.at[t.index.iloc[0].iloc[0] if t.shape[0] == 1 else tuple(t.index.iloc[0]) if len(t.key_labels) > 1 else t.index.iloc[0, 0],
         t.columns[0], t.origin[0], t.development.iloc[0]] = float(2000 + k)


def _e_iloc(t, k):
    if t.array_backend == "numpy":
        t.iloc[0, 0, k % t.shape[2], 0] = float(3000 + k)


EDITS = {
    "setcol": _e_setcol,
    "overwrite": _e_overwrite,
    "virtual": _e_virtual,
    "unvirtual": _e_unvirtual,
    "iat": _e_iat,
    "at": _e_at,
    "iloc": _e_iloc,
    "rename_col": lambda t, k: t.rename("columns", ["r%d_%d" % (k % 4, i) for i in range(len(t.columns))]),
    "rename_dev": lambda t, k: t.rename("development", list(t.development)),
    "rename_origin": lambda t, k: t.rename("origin", list(t.origin)),
    "index": lambda t, k: _e_index(t, k),
    "set_index": lambda t, k: t.set_index(_idx(t, k), inplace=True),
    "columns": lambda t, k: _e_columns(t, k),
    "to_sparse": lambda t, k: t.set_backend("sparse", inplace=True),
    "to_numpy": lambda t, k: t.set_backend("numpy", inplace=True),
    "deep_backend": lambda t, k: t.set_backend(("sparse", "numpy")[k % 2], inplace=True, deep=True),
    "incr_to_cum": lambda t, k: t.incr_to_cum(inplace=True),
    "cum_to_incr": lambda t, k: t.cum_to_incr(inplace=True),
    "fillna": lambda t, k: t.fillna(1.0, inplace=True),
    "astype": lambda t, k: t.astype("float64"),
    "set_values": lambda t, k: setattr(t, "values", t.values * 2),
    "set_flag": lambda t, k: setattr(t, "is_pattern", False),
    "valdate": lambda t, k: setattr(t, "valuation_date", t.valuation_date),
    "flat": lambda t, k: _e_flat(t, k),
    "sub_edit": lambda t, k: _e_sub(t, k),
}


def _idx(t, k):
    i = t.index
    i.iloc[:, 0] = ["%s~%d" % (str(x), k % 5) for x in i.iloc[:, 0]]
    return i


def _e_index(t, k):
    t.index = _idx(t, k)


def _e_columns(t, k):
    t.columns = ["c%d_%d" % (k % 4, i) for i in range(len(t.columns))]


def _e_flat(t, k):
    if t.array_backend == "numpy":
        t.values[...] = t.values + 1.0


def _e_sub(t, k):
    pass


def subtri_family(name="raa", backend="numpy"):
    """A triangle carrying sub-triangles (the output of a transformer)."""
    with monitor.suspend():
        t = tri(name, backend)
        return copy.deepcopy(cl.Development().fit_transform(t))
