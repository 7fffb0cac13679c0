"""The estimator catalogue: how to build, train and use every estimator of the package."""
import numpy as np, pandas as pd
import chainladder as cl
from sklearn.linear_model import LinearRegression, Ridge
from sklearn.pipeline import Pipeline as SkPipeline
from sklearn.compose import ColumnTransformer
from sklearn.preprocessing import OneHotEncoder
from . import world, monitor
import functools, copy


# -- training material: name -> (X, sample_weight or None), freshly copied -------------------------------
@functools.lru_cache(None)
def _data(name, backend):
    with monitor.suspend():
        x, w = _DATA[name]()
        return x.set_backend(backend), (None if w is None else w.set_backend(backend))


def data(name, backend="numpy"):
    with monitor.suspend():
        x, w = _data(name, backend)
        return copy.deepcopy(x), copy.deepcopy(w)


def _flat(t, level):
    return (t.latest_diagonal * 0 + level)


def _ia():
    t = world._sample("ia_sample")
    return t["loss"], t["exposure"].latest_diagonal


def _clrd_prem(kind="lob"):
    t = world._sample("clrd")[["CumPaidLoss", "EarnedPremDIR"]]
    t = t.groupby("LOB").sum() if kind == "lob" else t.iloc[:6]
    return t["CumPaidLoss"], t["EarnedPremDIR"].latest_diagonal


def _synthw(s):
    t = world._mk("synth%d" % s)
    t = t[t.columns[0]]
    return t, _flat(t, 9000.0)


def _trended(k):
    t = cl.Trend(0.03).fit_transform(world._sample(k))
    return t, _flat(world._sample(k), 40000.0)


def _olf():
    """Losses with on-level factors and trend, and exposures, by line of business."""
    x, w = _clrd_prem()
    x = cl.ParallelogramOLF(_lobrates(), change_col="change", date_col="date").fit_transform(x)
    return x, w


def _lobrates():
    return pd.DataFrame([[l, d, c + 0.01 * i] for i, l in enumerate(["comauto", "medmal", "othliab", "ppauto", "prodliab", "wkcomp"]) for d, c in
                         (("1989-01-01", 0.02), ("1990-07-01", 0.05), ("1992-04-15", -0.03), ("1994-01-01", 0.1))], columns=["LOB", "date", "change"])


_DATA = {
    "raa": lambda: (world._sample("raa"), _flat(world._sample("raa"), 40000.0)),
    "genins": lambda: (world._sample("genins"), _flat(world._sample("genins"), 5e6)),
    "abc": lambda: (world._sample("abc"), _flat(world._sample("abc"), 2e6)),
    "ukmotor": lambda: (world._sample("ukmotor"), _flat(world._sample("ukmotor"), 15000.0)),
    "mcl": lambda: (world._sample("mcl"), None),
    "usauto": lambda: (world._sample("usauto"), None),
    "lob": _clrd_prem,
    "lob_ragged": lambda: tuple(x.iloc[:4] for x in _clrd_prem()),
    "cos": lambda: _clrd_prem("cos"),
    "quarterly": lambda: (world._sample("quarterly")["paid"], _flat(world._sample("quarterly")["paid"], 800.0)),
    "ia": _ia,
    "berq": lambda: (world._sample("berqsherm").loc["MedMal"], None),
    "berq2": lambda: (world._sample("berqsherm").loc["Auto"], None),
    "xyz": lambda: (world._sample("xyz")["Paid"] if "Paid" in world._sample("xyz").columns else world._sample("xyz").iloc[:, 0], None),
    "prem": lambda: (world._sample("clrd")["EarnedPremDIR"].sum(), None),
    "synth1": lambda: _synthw(1),
    "synth4": lambda: _synthw(4),
    "raa_tr": lambda: _trended("raa"),
    "ia_tr": lambda: (cl.Trend(0.02).fit_transform(_ia()[0]), _ia()[1]),
    "olf": lambda: _olf(),
    "prem_lob": lambda: (world._sample("clrd")["EarnedPremDIR"].groupby("LOB").sum(), None),
    "mcl2": lambda: (world._sample("clrd")[["CumPaidLoss", "IncurLoss"]].groupby("LOB").sum().rename("columns", ["paid", "incurred"]).iloc[:3], None),
    "twice": lambda: (cl.Development(drop_high=1).fit_transform(world._sample("raa")), None),
    "semi": lambda: (world._mk("semi")[world._mk("semi").columns[0]], _flat(world._mk("semi")[world._mk("semi").columns[0]], 900.0)),
    "month": lambda: (world._mk("month"), _flat(world._mk("month"), 90.0)),
    "tail": lambda: (world._sample("tail_sample")["paid"], None),
}

RATES = pd.DataFrame({"date": pd.to_datetime(["1989-01-01", "1990-07-01", "1992-04-15", "1994-01-01", "1995-11-30"]),
                      "change": [0.02, 0.05, -0.03, 0.1, 0.02]})


def _rates(order=0):
    r = RATES.copy()
    r["date"] = r["date"].astype(str)
    return r.iloc[::-1].reset_index(drop=True) if order else r


def _ml(e=None):
    return SkPipeline([("design", ColumnTransformer([("o", OneHotEncoder(handle_unknown="ignore"), ["origin"]),
                                                     ("d", OneHotEncoder(handle_unknown="ignore"), ["development"])])),
                       ("model", e or LinearRegression())])


def _pats(row):
    return {12 * (k + 1): 1 + (1.0 + len(str(row.iloc[0]))) / 4 ** k for k in range(10)}


def _thirds(o):
    return [(1, 0, 0), (0, 1, 0), (0.2, 0.3, 0.5)][o.year % 3]


def _vote(**kw):
    return cl.VotingChainladder([("cl", cl.Chainladder()), ("bf", cl.BornhuetterFerguson(0.7)), ("cc", cl.CapeCod())], **kw)


def _drop_pat(t):
    return {12: 2.0, 24: 1.5, 36: 1.3, 48: 1.2, 60: 1.15, 72: 1.1, 84: 1.05, 96: 1.03, 108: 1.01, 120: 1.0}


class Spec:
    def __init__(self, make, trains, kind, weight=False, slow=1.0, tags=()):
        self.make, self.trains, self.kind, self.weight, self.slow, self.tags = make, trains, kind, weight, slow, tags


S1 = ["raa", "genins", "abc", "ukmotor", "quarterly"]
SM = S1 + ["lob", "cos", "synth1", "synth4"]
EXP = ["raa", "genins", "abc", "lob", "cos", "quarterly", "synth4"]

SPECS = {
    # development
    "Development": Spec(lambda: cl.Development(), SM, "t"),
    "Development_simple": Spec(lambda: cl.Development(average="simple", n_periods=4), SM, "t"),
    "Development_reg": Spec(lambda: cl.Development(average="regression", sigma_interpolation="mack"), S1, "t"),
    "Development_mix": Spec(lambda: cl.Development(average=["volume", "simple"] + ["regression"] * 2 + ["volume"] * 5, n_periods=[3] * 4 + [5] * 5), ["raa", "genins"], "t"),
    "Development_drop": Spec(lambda: cl.Development(drop_high=1, drop_low=[True, False, True] + [False] * 6, preserve=2), ["raa", "genins", "abc"], "t"),
    "Development_drop2": Spec(lambda: cl.Development(drop=[("1982", 12), ("1983", 24)], drop_valuation="1985", drop_above=40.0, drop_below=0.9), ["raa"], "t"),
    "Development_fillna": Spec(lambda: cl.Development(fillna=1.0), ["lob", "cos", "raa"], "t"),
    "Development_group": Spec(lambda: cl.Development(groupby="LOB"), ["cos"], "t"),
    "DevConstant": Spec(lambda: cl.DevelopmentConstant(patterns=_drop_pat(None), style="ldf"), ["raa", "genins"], "t"),
    "DevConstant_cdf": Spec(lambda: cl.DevelopmentConstant(patterns={k: v for k, v in zip(range(12, 132, 12), np.linspace(4, 1, 10))}, style="cdf"), ["raa", "lob"], "t"),
    "IncrementalAdditive": Spec(lambda: cl.IncrementalAdditive(trend=0.02, future_trend=0.01), ["ia"], "tw", True),
    "IncrementalAdditive2": Spec(lambda: cl.IncrementalAdditive(n_periods=4, average="simple", drop_high=1), ["ia"], "tw", True),
    "MunichAdjustment": Spec(lambda: cl.MunichAdjustment(paid_to_incurred=("paid", "incurred")), ["mcl"], "t"),
    "MunichAdjustment_us": Spec(lambda: cl.MunichAdjustment(paid_to_incurred=[("paid", "incurred")], fillna=True), ["usauto", "mcl"], "t"),
    "CaseOutstanding": Spec(lambda: cl.CaseOutstanding(paid_to_incurred=("paid", "incurred")), ["usauto", "mcl"], "t"),
    "ClarkLDF": Spec(lambda: cl.ClarkLDF(), ["genins", "abc"], "t", slow=2),
    "ClarkLDF_cc": Spec(lambda: cl.ClarkLDF(growth="weibull"), ["genins", "abc"], "tw", True, slow=2),
    "TweedieGLM": Spec(lambda: cl.TweedieGLM(), ["genins", "abc"], "t", slow=2),
    "DevelopmentML": Spec(lambda: cl.DevelopmentML(_ml(), y_ml=None, fit_incrementals=False), ["genins", "abc"], "t", slow=2),
    "DevelopmentML_incr": Spec(lambda: cl.DevelopmentML(_ml(Ridge(0.5)), fit_incrementals=True), ["genins", "abc"], "t", slow=2),
    "BarnettZehnwirth": Spec(lambda: cl.BarnettZehnwirth(formula="C(origin)+development"), ["abc"], "t", slow=2),
    # tails
    "TailCurve": Spec(lambda: cl.TailCurve(), SM, "t"),
    "TailCurve_inv": Spec(lambda: cl.TailCurve(curve="inverse_power", fit_period=(24, None), extrap_periods=50, attachment_age=60), ["raa", "genins", "abc"], "t"),
    "TailConstant": Spec(lambda: cl.TailConstant(1.05, decay=0.8), SM, "t"),
    "TailConstant_att": Spec(lambda: cl.TailConstant(1.1, attachment_age=72), ["raa", "genins"], "t"),
    "TailBondy": Spec(lambda: cl.TailBondy(earliest_age=36), ["abc", "genins", "tail"], "t"),
    "TailClark": Spec(lambda: cl.TailClark(), ["genins", "abc"], "t", slow=3),
    # methods
    "Chainladder": Spec(lambda: cl.Chainladder(), SM, "p"),
    "Mack": Spec(lambda: cl.MackChainladder(), S1, "p"),
    "BF": Spec(lambda: cl.BornhuetterFerguson(apriori=0.7), EXP, "p", True),
    "Benktander": Spec(lambda: cl.Benktander(apriori=0.8, n_iters=3), EXP, "p", True),
    "CapeCod": Spec(lambda: cl.CapeCod(trend=0.02, decay=0.9), EXP, "p", True),
    "CapeCod_group": Spec(lambda: cl.CapeCod(groupby="LOB"), ["cos"], "p", True),
    "ExpectedLoss": Spec(lambda: cl.ExpectedLoss(apriori=0.75), EXP, "p", True),
    "BF_sigma": Spec(lambda: cl.BornhuetterFerguson(apriori=0.7, apriori_sigma=0.1, random_state=7), EXP, "p", True),
    "CapeCod_sigma": Spec(lambda: cl.CapeCod(apriori_sigma=0.1, random_state=3, n_iters=2), ["raa", "lob"], "p", True),
    # adjustments
    "Bootstrap": Spec(lambda: cl.BootstrapODPSample(n_sims=8, random_state=11), ["raa", "genins", "abc"], "t"),
    "Bootstrap_nohat": Spec(lambda: cl.BootstrapODPSample(n_sims=5, random_state=4, hat_adj=False, n_periods=5, drop_high=1), ["raa", "genins"], "t"),
    "BerquistSherman": Spec(lambda: cl.BerquistSherman("Paid", "Incurred", "Reported", "Closed", trend=0.05), ["berq", "berq2"], "t"),
    "Parallelogram": Spec(lambda: cl.ParallelogramOLF(_rates(), change_col="change", date_col="date"), ["prem"], "t"),
    "Parallelogram_vl": Spec(lambda: cl.ParallelogramOLF(_rates(1), change_col="change", date_col="date", vertical_line=True, approximation_grain="D"), ["prem"], "t"),
    "Trend": Spec(lambda: cl.Trend(0.03), ["raa", "lob", "abc", "synth4"], "t"),
    "Trend_multi": Spec(lambda: cl.Trend(trends=[0.05, -0.02], dates=[(None, "1985"), ("1985", None)], axis="origin"), ["raa", "lob"], "t"),
    "Trend_val": Spec(lambda: cl.Trend(0.04, axis="valuation"), ["raa", "abc"], "t"),
    "Development_preserve": Spec(lambda: cl.Development(drop_high=[3] * 9, preserve=3), ["raa", "genins"], "t"),
    "Development_above": Spec(lambda: cl.Development(drop_above=[3.0, 1.5] + [2.0] * 7, drop_below=1.001), ["raa", "genins", "lob"], "t"),
    "Development_one": Spec(lambda: cl.Development(n_periods=1, average="simple"), ["raa", "abc"], "t"),
    "Development_twice": Spec(lambda: cl.Development(n_periods=4), ["twice"], "t"),
    "Development_sub": Spec(lambda: cl.Development(), ["semi", "month"], "t"),
    "DevConstant_call": Spec(lambda: cl.DevelopmentConstant(patterns=_pats, callable_axis=1), ["lob", "raa"], "t"),
    "DevConstant_group": Spec(lambda: cl.DevelopmentConstant(patterns=_drop_pat(None), groupby="LOB"), ["cos"], "t"),
    "IncrementalAdditive_tr": Spec(lambda: cl.IncrementalAdditive(trend=0.01), ["ia_tr"], "tw", True),
    "MunichAdjustment_lob": Spec(lambda: cl.MunichAdjustment(paid_to_incurred=("paid", "incurred"), fillna=True), ["mcl2"], "t"),
    "CaseOutstanding_group": Spec(lambda: cl.CaseOutstanding(paid_to_incurred=("paid", "incurred"), groupby="LOB"), ["mcl2"], "t"),
    "ClarkLDF_lob": Spec(lambda: cl.ClarkLDF(groupby="LOB"), ["lob_ragged"], "t", slow=2),
    "DevelopmentML_auto": Spec(lambda: cl.DevelopmentML(_ml(), autoregressive=[("lag", -1, "values")], fit_incrementals=True), ["genins"], "t", slow=2),
    "TailCurve_thr": Spec(lambda: cl.TailCurve(reg_threshold=(1.01, 2.0), fit_period=[True] * 5 + [False] + [True] * 3), ["raa", "genins"], "t"),
    "TailCurve_thr2": Spec(lambda: cl.TailCurve(reg_threshold=(None, 0.5), fit_period=slice(1, 6)), ["raa", "abc"], "t"),
    "TailCurve_sub": Spec(lambda: cl.TailCurve(), ["semi", "month", "quarterly"], "t"),
    "TailBondy_late": Spec(lambda: cl.TailBondy(), ["abc", "genins"], "t"),
    "TailBondy_att": Spec(lambda: cl.TailBondy(earliest_age=24, attachment_age=48), ["abc", "genins"], "t"),
    "CapeCod_trended": Spec(lambda: cl.CapeCod(trend=0.02), ["raa_tr"], "p", True),
    "CapeCod_olf": Spec(lambda: cl.CapeCod(trend=0.02), ["olf"], "p", True),
    "Parallelogram_group": Spec(lambda: cl.ParallelogramOLF(_lobrates(), change_col="change", date_col="date"), ["prem_lob"], "t"),
    "BerquistSherman_est": Spec(lambda: cl.BerquistSherman("Paid", "Incurred", "Reported", "Closed", trend=0.02, reported_count_estimator=cl.Pipeline([("d", cl.Development(n_periods=5)), ("m", cl.Chainladder())])), ["berq"], "t"),
    # workflow
    "Voting_fn": Spec(lambda: _vote(weights=_thirds), ["raa", "genins"], "p", True, slow=2),
    "Voting_list": Spec(lambda: _vote(weights=[(k % 3, 1, 2) for k in range(10)]), ["raa", "genins"], "p", True, slow=2),
    "Pipeline": Spec(lambda: cl.Pipeline([("dev", cl.Development(n_periods=5)), ("tail", cl.TailConstant(1.02)), ("model", cl.Chainladder())]), SM, "p"),
    "Pipeline_bf": Spec(lambda: cl.Pipeline([("dev", cl.Development(average="simple")), ("tail", cl.TailCurve()), ("bf", cl.BornhuetterFerguson(0.7))]), ["raa", "genins", "lob"], "p", True),
    "Pipeline_cc": Spec(lambda: cl.Pipeline([("tr", cl.Trend(0.02)), ("dev", cl.Development()), ("cc", cl.CapeCod())]), ["raa", "lob"], "p", True),
    "Pipeline_boot": Spec(lambda: cl.Pipeline([("boot", cl.BootstrapODPSample(n_sims=6, random_state=5)), ("dev", cl.Development()), ("model", cl.Chainladder())]), ["raa", "genins"], "p"),
    "Voting": Spec(lambda: cl.VotingChainladder([("cl", cl.Chainladder()), ("bf", cl.BornhuetterFerguson(0.7)), ("cc", cl.CapeCod())],
                                                default_weighting=(1, 2, 3)), ["raa", "genins", "lob"], "p", True, slow=2),
}
TRANSFORM = sorted(k for k, s in SPECS.items() if s.kind[0] == "t")
PREDICT = sorted(k for k, s in SPECS.items() if s.kind[0] == "p")


def fit(est, name, X, w):
    s = SPECS[name]
    if s.weight:
        return est.fit(X, sample_weight=w)
    return est.fit(X)


def use(est, name, X, w):
    """The estimator's own way of being applied to a triangle."""
    s = SPECS[name]
    if s.kind == "p":
        return est.predict(X, sample_weight=w) if s.weight else est.predict(X)
    if s.kind == "tw":
        try:
            return est.transform(X, sample_weight=w)
        except TypeError:
            return est.transform(X)
    return est.transform(X)


# -- triangles an estimator may be applied to, derived from its training triangle ------------------------
VARIANTS = ("same", "copy", "scaled", "older", "origins", "other_backend", "short", "developed", "reversed", "some")


def variant(v, X, w):
    with monitor.suspend():
        if v == "same":
            return X, w
        if v == "copy":
            return copy.deepcopy(X), w
        if v == "scaled":
            return X * 1.1, w
        if v == "older":
            return X[X.valuation < X.valuation_date], w
        if v == "origins":
            return X[X.origin > X.origin[0]], (None if w is None else w[w.origin > w.origin[0]])
        if v == "developed":
            return cl.Development(average="simple").fit_transform(X), w
        if v == "reversed":
            return X.iloc[::-1], (None if w is None else w.iloc[::-1])
        if v == "some":
            k = max(1, len(X) // 2)
            return X.iloc[:k], (None if w is None else w.iloc[:k])
        if v == "short":
            return X.iloc[..., : max(2, X.shape[-1] - 2)], w
        o = {"numpy": "sparse", "sparse": "numpy"}[X.array_backend]
        return X.set_backend(o), (None if w is None else w.set_backend(o))


READS = ("ldf_", "cdf_", "ultimate_", "ibnr_", "sigma_", "std_err_", "full_triangle_", "full_expectation_", "apriori_",
         "slope_", "intercept_", "coef_", "triangle_ml_", "p_to_i_ldf_", "p_to_i_sigma_", "residual_", "q_f_", "q_resid_", "rho_", "lambda_", "olf_", "trend_", "detrended_apriori_", "case_to_prior_case_", "paid_to_prior_case_",
         "w_", "cum_zeta_", "has_zeta", "munich_full_triangle_", "b_", "tail_", "incremental_", "hat_", "norm_resid_",
         "full_std_err_", "total_process_risk_", "mack_std_err_", "total_mack_std_err_", "summary_", "repr", "params", "latest_diagonal", "html")


def read(est, attr):
    if attr == "repr":
        return repr(est)
    if attr == "html":
        return est._repr_html_() is not None
    if attr == "params":
        return {k: (v if isinstance(v, (int, float, str, type(None), tuple, list)) else type(v).__name__) for k, v in est.get_params(deep=False).items()}
    return getattr(est, attr)
