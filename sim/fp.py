"""Observable state of triangles and estimators as a flat {path: leaf} map, and its comparison.

Only what a user can see counts: values, labels, flags, public attributes, parameters.  Names with a
leading underscore are an implementation's own business and are never looked at."""
import hashlib, math
import numpy as np, pandas as pd
from . import monitor

SKIP = {"iloc", "loc", "iat", "at", "virtual_columns", "values", "array_backend"}
ESTPROPS = ("ldf_", "cdf_", "ultimate_", "ibnr_", "sigma_", "std_err_", "full_triangle_", "full_expectation_",
            "apriori_", "full_std_err_", "total_process_risk_", "process_risk_", "parameter_risk_",
            "mack_std_err_", "total_mack_std_err_", "summary_", "tail_", "munich_full_triangle_", "zeta_", "incremental_")


class Missing:
    def __repr__(self):
        return "<absent>"


ABSENT = Missing()


def dense(v):
    """Any 4-d backend array as a dense ndarray, without going through the package."""
    m = type(v).__module__.split(".")[0]
    if m == "sparse":
        out = np.full(v.shape, v.fill_value, dtype=np.result_type(v.data.dtype, type(v.fill_value)))
        if v.coords.shape[1]:
            out[tuple(v.coords)] = v.data
        return out
    if m == "dask":
        return np.asarray(v.compute())
    return np.asarray(v)


def view(obj, backend=True, props=False, nan0=False, subs=True):
    out = {}
    with monitor.suspend():
        _view(obj, "", out, dict(backend=backend, props=props, nan0=nan0, subs=subs), [], 0)
    return out


def _istri(o):
    return hasattr(o, "odims") and hasattr(o, "values") and hasattr(o, "kdims") or type(o).__name__ == "Triangle"


def _leafarr(a):
    a = np.asarray(a)
    if a.dtype.kind in "OUS":
        return tuple(_scalar(x) for x in a.ravel()) + (("shape",) + a.shape,)
    return a


def _scalar(x):
    if isinstance(x, np.str_):
        return str(x)
    if isinstance(x, (str, bool, int, type(None), bytes)):
        return x
    if isinstance(x, (np.generic,)):
        return x.item() if not isinstance(x, (np.datetime64, np.timedelta64)) else str(x)
    if isinstance(x, float):
        return x
    return str(x)


def _view(o, p, out, cfg, stack, depth):
    if depth > 12 or any(o is s for s in stack):
        out[p] = "<cycle>"
        return
    stack = stack + [o] if not isinstance(o, (int, float, str, bytes, type(None))) else stack
    d = depth + 1
    if _istri(o):
        v = dict(vars(o))
        if "values" not in v:
            out[p + ".values"] = ABSENT
        else:
            a = dense(v["values"]).astype(float)
            out[p + ".values"] = np.nan_to_num(a) if cfg["nan0"] else a
        if cfg["backend"]:
            out[p + ".array_backend"] = v.get("array_backend")
        vc = v.get("virtual_columns")
        out[p + ".virtual_columns"] = tuple(sorted(map(str, vc.columns))) if vc is not None else ()
        for k in sorted(v):
            if k in SKIP or k.startswith("_"):
                continue
            x = v[k]
            if k == "ddims" or k == "odims":
                out[p + "." + k + ".kind"] = "date" if isinstance(x, pd.DatetimeIndex) or getattr(
                    x, "dtype", None) is not None and np.asarray(x).dtype.kind == "M" else "num"
                out[p + "." + k] = _leafarr(x)
                continue
            if not cfg["subs"] and (_istri(x) or isinstance(x, (pd.DataFrame, pd.Series))):
                continue
            _view(x, p + "." + k, out, cfg, stack, d)
        return
    if isinstance(o, pd.DataFrame):
        out[p + ".columns"] = tuple(map(str, o.columns))
        out[p + ".index"] = tuple(map(str, o.index))
        for i, c in enumerate(o.columns):
            out[p + "[%s]" % (c,)] = _leafarr(o.iloc[:, i].values if not isinstance(
                o.iloc[:, i].values, pd.api.extensions.ExtensionArray) else o.iloc[:, i].astype(object).values)
        return
    if isinstance(o, (pd.Series, pd.Index)):
        if isinstance(o, pd.Series):
            out[p + ".index"] = tuple(map(str, o.index))
        out[p] = _leafarr(np.asarray(o.astype(object)) if o.dtype.kind not in "fiub" else o.values)
        return
    if isinstance(o, np.ndarray):
        out[p] = _leafarr(o)
        return
    if str(type(o).__module__).split(".")[0] in ("sparse", "dask") and hasattr(o, "shape"):
        a = dense(o).astype(float)
        out[p] = np.nan_to_num(a) if cfg["nan0"] else a
        return
    if isinstance(o, np.random.RandomState):
        out[p] = repr(o.get_state())
        return
    if isinstance(o, dict):
        out[p + ".keys"] = tuple(sorted(map(str, o)))
        for k in sorted(o, key=str):
            _view(o[k], p + "{%s}" % (k,), out, cfg, stack, d)
        return
    if isinstance(o, (list, tuple)):
        out[p + ".len"] = (type(o).__name__, len(o))
        for i, x in enumerate(o):
            _view(x, p + "[%d]" % i, out, cfg, stack, d)
        return
    if isinstance(o, (set, frozenset)):
        out[p] = tuple(sorted(map(str, o)))
        return
    if hasattr(o, "get_params") and not isinstance(o, type):
        out[p + ".class"] = type(o).__name__
        try:
            prm = o.get_params(deep=False)
        except Exception as e:
            prm = {"<get_params>": type(e).__name__}
        v = {k: x for k, x in vars(o).items() if not k.startswith("_") and k not in prm}
        for k in sorted(prm):
            _view(prm[k], p + "(%s)" % k, out, cfg, stack, d)
        for k in sorted(v):
            _view(v[k], p + "." + k, out, cfg, stack, d)
        if cfg["props"] and v:
            for k in ESTPROPS:
                if k in v or not hasattr(type(o), k):
                    continue
                try:
                    x = getattr(o, k)
                except Exception as e:
                    x = "raises " + type(e).__name__
                _view(x, p + "." + k, out, dict(cfg, props=False), stack, d)
        return
    if callable(o) and hasattr(o, "__qualname__"):
        out[p] = "callable " + o.__qualname__
        return
    if isinstance(o, (np.generic, pd.Timestamp, pd.Period, int, float, str, bytes, bool, type(None), complex)):
        out[p] = _scalar(o)
        return
    if hasattr(o, "__dict__") and str(type(o).__module__).split(".")[0] == "chainladder":
        out[p + ".class"] = type(o).__name__
        for k in sorted(vars(o)):
            if not k.startswith("_"):
                _view(vars(o)[k], p + "." + k, out, cfg, stack, d)
        return
    out[p] = type(o).__name__


def _same(a, b, rtol, atol):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return False
        if a.shape != b.shape:
            return False
        if a.dtype.kind in "fc" or b.dtype.kind in "fc":
            a, b = a.astype(float), b.astype(float)
            if rtol == 0:
                return bool(((a == b) | (np.isnan(a) & np.isnan(b))).all())
            with np.errstate(all="ignore"):
                return bool(np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True).all())
        return bool((a == b).all()) if a.dtype.kind not in "mM" else bool(
            (a.astype("datetime64[ns]").astype("i8") == b.astype("datetime64[ns]").astype("i8")).all()) if (
            a.dtype.kind == b.dtype.kind == "M") else bool((a == b).all())
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b or (a == b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if a == b:
            return True
        return rtol > 0 and abs(a - b) <= atol + rtol * abs(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(_same(x, y, rtol, atol) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def diff(v1, v2, rtol=0.0, atol=0.0, ignore=None, limit=4):
    """Human readable list of differing paths."""
    out = []
    for k in list(v1) + [k for k in v2 if k not in v1]:
        if ignore and ignore(k):
            continue
        a, b = v1.get(k, ABSENT), v2.get(k, ABSENT)
        if a is ABSENT and b is ABSENT:
            continue
        if not _same(a, b, rtol, atol):
            out.append("%s: %s != %s" % (k or "result", brief(a), brief(b)))
            if len(out) >= limit:
                break
    return out


def brief(a):
    if isinstance(a, np.ndarray):
        return "array%s#%s" % (list(a.shape), hashlib.blake2b(np.ascontiguousarray(a).tobytes(), digest_size=4).hexdigest())
    s = repr(a)
    return s if len(s) < 90 else s[:80] + "..."


def digest(v):
    h = hashlib.blake2b(digest_size=8)
    for k in sorted(v):
        a = v[k]
        h.update(k.encode())
        if isinstance(a, np.ndarray):
            if a.dtype.kind == "M":
                a = a.astype("datetime64[ns]")
            h.update(str(a.shape).encode())
            h.update(np.ascontiguousarray(a + 0.0 if a.dtype.kind == "f" else a).tobytes())
        else:
            h.update(repr(a).encode())
    return h.hexdigest()


def outcome(fn):
    """('ok', result) or ('exc', exception)."""
    try:
        return ("ok", fn())
    except Exception as e:
        return ("exc", e)
