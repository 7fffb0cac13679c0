"""C01: sparse computations split over a thread pool equal the serial computation."""
import random
import numpy as np
from .. import world, fp, run as R, faults, monitor

ID = "C01"
COUNT = {"quick": 900, "thorough": 40000}
RULE = ("1-3 callers run group-bys, index-broadcast arithmetic and accumulation on shared sparse triangles over simulated pools of 1-8 workers; "
        "in a third of the runs one worker's allocation fails. Oracles: serial run, the dense backend, and a small numpy/pandas model. "
        "Non-trivial: at least two pool tasks interleaved or a fault fired.")
AGG = ["sum", "mean", "max", "min", "std", "median", "prod", "var"]
NAMES = ["clrd", "clrd_lob", "clrd_all_lob", "synth0", "synth1", "synth2-i", "synth3", "synth5-i", "synth4", "quarterly", "raa", "mcl"]


def gen(rng, tier, i):
    name = rng.choice(NAMES)
    progs = []
    for c in range(rng.choice([1, 1, 2, 3])):
        prog = []
        for k in range(rng.choice([1, 1, 2])):
            u = rng.random()
            if u < 0.45:
                axis = rng.choice([0, 0, 0, 0, 2, 2, 1, 3])
                agg = "sum" if rng.random() < 0.7 else rng.choice(["mean", "sum"])
                prog.append(["groupby", axis, rng.randrange(6), agg])
            elif u < 0.60:
                prog.append(["pair", rng.choice(["add", "sub", "mul"]), rng.randrange(4), rng.randrange(1000)])
            elif u < 0.80:
                prog.append(["arith", rng.choice(["add", "sub", "mul", "div"]), rng.randrange(6), rng.randrange(1000)])
            else:
                prog.append(["cum", rng.randrange(4)])
        progs.append(prog)
    sc = dict(tri=name, progs=progs, auto_sparse=rng.random() < 0.5, sched=R.gen_sched(rng))
    if rng.random() < 0.35:
        sc["fault"] = dict(seed=rng.getrandbits(40), kind=rng.choice(["mem", "memline"]))
    return sc


# -- the computations ------------------------------------------------------------------------------------
def _group(t, axis, k):
    """A grouping of the axis into unequal, non-contiguous groups."""
    n = t.shape[axis]
    if axis == 0:
        labels = t.key_labels
        if k == 0 or len(labels) == 1 and k < 3:
            return [labels[-1]]
        if k in (1, 2):
            return labels[:1] if k == 1 else list(labels)
        return ["m%d" % ((i * (k + 1)) % max(2, min(5, n))) for i in range(n)]
    if axis == 2 and k < 3:
        return t.origin.year
    m = [2, 3, 2, 3, 4, max(1, n // 2)][k]
    if axis == 2:
        return [i // m for i in range(n)]
    if axis == 3:
        return [i // m for i in range(n)]
    return [i % 2 for i in range(n)]


def _other(t, k, seed):
    """A triangle whose index differs from t's: aggregated, permuted, or with missing/extra keys."""
    n = t.shape[0]
    if k == 0 and len(t.key_labels) > 1:
        return t.groupby(t.key_labels[-1]).sum()
    if k == 1 and len(t.key_labels) > 1:
        return t.groupby(t.key_labels[0]).sum()
    p = np.random.RandomState(seed).permutation(n)
    if k == 2:
        return t.iloc[list(p)] if n > 1 else t
    if k == 3 and n > 2:
        return t.iloc[sorted(p[: max(2, n - 2)])]
    if k == 4 and n > 2 and len(t.key_labels) > 1:
        g = t.groupby(t.key_labels[-1]).sum()
        return g.iloc[: max(2, len(g) - 1)]
    return t * 2


def _pair(t, k, seed):
    """Two parts of a triangle, each without several keys of the other, in any order."""
    n = t.shape[0]
    p = [int(i) for i in np.random.RandomState(seed).permutation(n)]
    if n < 3:
        return t, t * 2
    c = [max(1, n // 4), max(1, n // 2), 1, max(1, n - 3)][k]  # how many are in both
    m = c + (n - c) // 2
    a, b = p[:m], p[m - c:]
    return t.iloc[sorted(a) if seed % 2 else a], t.iloc[b]


ARITH = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b}


def compute(t, o, st):
    if st[0] == "groupby":
        g = t.groupby(_group(t, st[1], st[2]), axis=st[1])
        return getattr(g, st[3])()
    if st[0] == "arith":
        return ARITH[st[1]](t, o)
    if st[0] == "pair":
        return ARITH[st[1]](*o)
    x = t.cum_to_incr() if st[1] < 2 else t.copy()
    x.is_cumulative = False
    if st[1] == 3:
        x = x.dev_to_val()
    return x.incr_to_cum()


def key_of(st):
    return (st[2], st[3]) + (("pair",) if st[0] == "pair" else ()) if st[0] in ("arith", "pair") else None


def operands(sc, backend):
    """(triangle, other) per step, prepared serially with no simulation of interest."""
    t = world.tri(sc["tri"], backend)
    others = {}
    for p in sc["progs"]:
        for st in p:
            if st[0] == "pair":
                others[key_of(st)] = [x.set_backend(backend) for x in _pair(world.tri(sc["tri"], "numpy"), st[2], st[3])]
            if st[0] == "arith":
                key = key_of(st)
                if key not in others:
                    # numpy is used to prepare, so that preparation itself runs no pool
                    base = world.tri(sc["tri"], "numpy")
                    others[key] = _other(base, st[2], st[3]).set_backend(backend)
    return t, others


# -- the independent model: dense numpy/pandas only -------------------------------------------------------
def model(sc, st):
    """Returns (values, index labels or None) or None where no model exists."""
    t = world.tri(sc["tri"], "numpy")
    a = np.nan_to_num(fp.dense(t.values))
    if st[0] == "groupby" and st[3] == "sum":
        axis = st[1]
        by = _group(t, axis, st[2])
        n = t.shape[axis]
        if axis == 0 and all(b in t.key_labels for b in by):
            cols = [t.key_labels.index(b) for b in by]
            keys = [tuple(t.kdims[i][c] for c in cols) for i in range(n)]
        else:
            keys = [(b,) for b in by]
        uniq = sorted(set(keys))
        out = np.stack([a.take([i for i in range(n) if keys[i] == u], axis=axis).sum(axis) for u in uniq], axis=axis)
        return out, (uniq if axis == 0 else None)
    if st[0] == "cum" and st[1] in (0, 1):
        nt = fp.dense(t.nan_triangle).astype(float)
        return np.nan_to_num((a if t.is_cumulative is not False else np.cumsum(a, 3)) * nt), None
    if st[0] == "cum" and st[1] == 2:
        nt = fp.dense(t.nan_triangle).astype(float)
        return np.nan_to_num(np.cumsum(a, 3) * nt), None
    if st[0] == "pair":
        x, y = _pair(t, st[2], st[3])
        if x.shape == y.shape and (x.shape[0] < 2 or np.array_equal(x.kdims, y.kdims)) or min(len(x), len(y)) < 2 or x.shape[1:] != y.shape[1:]:
            return None
        f = {"add": lambda p, q: p + q, "sub": lambda p, q: p - q, "mul": lambda p, q: p * q}[st[1]]
        kx, ky = [tuple(r) for r in x.kdims], [tuple(r) for r in y.kdims]
        xv, yv = np.nan_to_num(fp.dense(x.values)), np.nan_to_num(fp.dense(y.values))
        keys = sorted(set(kx) | set(ky))
        z = np.zeros(a.shape[1:])
        vals = np.stack([f(xv[kx.index(k)] if k in kx else z, yv[ky.index(k)] if k in ky else z) for k in keys])
        return np.nan_to_num(vals * fp.dense(t.nan_triangle).astype(float)), keys
    if st[0] == "arith" and st[1] in ("add", "sub"):
        o = _other(t, st[2], st[3])
        b = np.nan_to_num(fp.dense(o.values))
        lab_t, lab_o = list(t.key_labels), list(o.key_labels)
        if t.shape[0] == 1 or o.shape[0] == 1 or a.shape[1:] != b.shape[1:]:
            return None
        common = [l for l in lab_t if l in lab_o]
        kt = [tuple(r[lab_t.index(c)] for c in common) for r in t.kdims]
        ko = [tuple(r[lab_o.index(c)] for c in common) for r in o.kdims]
        if len(set(ko)) != len(ko) or len(common) != len(lab_o):
            return None
        rows, labels = [], []
        sg = 1 if st[1] == "add" else -1
        for i, k in enumerate(kt):
            rows.append(a[i] + sg * (b[ko.index(k)] if k in ko else 0))
            labels.append(tuple(t.kdims[i]))
        for j, k in enumerate(ko):
            if k not in kt:
                return None
        order = sorted(range(len(rows)), key=lambda i: labels[i]) if st[2] != 5 else list(range(len(rows)))
        vals = np.stack([rows[i] for i in order])
        nt = fp.dense(t.nan_triangle).astype(float)
        return np.nan_to_num(vals * nt), [labels[i] for i in order]
    return None


# -- running -----------------------------------------------------------------------------------------------
def _caller(prog, t, others, out):
    def f():
        for st in prog:
            o = R.trap(lambda: compute(t, others.get(key_of(st)), st))
            out.append(o)
    return f


def run(sc):
    world.cl.options.set_option("AUTO_SPARSE", sc["auto_sparse"])
    steps = [st for p in sc["progs"] for st in p]
    viol = None
    solo = []
    # serial reference: one worker, no pre-emption
    for p in sc["progs"]:
        t, others = operands(sc, "sparse")
        out = []
        R.solo(_caller(p, t, others, out), pool=1)
        solo.append([R.outview(o, backend=True) for o in out])
    # dense reference and model
    flat = [v for s in solo for v in s]
    tn, on = operands(sc, "numpy")
    for st, v in zip(steps, flat):
        o = R.trap(lambda: compute(tn, on.get(key_of(st)), st))
        d = fp.diff(_norm(R.outview(o, backend=False, nan0=True)), _norm(v), rtol=1e-9, atol=1e-7, ignore=lambda k: k.endswith("array_backend"))
        if d:
            viol = {"class": "dense:%s" % st[0], "msg": "%s on a sparse triangle differs from the dense computation: %s" % (st, "; ".join(d))}
            break
        m = model(sc, st)
        if m is not None and "raises" not in v:
            got = np.nan_to_num(v[".values"])
            if got.shape != m[0].shape or not np.allclose(got, m[0], rtol=1e-9, atol=1e-6):
                viol = {"class": "model:%s" % st[0], "msg": "%s: values differ from the block-by-block model (shape %s, model %s)" % (st, got.shape, m[0].shape)}
                break
            if m[1] is not None:
                idx = [tuple(map(str, r)) for r in np.array(v[".kdims"][:-1], dtype=object).reshape(len(m[1]), -1)] if isinstance(v[".kdims"], tuple) else [
                    tuple(map(str, r)) for r in v[".kdims"]]
                if idx != [tuple(map(str, k)) for k in m[1]]:
                    viol = {"class": "labels:%s" % st[0], "msg": "%s: index labels or their order differ from the model" % (st,)}
                    break
    s = f = None
    outs = []
    if not viol:
        t, others = operands(sc, "sparse")
        before = [fp.view(t)] + [fp.view(others[k]) for k in sorted(others)]
        outs = [[] for _ in sc["progs"]]
        s = R.sim([_caller(p, t, others, o) for p, o in zip(sc["progs"], outs)], sc["sched"])
        viol = _judge(sc, s, outs, solo, t, others, before, False)
    first = s
    fl = sc.get("fault")
    if not viol and fl:
        sched = R.recorded(first, sc["sched"]) if "seed" not in sc["sched"] else sc["sched"]
        if "at" not in fl:
            rec = faults.Fault(fl["kind"], record=True, names=("pool-worker",))
            t, others = operands(sc, "sparse")
            outs = [[] for _ in sc["progs"]]
            R.sim([_caller(p, t, others, o) for p, o in zip(sc["progs"], outs)], sched, fault=rec)
            pick = faults.choose(random.Random(fl["seed"]), rec.sites)
            if pick:
                fl = dict(fl, tid=pick[0], at=pick[1])
        if "at" in fl:
            f = faults.Fault(fl["kind"], at=fl["at"], tid=fl["tid"], names=("pool-worker",))
            t, others = operands(sc, "sparse")
            before = [fp.view(t)] + [fp.view(others[k]) for k in sorted(others)]
            outs = [[] for _ in sc["progs"]]
            s = R.sim([_caller(p, t, others, o) for p, o in zip(sc["progs"], outs)], sched, fault=f)
            viol = _judge(sc, s, outs, solo, t, others, before, bool(f.fired))
            if viol:
                viol["msg"] = "after %s: %s" % (f.fired, viol["msg"])
            if not viol and f.fired:
                # once the fault is over the same computation succeeds
                out2 = [[] for _ in sc["progs"]]
                s2 = R.sim([_caller(p, t, others, o) for p, o in zip(sc["progs"], out2)], dict(preempts=[], choices=[], pool=2))
                viol = _judge(sc, s2, out2, solo, t, others, before, False)
                if viol:
                    viol["class"] = "retry:" + viol["class"]
    ops = {}
    for st in steps:
        k = "%s:%s" % (st[0], st[3] if st[0] == "groupby" else st[1])
        ops[k] = ops.get(k, 0) + 1
    workers = len([t for t in (s.tasks if s else []) if t.name == "pool-worker"])
    fired = {}
    for x in (f.fired if f else []):
        fired["worker-" + x[0]] = fired.get("worker-" + x[0], 0) + 1
    sig = R.loghash(s.signature() if s else "", sc["tri"], sc["progs"], f and f.fired)
    return dict(viol=viol, sig=sig, steps=s.steps if s else 0, faults=fired, ops=ops, nontrivial=workers > 1 and bool(s.preempts or s.choices) or bool(fired),
                probes={"pool_tasks": workers, "preemptions": len(s.preempts) if s else 0, "concurrent_callers": int(len(sc["progs"]) > 1)},
                sched=R.recorded(first, sc["sched"]) if first else None,
                log=R.loghash(sig, [[fp.digest(R.outview(o)) for o in x] for x in outs], viol and viol["class"]))


def _norm(v):
    return {k: (np.nan_to_num(x) if k == ".values" and isinstance(x, np.ndarray) else x) for k, x in v.items()}


def _judge(sc, s, outs, solo, t, others, before, faulted):
    st = R.liveness(s)
    if st:
        return {"class": "liveness", "msg": st}
    failed = 0
    for k, (out, ref) in enumerate(zip(outs, solo)):
        if s.tasks[k].exc is not None:
            raise s.tasks[k].exc
        for n, (o, r) in enumerate(zip(out, ref)):
            v = R.outview(o)
            if faulted and o[0] == "exc" and isinstance(o[1], MemoryError):
                failed += 1
                continue
            d = fp.diff(r, v)
            if d:
                return {"class": "%s:%s" % ("fault" if faulted else "schedule", sc["progs"][k][n][0]),
                        "msg": "caller %d %s differs from the serial result: %s" % (k, sc["progs"][k][n], "; ".join(d))}
    if faulted and failed > 1:
        return {"class": "fault:spread", "msg": "one failing worker failed %d computations" % failed}
    now = [fp.view(t)] + [fp.view(others[k]) for k in sorted(others)]
    for b, a in zip(before, now):
        d = fp.diff(b, a)
        if d:
            return {"class": "operand", "msg": "an operand changed: %s" % "; ".join(d)}
    return None


def warm(tier):
    for n in NAMES:
        for be in ("numpy", "sparse"):
            world.tri(n, be)
    sc0 = dict(sched=dict(preempts=[], choices=[], pool=2))
    for n in ("clrd", "synth1", "quarterly"):
        for auto in (True, False):
            prog = [["groupby", a, k, g] for a, k in ((0, 0), (2, 0), (1, 0), (3, 1)) for g in ("sum", "mean")] + [
                ["arith", a, k, 1] for a in ARITH for k in (0, 2, 3)] + [["pair", a, k, 1] for a in ("add", "mul") for k in range(2)] + [["cum", k] for k in range(4)]
            run(dict(tri=n, progs=[prog], auto_sparse=auto, **sc0))
    world.cl.options.reset_option()


def shrink(sc):
    if sc.get("fault") and "at" not in sc["fault"]:
        pass
    for i in range(len(sc["progs"])):
        if len(sc["progs"]) > 1:
            yield dict(sc, progs=sc["progs"][:i] + sc["progs"][i + 1:])
        for k in range(len(sc["progs"][i])):
            if len(sc["progs"][i]) > 1:
                yield dict(sc, progs=sc["progs"][:i] + [sc["progs"][i][:k] + sc["progs"][i][k + 1:]] + sc["progs"][i + 1:])
    if sc.get("fault"):
        yield {k: v for k, v in sc.items() if k != "fault"}
    for n in ("raa", "clrd_lob", "synth1"):
        if sc["tri"] != n:
            yield dict(sc, tri=n)
