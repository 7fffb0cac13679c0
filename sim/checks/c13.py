"""C13: a pipeline equals its steps run by hand, with or without a cache, cold, warm or damaged."""
import copy, os, random, shutil, warnings
import numpy as np
from sklearn.base import clone
from .. import world, est as E, fp, run as R, monitor, simfs, faults
from ..world import cl

ID = "C13"
COUNT = {"quick": 210, "thorough": 30000}
RULE = ("a seeded history of 2-7 fits and uses of 1-3 pipelines (chains of 1-4 steps of the package, removed and passed-through steps, neighbouring parameter values) on 1-3 nearly alike triangles, without a "
        "cache or sharing one cache directory by name or by Memory object, in one or several processes one after the other, or two callers at once; between fits cache files are lost, emptied, cut short "
        "or overwritten; pipelines fitted earlier are applied again to triangles edited in between, or retuned and fitted again; during fits the file layer answers with short writes, errors, no space or a crash of the process, and steps fail (allocations, interrupts). Every result against the "
        "steps run by hand on clones without a cache. Non-trivial: a result came after a cache was filled, or a fault fired.")
MEASURE = "hash of chains, data, history, outcomes and faults fired"
REAL = ["chainladder (all)", "scikit-learn's Pipeline", "joblib.Memory and its store"]
STUB = ["the raw file layer under the cache directory", "process restart: joblib's in-process state is dropped", "the clock joblib notes in its metadata"]
ASSUME = ["joblib keeps no checksums: cache files are lost, cut short or replaced by something unreadable, not altered into other valid data", "a cut-short func_code.py is left empty: joblib itself cannot parse a shorter one"]

# chain templates: (steps, data, weighted); a step is [name, spec or None/"passthrough", tweaks or None]
DEV = ["Development", "Development_simple", "Development_drop", "Development_reg"]
TAIL = ["TailCurve", "TailConstant", "TailConstant_att"]
TWEAK = {"Development": [{"n_periods": 5}, {"n_periods": 4}, {"average": "simple"}, {"drop_high": True}], "Development_simple": [{"n_periods": 5}],
         "TailConstant": [{"tail": 1.0500001}, {"decay": 0.7}, {"tail": 1.2}], "TailCurve": [{"curve": "inverse_power"}, {"extrap_periods": 60}],
         "BF": [{"apriori": 0.71}], "CapeCod": [{"trend": 0.03}, {"decay": 1.0}], "Benktander": [{"n_iters": 2}], "Trend": [{"trends": 0.031}], "ExpectedLoss": [{"apriori": 0.9}],
         "Bootstrap": [{"random_state": 12}, {"n_sims": 9}], "DevConstant": [{"style": "cdf"}], "MunichAdjustment": [{"fillna": True}], "ClarkLDF": [{"growth": "weibull"}],
         "CaseOutstanding": [{"paid_n_periods": 4}], "IncrementalAdditive": [{"trend": 0.03}, {"future_trend": 0.0}], "TweedieGLM": [{"power": 1.5}], "Chainladder": [], "Mack": []}
SPECIAL = [(["IncrementalAdditive", "CapeCod"], "ia", True), (["CaseOutstanding", "Chainladder"], "mcl", False), (["Development", "MunichAdjustment", "Chainladder"], "mcl", False),
           (["Development", "MunichAdjustment", "TailConstant", "Chainladder"], "mcl", False), (["ClarkLDF", "Chainladder"], "genins", False), (["ClarkLDF_cc", "BF"], "genins", True),
           (["Bootstrap", "Development", "BF"], "raa", True), (["Bootstrap", "Development", "TailConstant", "Chainladder"], "genins", False), (["TweedieGLM", "Chainladder"], "genins", False),
           (["BerquistSherman", "Development", "Chainladder"], "berq", False), (["DevelopmentML", "Chainladder"], "genins", False), (["Parallelogram"], "prem", False),
           (["Development_group", "Chainladder"], "cos", False), (["Development", "TailConstant", "CapeCod_group"], "cos", True)]
FAIL = {"write": ["enospc", "eio", "edquot", "mem", "int", "crash", "crash"], "open": ["eio", "enospc", "crash"], "close": ["eio", "enospc", "crash"], "read": ["eio", "mem", "int"],
        "replace": ["eio", "crash"]}


def gen_chain(rng):
    if rng.random() < 0.25:
        names, data, w = rng.choice(SPECIAL)
        steps = [[n, n] for n in names]
    else:
        data = rng.choice(["raa", "genins", "abc", "lob", "raa", "quarterly"])
        w = rng.random() < 0.5
        steps = [["Trend"]] if w and data in ("raa", "lob", "abc") and rng.random() < 0.2 else []
        steps.append([rng.choice([d for d in DEV if data in E.SPECS[d].trains] + (["DevConstant"] if data in ("raa", "genins") else []))])
        if rng.random() < 0.55:
            steps.append([rng.choice([t for t in TAIL if data in E.SPECS[t].trains])])
        u = rng.random()
        if u < 0.85:
            ok = ["BF", "Benktander", "CapeCod", "ExpectedLoss", "BF_sigma"] if w else ["Chainladder", "Mack"]
            ok = [m for m in ok if data in E.SPECS[m].trains and (m != "Mack" or (len(steps) > 1 and steps[-2][0] != "DevConstant"))] or ["Chainladder"]
            steps.append([rng.choice(ok)])
        steps = [[s[0], s[0]] for s in steps]
        if rng.random() < 0.15:
            steps.insert(rng.randrange(len(steps)), ["gone", rng.choice([None, "passthrough"])])
    steps = [[("s%d" % i if rng.random() < 0.3 else n.lower()), s, rng.choice(TWEAK[s]) if TWEAK.get(s) and rng.random() < 0.3 else None] for i, (n, s) in enumerate(steps)]
    return dict(steps=steps, data=data, w=w)


def neighbour(rng, c):
    """The same chain with one parameter changed, or one step fewer."""
    c = copy.deepcopy(c)
    ks = [i for i, s in enumerate(c["steps"]) if TWEAK.get(s[1])]
    if ks:
        i = rng.choice(ks)
        c["steps"][i][2] = rng.choice(TWEAK[c["steps"][i][1]])
    return c


DT = ["same", "same", "cell", "cols", "scaled", "older", "sparse", "developed", "index", "origins"]


def gen_fault(rng):
    u = rng.random()
    if u < 0.5:
        op = rng.choice(["write", "write", "write", "open", "close", "read", "read", "replace"])
        soft = op in ("write", "read") and rng.random() < 0.3
        return dict(kind="fs", op=op, at=rng.random(), what=rng.choice(["short", "eintr"] if soft else FAIL[op]), arg=rng.random())
    return dict(kind=rng.choice(["mem", "mem", "int", "memline"]), at=rng.random(), seed=rng.getrandbits(30))


def gen(rng, tier, i):
    c = gen_chain(rng)
    chains = [c]
    while len(chains) < 3 and rng.random() < 0.5:
        chains.append(neighbour(rng, rng.choice(chains)))
    datas = [["same", "numpy"]]
    while len(datas) < 3 and rng.random() < 0.6:
        datas.append([rng.choice(DT), rng.choice(["numpy", "numpy", "sparse"])])
    mem = rng.choice(["none", "dir", "dir", "dir", "obj", "obj", "mixed"])
    ev = []
    for k in range(rng.randint(2, 7)):
        u = rng.random()
        one = lambda: [rng.randrange(len(chains)), rng.randrange(len(datas)), rng.randrange(len(datas)), rng.choice(["fit", "fit", "fit", "fit_predict", "fit_transform", "refit"]), rng.random() < 0.75]
        if u < 0.62 or k == 0:
            ev.append(["fit"] + one() + [gen_fault(rng) if rng.random() < 0.3 else None])
        elif u < 0.70:
            ev.append(["again", rng.random(), [[rng.randrange(len(datas)), rng.random() < 0.5, rng.random() < 0.5, rng.random() < 0.45] for _ in range(rng.randint(1, 4))]])
        elif u < 0.76:
            ev.append(["retune", rng.random(), rng.randrange(len(chains))] + one()[1:3] + [rng.choice(["params", "steps"])])
        elif u < 0.84:
            ev.append(["damage", rng.choice(["lost", "empty", "cut", "cut", "garbage", "dir", "all", "func"]), rng.random(), rng.random()])
        elif u < 0.92:
            ev.append(["restart"])
        else:
            ev.append(["pair", one(), one()])
    if ev[-1][0] in ("damage", "restart"):
        ev.append(["fit"] + one() + [None])
    if mem in ("none", "mixed") and any(e[0] == "damage" or (e[0] == "fit" and e[-1] and e[-1]["kind"] == "fs") for e in ev):
        mem = rng.choice(["dir", "obj"])
    return dict(chains=chains, datas=datas, mem=mem, ev=ev, bufsize=rng.choice([None, None, 512, 65536]), sched=R.gen_sched(rng, ps=(0.0, 0.003, 0.02, 0.1)))


def build(c):
    out = []
    for n, s, tw in c["steps"]:
        if s in (None, "passthrough"):
            out.append((n, s))
            continue
        e = E.SPECS[s].make()
        if tw:
            e.set_params(**tw)
        out.append((n, e))
    return out


def material(c, d):
    X, w = E.data(c["data"], "numpy")
    kind, be = d
    with monitor.suspend():
        X, w = _tweak(X, w, kind)
        if be == "sparse" or kind == "sparse":
            X = X.set_backend("sparse")
        return X, (w if c["w"] else None)


def _tweak(X, w, kind):
    if kind == "cell":
        X = copy.deepcopy(X)
        v = X.values.copy()
        v[0, 0, 0, 0] = v[0, 0, 0, 0] * (1 + 1e-6)
        X.values = v
    elif kind == "cols" and len(X.columns) == 1:
        X = X.rename("columns", ["renamed"])
        if w is not None:
            w = w.rename("columns", ["renamed"])
    elif kind == "index" and len(X) > 1:
        X, w = X.iloc[::-1], (None if w is None else w.iloc[::-1])
    elif kind in ("scaled", "older", "developed", "origins"):
        X, w = E.variant(kind, X, w)
    return X, w


def live(steps):
    return [(n, e) for n, e in steps if e not in (None, "passthrough")]


def apply(last, V, w, kw):
    if hasattr(last, "predict"):
        return last.predict(V, **(dict(sample_weight=w) if kw else {}))
    return last.transform(V)


def byhand(c, X, w, V, vw, how, use):
    """The steps one after the other.  Returns (fitted steps, result of fit call, result of use)."""
    steps = [(n, e if e in (None, "passthrough") else clone(e)) for n, e in build(c)]
    kw = {} if w is None else dict(sample_weight=w)
    t = X
    names = live(steps)
    if steps[-1][1] in (None, "passthrough"):
        names = names + [(None, None)]
    for n, e in names[:-1]:
        t = e.fit(t, **kw).transform(t)
    last = names[-1][1]
    out = None
    if last is not None:
        last.fit(t, **kw)
        if how == "fit_predict":
            out = apply(last, walk(names, X), w, w is not None)
        elif how == "fit_transform":
            out = last.transform(t) if hasattr(last, "transform") else None
    used = None
    if use:
        used = apply(last, walk(names, V), vw, vw is not None)
    return names, out, used


def walk(names, V):
    for n, e in names[:-1]:
        V = e.transform(V)
    return V


def viewsteps(names):
    return {"%s.%s" % (n, k): x for n, e in names if e is not None for k, x in fp.view(e).items()}


class Run:
    def __init__(self, sc, fs):
        self.sc, self.fs, self.viol, self.faults, self.trace, self.ref = sc, fs, None, {}, [], {}
        self.dir = fs.path("cache")
        self.pipes, self.living = [], {}
        self.mems, self.sched, self.filled, self.after, self.nt = {}, None, False, 0, False

    def bad(self, c, m):
        if not self.viol:
            self.viol = {"class": c, "msg": m}

    def memory(self):
        k = self.sc["mem"]
        if k == "mixed":
            k = ["none", "dir", "obj"][len(self.trace) % 3]
        if k == "none":
            return None
        if k == "dir":
            return self.dir
        if "m" not in self.mems:
            import joblib
            self.mems["m"] = joblib.Memory(self.dir, verbose=0)
        return self.mems["m"]

    def want(self, one):
        ci, di, vi, how, use = one
        how = "fit" if how == "refit" else how
        key = repr((self.sc["chains"][ci], self.sc["datas"][di], self.sc["datas"][vi] if use else None, how))
        if key not in self.ref:
            c = self.sc["chains"][ci]
            X, w = material(c, self.sc["datas"][di])
            V, vw = material(c, self.sc["datas"][vi])

            def go():
                names, out, used = byhand(c, X, w, V, vw, how, use)
                return dict(steps=viewsteps(names), out=fp.view(out), used=fp.view(used))
            self.ref[key] = R.trap(lambda: R.solo(go))
        return self.ref[key]

    def attempt(self, one, pipe=None):
        """What a pipeline does: (callable, inputs before)."""
        ci, di, vi, how, use = one
        c = self.sc["chains"][ci]
        with monitor.suspend():
            X, w = material(c, self.sc["datas"][di])
            V, vw = material(c, self.sc["datas"][vi])
            before = fp.view([X, w, V, vw])
        kw = {} if w is None else dict(sample_weight=w)
        p = pipe or cl.Pipeline(build(c), memory=self.memory())

        def go():
            out = None
            if how == "fit_predict" and hasattr(p.steps[-1][1], "predict"):
                out = p.fit_predict(X, **kw)
            elif how == "fit_transform" and hasattr(p.steps[-1][1], "transform") and not kw:
                out = p.fit_transform(X)
            else:
                if how == "refit":
                    p.fit(X, **kw)
                q = p.fit(X, **kw)
                if q is not p:
                    raise AssertionError("fit returned something else than the pipeline")
                if how == "fit_predict":
                    out = p.transform(X)
                elif how == "fit_transform":
                    out = p[-1].transform(walk(live(p.steps), X)) if hasattr(p.steps[-1][1], "transform") else None
            used = None
            if use:
                used = p.predict(V, **({} if vw is None else dict(sample_weight=vw))) if hasattr(p.steps[-1][1], "predict") else p.transform(V)
            return out, used
        return p, go, (lambda: fp.diff(before, fp.view([X, w, V, vw])))

    def judge(self, one, p, o, faulty, what):
        w = self.want(one)
        if o[0] == "exc":
            if w[0] == "ok" and not faulty:
                self.bad("raises", "%s raised %r, the steps by hand do not" % (what, o[1]))
            return
        if w[0] == "exc":
            return self.bad("hand-raises", "%s gave a result, the steps by hand raise %r" % (what, w[1]))
        out, used = o[1]
        for n, a, b in (("steps", w[1]["steps"], viewsteps(live(p.steps))), ("out", w[1]["out"], fp.view(out)), ("used", w[1]["used"], fp.view(used))):
            d = fp.diff(a, b, rtol=1e-9, atol=1e-9)
            if d:
                return self.bad("differs:" + n, "%s: %s differ from the steps by hand: %s" % (what, {"steps": "fitted steps", "out": "results", "used": "predictions"}[n], "; ".join(d)))

    def fit(self, st):
        one, f = st[1:6], st[6]
        what = "%s of %s on %s, then %s (cache: %s)" % (one[3], self.sc["chains"][one[0]], self.sc["datas"][one[1]], self.sc["datas"][one[2]] if one[4] else "nothing", self.sc["mem"])
        self.want(one)
        if f is not None:
            self.faulted(one, f, what)
            if self.viol:
                return
        p, go, changed = self.attempt(one)
        self.fs.arm()
        o = R.trap(lambda: R.solo(go))
        self.judge(one, p, o, False, what + (", once more after a fault," if f else ""))
        d = changed()
        if d:
            self.bad("inputs", "%s changed what it was given: %s" % (what, "; ".join(d)))
        self.trace.append(["fit", o[0]])
        if o[0] == "ok":
            self.pipes.append([p, one])
        self.nt |= self.filled
        self.filled |= self.sc["mem"] != "none"

    def again(self, st):
        """A pipeline fitted earlier is applied to triangles that live on and are edited in place between its uses."""
        if not self.pipes:
            return
        p, one = self.pipes[int(st[1] * len(self.pipes))]
        c = self.sc["chains"][one[0]]
        X, w = material(c, self.sc["datas"][one[1]])
        o = R.trap(lambda: R.solo(lambda: byhand(c, X, w, X, w, "fit", False)[0]))
        if o[0] != "ok":
            return
        hand = o[1]
        for vi, edit, neww, *re in st[2]:
            key = (vi, c["data"], c["w"])
            with monitor.suspend():
                if key not in self.living:
                    self.living[key] = [*material(c, self.sc["datas"][vi]), 0]
                lv = self.living[key]
                if edit and lv[0].array_backend == "numpy":
                    lv[2] += 1
                    lv[0].iloc[0, 0, 0, 0] = 1000.0 + 37.0 * lv[2]
                elif edit:
                    lv[0] = lv[0] * 1.01
                if neww and lv[1] is not None:
                    lv[1] = lv[1] * 1.05
                V, vw = copy.deepcopy(lv[0]), copy.deepcopy(lv[1])
            kw = {} if vw is None else dict(sample_weight=lv[1])
            if re and re[0]:
                # ... or fitted again on it (after which `one` no longer describes it)
                self.pipes = [x for x in self.pipes if x[0] is not p]
                m = R.trap(lambda: R.solo(lambda: byhand(c, copy.deepcopy(V), copy.deepcopy(vw), V, vw, "fit", False)[0]))
                f = R.trap(lambda: R.solo(lambda: p.fit(lv[0], **kw)))
                self.trace.append(["refit", m[0], f[0]])
                if m[0] != f[0]:
                    return self.bad("refit", "fitting the pipeline again: %r; the steps by hand: %r" % (f[1] if f[0] == "exc" else "fitted", m[1] if m[0] == "exc" else "fitted"))
                if m[0] != "ok":
                    return
                hand = m[1]
                d = fp.diff(viewsteps(hand), viewsteps(live(p.steps)), rtol=1e-9, atol=1e-9)
                if d:
                    return self.bad("refit", "%s fitted again (%s%s) differs from the steps by hand: %s" % (c, "triangle edited in place, " if edit else "", "new exposure" if neww else "", "; ".join(d)))
            a = R.trap(lambda: R.solo(lambda: fp.view(apply(hand[-1][1], walk(hand, V), vw, vw is not None) if hand[-1][1] is not None else walk(hand, V))))
            b = R.trap(lambda: R.solo(lambda: fp.view(p.predict(lv[0], **kw) if hasattr(p.steps[-1][1], "predict") else p.transform(lv[0]))))
            self.trace.append(["again", a[0], b[0]])
            if a[0] != b[0]:
                return self.bad("again", "applying the pipeline once more: %r; the steps by hand: %r" % (b[1] if b[0] == "exc" else "a result", a[1] if a[0] == "exc" else "a result"))
            d = a[0] == "ok" and fp.diff(a[1], b[1], rtol=1e-9, atol=1e-9)
            if d:
                return self.bad("again", "%s applied once more (%s%s) differs from the steps by hand: %s" % (c, "triangle edited in place, " if edit else "", "new exposure" if neww else "", "; ".join(d)))

    def retune(self, st):
        """A fitted pipeline is given other parameters or other steps and fitted again."""
        if not self.pipes:
            return
        _, k, cj, di, vi, mode = st
        it = self.pipes[int(k * len(self.pipes))]
        p, old = it
        a, b = self.sc["chains"][old[0]], self.sc["chains"][cj]
        if [s[:2] for s in a["steps"]] != [s[:2] for s in b["steps"]]:
            return
        one = [cj, di, vi, "fit", True]
        self.want(one)
        new = dict(build(b))
        if mode == "steps":
            p.set_params(**new)
        else:
            p.set_params(**{"%s__%s" % (n, q): v for n, e in new.items() if e not in (None, "passthrough") for q, v in e.get_params(deep=False).items()})
        p, go, changed = self.attempt(one, p)
        self.fs.arm()
        o = R.trap(lambda: R.solo(go))
        self.judge(one, p, o, False, "a pipeline of %s given the %s of %s and fitted again" % (a, mode, b))
        if changed():
            self.bad("inputs", "fitting again changed what it was given: %s" % "; ".join(changed()))
        self.trace.append(["retune", mode, o[0]])
        it[1] = one
        if o[0] != "ok":
            self.pipes.remove(it)
        self.nt |= self.filled

    def faulted(self, one, f, what):
        fault, plan = None, {}
        if f["kind"] == "fs":
            if self.sc["mem"] == "none":
                return
            # a dry pass over a copy of the cache tells how many calls there are
            self.save()
            p, go, _ = self.attempt(one)
            self.fs.arm()
            R.trap(lambda: R.solo(go))
            n = self.fs.n.get(f["op"], 0)
            self.restore()
            if not n:
                return
            plan = {(f["op"], int(f["at"] * n)): (f["what"], f["arg"])}
        else:
            rec = faults.Fault(f["kind"], record=True)
            self.save()
            p, go, _ = self.attempt(one)
            R.trap(lambda: R.solo(go, fault=rec))
            self.restore()
            pick = faults.choose(random.Random(f["seed"]), rec.sites)
            if pick is None:
                return
            fault = faults.Fault(f["kind"], at=pick[1])
        p, go, changed = self.attempt(one)
        self.fs.arm(plan)
        try:
            o = R.trap(lambda: R.solo(go, fault=fault))
        except simfs.Crash:
            o = ("crash", None)
        fired = list(self.fs.fired) + ([x[0] for x in fault.fired] if fault else [])
        if self.fs.gone:
            o = ("crash", None)
        self.fs.forget()
        self.fs.arm()
        for k in fired:
            self.faults[k] = self.faults.get(k, 0) + 1
        hard = [k for k in fired if not k.endswith(("_short", "_eintr"))]
        self.trace.append(["faulted", o[0], fired])
        if o[0] == "crash":
            self.restart()
        else:
            self.judge(one, p, o, bool(hard), what + " under " + ",".join(fired))
            d = changed()
            if d and not (fault and f["kind"] != "mem"):
                self.bad("inputs", "%s under %s changed what it was given: %s" % (what, ",".join(fired), "; ".join(d)))
        self.tidy()

    def save(self):
        self.keep = None
        if os.path.isdir(self.dir):
            self.keep = self.fs.path("keep")
            shutil.copytree(self.dir, self.keep)

    def restore(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        if self.keep:
            os.rename(self.keep, self.dir)
        forget()

    def restart(self):
        forget()
        self.mems.clear()

    def tidy(self):
        for r, _, fs in os.walk(self.dir):
            if "func_code.py" in fs and 0 < os.path.getsize(os.path.join(r, "func_code.py")) < 64:
                with open(os.path.join(r, "func_code.py"), "w"):
                    pass

    def damage(self, st):
        _, kind, a, b = st
        if not os.path.isdir(self.dir):
            return
        if kind == "all":
            shutil.rmtree(self.dir)
            self.faults["cache_lost"] = self.faults.get("cache_lost", 0) + 1
            return
        fl = sorted(os.path.join(r, f) for r, _, fs in os.walk(self.dir) for f in fs)
        fl = [f for f in fl if os.path.basename(f) == "func_code.py"] if kind == "func" else [f for f in fl if os.path.basename(f) != "func_code.py"]
        if not fl:
            return
        f = fl[int(a * len(fl))]
        n = os.path.getsize(f)
        if kind == "func" or kind == "lost":
            os.remove(f)
        elif kind == "dir":
            shutil.rmtree(os.path.dirname(f))
        elif kind == "empty":
            with open(f, "wb"):
                pass
        elif kind == "cut":
            with open(f, "r+b") as h:
                h.truncate(int(b * n))
        else:
            with open(f, "r+b") as h:
                h.write(b"\x00\xffgarbage"[: max(1, n)])
        self.faults["cache_" + kind] = self.faults.get("cache_" + kind, 0) + 1
        self.trace.append(["damage", kind, len(fl)])

    def pair(self, st):
        a, b = st[1], st[2]
        outs, at = [None, None], []
        for k, one in enumerate((a, b)):
            self.want(one)
            at.append(self.attempt(one))

        def call(k):
            def go():
                outs[k] = R.trap(at[k][1])
            return go
        self.fs.arm()
        s = R.sim([call(0), call(1)], self.sc["sched"])
        self.sched = s
        if R.liveness(s):
            return self.bad("liveness", R.liveness(s))
        for k, one in enumerate((a, b)):
            if outs[k] is None:
                raise s.tasks[k].exc
            self.judge(one, at[k][0], outs[k], False, "%s of %s on %s, together with another caller," % (one[3], self.sc["chains"][one[0]], self.sc["datas"][one[1]]))
            d = at[k][2]()
            if d:
                self.bad("inputs", "a fit changed what it was given: %s" % "; ".join(d))
        self.trace.append(["pair", outs[0][0], outs[1][0], s.preempts])
        self.nt |= self.filled or bool(s.preempts)
        self.filled |= self.sc["mem"] != "none"

    def go(self):
        for st in self.sc["ev"]:
            if self.viol:
                return
            if st[0] == "restart":
                self.restart()
                self.faults["restart"] = self.faults.get("restart", 0) + 1
                self.trace.append("restart")
            else:
                {"fit": self.fit, "damage": self.damage, "pair": self.pair, "again": self.again, "retune": self.retune}[st[0]](st)


def forget():
    import joblib.memory
    joblib.memory._FUNCTION_HASHES.clear()


_seam = False


def seam():
    """joblib binds open and rename when it is imported: route its store through the simulated file layer."""
    global _seam
    if _seam:
        return
    _seam = True
    import logging
    logging.disable(logging.CRITICAL)
    import builtins, joblib.memory, joblib._store_backends as B

    class Clock:
        def __getattr__(self, k):
            import time
            return getattr(time, k)

        def time(self):
            return 1e9
    simfs.install()
    B.FileSystemStoreBackend._open_item = staticmethod(lambda *a, **k: builtins.open(*a, **k))
    B.FileSystemStoreBackend._move_item = staticmethod(lambda a, b: os.replace(a, b))
    joblib.memory.time = Clock()


def run(sc):
    seam()
    forget()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with simfs.SimFS() as fs:
            fs.bufsize = sc["bufsize"]
            r = Run(sc, fs)
            r.go()
    ops = {}
    for st in sc["ev"]:
        ops[st[0]] = ops.get(st[0], 0) + 1
    for c in sc["chains"]:
        for n, s, t in c["steps"]:
            ops["step:%s" % s] = ops.get("step:%s" % s, 0) + 1
    s = r.sched
    sig = R.loghash(sc["chains"], sc["datas"], sc["mem"], sc["ev"], r.trace)
    return dict(viol=r.viol, sig=sig, steps=(s.steps if s else 0) + len(r.trace), faults=r.faults, ops=ops, nontrivial=bool(r.nt or r.faults),
                probes={"hand_raises": sum(v[0] == "exc" for v in r.ref.values()), "references": len(r.ref), "crashed": sum(t[1] == "crash" for t in r.trace if len(t) > 1), "raised_under_fault": sum(t[0] == "faulted" and t[1] == "exc" for t in r.trace)},
                sched=R.recorded(s, sc["sched"]) if s else None, log=R.loghash(sig, r.viol and r.viol["class"]))


def warm(tier):
    seam()
    for n in sorted(E._DATA):
        E._data(n, "numpy")


def shrink(sc):
    for i in range(len(sc["ev"])):
        if len(sc["ev"]) > 1:
            yield dict(sc, ev=sc["ev"][:i] + sc["ev"][i + 1:])
    for i, st in enumerate(sc["ev"]):
        if st[0] == "fit" and st[-1] is not None:
            yield dict(sc, ev=sc["ev"][:i] + [st[:-1] + [None]] + sc["ev"][i + 1:])
        if st[0] == "fit" and st[5]:
            yield dict(sc, ev=sc["ev"][:i] + [st[:5] + [False] + st[6:]] + sc["ev"][i + 1:])
    if sc["mem"] != "none":
        yield dict(sc, mem="none")
    for i, c in enumerate(sc["chains"]):
        for k in range(len(c["steps"])):
            if len(c["steps"]) > 1:
                yield dict(sc, chains=sc["chains"][:i] + [dict(c, steps=c["steps"][:k] + c["steps"][k + 1:])] + sc["chains"][i + 1:])
