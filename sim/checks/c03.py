"""C03: a fitted estimator can be shared; predict and transform do not change it."""
from .. import world, est as E, fp, run as R, monitor

ID = "C03"
COUNT = {"quick": 600, "thorough": 40000}
RULE = ("an estimator of the catalogue is fitted once, then 1-3 callers run seeded programs of predict/transform on variants of its training data, attribute reads "
        "and downstream fits. Non-trivial: at least one pre-emption between callers, or at least two uses in sequence.")
NAMES = sorted(E.SPECS)
HOT = ["MunichAdjustment", "Mack", "CapeCod", "Bootstrap", "BerquistSherman", "ClarkLDF", "CaseOutstanding", "Voting", "Pipeline_cc"] + [
    n for n in NAMES if n.endswith(("_group", "_lob"))]


def gen(rng, tier, i):
    name = NAMES[i % len(NAMES)] if rng.random() < 0.65 else rng.choice(HOT)
    s = E.SPECS[name]
    if rng.random() < 0.4:      # one caller after another, on data of other rows, origins and ages
        vs = rng.sample(E.VARIANTS, rng.randint(2, 3)) + [rng.choice(["same", "reversed", "some", "older", "origins"])]
        progs = [[[rng.choice(["use", "use", "use", "then"]), v] for v in vs]]
        rng.shuffle(progs[0])
    else:
        nc = rng.choice([1, 2, 2, 3])
        progs = []
        for c in range(nc):
            p = []
            for k in range(rng.randint(2, 4) if nc == 1 else rng.randint(1, 2)):
                u = rng.random()
                if u < 0.6:
                    p.append(["use", rng.choice(E.VARIANTS)])
                elif u < 0.85:
                    p.append(["read", rng.choice(E.READS)])
                else:
                    p.append(["then", rng.choice(E.VARIANTS)])
            progs.append(p)
    return dict(est=name, train=rng.choice(s.trains), backend=rng.choice(["numpy", "numpy", "sparse"]), progs=progs, sched=R.gen_sched(rng))


def fitted(sc):
    X, w = E.data(sc["train"], sc["backend"])
    e = E.SPECS[sc["est"]].make()
    with monitor.suspend():
        E_ok = R.trap(lambda: R.solo(lambda: E.fit(e, sc["est"], X, w)))
    return e, X, w, E_ok


class Caller:
    def __init__(self, e, name, prog, inputs):
        self.e, self.name, self.prog, self.inputs = e, name, prog, inputs
        self.trace, self.given = [], []

    def __call__(self):
        for n, st in enumerate(self.prog):
            if st[0] == "read":
                o = R.trap(lambda: E.read(self.e, st[1]))
            else:
                X, w = self.inputs[st[1]]
                o = R.trap(lambda: self.one(st, X, w))
            v = R.outview(o)
            self.trace.append(v)
            if o[0] == "ok":
                self.given.append((n, o[1], v))

    def one(self, st, X, w):
        r = E.use(self.e, self.name, X, w)
        if st[0] == "then" and E.SPECS[self.name].kind[0] == "t":
            return (r, world.cl.Chainladder().fit(r).ultimate_)
        return r

    def changed(self):
        for n, x, v in self.given:
            d = fp.diff(v, fp.view(x))
            if d:
                return "the result of step %d (%s) changed after it was returned: %s" % (n, self.prog[n], "; ".join(d))


def inputs(sc, X, w):
    out = {}
    for v in sorted({st[1] for p in sc["progs"] for st in p if st[0] != "read"}):
        try:
            out[v] = E.variant(v, X, w)
        except Exception:
            out[v] = (X, w)
    return out


def _check(sc, e, before, ins, insv, callers, where):
    name = sc["est"]
    d = fp.diff(before, fp.view(e, props=True))
    if d:
        return {"class": "estimator:%s" % name, "msg": "%susing the fitted %s changed it: %s" % (where, name, "; ".join(d))}
    for k in insv:
        for a, b in zip(insv[k], ins[k]):
            d = fp.diff(a, fp.view(b))
            if d:
                return {"class": "input:%s" % name, "msg": "%susing the fitted %s changed the triangle it was given (%s): %s" % (where, name, k, "; ".join(d))}
    for c in callers:
        m = c.changed()
        if m:
            return {"class": "given:%s" % name, "msg": where + m}
    return None


def run(sc):
    viol, alone = None, []
    s = None
    for p in sc["progs"]:
        e, X, w, ok = fitted(sc)
        if ok[0] != "ok":
            return res(None, sc, None, [], {"unfittable": 1})
        before = fp.view(e, props=True)
        ins = inputs(sc, X, w)
        insv = {k: [fp.view(x) for x in v] for k, v in ins.items()}
        c = Caller(e, sc["est"], p, ins)
        R.solo(c)
        alone.append(c)
        viol = _check(sc, e, before, ins, insv, [c], "")
        if viol:
            return res(None, sc, viol, [c])
        if len(p) > 1:
            # each use on its own, on an estimator nobody used before, gives the same
            n = len(p) - 1
            e2, X2, w2, _ = fitted(sc)
            c2 = Caller(e2, sc["est"], p[n:], inputs(sc, X2, w2))
            R.solo(c2)
            d = fp.diff(c2.trace[0], c.trace[n])
            if d:
                return res(None, sc, {"class": "history:%s" % sc["est"], "msg": "%s after %s differs from the same on a fresh fit: %s" % (p[n], p[:n], "; ".join(d))}, [c])
    if len(sc["progs"]) > 1:
        e, X, w, ok = fitted(sc)
        before = fp.view(e, props=True)
        ins = inputs(sc, X, w)
        insv = {k: [fp.view(x) for x in v] for k, v in ins.items()}
        cs = [Caller(e, sc["est"], p, ins) for p in sc["progs"]]
        s = R.sim(cs, sc["sched"])
        st = R.liveness(s)
        if st:
            viol = {"class": "liveness", "msg": st}
        for t in s.tasks[: len(cs)]:
            if t.exc is not None and not viol:
                raise t.exc
        for c, a in zip(cs, alone):
            if viol:
                break
            for n, (x, y) in enumerate(zip(a.trace, c.trace)):
                d = fp.diff(x, y)
                if d:
                    viol = {"class": "concurrent:%s" % sc["est"], "msg": "step %d (%s) of one of %d callers sharing a fitted %s differs from its solo run: %s" % (
                        n, c.prog[n], len(cs), sc["est"], "; ".join(d))}
                    break
        viol = viol or _check(sc, e, before, ins, insv, cs, "with concurrent callers, ")
        return res(s, sc, viol, cs)
    return res(None, sc, viol, alone)


def res(s, sc, viol, cs, probes=None):
    ops = {"%s" % sc["est"]: 1}
    for p in sc["progs"]:
        for st in p:
            ops[":".join(st)] = ops.get(":".join(st), 0) + 1
    raised = sum("raises" in t for c in cs for t in c.trace)
    sig = R.loghash(s.signature() if s else "", sc["est"], sc["train"], sc["backend"], sc["progs"])
    return dict(viol=viol, sig=sig, steps=s.steps if s else 0, sched=R.recorded(s, sc["sched"]) if s else None, ops=ops,
                nontrivial=bool(s and s.preempts) or any(len(c.prog) > 1 for c in cs),
                probes=dict(probes or {}, preemptions=len(s.preempts) if s else 0, raising_steps=raised, steps_run=sum(len(c.trace) for c in cs)),
                log=R.loghash(sig, [[fp.digest(t) for t in c.trace] for c in cs], viol and viol["class"]))


def warm(tier):
    import warnings
    for n, s in E.SPECS.items():
        for be in ("numpy", "sparse"):
            for t in s.trains:
                E.data(t, be)
            sc = dict(est=n, train=s.trains[0], backend=be, progs=[[["use", "copy"], ["use", "older"]]], sched=None)
            R.trap(lambda: run(sc))


def shrink(sc):
    for i in range(len(sc["progs"])):
        if len(sc["progs"]) > 1:
            yield dict(sc, progs=sc["progs"][:i] + sc["progs"][i + 1:])
    for i, p in enumerate(sc["progs"]):
        for k in range(len(p)):
            q = p[:k] + p[k + 1:]
            if q:
                yield dict(sc, progs=sc["progs"][:i] + [q] + sc["progs"][i + 1:])
    if sc["backend"] != "numpy":
        yield dict(sc, backend="numpy")
    t = E.SPECS[sc["est"]].trains[0]
    if sc["train"] != t:
        yield dict(sc, train=t)
