"""C02: triangles are isolated values (shared operands, copies, slices, histories)."""
import random
import copy
from .. import world, fp, run as R, monitor

ID = "C02"
COUNT = {"quick": 1500, "thorough": 60000}
RULE = ("1-3 callers run seeded programs of derivations, reads and in-place edits over a family of related triangles; shared members are "
        "only read. Non-trivial: at least one pre-emption between callers, or at least one edit with a living relative.")
OPS = sorted(world.PURE)
DERIVE = ["copy", "copy", "copy", "iloc_od", "iloc", "loc", "by_origin", "by_dev", "by_val", "columns", "column", "to_numpy", "to_sparse", "deep_backend",
          "cum_to_incr", "incr_to_cum", "dev_to_val", "val_to_dev", "fillna", "trend", "sort_index", "head", "set_index", "drop", "link_ratio", "reindex",
          "neg", "add", "mul", "scalar", "shift", "grain_OYDY", "latest_diagonal", "sum", "concat", "append", "groupby", "dropna", "iloc_rev"]
EDITS = sorted(world.EDITS) + ["assign", "assign"]
INPLACE = ["iat", "at", "iloc", "iloc", "iat", "at", "overwrite", "setcol"] + sorted(world.EDITS)
# operations that hand back the operand itself when there is nothing to do are not derivations then
FAM = ["plain", "plain", "virtual", "virtual", "sub"]


def _family(sc):
    out = []
    for f in sc["family"]:
        if f["kind"] == "sub":
            out.append(world.subtri_family(f["name"], f["backend"]))
        else:
            out.append(world.tri(f["name"], f["backend"], virtual=f["kind"] == "virtual"))
    return out


def gen(rng, tier, i):
    kind = rng.choice(FAM)
    name, be = world.pick_tri(rng)
    if kind == "sub":
        name = rng.choice(["raa", "genins", "abc", "ukmotor", "mcl"])
    fam = [dict(kind=kind, name=name, backend=be)]
    if rng.random() < 0.3:
        fam.append(dict(kind="plain", name=name, backend=rng.choice(["numpy", "sparse"])))
    if rng.random() < 0.3:      # reads, an edit in place, and the same reads again (of the triangle or of a copy made in between)
        asked = [rng.choice(OPS) for _ in range(rng.randint(3, 4))]
        prog = [["derive", rng.choice(["copy", "copy", "copy"] + DERIVE), ["s", 0]]] + [["read", o, ["p", 0], ["p", 0]] for o in asked]
        last = 0
        if rng.random() < 0.35:
            prog.append(["derive", rng.choice(["copy", "copy", "iloc_od", "column", "deep_backend", "scalar"]), ["p", 0]])
            last = 1
            if rng.random() < 0.5:
                prog += [["read", o, ["p", 1], ["p", 1]] for o in asked[:2]]
        for _ in range(rng.choice([1, 1, 1, 2])):
            prog.append(["edit", rng.choice(INPLACE), rng.randrange(60), last if rng.random() < 0.7 else 0])
        prog += [["read", o, ["p", i], ["p", i]] for i in range(last + 1) for o in asked]
        return dict(family=fam[:1], auto_sparse=rng.random() < 0.6, progs=[prog], probe=[], sched=R.gen_sched(rng))
    ncall = rng.choice([1, 1, 2, 2, 3])
    progs = []
    for c in range(ncall):
        n = rng.randint(2, 8) if ncall == 1 else rng.randint(1, 4)
        prog, np_ = [], 0
        for k in range(n):
            src = ["s", rng.randrange(len(fam))] if np_ == 0 or rng.random() < 0.4 else ["p", rng.randrange(np_)]
            u = rng.random()
            if u < (0.35 if ncall == 1 else 0.25):
                prog.append(["derive", rng.choice(DERIVE), src])
                np_ += 1
            elif u < (0.7 if ncall == 1 else 0.5) and np_:
                prog.append(["edit", rng.choice(EDITS), rng.randrange(60), rng.randrange(np_)])
            else:
                oth = ["s", rng.randrange(len(fam))] if rng.random() < 0.6 or not np_ else ["p", rng.randrange(np_)]
                prog.append(["read", rng.choice(OPS), src, oth])
        progs.append(prog)
    return dict(family=fam, auto_sparse=rng.random() < 0.6, progs=progs,
                probe=[rng.choice(OPS) for _ in range(2)], sched=R.gen_sched(rng))


class Caller:
    def __init__(self, shared, prog):
        self.shared, self.prog = shared, prog
        self.priv, self.trace, self.bad, self.edits = [], [], [], 0
        self.made, self.edited, self.usedops = [], [], []

    def norm(self, r):
        if r[0] == "s" or not self.priv:
            return ["s", r[1] % len(self.shared) if r[0] == "s" else 0]
        return ["p", r[1] % len(self.priv)]

    def used(self, op, *refs):
        self.usedops += [(self.norm(r)[1], op) for r in refs if self.norm(r)[0] == "p"]

    def ref(self, r):
        if r[0] == "s":
            return self.shared[r[1] % len(self.shared)]
        return self.priv[r[1] % len(self.priv)] if self.priv else self.shared[0]

    def __call__(self):
        for n, st in enumerate(self.prog):
            if st[0] == "derive":
                src, ref = self.ref(st[2]), self.norm(st[2])
                self.used(st[1], st[2])
                o = R.trap(lambda: world.PURE[st[1]](src, src))
                self.trace.append(R.outview(o, backend=True))
                alias = [x for x in self.shared + self.priv if x is o[1]]
                if o[0] == "ok" and hasattr(o[1], "odims") and not alias:
                    self.made.append((n, st[1], ref, False))
                    self.priv.append(o[1])
                else:
                    self.made.append((n, st[1], ref, True))
                    with monitor.suspend():
                        self.priv.append(copy.deepcopy(src))
            elif st[0] == "edit":
                if not self.priv:
                    continue
                t = self.priv[st[3] % len(self.priv)]
                others = [(("shared", i), x) for i, x in enumerate(self.shared)] + [
                    (("private", i), x) for i, x in enumerate(self.priv) if x is not t]
                f, other = world.EDITS.get(st[1]), None
                if f is None:
                    w = others[st[2] % len(others)][0] if others else None
                    other = w and [w[0][0], w[1]]
                    with monitor.suspend():
                        src = others[st[2] % len(others)][1] if others else t
                        x = src.iloc[:, st[2] % src.shape[1]]
                    others.append((("assigned", 0), x))
                    cols = list(t.columns) + ["asg"]
                    f = lambda t, k: t.__setitem__(cols[k % len(cols)], x)
                before = [fp.view(x) for _, x in others]
                o = R.trap(lambda: f(t, st[2]))
                self.edits += 1
                self.edited.append((n, st[3] % len(self.priv), st[1], st[2], other))
                for (w, x), b in zip(others, before):
                    d = fp.diff(b, fp.view(x))
                    if d:
                        self.bad.append(("edit", st[1], "editing one triangle (%s) changed a relative (%s %d): %s" % (st[1], w[0], w[1], "; ".join(d))))
                self.trace.append({"raises": type(o[1]).__name__} if o[0] == "exc" else fp.view(t))
            else:
                src, oth = self.ref(st[2]), self.ref(st[3])
                self.used(st[1], st[2])
                b1, b2 = fp.view(src), fp.view(oth)
                o = R.trap(lambda: world.PURE[st[1]](src, oth))
                self.trace.append(R.outview(o))
                for x, b in ((src, b1), (oth, b2)):
                    d = fp.diff(b, fp.view(x))
                    if d:
                        self.bad.append(("read", st[1], "%s changed its operand: %s" % (st[1], "; ".join(d))))
        return self

    def finals(self):
        return [fp.view(x) for x in self.priv]


def _fresh(sc, made, ref, upto):
    """The triangle `ref` as of step `upto`, rebuilt by nothing but its own making and edits."""
    if ref[0] == "s" or not made:
        return _family(sc)[ref[1] % len(sc["family"]) if ref[0] == "s" else 0]
    k, op, src, alias = made[ref[1]]
    x = _fresh(sc, made, src, k)
    if alias:
        x = copy.deepcopy(x)
    else:
        x = R.trap(lambda: world.PURE[op](x, x))[1]
    for n, tgt, name, num, other in sc["_edits"]:
        if k < n < upto and tgt == ref[1]:
            f = world.EDITS.get(name)
            if f is None:
                y = _fresh(sc, made, other, n) if other else x
                y = y.iloc[:, num % y.shape[1]]
                f = lambda t, q, y=y: t.__setitem__((list(t.columns) + ["asg"])[q % (len(t.columns) + 1)], y)
            R.trap(lambda: f(x, num))
    return x


def _own_history(sc, prog, a):
    sc = dict(sc, _edits=a.edited)
    for i in sorted({e[1] for e in a.edited}):
        x, y = a.priv[i], _fresh(sc, a.made, ["p", i], len(prog))
        d = fp.diff(fp.view(y), fp.view(x))
        if d:
            return {"class": "history", "msg": "triangle %d differs from the same made alone: %s" % (i, "; ".join(d))}
        used = [op for j, op in a.usedops if j == i]
        for op in list(dict.fromkeys(used))[:6] + sc.get("probe", []):
            d = fp.diff(R.outview(R.trap(lambda: world.PURE[op](y, y))), R.outview(R.trap(lambda: world.PURE[op](x, x))))
            if d:
                return {"class": "history:%s" % op, "msg": "%s of triangle %d (edited %s) differs from %s of the same triangle made alone: %s" % (
                    op, i, [e[2] for e in a.edited if e[1] == i], op, "; ".join(d))}


def run(sc):
    world.cl.options.set_option('AUTO_SPARSE', sc.get('auto_sparse', True))
    alone = []
    for prog in sc["progs"]:
        fam = _family(sc)
        c = Caller(fam, prog)
        R.solo(c)
        alone.append(c)
        if c.bad:
            k = c.bad[0]
            return res(None, sc, dict({"class": "%s:%s" % (k[0], k[1]), "msg": k[2]}), [c], None)
    # a triangle is what its own making and edits made it, whatever else was done to or read from it and its relatives
    viol = None
    for prog, a in zip(sc["progs"], alone):
        if viol or not any(st[0] == "edit" for st in prog):
            continue
        viol = R.solo(lambda: _own_history(sc, prog, a))
    if viol or len(sc["progs"]) == 1:
        return res(None, sc, viol, alone, None)
    fam = _family(sc)
    before = [fp.view(x) for x in fam]
    cs = [Caller(fam, p) for p in sc["progs"]]
    s = R.sim(cs, sc["sched"])
    st = R.liveness(s)
    if st:
        viol = {"class": "liveness", "msg": st}
    for c, a, t in zip(cs, alone, s.tasks):
        if viol:
            break
        if t.exc is not None and not viol:
            raise t.exc
        if c.bad:
            viol = {"class": "%s:%s" % c.bad[0][:2], "msg": "with concurrent callers, " + c.bad[0][2]}
            break
        for n, (x, y) in enumerate(zip(a.trace, c.trace)):
            d = fp.diff(x, y)
            if d:
                what = [q for q in c.prog][min(n, len(c.prog) - 1)]
                viol = {"class": "concurrent:%s" % what[1], "msg": "caller %s step %d (%s) differs from its solo run: %s" % (t.name, n, what[1], "; ".join(d))}
                break
        if not viol:
            for i, (x, y) in enumerate(zip(a.finals(), c.finals())):
                d = fp.diff(x, y)
                if d:
                    viol = {"class": "concurrent:final", "msg": "caller %s: its private triangle %d differs from the solo run: %s" % (t.name, i, "; ".join(d))}
    if not viol:
        for i, (b, x) in enumerate(zip(before, fam)):
            d = fp.diff(b, fp.view(x))
            if d:
                viol = {"class": "shared", "msg": "a triangle that was only read changed: %s" % "; ".join(d)}
    return res(s, sc, viol, cs, R.recorded(s, sc["sched"]))


def res(s, sc, viol, cs, sched):
    ops = {}
    for p in sc["progs"]:
        for st in p:
            ops[st[0] + ":" + st[1]] = ops.get(st[0] + ":" + st[1], 0) + 1
    sig = R.loghash(s.signature() if s else "", sc["family"], sc["progs"])
    return dict(viol=viol, sig=sig, steps=s.steps if s else 0, sched=sched,
                nontrivial=bool(s and s.preempts) or any(c.edits for c in cs), ops=ops,
                probes={"preemptions": len(s.preempts) if s else 0, "edits": sum(c.edits for c in cs), "pool_tasks": max(0, len(s.tasks) - len(sc["progs"])) if s else 0},
                log=R.loghash(sig, [[fp.digest(t) for t in c.trace] for c in cs], viol and viol["class"]))


def warm(tier):
    for be in ("numpy", "sparse"):
        for n in ("raa", "clrd", "synth1", "quarterly"):
            t = world.tri(n, be)
            for op in OPS:
                R.solo(lambda: R.trap(lambda: world.PURE[op](t, t.copy())))
    for n in world.TRIS:
        for be in ("numpy", "sparse"):
            world.tri(n, be)
    for n in ["raa", "genins", "abc", "ukmotor", "mcl"]:
        world.subtri_family(n)


def shrink(sc):
    for i in range(len(sc["progs"])):
        if len(sc["progs"]) > 1:
            yield dict(sc, progs=sc["progs"][:i] + sc["progs"][i + 1:])
    for i, p in enumerate(sc["progs"]):
        for k in range(len(p)):
            q = p[:k] + p[k + 1:]
            if q:
                yield dict(sc, progs=sc["progs"][:i] + [q] + sc["progs"][i + 1:])
    if len(sc["family"]) > 1:
        yield dict(sc, family=sc["family"][:1])
    if sc["family"][0]["name"] != "raa":
        yield dict(sc, family=[dict(f, name="raa") for f in sc["family"]])

