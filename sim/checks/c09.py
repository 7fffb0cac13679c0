"""C09: saved triangles and estimators are durable - the right data comes back, or an error."""
import os, pathlib, random
import numpy as np
from .. import world, est as E, fp, run as R, monitor, simfs
from ..world import cl

ID = "C09"
COUNT = {"quick": 1500, "thorough": 100000}
RULE = ("a seeded history of saves (pickle, CSV), loads, edits, crashes and reads of bundled samples over 1-3 files and 1-3 triangles or estimators, by one caller or two at once, with storage faults "
        "at operations drawn from a recorded fault-free pass: short and interrupted writes and reads, no space (one call or from a byte onwards), I/O errors, failing opens, closes that fail "
        "and lose data, failed allocations and interrupts inside the file layer, and process crashes after any prefix of the bytes. Non-trivial: a fault fired.")
MEASURE = "hash of objects, history and the faults that fired"
REAL = ["chainladder (all)", "dill", "Python's buffered and text layers", "pandas' CSV reader and writer"]
STUB = ["the raw file layer (what write, read, close and open answer)"]
ASSUME = ["after a crash of the process what was written is a prefix of what was handed to the system; loss of power, which may drop any page, is not modelled because nothing is fsynced and nothing promises it"]

EST = sorted(E.SPECS)
FAST = ["Development", "Chainladder", "TailCurve", "TailConstant", "BF", "CapeCod", "Trend", "Pipeline", "Mack", "MunichAdjustment", "Bootstrap", "IncrementalAdditive", "CaseOutstanding", "DevConstant",
        "Parallelogram", "Pipeline_bf", "Benktander", "BerquistSherman", "Development_drop2", "TailBondy", "Development_group"]
TRI = list(world.TRIS) + ["sub:raa", "sub:clrd_lob", "ult:raa", "val:quarterly", "incr:genins", "ldf:abc", "diag:clrd"]
FAIL = {"write": ["enospc", "eio", "edquot", "mem", "int", "crash", "crash", "crash"], "open": [], "close": ["eio", "edquot", "enospc", "crash"], "read": ["eio", "mem", "int"]}
SOFT = {"write": ["short", "eintr"], "read": ["short", "eintr"], "close": [], "open": []}
OTHER = ["eio", "crash"]


def gen_obj(rng):
    if rng.random() < 0.62:
        return ["tri", rng.choice(TRI), rng.choice(["numpy", "sparse"]), rng.random() < 0.3]
    n = rng.choice(FAST) if rng.random() < 0.8 else rng.choice(EST)
    return ["est", n, rng.choice(E.SPECS[n].trains), rng.choice(["numpy", "numpy", "sparse"]), rng.random() < 0.75]


def gen_fault(rng, ops):
    if rng.random() < 0.12 and "write" in ops:
        return dict(op="room", at=rng.random())
    op = rng.choice(ops)
    soft = rng.random() < 0.3
    return dict(op=op, soft=soft, seed=rng.getrandbits(30), arg=rng.random())


def gen(rng, tier, i):
    objs = [gen_obj(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
    np_ = rng.choice([1, 1, 2, 3])
    steps = []
    for k in range(rng.randint(2, 7)):
        u, o, p = rng.random(), rng.randrange(len(objs)), rng.randrange(np_)
        if u < 0.5 or k == 0:
            kind = "save" if objs[o][0] == "est" or rng.random() < 0.9 else "csv"
            steps.append([kind, o, p, gen_fault(rng, ["write", "write", "write", "close", "any"]) if rng.random() < 0.62 else None])
        elif u < 0.78:
            steps.append(["load", p, gen_fault(rng, ["read"]) if rng.random() < 0.45 else None])
        elif u < 0.88 and objs[o][0] == "tri":
            steps.append(["edit", o, rng.choice(sorted(world.EDITS)), rng.randrange(6)])
        elif u < 0.94:
            steps.append(["sample", rng.choice(["raa", "abc", "ukmotor", "genins", "mcl", "quarterly", "usauto", "berqsherm", "xyz", "ia_sample", "tail_sample"]),
                          gen_fault(rng, ["read"]) if rng.random() < 0.7 else None])
        else:
            steps.append(["both", o, rng.randrange(len(objs)), rng.random() < 0.5])
    return dict(objs=objs, steps=steps, paths=[rng.choice(["str", "path"]) for _ in range(np_)], prefill=rng.random() < 0.3, bufsize=rng.choice([None, 16, 64, 512, 4096, 65536]),
                sched=R.gen_sched(rng))


def make(o):
    if o[0] == "est":
        e = E.SPECS[o[1]].make()
        if o[4]:
            X, w = E.data(o[2], o[3])
            try:
                E.fit(e, o[1], X, w)
            except Exception:
                e = E.SPECS[o[1]].make()
        return e
    n, be = o[1], o[2]
    if ":" in n:
        k, base = n.split(":")
        t = world.tri(base, be)
        if k == "sub":
            return cl.Development().fit_transform(t)
        if k == "ult":
            return cl.Chainladder().fit(t).ultimate_
        if k == "val":
            return t.dev_to_val()
        if k == "incr":
            return t.cum_to_incr()
        if k == "diag":
            return t.latest_diagonal
        return cl.Development().fit(t).ldf_
    return world.tri(n, be, virtual=o[3])


def look(x):
    v = fp.view(x, props=True)
    if hasattr(x, "virtual_columns") and hasattr(x, "values"):
        with monitor.suspend():
            for c in list(x.virtual_columns.columns):
                o = R.trap(lambda: x[c])
                for k, l in R.outview(o, subs=False).items():
                    v["virt{%s}%s" % (c, k)] = l
    return v


class Run:
    def __init__(self, sc, fs):
        self.sc, self.fs = sc, fs
        with monitor.suspend():
            self.objs = [make(o) for o in sc["objs"]]
        self.views = [look(o) for o in self.objs]
        n = len(sc["paths"])
        self.acc, self.must, self.kind = [[] for _ in range(n)], [False] * n, ["pickle"] * n
        self.viol, self.faults, self.trace, self.sites = None, {}, [], {}
        fs.bufsize = sc["bufsize"]
        if sc["prefill"]:
            for p in range(n):
                with open(fs.path("f%d" % p), "wb") as f:
                    f.write(b"\x80\x04" + b"N." * 40000)

    def path(self, p):
        s = self.fs.path("f%d" % p)
        return pathlib.Path(s) if self.sc["paths"][p] == "path" else s

    def plan(self, f, dry):
        """The fault's place, drawn from the operations of a fault-free pass."""
        self.fs.arm()
        if f is None:
            return {}, None
        if f["op"] == "room":
            with monitor.suspend():
                R.trap(lambda: dry(True))
            size = self.lastsize
            return {}, int(size * f["at"])
        if "plan" not in f:
            with monitor.suspend():
                R.trap(lambda: dry(False))
            sites = list(self.fs.sites)
            rng = random.Random(f["seed"])
            ops = sorted({s[0] for s in sites}) if f["op"] == "any" else [f["op"]]
            op = rng.choice(ops) if ops else "write"
            cand = [s for s in sites if s[0] == op]
            if not cand:
                return {}, None
            at = rng.choice(cand) if rng.random() < 0.6 else rng.choice([cand[0], cand[-1]])
            soft = SOFT.get(op) or []
            kinds = soft if f["soft"] and soft else (FAIL.get(op) or OTHER)
            kind = rng.choice(kinds)
            # some short answers come in a row
            n = rng.choice([1, 1, 3, 1000]) if kind == "short" else 1
            f["plan"] = [[op, at[1], n, kind, f["arg"]]]
        out = {}
        for op, at, n, kind, arg in f["plan"]:
            for k in range(n):
                out[(op, at + k)] = (kind, arg)
        self.fs.arm()
        return out, None

    def note(self):
        for k in self.fs.fired:
            self.faults[k] = self.faults.get(k, 0) + 1

    def bad(self, cls, msg):
        if not self.viol:
            self.viol = {"class": cls, "msg": msg}

    def leak(self, what):
        l = self.fs.leaked()
        if l:
            self.bad("leak", "%s left %d file(s) open" % (what, len(l)))
        self.fs.forget()

    def unchanged(self, what):
        for k, (o, v) in enumerate(zip(self.objs, self.views)):
            d = fp.diff(v, look(o))
            if d:
                self.bad("changed", "%s changed object %d (%s): %s" % (what, k, self.sc["objs"][k], "; ".join(d)))

    def guarded(self, fn, plan, room=None, leak=True):
        """('ok', v) / ('exc', e) / ('crash', None) under the storage faults of the plan."""
        self.fs.arm(plan, room)
        try:
            o = R.trap(fn)
        except simfs.Crash:
            o = ("crash", None)
        fired = list(self.fs.fired)
        self.note()
        crashed = self.fs.gone
        if not crashed and leak:
            self.leak("the operation")
        self.fs.forget()
        self.fs.arm()
        return ("crash", None) if crashed else o, fired

    # -- steps ----------------------------------------------------------------------------------
    def save(self, st):
        _, o, p, f = st
        csv = st[0] == "csv"
        x, v = self.objs[o], self.views[o]
        what = "saving object %d (%s)" % (o, self.sc["objs"][o])

        def go(path):
            if csv:
                return x.to_csv(path)
            return x.to_pickle(path)

        def dry(size):
            q = self.fs.path("dry")
            go(q)
            self.lastsize = os.path.getsize(q)
        plan, room = self.plan(f, dry)
        if csv and x.shape[0] * x.shape[1] > 1:
            want = R.trap(lambda: x.to_csv())
        elif csv:
            want = R.trap(lambda: x.to_csv())
        out, fired = self.guarded(lambda: go(self.path(p)), plan, room, leak=not csv)
        if csv:
            self.kind[p] = "csv"
            if out[0] == "ok":
                if want[0] == "ok":
                    got = open(self.fs.path("f%d" % p), newline="").read()
                    if got.replace("\r\n", "\n") != want[1].replace("\r\n", "\n"):
                        self.bad("csv", "%s as CSV returned but the file holds something else%s" % (what, ", after " + ",".join(fired) if fired else ""))
            elif not fired and want[0] == "ok":
                self.bad("csv-raises", "%s as CSV raised %r" % (what, out[1]))
            self.acc[p], self.must[p] = [], False
        elif out[0] == "ok":
            self.acc[p], self.must[p], self.kind[p] = [v], True, "pickle"
        else:
            self.acc[p], self.must[p] = (self.acc[p] if self.kind[p] == "pickle" else []) + [v], False
            self.kind[p] = "pickle"
            if out[0] == "exc" and not [k for k in fired if not k.endswith(("_short", "_eintr"))]:
                self.bad("save-raises", "%s raised %s: %s%s" % (what, type(out[1]).__name__, str(out[1])[:200], " after only short or interrupted writes" if fired else ""))
        self.trace.append([st[0], out[0], fired])
        self.unchanged(what)

    def load(self, st, final=False):
        _, p, f = st
        path = self.path(p)
        if self.kind[p] != "pickle" or not os.path.exists(path):
            return

        def dry(size):
            cl.read_pickle(path)
        plan, _ = self.plan(f, dry)
        out, fired = self.guarded(lambda: cl.read_pickle(path), plan)
        hard = [k for k in fired if not k.endswith(("_short", "_eintr"))]
        if out[0] == "ok":
            got = look(out[1])
            ds = [fp.diff(a, got) for a in self.acc[p]]
            if not any(not d for d in ds) and not (self.sc["prefill"] and not self.must[p] and out[1] is None):
                n = "differs from the object saved: %s" % "; ".join(ds[-1]) if ds else "although nothing was saved there"
                self.bad("wrong", "reading file %d %s%s" % (p, n, ", after " + ",".join(fired) if fired else ""))
        elif self.must[p] and not hard:
            self.bad("lost", "the save of file %d was acknowledged but reading it raised %s: %s%s" % (p, type(out[1]).__name__, str(out[1])[:200], " after only short or interrupted reads" if fired else ""))
        self.trace.append(["load", out[0], fired, fp.digest(look(out[1])) if out[0] == "ok" else ""])
        self.unchanged("reading a file")

    def edit(self, st):
        _, o, name, k = st
        try:
            with monitor.suspend():
                world.EDITS[name](self.objs[o], k)
        except Exception:
            pass
        self.views[o] = look(self.objs[o])

    def sample(self, st):
        _, key, f = st
        self.fs.data = True
        try:
            def dry(size):
                cl.load_sample(key)
            with monitor.suspend():
                want = R.outview(R.trap(lambda: cl.load_sample(key)))
            plan, _ = self.plan(f, dry)
            out, fired = self.guarded(lambda: cl.load_sample(key), plan, leak=False)     # the CSV reader is pandas'
        finally:
            self.fs.data = False
        hard = [k for k in fired if not k.endswith(("_short", "_eintr"))]
        d = fp.diff(want, R.outview(out)) if out[0] == "ok" else []
        if d:
            self.bad("sample", "load_sample(%r) gave something else%s: %s" % (key, " after " + ",".join(fired) if fired else "", "; ".join(d)))
        if out[0] != "ok" and not hard:
            self.bad("sample-raises", "load_sample(%r) raised %r although reads were only short or interrupted (%s)" % (key, out[1], fired))
        self.trace.append(["sample", out[0], fired])

    def both(self, st):
        """Two callers save at the same time: one object to two files, or two objects."""
        _, a, b, same = st
        a, b = (a, a) if same else (a, b)
        outs = [None, None]
        paths = [self.fs.path("both%d" % k) for k in (0, 1)]

        def call(k, o):
            def go():
                outs[k] = R.trap(lambda: (self.objs[o].to_pickle(paths[k]), cl.read_pickle(paths[k]))[1])
            return go
        self.fs.arm()
        s = R.sim([call(0, a), call(1, b)], self.sc["sched"])
        self.sched = s
        if R.liveness(s):
            return self.bad("liveness", R.liveness(s))
        for k, o in ((0, a), (1, b)):
            if outs[k] is None:
                raise s.tasks[k].exc
            if outs[k][0] == "exc":
                self.bad("concurrent", "saving and reading object %d while another caller did raised %r" % (o, outs[k][1]))
            else:
                d = fp.diff(self.views[o], look(outs[k][1]))
                if d:
                    self.bad("concurrent", "object %d saved and read while another caller did came back different: %s" % (o, "; ".join(d)))
        self.leak("concurrent saves")
        self.unchanged("concurrent saves")
        self.trace.append(["both", a, b])

    def go(self):
        for st in self.sc["steps"]:
            if self.viol:
                return
            {"save": self.save, "csv": self.save, "load": self.load, "edit": self.edit, "sample": self.sample, "both": self.both}[st[0]](st)
        for p in range(len(self.sc["paths"])):
            if not self.viol:
                self.load(["load", p, None], True)


def run(sc):
    with simfs.SimFS() as fs:
        r = Run(sc, fs)
        r.sched = None

        def body():
            r.go()
        with monitor.suspend():
            body()
    ops = {}
    for st in sc["steps"]:
        ops[st[0]] = ops.get(st[0], 0) + 1
    for o in sc["objs"]:
        k = "obj:" + o[0]
        ops[k] = ops.get(k, 0) + 1
    s = r.sched
    sig = R.loghash(sc["objs"], sc["bufsize"], [st[:3] for st in sc["steps"]], r.trace)
    return dict(viol=r.viol, sig=sig, steps=(s.steps if s else 0) + len(r.trace), faults=r.faults, ops=ops, nontrivial=bool(r.faults),
                probes={"acked_then_read": sum(t[0] == "load" and t[1] == "ok" for t in r.trace), "load_refused": sum(t[0] == "load" and t[1] == "exc" for t in r.trace),
                        "save_refused": sum(t[0] == "save" and t[1] == "exc" for t in r.trace), "crashed": sum(t[1] == "crash" for t in r.trace)},
                sched=R.recorded(s, sc["sched"]) if s else None, log=R.loghash(sig, r.viol and r.viol["class"]), steps_planned=sc["steps"])


def warm(tier):
    rng = random.Random(1)
    for n in FAST:
        make(["est", n, E.SPECS[n].trains[0], "numpy", True])
    for t in TRI:
        for be in ("numpy", "sparse"):
            make(["tri", t, be, False])


def shrink(sc):
    for i in range(len(sc["steps"])):
        if len(sc["steps"]) > 1:
            yield dict(sc, steps=sc["steps"][:i] + sc["steps"][i + 1:])
    for i, st in enumerate(sc["steps"]):
        if st[0] in ("save", "csv", "load", "sample") and st[-1] is not None:
            yield dict(sc, steps=sc["steps"][:i] + [st[:-1] + [None]] + sc["steps"][i + 1:])
    if sc["prefill"]:
        yield dict(sc, prefill=False)
    if sc["bufsize"] is not None:
        yield dict(sc, bufsize=None)
    for i, o in enumerate(sc["objs"]):
        if o != ["tri", "raa", "numpy", False]:
            yield dict(sc, objs=sc["objs"][:i] + [["tri", "raa", "numpy", False]] + sc["objs"][i + 1:])
