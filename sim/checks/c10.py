"""C10: a workflow resumed from saved state ends where an uninterrupted one does."""
import os, random, shutil, tempfile
from .. import flow, procs, fp, run as R, boot

ID = "C10"
COUNT = {"quick": 450, "thorough": 30000}
RULE = ("a seeded workflow of 3-25 steps (data, estimators made, fitted, refitted, transforms, predictions, attributes, triangle operations and edits), run once uninterrupted in a fresh process, and once "
        "in 2-4 segments, each in a new process with its own hash seed that has nothing but the files the previous segment saved (pickle; in half the runs JSON for triangles and unfitted estimators); processes "
        "die at seeded steps and the segment is run again from its files; every JSON document is also cut short at seeded bytes. Non-trivial: at least one restored object was used by a later step.")
MEASURE = "hash of steps, save points, formats and outcomes"
REAL = ["chainladder (all)", "dill, json, pandas", "process start, death and restart: a process forked from a pristine interpreter per segment"]
STUB = ["none"]
ASSUME = ["the segments' processes use one machine and one version of the libraries"]
LABELS = ("_label", ".array_backend")


def gen(rng, tier, i):
    js = rng.random() < 0.5
    steps, asks = flow.gen(rng, js)
    n = len(steps)
    cuts = sorted(rng.sample(range(1, n), min(n - 1, rng.choice([1, 1, 2, 3])))) if n > 1 else []
    return dict(js=js, wild=rng.random() < 0.06, steps=steps, asks=asks, cuts=cuts, fmt=rng.getrandbits(30), np=rng.getrandbits(31), hs=[rng.choice(HASHES) for _ in range(len(cuts) + 2)],
                die=[rng.random() for _ in cuts] if rng.random() < 0.4 else [])


BATCH = 12
HASHES = [1, 2, 3, 4, 5, 7, 11, 4242]


def loose(k):
    return "_label" in k or k.endswith((".array_backend", "average_", "group_index", ".virtual_columns"))


def nan0(v):
    import numpy as np
    return {k: (np.nan_to_num(a) if isinstance(a, np.ndarray) and a.dtype.kind == "f" else a) for k, a in v.items()}


SEEN = (".values", ".odims", ".ddims", ".kdims", ".vdims", ".key_labels", "_grain", ".valuation_date", ".is_cumulative", ".is_pattern")


def cmp(a, b, js):
    """Exact; or, once JSON was involved, cells up to its precision, and of triangles only the cells, the axes and the
    triangles they carry."""
    if not js:
        return fp.diff(a, b)
    if "raises" in a and "raises" in b:
        return []                       # which error names a thing that cannot be done is not compared across formats
    tris = {k[: -len(".values")] for k in list(a) + list(b) if k.endswith(".values")}

    def keep(k):
        parts = [k[:i] for i, c in enumerate(k) if c in ".[{("]
        inner = [p for p in parts if p in tris]
        if not inner:
            return True
        # the part of the name below the innermost triangle
        rest = k[len(inner[-1]):]
        return k in a and k in b and (rest.startswith(SEEN[:6]) or rest.endswith(SEEN[6:]) or rest.endswith(".kind"))

    def norm(v):
        return nan0({k: (x.ravel() if k.endswith(".kdims") and hasattr(x, "ravel") else x[:-1] if k.endswith(".kdims") and isinstance(x, tuple) else x) for k, x in v.items() if keep(k)})
    return fp.diff(norm(a), norm(b), rtol=1e-5, atol=1e-6, ignore=loose)


def run(sc):
    base = os.path.join(boot.VERIF, ".scratch")
    os.makedirs(base, exist_ok=True)
    d = tempfile.mkdtemp(dir=base)
    try:
        return _run(sc, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _run(sc, d):
    viol, faults, trace = None, {}, []
    steps, js, n = sc["steps"], sc["js"], len(sc["steps"])

    def bad(c, m):
        nonlocal viol
        if not viol:
            viol = {"class": c, "msg": m}
    job = dict(steps=steps, asks=sc["asks"], js=js, npseed=sc["np"], wild=sc.get("wild"))
    ref = procs.call(sc["hs"][0], "sim.flow:segment", dict(job, lo=0, hi=n))
    rh = dict(ref["hist"])
    cuts = [0] + [c for c in sc["cuts"] if c < n] + [n]
    load, prev = None, None
    used = 0
    for g in range(len(cuts) - 1):
        lo, hi = cuts[g], cuts[g + 1]
        last = hi == n
        sd = None if last else os.path.join(d, "g%d" % g)
        j = dict(job, lo=lo, hi=hi, load=load, save=sd, fmtseed=sc["fmt"] + g)
        h = sc["hs"][min(g + 1, len(sc["hs"]) - 1)]
        if g < len(sc["die"]):
            at = lo + int(sc["die"][g] * (hi - lo))
            try:
                procs.call(h, "sim.flow:segment", dict(j, die=at))
            except procs.Died:
                faults["process_death"] = faults.get("process_death", 0) + 1
        out = procs.call(h, "sim.flow:segment", j)
        if "cannot_load" in out:
            e = sorted({v[2] for v in load[1].values() if v[0].startswith("json") and v[2]})
            bad("json-axes" if out.get("json") and e else "cannot-load", "objects saved before step %d could not be read back: %s" % (lo, out["cannot_load"]))
            break
        if load:
            faults["restart"] = faults.get("restart", 0) + 1
            saved = load[1]
            for k in sorted(prev["before"]):
                if k not in out["restored"]:
                    bad("missing", "object %s was saved before step %d and is gone" % (k, lo))
                    continue
                if k in out["viajson"]:
                    dd = cmp(prev["before"][k], out["viajson"][k], True)
                    if dd:
                        bad("json-axes" if saved[k][2] else "restored-json", "object %s read back from its JSON came back different: %s" % (k, "; ".join(dd)))
                jk = saved.get(k, ("",))[0] == "json"
                dd = cmp(prev["before"][k], out["restored"][k], jk)
                if dd:
                    bad(("json-axes" if saved[k][2] else "restored-json") if jk else "restored", "object %s, saved as %s before step %d, came back different: %s" % (k, saved.get(k), lo, "; ".join(dd)))
            for (a, v1), (_, v2) in zip(prev["asked"], out["answers"]):
                dd = cmp(v1, v2, js)
                if dd:
                    bad("answer", "%s gives something else on the object restored (%s) before step %d: %s" % (a, saved.get(a[-1]), lo, "; ".join(dd)))
        for i, v in out["hist"]:
            dd = cmp(rh[i], v, js)
            used += bool(load)
            trace.append([i, sorted(v)[:1] if "raises" in v else "ok"])
            if dd:
                bad("continued", "step %d %s gives something else after a restart before step %d: %s" % (i, steps[i], lo, "; ".join(dd)))
        if last:
            for k in sorted(ref["final"]):
                dd = cmp(ref["final"][k], out["final"].get(k, {}), js)
                if dd:
                    bad("final", "at the end %s differs from the uninterrupted run's: %s" % (k, "; ".join(dd)))
        else:
            s = out["saved"]
            if "cannot" in s:
                bad("cannot-save:" + s["cannot"][1], "object %s (%s) cannot be saved after step %d: %s" % (s["cannot"] + (hi,) if False else (s["cannot"][0], s["cannot"][1], hi, s["cannot"][2])))
                break
            for f, k, ln, what in out["torn"]:
                bad("torn-json", "the JSON document of %s cut at byte %d of %d was read as a %s" % (f, k, ln, what))
            for k, (f, _, _) in s.items():
                faults["via_" + f] = faults.get("via_" + f, 0) + 1
            trace.append(sorted((k, f) for k, (f, _, _) in s.items()))
            load, prev = (sd, s), out
        if viol:
            break
    ops = {}
    for s in steps:
        ops[s[0]] = ops.get(s[0], 0) + 1
        if s[0] == "make":
            ops["est:" + s[2]] = ops.get("est:" + s[2], 0) + 1
    raised = sum("raises" in v for v in rh.values())
    sig = R.loghash(steps, cuts, trace)
    return dict(viol=viol, sig=sig, steps=n, faults=faults, ops=ops, nontrivial=used > 0, probes={"steps_raising": raised, "steps_after_restart": used}, log=R.loghash(sig, viol and viol["class"]))


def warm(tier):
    procs.start(HASHES)


def shrink(sc):
    for i in range(len(sc["cuts"])):
        yield dict(sc, cuts=sc["cuts"][:i] + sc["cuts"][i + 1:], die=[])
    if sc["die"]:
        yield dict(sc, die=[])
    if sc["js"]:
        yield dict(sc, js=False)
    for i in range(len(sc["asks"])):
        yield dict(sc, asks=sc["asks"][:i] + sc["asks"][i + 1:])
    n = len(sc["steps"])
    for i in range(n - 1, -1, -1):
        yield dict(sc, steps=sc["steps"][:i] + sc["steps"][i + 1:], cuts=[c - (c > i) for c in sc["cuts"] if c - (c > i) > 0])
