"""C11: fresh interpreters agree - results do not depend on hash order."""
from .. import flow, keyed, procs, fp, run as R, world
from . import c10

ID = "C11"
COUNT = {"quick": 260, "thorough": 30000}
RULE = ("one seeded computation - operations that line up triangles with several text keys, different or re-ordered rows, keys and columns; or a whole reserving workflow - run in three fresh "
        "processes of interpreters with three string-hash seeds drawn from twelve; every result must be the same in values, labels and label order. Non-trivial: all three processes got at least one result.")
MEASURE = "hash of scenario, hash seeds and result digests"
REAL = ["chainladder (all)", "three interpreters with their own string-hash seed"]
STUB = ["none"]
ASSUME = ["one machine and one version of the libraries; addresses of objects vary only as fresh processes make them vary"]
BATCH = 12
HASHES = [1, 2, 3, 4, 5, 7, 11, 4242, 31337, 8, 9, 10]


def gen(rng, tier, i):
    hs = rng.sample(HASHES, 3)
    if rng.random() < 0.72:
        return dict(kind="keyed", hs=hs, sc=keyed.gen(rng))
    steps, asks = flow.gen(rng, False)
    return dict(kind="flow", hs=hs, steps=steps, asks=asks, np=rng.getrandbits(31))


def run(sc):
    viol, ops = None, {}
    if sc["kind"] == "keyed":
        outs = [procs.call(h, "sim.keyed:answers", sc["sc"]) for h in sc["hs"]]
        raised = sum(o[2] for o in outs[0])
        for op in sc["sc"]["ops"]:
            k = op[0] + ":" + op[1]
            ops[k] = ops.get(k, 0) + 1
        trace = outs[0]
        for k in range(len(outs[0])):
            d = [o[k][1] for o in outs]
            if len(set(d)) > 1 and not viol:
                j = [x != d[0] for x in d].index(True)
                v = [procs.call(sc["hs"][m], "sim.keyed:answers", sc["sc"], k) for m in (0, j)]
                viol = {"class": "differs:" + ":".join(map(str, outs[0][k][0][:2])), "msg": "%s under hash seeds %s and %s: %s" % (outs[0][k][0], sc["hs"][0], sc["hs"][j], "; ".join(fp.diff(*v)))}
    else:
        job = dict(steps=sc["steps"], asks=sc["asks"], js=False, npseed=sc["np"], lo=0, hi=len(sc["steps"]), ask=True)
        outs = [procs.call(h, "sim.flow:segment", job) for h in sc["hs"]]
        raised = sum("raises" in v for _, v in outs[0]["hist"])
        for s in sc["steps"]:
            ops["step:" + s[0]] = ops.get("step:" + s[0], 0) + 1
        trace = [fp.digest(v) for _, v in outs[0]["hist"]]
        for o, h in zip(outs[1:], sc["hs"][1:]):
            for (i, v1), (_, v2) in zip(outs[0]["hist"] + [(a[0], a[1]) for a in outs[0]["answers"]], o["hist"] + [(a[0], a[1]) for a in o["answers"]]):
                dd = fp.diff(v1, v2)
                if dd and not viol:
                    viol = {"class": "differs:flow", "msg": "%s under hash seeds %s and %s: %s" % (sc["steps"][i] if isinstance(i, int) else i, sc["hs"][0], h, "; ".join(dd))}
    sig = R.loghash(sc, trace)
    return dict(viol=viol, sig=sig, steps=len(trace) * 3, faults={"hash_seed": 3}, ops=ops, nontrivial=len(trace) > raised, probes={"results": len(trace) - raised, "raising": raised},
                log=R.loghash(sig, viol and viol["class"]))


def warm(tier):
    procs.start(HASHES)


def shrink(sc):
    if sc["kind"] == "keyed":
        n = len(sc["sc"]["ops"])
        for i in range(n):
            if n > 1:
                yield dict(sc, sc=dict(sc["sc"], ops=sc["sc"]["ops"][:i] + sc["sc"]["ops"][i + 1:]))
        if sc["sc"]["nk"] > 1:
            yield dict(sc, sc=dict(sc["sc"], nk=sc["sc"]["nk"] - 1))
        if sc["sc"]["ncol"] > 1:
            yield dict(sc, sc=dict(sc["sc"], ncol=1))
    else:
        for i in range(len(sc["steps"]) - 1, -1, -1):
            yield dict(sc, steps=sc["steps"][:i] + sc["steps"][i + 1:])
        for i in range(len(sc["asks"])):
            yield dict(sc, asks=sc["asks"][:i] + sc["asks"][i + 1:])
