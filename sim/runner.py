"""Seeded search over scenarios, in forked batches; minimisation, replay files, evidence."""
import collections, copy, importlib, json, os, random, signal, select, sys, time, traceback, hashlib
from . import boot

VERIF = boot.VERIF
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known_findings.json")
BATCH = 24


def rng_for(seed, pid, i):
    return random.Random("%s/%s/%s" % (seed, pid, i))


def load_check(pid):
    return importlib.import_module("sim.checks.%s" % pid.lower())


def load_known():
    try:
        return [k for k in json.load(open(KNOWN)) if k.get("status") == "open"]
    except FileNotFoundError:
        return []


def known_match(pid, viol, known):
    for k in known:
        if k["property"] == pid and all(viol.get(f) == v for f, v in k["match"].items()):
            return k
    return None


def reset_process():
    import numpy as np
    import chainladder as cl
    from . import simfs
    np.random.seed(12345)
    random.seed(12345)
    cl.options.reset_option()
    simfs.reset()


def run_one(check, sc):
    reset_process()
    t = time.perf_counter()
    r = check.run(copy.deepcopy(sc))
    r["wall"] = time.perf_counter() - t
    return r


# ------------------------------------------------------------------------------------------ forking ----
def _child(fn, w):
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    f = os.fdopen(w, "w")
    try:
        fn(lambda rec: (f.write(json.dumps(rec, default=str) + "\n"), f.flush()))
        f.write('{"end": 1}\n')
        f.flush()
        code = 0
    except BaseException:
        f.write(json.dumps({"crash": traceback.format_exc()[-4000:]}) + "\n")
        f.flush()
        code = 3
    finally:
        os._exit(code)


def forked(fn, timeout):
    """Runs fn(emit) in a forked child; returns (records, status)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        _child(fn, w)
    os.close(w)
    buf, end = b"", time.time() + timeout
    status = "ok"
    while True:
        left = end - time.time()
        if left <= 0:
            status = "timeout"
            break
        if select.select([r], [], [], left)[0]:
            d = os.read(r, 1 << 16)
            if not d:
                break
            buf += d
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(pid, 0)
    recs = [json.loads(l) for l in buf.decode().splitlines() if l.endswith("}")]
    if status == "ok" and (not recs or "end" not in recs[-1]):
        status = "died"
    return recs, status


def pool(jobs, nproc, timeout, on_result, stop, requeue=()):
    """jobs: iterator of (key, fn). Runs them in forked children, nproc at a time; `requeue` is a list that
    on_result may extend."""
    live = {}
    jobs = iter(jobs)
    done = False
    while True:
        while (requeue or not done) and len(live) < nproc and not stop():
            if requeue:
                key, fn = requeue.pop()
            else:
                try:
                    key, fn = next(jobs)
                except StopIteration:
                    done = True
                    continue
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                for x in live:
                    os.close(x)
                _child(fn, w)
            os.close(w)
            live[r] = [key, pid, b"", time.time() + timeout]
        if not live:
            break
        ready = select.select(list(live), [], [], 0.5)[0]
        now = time.time()
        for r in list(live):
            key, pid, buf, end = live[r]
            fin, st = False, "ok"
            if r in ready:
                d = os.read(r, 1 << 18)
                if d:
                    live[r][2] = buf + d
                else:
                    fin = True
            elif now > end:
                fin, st = True, "timeout"
            elif stop() == "now":
                fin, st = True, "stopped"
            if fin:
                os.close(r)
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
                _, code = os.waitpid(pid, 0)
                recs = [json.loads(l) for l in live[r][2].decode().splitlines() if l.endswith("}")]
                del live[r]
                if st == "ok" and (not recs or "end" not in recs[-1]):
                    st = "died(%d)" % code
                on_result(key, recs, st)


# ----------------------------------------------------------------------------------------- searching ----
def batch_fn(check, pid, seed, tier, idx, cap):
    def fn(emit):
        t0 = time.time()
        for i in idx:
            if time.time() - t0 > cap:
                break
            sc = check.gen(rng_for(seed, pid, i), tier, i)
            r = run_one(check, sc)
            r["i"] = i
            if r.get("viol"):
                r["scenario"] = sc
            else:
                r.pop("sched", None)
            if i % 97 == 0 or i < 2:
                r["scenario"] = sc
            emit(r)
    return fn


def reproduce(check, scs, timeout=240):
    """Runs the scenarios in order in a fresh forked process; returns the last one's result."""
    def fn(emit):
        for k, sc in enumerate(scs):
            r = run_one(check, sc)
            if k == len(scs) - 1:
                emit(r)
    recs, st = forked(fn, timeout)
    for r in recs:
        if "viol" in r:
            return r
    return {"viol": None, "status": st, "crash": [r for r in recs if "crash" in r]}


def same(v, w):
    return bool(v and w and v.get("class") == w.get("class"))


def minimise(check, sc, viol, sched, history, budget=60):
    """Greedy reduction; every accepted step reproduces the same violation class in a fresh process."""
    end = time.time() + budget
    tried = 0
    base = reproduce(check, history + [sc])
    if not same(base.get("viol"), viol):
        return sc, base, history, {"reproduced": False, "tried": 1}
    best, bres = sc, base
    if sched is not None and bres.get("sched"):
        c = dict(best, sched=bres["sched"])
        r = reproduce(check, history + [c])
        if same(r.get("viol"), viol):
            best, bres = c, r
    # history first
    n = len(history)
    while n >= 1 and history and time.time() < end:
        k = 0
        changed = False
        while k < len(history) and time.time() < end:
            h = history[:k] + history[k + n:]
            tried += 1
            r = reproduce(check, h + [best])
            if same(r.get("viol"), viol):
                history, bres, changed = h, r, True
            else:
                k += n
        n = n // 2 if not changed or n > 1 else 0
    progress = True
    while progress and time.time() < end:
        progress = False
        for c in candidates(check, best):
            if time.time() > end:
                break
            tried += 1
            r = reproduce(check, history + [c], timeout=60)
            if same(r.get("viol"), viol):
                best, bres, progress = c, r, True
                break
    return best, bres, history, {"reproduced": True, "tried": tried}


def candidates(check, sc):
    if hasattr(check, "shrink"):
        for c in check.shrink(copy.deepcopy(sc)):
            yield c
    s = sc.get("sched")
    if s and "preempts" in s:
        p = s["preempts"]
        n = len(p)
        size = n
        while size >= 1:
            for k in range(0, n, size):
                q = p[:k] + p[k + size:]
                if len(q) < n:
                    yield dict(sc, sched=dict(s, preempts=q))
            size //= 2
            if n > 400 and size < n // 200:
                break
        ch = s.get("choices", [])
        n = len(ch)
        size = n
        while size >= 1 and n < 200:
            for k in range(0, n, size):
                yield dict(sc, sched=dict(s, choices=ch[:k] + ch[k + size:]))
            size //= 2


def write_replay(pid, sc, res, history, seed, i, extra):
    os.makedirs(REPLAYS, exist_ok=True)
    doc = dict(property=pid, seed=seed, index=i, violation=res.get("viol"), scenario=sc, history=history, log=res.get("log"),
               minimisation=extra, how="cd /verif && /opt/venv/bin/python -m sim replay <this file>")
    h = hashlib.blake2b(json.dumps([sc, history], sort_keys=True, default=str).encode(), digest_size=5).hexdigest()
    path = os.path.join(REPLAYS, "%s-%s.json" % (pid, h))
    json.dump(doc, open(path, "w"), indent=1, default=str)
    return path


def search(pid, tier, seed):
    t0 = time.time()
    check = load_check(pid)
    known = load_known()
    if hasattr(check, "warm"):
        check.warm(tier)
    warm = time.time() - t0
    count = check.COUNT[tier]
    if os.environ.get("SIM_COUNT"):
        count = int(os.environ["SIM_COUNT"])
    cap = float(os.environ.get("SIM_CAP", {"quick": 330, "thorough": 5400}[tier]))
    nproc = int(os.environ.get("SIM_PROCS", os.cpu_count() or 4))
    bs = getattr(check, "BATCH", BATCH)
    agg = dict(n=0, steps=0, faults=collections.Counter(), probes=collections.Counter(), sigs=set(), nontrivial=set(),
               wall=0.0, ops=collections.Counter(), refs=collections.Counter())
    samples, found, knownhits, errors = [], [], collections.Counter(), []
    recheck = {}
    deadline = t0 + warm + cap

    def jobs():
        for a in range(0, count, bs):
            if time.time() > deadline:
                return
            idx = list(range(a, min(a + bs, count)))
            yield ("run", idx), batch_fn(check, pid, seed, tier, idx, max(20, cap))
        # determinism: repeat a sample of scenarios in other batches, processes and positions
        again = sorted(recheck)[:: max(1, len(recheck) // 24)][:24]
        for k in again:
            yield ("again", [k]), batch_fn(check, pid, seed, tier, [k], max(20, cap))

    mism, deaths, retried, requeue = [], [], set(), []

    def on_result(key, recs, st):
        kind, idx = key
        got = [r for r in recs if "i" in r]
        for r in recs:
            if "crash" in r:
                errors.append((idx, r["crash"]))
        if (st == "timeout" or st.startswith("died")) and not any("crash" in r for r in recs):
            rest = idx[len(got):]
            if st != "timeout" and tuple(idx) not in retried and rest:
                # the process itself went away (killed for memory, or a crash in native code): once more, elsewhere
                deaths.append((rest[0], st))
                for part in ([rest[0]], rest[1:]):
                    if part:
                        retried.add(tuple(part))
                        requeue.append(((kind, part), batch_fn(check, pid, seed, tier, part, max(20, cap))))
            else:
                errors.append((idx, "batch %s after %d scenarios (next index %s)" % (st, len(got), rest[:1])))
        for r in got:
            if kind == "again":
                if recheck.get(r["i"]) != r.get("log"):
                    mism.append(r["i"])
                continue
            agg["n"] += 1
            agg["steps"] += r.get("steps", 0)
            agg["wall"] += r.get("wall", 0)
            agg["faults"].update(r.get("faults", {}))
            agg["probes"].update(r.get("probes", {}))
            agg["ops"].update(r.get("ops", {}))
            agg["sigs"].add(r.get("sig"))
            if r.get("nontrivial"):
                agg["nontrivial"].add(r.get("sig"))
            recheck[r["i"]] = r.get("log")
            if r.get("scenario") is not None and len(samples) < 4 and not r.get("viol"):
                samples.append(trim(r["scenario"]))
            v = r.get("viol")
            if v:
                k = known_match(pid, v, known)
                if k:
                    knownhits[k["id"]] += 1
                else:
                    r["batch"] = [j for j in idx if j < r["i"]]
                    found.append(r)

    def stop():
        if len(found) >= getattr(check, "STOP_AFTER", 1):
            return "now"
        if len(errors) > 20:
            return "now"
        return None

    pool(jobs(), nproc, cap + 120, on_result, stop, requeue)
    searchwall = time.time() - t0 - warm
    rc = 0
    for kid, c in sorted(knownhits.items()):
        k = [x for x in known if x["id"] == kid][0]
        print("KNOWN-FINDING: property=%s %s (seen %d times)" % (pid, k["what"], c))
    # listed findings that this sample of schedules did not meet are replayed from their recorded scenario
    for k in known:
        if k["property"] == pid and k["id"] not in knownhits and k.get("scenario"):
            r = reproduce(check, [k["scenario"]])
            if r.get("viol") and known_match(pid, r["viol"], [k]):
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    written = []
    if found:
        found.sort(key=lambda r: r["i"])
        classes = set()
        for r in found:
            if r["viol"]["class"] in classes and tier == "quick":
                continue
            classes.add(r["viol"]["class"])
            sc = r["scenario"]
            hist = []
            base = reproduce(check, [sc])
            if not same(base.get("viol"), r["viol"]):
                hist = [check.gen(rng_for(seed, pid, j), tier, j) for j in r["batch"]]
            m, mres, hist, info = minimise(check, sc, r["viol"], r.get("sched"), hist,
                                           budget=60 if tier == "quick" else 300)
            if not info["reproduced"]:
                mres = r
            path = write_replay(pid, m, mres, hist, seed, r["i"], info)
            written.append(path)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  %s: %s" % (mres["viol"]["class"], mres["viol"]["msg"]))
            rc = 1
            if len(classes) >= 5:
                break
    if errors and rc == 0:
        for idx, e in errors[:3]:
            print("HARNESS-ERROR property=%s scenarios %s: %s" % (pid, idx[:3], e), file=sys.stderr)
        rc = 3
    import shutil
    shutil.rmtree(os.path.join(VERIF, ".scratch"), ignore_errors=True)
    ev = evidence(pid, check, tier, seed, agg, samples, time.time() - t0, searchwall, warm, nproc, len(found), knownhits,
                  len([1 for k in recheck]), mism, errors, deaths)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", "%s.json" % pid), "w"), indent=1, default=str)
    print("%s %s: %d runs, %d distinct (%d non-trivial), %d events, faults %s, %.0f s%s" % (
        pid, tier, agg["n"], len(agg["sigs"]), len(agg["nontrivial"]), agg["steps"], dict(agg["faults"]), time.time() - t0,
        "" if not mism else ", NONDETERMINISTIC %s" % mism[:5]))
    return rc


def trim(sc):
    s = json.dumps(sc, default=str)
    return sc if len(s) < 1500 else json.loads(json.dumps({k: (v if len(json.dumps(v, default=str)) < 400 else "...") for k, v in sc.items()}, default=str))


def evidence(pid, check, tier, seed, agg, samples, wall, swall, warm, nproc, viol, knownhits, nre, mism, errors, deaths):
    h = max(swall, 1e-6) / 3600.0
    return dict(
        property=pid, tier=tier, seed=seed, level=getattr(check, "LEVEL", "exploration"), wall_s=round(wall, 1), violations=viol,
        coverage=dict(
            evaluations=agg["n"], distinct_nontrivial=len(agg["nontrivial"]), rule=check.RULE, samples=samples,
            distinct_runs=len(agg["sigs"]),
            distinct_measure=getattr(check, "MEASURE", "hash of the switch sequence (thread, its local event number), fault sites and operations"),
            runs_per_hour=int(agg["n"] / h), seeds_per_hour=int(agg["n"] / h), worker_processes=nproc,
            simulated_events=agg["steps"], simulated_time="%d events (simulated time is counted in events of the code under test; it reads no clock)" % agg["steps"],
            faults_fired=dict(agg["faults"]), probes=dict(agg["probes"]), operations=dict(agg["ops"].most_common(200)),
            known_findings_seen=dict(knownhits),
            determinism=dict(rerun_in_other_processes=min(24, nre), mismatching_logs=len(mism)),
            harness_errors=len(errors), worker_processes_lost_and_repeated=deaths, warmup_s=round(warm, 1),
            real=getattr(check, "REAL", "all of chainladder, numpy, pandas, sparse, scikit-learn, dask.bag graph execution"),
            stubbed=getattr(check, "STUB", "dask's thread pool and joblib's worker pools (simulated threads), locks of dask/joblib on the call path, joblib's clock")),
        assumptions=getattr(check, "ASSUME", []) + [
            "search, not proof: schedules and faults are sampled from the seed",
            "pre-emption happens between source lines (or calls) of chainladder's own code and at pool operations"],
    )


def replay(path):
    doc = json.load(open(path))
    check = load_check(doc["property"])
    if hasattr(check, "warm"):
        check.warm("replay")
    r = reproduce(check, doc.get("history", []) + [doc["scenario"]])
    if r.get("viol"):
        print("VIOLATION property=%s replay=%s" % (doc["property"], path))
        print("  %s: %s" % (r["viol"]["class"], r["viol"]["msg"]))
        if doc.get("log") and r.get("log") != doc["log"]:
            print("  (log digest differs from the recorded one: %s, recorded %s)" % (r.get("log"), doc["log"]))
        return 1
    if r.get("crash"):
        print(r["crash"][0], file=sys.stderr)
        return 3
    if r.get("status") in ("timeout", "died"):
        print("replay %s" % r["status"], file=sys.stderr)
        return 3
    print("no violation on replay")
    return 0


def selftest(pids, n, seed):
    """Prints one line per scenario: property, index, log digest.  Diff across processes/hash seeds."""
    for pid in pids:
        check = load_check(pid)
        if hasattr(check, "warm"):
            check.warm("quick")
        for i in range(n):
            sc = check.gen(rng_for(seed, pid, i), "quick", i)
            recs, st = forked(lambda emit: emit(run_one(check, sc)), 300)
            r = recs[0] if recs else {}
            print(pid, i, r.get("log"), r.get("sig"), r.get("steps"), (r.get("viol") or {}).get("class"), r.get("crash", "")[-300:], flush=True)
