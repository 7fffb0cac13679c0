"""Writes MANIFEST.json from properties.jsonl and the checks present in sim/checks."""
import json, pathlib
here = pathlib.Path(__file__).parent
PURE = ("a pure function of its arguments, computed in one thread with no clock, I/O, randomness or sharing: no schedule or fault for a "
        "simulation to decide; a wrong formula is wrong on every schedule and is input-space testing, not this technique")
NOTES = {}
NOTES_DEFAULT = ("Seeded search, not proof: schedules, fault points and inputs are sampled. Trusts the simulator's seams (simulated thread and worker "
                 "pools), the reference computation stated in DESIGN.md and the fixed library versions.")
TECH = {
 "C01": "deterministic simulation: seeded scheduling of a simulated thread pool with worker faults, against serial run and reference model",
 "C02": "deterministic simulation: seeded interleavings and edit histories over shared triangles, state fingerprints as invariants",
 "C03": "deterministic simulation: seeded interleavings of predict/transform on shared fitted estimators, against solo runs",
 "C04": "deterministic simulation: fault injection (failing allocations, interrupts) at seeded points of triangle operations, with retry",
 "C05": "deterministic simulation: fault injection (failing allocations, interrupts) at seeded points of fits, refit histories",
 "C06": "deterministic simulation: seeded scheduling of simulated worker pools with worker faults and deaths, against independent fits",
 "C07": "deterministic simulation: seeded scheduling of simulated worker pools with worker faults and deaths, against independent fits",
 "C08": "deterministic simulation: seeded interleavings with foreign draws on the random-number seam, histories of fits",
 "C09": "deterministic simulation: simulated file layer with short, failing, torn writes and reads and crashes at seeded points",
 "C10": "deterministic simulation: seeded crash-restart of workflows with only saved state surviving, truncation of saved state",
 "C11": "deterministic simulation: the interpreter's hash randomness as a seeded input, compared across fresh processes",
 "C12": "deterministic simulation: seeded flips of process-wide options and storage at arbitrary points of concurrent computations",
 "C14": "deterministic simulation: seeded interleavings, failing allocations and interrupts under seeded user settings, process and thread state as invariants",
 "C13": "deterministic simulation: cache directory with lost, torn, corrupted files and failing steps across simulated restarts",
}
LEVEL = {}
checks, na = [], []
for l in (here / "properties.jsonl").read_text().splitlines():
    p = json.loads(l)
    i = p["id"]
    if (here / "sim/checks" / (i.lower() + ".py")).exists():
        cmd = "/opt/venv/bin/python -m sim check %s %%s" % i
        checks.append(dict(property=i, quick_cmd=cmd % "quick", thorough_cmd=cmd % "thorough", evidence_file="evidence/%s.json" % i,
                           technique=TECH[i], level=LEVEL.get(i, "exploration"), level_note=NOTES.get(i, NOTES_DEFAULT)))
    else:
        na.append(dict(property=i, reason=PURE if int(i[1:]) >= 30 else "check not built yet"))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import chainladder, numpy, pandas, sparse, sklearn, dask, joblib'",
         checks=checks, not_applicable=na,
         notes="No hooks in /repo: the seams are sys.monitoring events of the package's code, dask's pool configuration, joblib's backend registry, numpy's "
               "generator state, Python's open and the process environment. See DESIGN.md.")
(here / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except (ImportError, FileNotFoundError):
    pass
print(len(checks), "checks", len(na), "not applicable")
