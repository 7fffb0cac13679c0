"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

prop("C01", "Thread-parallel sparse computation is independent of the schedule",
 "Group-by aggregation, arithmetic that broadcasts over differing indices, and incremental-to-cumulative conversion give, on a sparse triangle where blocks are computed on a thread pool, the result of the same computation done serially block by block: same values, same labels in the same order. This holds for every completion order, pool size, block partition and pre-emption of the workers, and with several such computations in flight. If a worker fails, the caller gets an exception, never a result with a block missing, duplicated or misplaced.",
 ["schedules", "inputs", "fault_sequences"],
 "All interleavings and completion orders of the block tasks, all pool sizes, all concurrent callers, any one worker failing at any point, all triangle shapes and groupings.",
 "Tests run each of these once or twice on the machine's own thread pool and OS schedule, with no failing worker, and on one pool size.",
 ["chainladder/core/pandas.py", "chainladder/core/dunders.py", "chainladder/core/triangle.py", "chainladder/utils/sparse.py", "chainladder/utils/utility_functions.py"],
 [("bag map over group indices then positional concat", "core/pandas.py add_groupby_agg_func"),
  ("bag map over the key union, concat and sort_index", "core/dunders.py _arithmetic_mapper"),
  ("bag map over development lags then concatenate", "core/triangle.py incr_to_cum")],
 [("sparse coordinate arrays", "shared, read by all workers; in-place edits would be seen by others", "utils/sparse.py")],
 ["values and axis labels of the returned triangle", "exception raised to the caller"])

prop("C02", "Triangles are isolated values: copies and shared operands never interfere",
 "Operations that return a new triangle, frame, number or text never change the observable state of any triangle they were given, and when several callers run such operations on the same triangle at the same time each gets exactly what it would get alone. A copy (or a slice, or a backend conversion) and its source are independent: any later change made to one through the public API - values, labels, columns, virtual columns, grain, backend, deep backend - is invisible in the other, in any order of operations. A reading depends only on the triangle's current value, not on which operations were run before.",
 ["schedules", "histories", "inputs"],
 "All interleavings of any number of callers sharing triangles; all sequences of copying, slicing, reading and in-place edits over a family of related triangles; numpy and sparse storage.",
 "Tests call one operation on a freshly loaded triangle from one thread; none re-examines the operand, a sibling copy, or a second caller's result.",
 ["chainladder/core/triangle.py", "chainladder/core/slice.py", "chainladder/core/common.py", "chainladder/core/dunders.py", "chainladder/core/pandas.py", "chainladder/core/base.py", "chainladder/utils/utility_functions.py", "chainladder/utils/sparse.py"],
 [("copy() then edit the copy", "core/triangle.py copy and every non-inplace method"),
  ("slicers rebuilt per object", "core/slice.py _set_slicers"),
  ("non-inplace delegates to inplace on a copy", "core/common.py set_backend, core/triangle.py incr_to_cum/cum_to_incr")],
 [("axis arrays, virtual column registry, sub-triangles", "shared by reference between a triangle and its shallow copies", "core/triangle.py copy")],
 ["every public attribute of every triangle in the family"])

prop("C03", "A fitted estimator can be shared: predicting and transforming do not change it",
 "Using a fitted development, tail, method, adjustment or workflow estimator to predict or transform does not change the estimator's parameters or fitted attributes, nor the triangle handed to it. When several callers use one fitted estimator at the same time, each gets exactly the result it would get alone, and what a caller was given is not changed by later use of the estimator.",
 ["schedules", "histories", "inputs"],
 "All interleavings of predict/transform calls and attribute reads by any number of callers on one fitted estimator, for all estimators and input triangles; all orders of successive calls.",
 "Tests fit and use each estimator once from one thread and never compare the estimator before and after, nor earlier results after later calls.",
 ["chainladder/development/", "chainladder/tails/", "chainladder/methods/", "chainladder/adjustments/", "chainladder/workflow/"],
 [("transform copies X and attaches views of fitted attributes", "development/base.py, tails/base.py, adjustments/*.py transform"),
  ("predict copies X and validates", "methods/*.py predict")],
 [("fitted attributes (ldf_, sigma_, ultimate_, ...)", "held by reference by results", "all estimators")],
 ["public attributes and params of the estimator", "returned triangles"])

prop("C04", "A failed triangle operation surfaces and leaves the operands as they were",
 "If an allocation fails or the user interrupts at any point inside a triangle operation that returns a new value (including building a triangle from data), either the failure reaches the caller or the operation still returns exactly the correct result; it never returns different data. The operands, and every triangle related to them by copying, are afterwards exactly as before, and repeating the operation succeeds with the correct result. When an accumulate, de-accumulate, backend conversion, fill or column assignment done in place fails for want of memory, repeating that same call gives the correct result.",
 ["crash_points", "fault_sequences", "inputs"],
 "Every point inside every operation, failing allocations and interrupts, one or several failures in a row, numpy and sparse storage.",
 "No test injects a failure inside an operation; the recovery paths (bare exception handlers) run only with the one error they were written for.",
 ["chainladder/core/base.py", "chainladder/core/triangle.py", "chainladder/core/dunders.py", "chainladder/core/slice.py", "chainladder/core/pandas.py", "chainladder/core/common.py", "chainladder/core/correlation.py", "chainladder/core/display.py", "chainladder/utils/utility_functions.py"],
 [("work on a copy, assign last", "core/triangle.py, core/pandas.py"),
  ("fallbacks in except clauses", "core/base.py _to_datetime, core/dunders.py _prep_index, core/slice.py __setitem__, core/display.py")],
 None, ["return value or exception", "operands and their relatives after the failure", "result of the retry"])

prop("C05", "A failed fit surfaces, leaves its inputs untouched, and can simply be repeated",
 "If an allocation fails or the user interrupts at any point while an estimator is fitting, either the failure reaches the caller or the fit gives exactly the correct result; it never silently yields a different model. The training triangle, the exposure triangle and the estimator's parameters are afterwards as before, and fitting the same estimator again gives the same fitted attributes as an undisturbed fit. Likewise fitting again on other data gives what a fresh estimator fitted on that data gives.",
 ["crash_points", "fault_sequences", "histories", "inputs"],
 "Every point inside the fit of every estimator, failing allocations and interrupts, any number of failed attempts and earlier fits on the same or other data before the final one.",
 "Tests fit a fresh estimator once, with no failure; no test re-fits after an aborted or different fit.",
 ["chainladder/development/", "chainladder/tails/", "chainladder/methods/", "chainladder/adjustments/", "chainladder/workflow/", "chainladder/core/common.py"],
 [("fit computes from X only and assigns trailing-underscore attributes", "all estimators' fit"),
  ("fallbacks in except clauses", "adjustments/bootstrap.py fit")],
 None, ["exception or fitted attributes", "training data and params afterwards"])

prop("C06", "Grid search equals one independent fit per grid point, however it is scheduled",
 "A grid search returns, for every combination of the parameter grid and in the grid's order, the parameters and the scores of a fresh copy of the estimator fitted alone with those parameters. This holds for every number of jobs, worker kind (threads sharing memory or separate processes), completion order and interleaving; neither the template estimator, the objects in the grid, nor the data is changed. If a worker fails the search raises instead of returning missing or misattributed rows, and repeating it gives the correct table.",
 ["schedules", "fault_sequences", "inputs", "configurations"],
 "All interleavings and completion orders of the grid fits, all worker counts and kinds, a failing or dying worker at any point, all grids including ones containing estimators and nested parameters.",
 "Tests run small grids with the default single job, where grid points cannot overlap.",
 ["chainladder/workflow/gridsearch.py"],
 [("clone per grid point, set_params, fit, score", "workflow/gridsearch.py GridSearch.fit _fit_single_estimator"),
  ("order preserving parallel map, then DataFrame", "workflow/gridsearch.py GridSearch.fit")],
 None, ["results table", "template estimator, grid and data after the search"])

prop("C07", "A voting ensemble equals the weighted mean of independently fitted members",
 "Every estimator in a voting ensemble is fitted as a fresh copy on the given data, and the ensemble's ultimate is, cell by cell, the weighted average of the members' own ultimates with each weight applied to its own member and dropped members having no influence. This holds for every number of jobs, worker kind, completion order and interleaving, leaves the members supplied by the user unfitted and unchanged, and if a worker fails the fit raises instead of averaging fewer or different members.",
 ["schedules", "fault_sequences", "inputs", "configurations"],
 "All interleavings and completion orders of the member fits, all worker counts and kinds, a failing or dying worker at any point, all weight layouts and dropped members.",
 "Tests use one job and no failing worker, with every member present.",
 ["chainladder/workflow/voting.py"],
 [("parallel fit of clones", "workflow/voting.py _BaseChainladderVoting.fit"),
  ("weights broadcast and average", "workflow/voting.py _get_ultimate")],
 None, ["ultimate, member attributes", "supplied members after the fit"])

prop("C08", "Seeded stochastic results are reproducible and leave the global generator alone",
 "With a fixed random state, bootstrap resampling and the stochastic a-priori methods give bit-identical results on every run, whatever else draws random numbers before or during the run, whatever other callers do at the same time, and however often the same estimator is fitted; different random states give different results. With any random state fixed - including zero - the process-wide generator is neither read nor advanced. With none given, results are governed by the process-wide generator as documented, so seeding it makes them reproducible.",
 ["schedules", "histories", "configurations"],
 "All seeds; all histories of draws from the global generator before and between the library's draws; all interleavings with other callers; repeated and concurrent fits.",
 "Tests fit once with one seed in a quiet process and compare coarse statistics.",
 ["chainladder/adjustments/bootstrap.py", "chainladder/methods/benktander.py", "chainladder/methods/bornferg.py", "chainladder/methods/expectedloss.py", "chainladder/methods/capecod.py", "chainladder/utils/weighted_regression.py"],
 [("RandomState built from the seed", "adjustments/bootstrap.py fit and _get_process_variance; methods' apriori_sigma")],
 None, ["resampled triangles, ultimates", "state of the global generator before and after"])

prop("C09", "Saved triangles and estimators are durable: right data back, or an error",
 "When saving a triangle or estimator to a file returns, reading the file gives an object equal to the one saved, even if the storage performs short writes or interrupted calls; when the storage fails (no space, I/O error, failing close) the save raises. Reading after a crash of the process or a failed or partial write gives an error, or an object equal to the one being saved or to the one saved there before, never anything else; a failing read raises. Saving changes nothing in memory and leaves no open file.",
 ["crash_points", "fault_sequences", "histories", "inputs"],
 "All sequences of saves and loads over several paths with short and failing writes, failing opens and closes, crashes at any byte, and short and failing reads.",
 "Tests write to a healthy disk and read back at once; none fails or tears a write.",
 ["chainladder/core/io.py", "chainladder/utils/utility_functions.py"],
 [("open(path, 'wb') and dump inside a with block", "core/io.py to_pickle"),
  ("open(path, 'rb') and load", "utils/utility_functions.py read_pickle"),
  ("sample loader", "utils/utility_functions.py load_sample")],
 None, ["outcome of save, contents of file, outcome of read"])

prop("C10", "A workflow resumed from saved state ends where an uninterrupted one does",
 "A multi-step reserving workflow may be stopped at any step boundary, its triangles and estimators saved (pickle at any stage; JSON for triangles and for unfitted estimators), the process lost, and the rest run in a new process from what was read back: the final ultimates, factors and scores equal those of the uninterrupted run (JSON up to its decimal precision). A restored object answers every public query as the original did, and a JSON document cut short is refused rather than read as something else.",
 ["crash_points", "histories", "inputs"],
 "All workflows, all sets of save and restart points in them, either format, a crash at any step, truncation of the document at any byte.",
 "Tests round-trip single objects and compare a few attributes; none continues a workflow on restored state, restarts in a fresh process, or truncates a document.",
 ["chainladder/core/io.py", "chainladder/utils/utility_functions.py", "chainladder/workflow/gridsearch.py", "chainladder/core/triangle.py"],
 [("dill of the whole object", "core/io.py to_pickle"),
  ("JSON with metadata, data, sub-triangles", "core/io.py to_json; utils/utility_functions.py read_json")],
 None, ["final results of the workflow", "public attributes of restored objects"])

prop("C11", "Fresh interpreters agree: results do not depend on hash order",
 "Running the same computation on the same data in different interpreter processes gives the same numbers, labels and label order whatever the process's string-hash seed. This covers combining triangles whose indices or columns differ or are ordered differently, group-bys, joins, rate-level adjustment, method prediction across different triangles, and serialisation.",
 ["configurations", "inputs"],
 "All hash seeds, all computations and inputs.",
 "Each test session runs under one hash seed and compares with constants chosen under it.",
 ["chainladder/core/dunders.py", "chainladder/core/pandas.py", "chainladder/methods/base.py", "chainladder/utils/utility_functions.py", "chainladder/adjustments/parallelogram.py", "chainladder/core/slice.py"],
 [("sets used for label algebra and then re-ordered", "core/dunders.py _prep_index, _get_key_union; methods/base.py; core/pandas.py to_frame")],
 None, ["values, labels and their order"])

prop("C12", "Global storage options change representation only, never results",
 "The process-wide options that choose array storage (default storage kind, automatic sparse conversion, storage priority) may have any setting and may be changed by anyone at any moment, including while another caller's computation is under way: the numbers, labels, missing-value pattern and fitted results of every operation and estimator stay the same, up to floating-point rounding. Likewise converting any operand to another storage beforehand changes no result. No operation changes the options itself, and resetting them restores the documented defaults.",
 ["schedules", "configurations", "inputs"],
 "All option settings, all points in a computation at which an option changes, all storage kinds of the operands.",
 "Tests fix the options per test and rarely run the same computation under both storages; none changes an option mid-operation.",
 ["chainladder/__init__.py", "chainladder/core/base.py", "chainladder/core/triangle.py", "chainladder/core/common.py", "chainladder/utils/utility_functions.py", "chainladder/core/dunders.py"],
 [("options looked up at each use", "core/base.py _auto_sparse; core/triangle.py _val_dev, __init__"),
  ("storage promoted to a common kind", "utils/utility_functions.py set_common_backend")],
 [("global options", "process wide, unsynchronised", "chainladder/__init__.py Options")],
 ["values (dense), labels, fitted attributes"])

prop("C13", "A pipeline equals its steps run by hand, with or without a cache, cold or warm",
 "Fitting, transforming and predicting with a pipeline gives exactly what applying its steps one after the other gives, and the result is the same without a cache directory, with an empty one, with a warm one, and with one left behind by a run that was killed or whose cache writes failed, were torn or lost. Results cached for other data or other parameters are never used, and no step's fault is turned into a different result.",
 ["crash_points", "fault_sequences", "histories", "inputs"],
 "All sequences of fits over several pipelines and data sets sharing one cache directory, with cache files lost, truncated or corrupted between or during runs, and failures inside steps.",
 "Tests build pipelines without a cache, fit once, and inject nothing.",
 ["chainladder/workflow/gridsearch.py", "chainladder/core/triangle.py", "chainladder/core/common.py"],
 [("steps chained through fit/transform", "workflow/gridsearch.py Pipeline"),
  ("objects hashed and pickled by the cache", "core/triangle.py, estimators' picklability")],
 None, ["pipeline results vs stepwise results", "cache directory between runs"])

prop("C14", "Computations leave the process as they found it",
 "Whatever settings a process has - warning filters, numpy error handling and print options, pandas, scikit-learn, dask and chainladder options, random generators, environment, working directory, signal handlers, locale, recursion limit - operations, constructions, displays, fits, predictions and grid searches leave every one as it was, also when several run at the same time in any interleaving, and when they raise, run out of memory or are interrupted at any point. They replace no function of another library, leave no file open and no thread running.",
 ["schedules", "fault_sequences", "inputs"],
 "All interleavings of several callers, all points at which a computation can fail, all user settings beforehand.",
 "Tests run one computation at a time, undisturbed, and never look at the state of the process afterwards.",
 ["chainladder/utils/weighted_regression.py", "chainladder/adjustments/berqsherm.py", "chainladder/core/triangle.py", "chainladder/core/display.py", "chainladder/__init__.py"],
 [("regressions on sparse data with empty slices", "utils/weighted_regression.py WeightedRegression"),
  ("options read, never written, by operations", "chainladder/__init__.py Options")],
 None, ["process-wide settings before and after each run", "per-thread settings of each caller before and after its program"])

# ---- properties this technique does not decide ----
def na(id, title, statement, text, why, files, mech):
    prop(id, title, statement, ["inputs"], text, why, files, mech)

na("C30", "A triangle built from records contains exactly those records",
 "Building a triangle from tabular records puts every amount in the cell of its index, column, origin and development period, so that the triangle's total equals the records' total and each cell equals the sum of its records; only records whose development precedes their origin are dropped, with a warning.",
 "All record sets, date formats and grains.", "Tests compare a few sample files.",
 ["chainladder/core/triangle.py", "chainladder/core/base.py"], [("date inference, grouping, coordinates", "core/base.py")])
na("C31", "Cumulative/incremental and development/valuation conversions are inverse",
 "Accumulating and de-accumulating, and switching between development and valuation views, are inverse on the observed cells and preserve totals by origin and by calendar period.",
 "All triangles.", "Tests use a few samples.", ["chainladder/core/triangle.py"], [("incr_to_cum, cum_to_incr, dev_to_val, val_to_dev", "core/triangle.py")])
na("C32", "Changing grain preserves the amounts",
 "Coarsening the origin or development grain preserves each valuation's total and equals building the triangle from the same records at that grain.",
 "All triangles and grain pairs.", "Tests use a few samples.", ["chainladder/core/triangle.py"], [("grain", "core/triangle.py")])
na("C33", "Development factors follow the stated averages and exclusions",
 "Each development factor is the stated (volume, simple or regression) average of the link ratios left after exactly the requested exclusions, and the cumulative factors are the running products of the later factors.",
 "All triangles and parameter settings.", "Tests compare with published values for samples.", ["chainladder/development/"], [("weighted regression, drop logic", "development/base.py, development/learning.py")])
na("C34", "Chain-ladder ultimates equal latest diagonal times factor",
 "For every cell the chain-ladder ultimate equals the latest diagonal times the factor to ultimate for its age, the reserve equals ultimate less latest diagonal, and the completed triangle agrees with the data above the diagonal.",
 "All triangles and patterns.", "Tests use samples.", ["chainladder/methods/chainladder.py", "chainladder/core/common.py"], [("predict, full_triangle_", "methods/chainladder.py")])
na("C35", "Mack standard errors follow Mack's recursion",
 "Process, parameter and total standard errors follow Mack's recursions from the factors, sigmas and weights, and combine in quadrature.",
 "All triangles.", "Tests compare with R for samples.", ["chainladder/methods/mack.py"], [("recursions", "methods/mack.py")])
na("C36", "Tail methods extrapolate the fitted curve and no more",
 "A tail leaves the selected factors before its attachment age unchanged and appends a tail equal to the stated curve, constant, bondy or Clark extrapolation, with matching sigma and standard error.",
 "All patterns and settings.", "Tests use samples.", ["chainladder/tails/"], [("tail fits", "tails/*.py")])
na("C37", "Expected-loss family methods satisfy their algebra",
 "Bornhuetter-Ferguson, Benktander and Cape Cod ultimates satisfy their defining credibility formulas; one iteration of Benktander is Bornhuetter-Ferguson and many converge to chain ladder.",
 "All inputs.", "Tests use samples.", ["chainladder/methods/"], [("credibility formulas", "methods/benktander.py, capecod.py")])
na("C38", "Adjustments follow their published formulas",
 "Berquist-Sherman, parallelogram on-levelling, trend, Munich, Clark growth curve and incremental-additive results follow their published formulas.",
 "All inputs.", "Tests use published examples.", ["chainladder/adjustments/", "chainladder/development/"], [("formulas", "adjustments/*.py, development/*.py")])
na("C39", "Triangle arithmetic and aggregation match elementwise arithmetic on the records",
 "Arithmetic, slicing and aggregation of aligned triangles equal the same operation on the underlying arrays with missing treated as stated.",
 "All triangles.", "Tests use samples.", ["chainladder/core/dunders.py", "chainladder/core/slice.py", "chainladder/core/pandas.py"], [("dunders, slicers", "core/")])
na("C40", "Correlation diagnostics follow Mack's tests",
 "The development and valuation correlation statistics and critical values are those of Mack's published tests.",
 "All triangles.", "Tests use samples.", ["chainladder/core/correlation.py"], [("rank statistics", "core/correlation.py")])
pathlib.Path(__file__).with_name("properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in P))
import jsonschema
s = json.load(open("/root/.vp/PROPERTIES.schema.json")) if pathlib.Path("/root/.vp/PROPERTIES.schema.json").exists() else None
if s:
    for p in P: jsonschema.validate(p, s)
    print(len(P), "properties ok")
