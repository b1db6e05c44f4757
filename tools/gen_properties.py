#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where titles and statements are edited)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                  observe_at=observe or [], hook_needed=None)))
PY = "python/polars_ds/"
EX = [PY + "exprs/" + f for f in ("num.py", "stats.py", "string.py", "metrics.py", "ts_features.py", "expr_knn.py", "expr_linear.py", "expr_iter.py")]

p("C01", "Every expression builder dispatches to an existing native routine",
  "For every public expression builder and every combination of its options (including the 32-bit float mode and the similarity/distance and with/without-p-value variants), the native routine it asks the query engine to run is one the compiled extension provides. No option combination yields an expression that can only fail with a missing-symbol error.",
  ["inputs", "configurations"], "all option combinations of all public expression builders, both float-precision modes",
  "Tests call each builder with a handful of option values; a branch never taken in a test can name anything.",
  EX + ["src/lib.rs"], [("pl_plugin symbol argument", PY + "_utils.py"), ("polars_expr attribute exports", "src/**")])

p("C02", "Options cross the Python/native boundary by name, type and without loss",
  "Every keyword option an expression builder hands to its native routine is one the routine declares, carries a value of the declared kind, and every option the routine requires is supplied on every path. Every option a native routine declares influences what it does; none is accepted and then ignored.",
  ["inputs", "configurations"], "all builders, all option combinations, all declared native options",
  "A missing or misspelt option fails only on the branch that builds it, and an ignored option fails nowhere; tests sample a few branches.",
  EX + ["src/num_ext", "src/str_ext"], [("kwargs dictionaries", "python exprs"), ("serde Deserialize kwargs structs", "src/**")])

p("C03", "Positional inputs match what the native routine reads, in number and type",
  "For every option combination, an expression builder passes its native routine at least as many positional inputs as the routine reads, and each input whose type the builder fixes (a literal with a type, or a cast) has the type the routine reads at that position.",
  ["inputs", "configurations"], "all builders and option combinations, all input positions read by the native routine",
  "A wrong literal type or a missing input raises only when that builder branch is evaluated, which tests do for few combinations.",
  EX + ["src/**"], [("args lists", "python exprs"), ("inputs[i].<dtype>() accessors", "src/**")])

p("C04", "A native routine's declared result type is the type it returns",
  "On every success path, the series a native routine returns has the data type (and, for struct results, the field names in the order) that the routine declares to the query planner for those inputs.",
  ["inputs"], "all native routines, all success paths",
  "The eager tests compare values, and the planner's declared schema is not compared with the result; degenerate-input paths are not run.",
  ["src/**"], [("output_type / output_type_func attributes", "src/**")], ["LazyFrame.collect_schema() versus collected schema"])

p("C05", "Scalar-returning expressions return exactly one row",
  "An expression builder that declares its result to be a scalar is backed by a native routine whose every success path produces exactly one row, for every input including empty and degenerate ones.",
  ["inputs"], "all builders flagged scalar, all success paths of their native routines",
  "Tests use well-formed inputs and compare values; degenerate branches that return an empty or row-length result are not exercised.",
  EX + ["src/**"], [("returns_scalar flag", "python exprs"), ("final Series constructors", "src/**")])

p("C06", "Element-wise expressions look at one row at a time",
  "An expression builder that declares itself element-wise is backed by a native routine whose output has one row per input row and whose every output row is computed from the same row of the inputs only (an operand tested to have one row counts as a constant): it never sorts, aggregates, shifts, filters or otherwise mixes rows.",
  ["inputs", "schedules"], "all builders flagged element-wise and everything their native routines call",
  "Whether the engine may split, stream or push predicates past the call depends on row locality, which value tests on one small frame cannot see.",
  EX + ["src/**"], [("is_elementwise flag", "python exprs"), ("native bodies", "src/**")])

p("C07", "Row-wise results stay aligned with their input rows",
  "In every native routine that emits results row by row, each iterated row appends exactly one value (or null) to every output column, on every path through the loop body, so row i of the result always describes row i of the input.",
  ["inputs"], "all row loops in native routines and all paths through their bodies",
  "A skipped or doubled append needs a particular mix of nulls, masks and too-short rows to show.",
  ["src/num_ext/linear_regression.rs", "src/num_ext/linear_regression_f32.rs", "src/num_ext/knn.rs", "src/num_ext/**", "src/str_ext/**"],
  [("builder append calls in row loops", "src/**")])

p("C08", "The parallel flag never changes a result",
  "For every routine with a parallel option, the parallel branch applies the same per-row computation with the same arguments as the serial branch, covers every row once, keeps row order, and returns the same result (floating-point sums up to the order of additions).",
  ["inputs", "schedules"], "all routines with a parallel option, all schedules of the worker pool",
  "Tests compare parallel and serial for few routines and small frames; order or coverage defects need a particular length or schedule.",
  ["src/str_ext/**", "src/num_ext/**", "src/pymodels/py_kdt.rs", "src/utils/mod.rs"], [("split_offsets + per-chunk closures", "src/**"), ("par_iter collect_into_vec", "src/**")])

p("C09", "Routines never start their own parallelism inside the engine's",
  "A native expression routine spreads its own work over the worker pool only when the caller asked for parallel execution and the query engine has not told it that it is already running in parallel. (Polars' and faer's own kernels, and the shared conversion of input columns into a matrix, manage their parallelism themselves and are not covered.)",
  ["schedules", "configurations"], "all native expression routines, all call sites that enter the worker pool",
  "Nested use of the pool shows as a deadlock or oversubscription only under particular engine schedules.",
  ["src/**"], [("CallerContext::parallel gate", "src/**")])

p("C10", "Randomness comes only from the caller's seed",
  "Every random draw in native code and in the Python layer is made by a generator built from the seed the caller passed, drawing fresh entropy only when no seed was given; no clock reading, thread identity or order of a hashed set made by the library feeds a result. (The row order of the engine's own operators is not covered.)",
  ["inputs", "schedules", "configurations"], "all randomised expressions and sampling functions, all seeds",
  "Tests with a seed cover few functions; a function that ignores its seed passes any tolerance test.",
  ["src/stats/sample.rs", "src/stats/xi_corr.rs", PY + "exprs/stats.py", PY + "sample_and_split/sample_and_split.py"], [("rng_from_seed", "src/stats_utils, src/stats/sample.rs")])

p("C11", "Null in, null out for element-wise text and number functions",
  "Every row-wise text or number function yields null for a row where any of its row inputs is null, and a non-null input row never turns null except where the function's documentation says so.",
  ["inputs"], "all row-wise text and number functions, all null patterns",
  "Tests rarely put nulls in the second operand, in broadcast literals, or in chunked inputs.",
  ["src/str_ext/**", "src/num_ext/float_extras.rs", "src/num_ext/gcd_lcm.rs", "src/num_ext/haversine.rs"], [("null-propagating apply/arity helpers", "src/**")])

p("C12", "32-bit regression mirrors 64-bit regression",
  "Each linear-regression routine's 32-bit version performs the same steps in the same order as its 64-bit version, with the same options, null handling, checks, defaults and output layout; the two differ only in float width.",
  ["inputs", "configurations"], "all regression routines in both float widths, all paths",
  "The 32-bit mode is a global switch that the tests hardly turn on.",
  ["src/num_ext/linear_regression.rs", "src/num_ext/linear_regression_f32.rs"], [("sibling modules", "src/num_ext")])

p("C13", "Every documented option value is recognised, and means the same everywhere",
  "Every value of a documented enumerated option (metric, mode, method, solver, null policy, alternative, standard-error kind, strategy) is recognised by the code that interprets it and selects the behaviour of that name, which no other documented value of the same option selects; a value that is not recognised raises an error or falls into the documented default.",
  ["inputs", "configurations"], "all enumerated options and all their documented values",
  "Tests use the common values only; a value whose branch was lost silently takes the default.",
  [PY + "typing.py"] + EX + ["src/utils/mod.rs", "src/linalg/mod.rs", "src/num_ext/convolve.rs", "src/stats/**"], [("Literal aliases", PY + "typing.py"), ("native string matches", "src/**")])

p("C14", "Every public parameter has an effect on the result",
  "In every public Python function, each parameter influences the returned value, the validation performed or a named alternative on every option path where the documentation does not say it is unused; wrappers and deprecated names forward every parameter under the right name.",
  ["inputs", "configurations"], "all public functions, all parameters, all option paths",
  "A dropped parameter changes nothing for callers that use its default, which is what most tests do.",
  [PY + "**"], [("dataflow from parameters to return values", PY + "exprs, modeling, linear_models, spatial")])

p("C15", "A fitted pipeline applies only what it learned at fit time",
  "Every expression produced by fitting a transform uses statistics computed from the fitting data as fixed values and is otherwise row-local: applying it to new data never recomputes a mean, quantile, mode, category set or model from that data. Each learned value is applied to the column it was learned from.",
  ["inputs", "histories"], "all fitted transforms, all methods, all column lists, all later data",
  "Tests transform the data they fitted on, where recomputed and learned statistics agree.",
  [PY + "modeling/transforms.py", PY + "modeling/_structures.py", PY + "modeling/pipeline.py"], [("transforms return literal-only expressions", PY + "modeling/transforms.py")])

p("C16", "Saving and loading a pipeline loses nothing",
  "Every piece of state that affects a pipeline's behaviour is written when the pipeline is saved and read back into the same place when it is loaded, for every kind of step, so a loaded pipeline behaves as the saved one.",
  ["histories", "configurations"], "all pipelines, all step kinds, all settings",
  "Tests round-trip one pipeline with default settings.",
  [PY + "modeling/pipeline.py", PY + "modeling/_structures.py"], [("to_dict/from_dict, PipelineStep.to_json/from_json", PY + "modeling")])

p("C17", "Fitted steps never touch the target or excluded columns, and run in order",
  "Every transform a blueprint adds that learns from selected columns receives the blueprint's exclusions (the target and the user's list), excluded columns never reach the transform, and materializing keeps every step exactly once in the order it was added, each fitted on the data as transformed by the steps before it.",
  ["inputs", "histories"], "all blueprint methods and all step sequences",
  "Tests select feature columns explicitly and use short step lists.",
  [PY + "modeling/pipeline.py", PY + "modeling/_structures.py"], [("FitStep exclude; Blueprint.materialize loop", PY + "modeling")])

p("C18", "Models refuse to predict before they are fitted and check shapes",
  "Every model class reports not-fitted through an error rather than a value when coefficients, inverse or predictions are requested before fitting or setting them, and rejects inputs whose shape disagrees with the model before computing.",
  ["histories", "inputs"], "all model classes, all call sequences, all input shapes",
  "The Python model classes are not covered by the test suite.",
  ["src/linalg/mod.rs", "src/linalg/lr_solvers.rs", "src/linalg/lr_online_solvers.rs", "src/pymodels/py_lr.rs", "src/pymodels/py_kdt.rs"], [("LinearRegression trait checks", "src/linalg/mod.rs")])

p("C19", "Regression routines carry out the documented steps; the intercept comes last and is never penalised",
  "Every native regression routine and model class builds the documented design (features in order, the column of ones after all of them when a bias is asked for, weights, null policy), solves it with the documented update, penalty, tolerance and stopping rule, never penalises the intercept, and reports coefficients, predictions, residuals and test statistics computed by the documented formulas in the documented positions.",
  ["inputs", "configurations"], "all solvers, regression routines and native model classes; all penalties, shapes and options (kept symbolic)",
  "Tests compare with a reference for few settings, mostly without bias, and look at few of the reported numbers.",
  ["src/linalg/**", "src/num_ext/linear_regression.rs", "src/num_ext/linear_regression_f32.rs", "src/pymodels/py_lr.rs"], [("solvers", "src/linalg"), ("regression routines", "src/num_ext/linear_regression.rs")])

p("C20", "Unchecked memory access is preceded by the check that justifies it",
  "Every unsafe read or write of a buffer in the native code happens only after the same function (or every caller) has established that the index or length is within that buffer.",
  ["inputs"], "all unsafe blocks, all input lengths and shapes",
  "Out-of-bounds access with unequal lengths or empty input corrupts memory without failing a value test.",
  ["src/**"], [("unsafe blocks", "src/**")])

p("C21", "Spatial index boxes contain their points and searches never skip a needed side",
  "Every way of adding a point to the spatial index enlarges the bounding box of each node it passes through, sends the point to the side a later search would look on, and every search skips a subtree only when its box is farther than the current bound; every neighbour routine uses the metric, the number of neighbours, the radius, the bound and the row ids it was asked for, and keeps or drops the point itself as documented.",
  ["inputs", "histories"], "all build and insertion histories, all query kinds, both ownership variants of the index, all nearest-neighbour expressions",
  "A loose box or one-sided descent loses neighbours only for particular point layouts.",
  ["src/arkadia/**", "src/num_ext/knn.rs", "src/pymodels/py_kdt.rs"], [("bounds updates; pruning comparisons", "src/arkadia/kdt.rs"), ("neighbour routines", "src/num_ext/knn.rs")])

p("C22", "Text tables are well-formed for the algorithms that search them",
  "Every table searched by bisection or by the suffix matcher is sorted in the order its search assumes, free of duplicates, and links each entry to its longest proper suffix; every action code a table can return is handled; the tables hold the published entries and codes, and the letter groups the published letters between their stated bounds.",
  ["inputs"], "all entries of all built-in text tables",
  "A mis-sorted entry affects only the words whose search path crosses it.",
  ["src/str_ext/consts.rs", "src/str_ext/is_stopword.rs", "src/str_ext/snowball/**"], [("EN_STOPWORDS; Among tables", "src/str_ext")])

p("C23", "Two-column text functions broadcast one row, pair equal lengths, and refuse anything else",
  "Every text function of two columns compares each row with the single value when the second column has one row, pairs rows when lengths are equal, and raises an error for any other pair of lengths; it never truncates or recycles silently.",
  ["inputs"], "all two-column text functions, all pairs of lengths",
  "Tests use a literal or an equal-length column; mismatched lengths are not tried.",
  ["src/str_ext/**"], [("length dispatch", "src/str_ext/generic_str_distancer.rs and siblings")])

p("C24", "No public name is shadowed by another module's",
  "Every name a module exports reaches the package namespace bound to that module's own definition: no two star-imported modules export the same name, every exported name is defined, and the compatibility layer reaches every expression function.",
  ["configurations"], "all exported names",
  "A shadowed function still imports; tests that use the other one pass.",
  [PY + "__init__.py", PY + "exprs/**", PY + "compat/_compat.py"], [("__all__ lists and star imports", PY + "exprs/__init__.py")])

p("C25", "Null policies do what they say",
  "For every regression entry point, rows with nulls are dropped under skip, cause an error under raise, are filled with the stated number under zero, one or a number, and are left alone under ignore; whatever the policy, rows whose target is null are never filled.",
  ["inputs", "configurations"], "all regression entry points, all policies, all null patterns",
  "Tests cover one or two policies with nulls in one column.",
  ["src/num_ext/linear_regression.rs", "src/num_ext/linear_regression_f32.rs", "src/utils/mod.rs", PY + "linear_models.py"], [("NullPolicy dispatch", "src/utils/mod.rs, src/num_ext/linear_regression*.rs")])

p("C26", "Native limits are enforced before the native code runs",
  "Every native routine that assumes a lower bound on a size, window, count or order is reachable from the public API only after that bound has been checked and a clear error raised for values outside it.",
  ["inputs"], "all builders whose native routine assumes a bound, all values of the bounded parameter",
  "Tests pass valid sizes only.",
  EX + ["src/**"], [("raise ValueError guards", "python exprs"), ("slice/subtraction assumptions", "src/**")])

p("C27", "Transforming a frame applies every step once, in order",
  "Pipeline.transform applies the casing rule first, then every step exactly once in the recorded order and in the frame operation of its kind, then the recorded output columns when asked for; it returns features and target separately when asked, stays lazy exactly when asked, and when input features are to be ensured it raises on any missing or extra column.",
  ["inputs", "configurations"], "all pipelines, step kinds, switches and input frames",
  "Tests transform with the default switches; a step applied twice, out of order or under the wrong operation needs a particular combination of steps and switches to show.",
  [PY + "modeling/pipeline.py", PY + "modeling/_structures.py"], [("Pipeline.transform, _generate_lazy_plan, PipelineStep.apply_df", PY + "modeling")])

def formula(id, title, what, rest, text, why, f, mech):
    p(id, title, "For every input column and every combination of documented options, " + what + " The Python layer's composition is what is meant: the native routines and polars methods it names are taken as given." + rest,
      ["inputs", "configurations"], text, why, f, mech)

formula("C29", "Metric expressions compose their documented formula",
  "each model-evaluation metric (errors, losses, likelihoods, classification and ranking metrics) in the Python layer composes polars operations and native routines into exactly the formula its documentation defines: the right columns in the right roles, the right weights, normalisation and averaging, and the right native routine for the options given.", "",
  "all metric builders, all option combinations, all inputs (kept symbolic)",
  "Tests compare a few metrics with scikit-learn on a few samples under default options; several metrics are not tested at all.",
  [PY + "exprs/metrics.py"], [("metric formulas", PY + "exprs/metrics.py")])
formula("C30", "Statistical expressions compose their documented formula",
  "each statistical expression (means, correlations, tests, quantile-based measures, random columns) in the Python layer composes exactly the formula its documentation defines, with each option, weight, degree of freedom, bound and seed in its place.", "",
  "all statistics builders, all option combinations, all inputs (kept symbolic)",
  "Tests compare selected statistics with scipy on one sample under default options; weighted and bounded variants are barely covered.",
  [PY + "exprs/stats.py"], [("statistic formulas", PY + "exprs/stats.py")])
formula("C31", "Time-series features compose their documented formula",
  "each time-series feature in the Python layer composes exactly the formula its documentation defines, with lags, windows, thresholds, orderings and normalisations in their place.", "",
  "all time-series feature builders, all option combinations, all inputs (kept symbolic)",
  "Tests cover a few features with one parameter setting each.",
  [PY + "exprs/ts_features.py"], [("feature formulas", PY + "exprs/ts_features.py")])
formula("C32", "Numerical expressions compose their documented formula",
  "each numerical expression (similarities, bin counts, transforms, convolutions, information values, special functions, principal components, and so on) in the Python layer composes exactly the formula its documentation defines, with every option in its place.", "",
  "all builders of exprs/num.py, all option combinations, all inputs (kept symbolic)",
  "Tests cover one option combination of most builders.",
  [PY + "exprs/num.py"], [("formulas", PY + "exprs/num.py")])
formula("C33", "Samples, splits and combinations select what they document",
  "sampling, down-sampling, train/test splitting, random column choice and combination/product builders in the Python layer select rows, columns or elements exactly as documented: the requested count or share, the requested key columns, the seed passed on, every row in exactly one split.", "",
  "all functions of sample_and_split.py and expr_iter.py, all option combinations, eager and lazy frames",
  "Tests use one ratio and one frame; rounding, list-valued ratios, lazy input and seeds are hardly covered.",
  [PY + "sample_and_split/sample_and_split.py", PY + "exprs/expr_iter.py"], [("sample, downsample, random_cols, split_by_ratio", PY + "sample_and_split/sample_and_split.py")])
formula("C34", "Text expressions compose their documented operation",
  "each text expression in the Python layer calls the routine its documentation names for the options given, with operands in the documented order, the documented options passed on under the documented meaning, and the documented post-processing.", "",
  "all builders of exprs/string.py, all option combinations, all inputs (kept symbolic)",
  "Tests call each text function with one or two settings.",
  [PY + "exprs/string.py"], [("text builders", PY + "exprs/string.py")])
formula("C35", "Neighbour expressions compose their documented query",
  "each nearest-neighbour, radius and distance-from-a-point expression in the Python layer asks the routine its documentation names, passes the features, index, masks, bounds and metric in their documented roles, and composes point-distance formulas as documented for every metric.", "",
  "all builders of exprs/expr_knn.py, all option combinations, all inputs (kept symbolic)",
  "Tests cover the default metric and default masks.",
  [PY + "exprs/expr_knn.py"], [("neighbour builders", PY + "exprs/expr_knn.py")])
formula("C36", "Regression expressions pass their inputs in the documented roles",
  "each regression expression in the Python layer asks the routine its documentation names for the options and float mode given, with the target, features, weights and every option (bias, penalties, solver, null policy, standard errors, window and lag settings) in its documented role, and raises on the documented invalid settings.", "",
  "all builders of exprs/expr_linear.py, all option combinations and both float modes",
  "Tests cover a few option combinations in 64-bit mode.",
  [PY + "exprs/expr_linear.py"], [("regression builders", PY + "exprs/expr_linear.py")])

p("C28", "Fit functions learn the documented statistic and apply it as documented",
  "For every column and every combination of documented options, each fit function of modeling/transforms.py (imputation, scaling, clipping, encoding, binning, polynomial and other features) returns the documented expression per column: the right learned statistic of that same column in the right place, the documented handling of nulls, unknown values, strategies and defaults, under the documented output name, and it raises on the documented invalid settings.",
  ["inputs", "configurations"], "all fit functions, all option combinations, all fitting frames (kept symbolic)",
  "Tests fit a few steps with default options on one frame; what is learned under other options, for other columns or for edge settings is not looked at.",
  [PY + "modeling/transforms.py"], [("fit functions", PY + "modeling/transforms.py")])
p("C37", "Model classes hand their data to the native object in the documented roles",
  "Each method of LR, ElasticNet, OnlineLR and KDTree, for every combination of options, passes the documented arrays, options, radii and bounds to the native object in the documented roles and shapes, applies the documented null policy to both features and target, keeps and returns the documented state (coefficients, bias, feature names, predictions), and refuses the documented invalid inputs.",
  ["inputs", "configurations", "histories"], "all public methods of the model classes, all option combinations, all inputs (kept symbolic)",
  "Tests fit the default model on one matrix; null policies, scalar and array radii, frame-based prediction and rebuilt models are hardly covered.",
  [PY + "linear_models.py", PY + "spatial.py"], [("LR, ElasticNet, OnlineLR", PY + "linear_models.py"), ("KDTree", PY + "spatial.py")])
p("C38", "Data inspection and partition helpers report what they document",
  "Each reporting method of DIA (special values, string statistics, validations, correlations, inferred probability/null/discrete/constant/binary/k-distinct columns, dependencies) and each method of PartitionHelper computes what its documentation says for every frame and option: the right columns, statistic, threshold and comparison, rows and names in order.",
  ["inputs", "configurations"], "all non-plotting methods of DIA and PartitionHelper (except apply), all option combinations, all frames (kept symbolic)",
  "No test covers the inspection assistant, and the partition helper is hardly tested.",
  [PY + "eda/diagnosis.py", PY + "partition/partition.py"], [("DIA", PY + "eda/diagnosis.py"), ("PartitionHelper", PY + "partition/partition.py")])

p("C39", "Native text routines compute what they document",
  "Every native text routine (distances, similarities, phonetics, cleaning, counting, extraction, nearest string, stemming and stop words) computes, for every pair of strings and option, the value its documentation describes: the right case of its case analysis, the right bounds, the right normalisation, the right edge results for empty strings.",
  ["inputs", "configurations"], "all native routines of src/str_ext and the stemmer; strings and options kept symbolic",
  "Tests compare a few words; a wrong edge case or branch shows only for particular strings.",
  ["src/str_ext/**"], [("plugin routines", "src/str_ext")])

p("C40", "Native tests, statistics and special functions compute what they document",
  "Every native statistical test, sampling routine and special function carries out the documented computation for every input and option: the right statistic, degrees of freedom, tail, continued fraction, series, domain checks and edge results.",
  ["inputs", "configurations"], "all native routines of src/stats and src/stats_utils; data and options kept symbolic",
  "Tests compare with a reference at sample points and rarely reach the domain checks.",
  ["src/stats/**", "src/stats_utils/**"], [("plugin routines", "src/stats"), ("special functions", "src/stats_utils")])

p("C41", "Native numerical routines compute what they document",
  "Every native numerical routine (metrics, confusion matrices, entropies, correlations, transforms, integrals, distances, features of time series, number theory) carries out the documented computation for every input and option: the right formula, window, threshold, normalisation, order, and results on empty, short, constant or missing data.",
  ["inputs", "configurations"], "all native routines of src/num_ext apart from regression and nearest neighbours; data and options kept symbolic",
  "Tests compare with a reference on a few random columns; wrong bounds and edge results hide there.",
  ["src/num_ext/**"], [("plugin routines", "src/num_ext")])

p("C42", "Shared native helpers do what their callers rely on",
  "The native helpers every routine shares (distances between vectors, the great-circle distance, conversion of columns to row-major numbers, splitting rows among threads, declared result fields, ordering of neighbours) carry out the documented computation for every input: the right formula, layout, names, types, and results on nulls, empty frames and unequal lengths.",
  ["inputs"], "all helpers of src/utils that native routines use; data kept symbolic",
  "Tests reach the helpers only through a few callers; a wrong offset or bound shows only for particular shapes.",
  ["src/utils/**"], [("helpers", "src/utils/mod.rs")])

p("C43", "What is stored under a null is never read as a value",
  "Wherever a native routine goes over the stored values of a column without asking which of them are valid, the column has no nulls: the routine or its Python builder has dropped, filled or refused them. No result depends on what happens to be stored in the place of a missing value.",
  ["inputs"], "every place in the routines and their helpers where stored values are read without validity, for every builder of the routine; columns with any pattern of nulls",
  "What lies under a null is usually zero or empty in a test, so reading it goes unnoticed; filtered or computed columns hide arbitrary values there.",
  ["src/**", "python/polars_ds/exprs/**"], [("unmasked reads", "src/num_ext, src/str_ext, src/stats, src/utils")])

p("C44", "A column stored in several pieces is treated like one stored in one",
  "Wherever a native routine needs the values of a column in one contiguous piece, the routine or its Python builder has joined the pieces first, so that frames put together by concatenation, appending or streaming give the same result as a frame built at once.",
  ["inputs"], "every place where a contiguous slice of a column is taken, for every builder of the routine; columns in any number of pieces",
  "Frames in tests are built at once and have a single piece; the failure shows only for frames put together from parts.",
  ["src/**", "python/polars_ds/exprs/**"], [("contiguous reads", "src/num_ext, src/stats, src/utils")])

p("C45", "Columns that belong together are paired row by row",
  "No two columns that must correspond row by row (the inputs of one native routine, the two sides of an operation, the columns of one select or struct) are taken from separate evaluations of an expression whose row order is left open (unsorted value counts, distinct values, modes, unseeded shuffles, samples and random ranks). Values, counts and categories that belong together stay together, and the result does not change from one evaluation to the next.",
  ["inputs", "schedules"], "every expression built by the Python layer, on every option path", 
  "With few distinct values the engine often happens to produce the same order twice, so that the pairing comes out right in most runs.",
  ["python/polars_ds/**"], [("value counts and distinct values", "python/polars_ds/exprs/num.py")])

# ---- declined: quantify over runtime values
p("N01", "Regression coefficients solve the least-squares problem",
  "For every full-rank input, the coefficients returned by the regression expressions minimise the (weighted, penalised) sum of squared residuals up to floating-point error.",
  ["inputs"], "all feature matrices", "Tests compare with references on a few random matrices.", ["src/linalg/**"], [("solvers", "src/linalg")])
p("N02", "Special functions and p-values are accurate",
  "The gamma, beta, normal, t, F and chi-squared routines agree with their mathematical definitions to the documented accuracy over their whole domain.",
  ["inputs"], "all real arguments", "Tests compare at sample points.", ["src/stats_utils/**"], [("series and continued fractions", "src/stats_utils")])
p("N03", "Nearest-neighbour answers are exact",
  "Every k-nearest and within-radius query returns exactly the points a brute-force scan returns.",
  ["inputs", "histories"], "all point sets, queries and radii", "Tests compare on random point sets.", ["src/arkadia/**", "src/num_ext/knn.rs"], [("KDT search", "src/arkadia/kdt.rs")])
p("N04", "String distances equal their definitions",
  "Each string distance or similarity equals its mathematical definition for all pairs of strings.",
  ["inputs"], "all string pairs", "Tests compare sample pairs.", ["src/str_ext/**"], [("rapidfuzz calls", "src/str_ext")])
p("N05", "Native classification routines equal their definitions",
  "The native threshold, ROC-AUC and average-precision routines equal their textbook values for all label/score vectors including ties.",
  ["inputs"], "all label and score vectors", "Tests compare with scikit-learn on samples.", [PY + "exprs/metrics.py", "src/num_ext/tp_fp.rs"], [("metric formulas", "python/rust")])
p("N06", "Transforms in time and frequency are numerically right",
  "Convolution by the direct and FFT methods agree in every mode, and the real FFT equals the discrete Fourier transform.",
  ["inputs"], "all signals and kernels", "Tests compare with numpy on samples.", ["src/num_ext/convolve.rs", "src/num_ext/fft.rs"], [("convolution", "src/num_ext")])
p("N07", "Native entropy and complexity routines equal their definitions",
  "Sample, approximate, permutation, conditional and k-NN entropies and Lempel-Ziv complexity equal their definitions for every series.",
  ["inputs"], "all series", "Tests compare samples.", ["src/num_ext/entrophies.rs", PY + "exprs/ts_features.py"], [("entropy routines", "src/num_ext")])
p("N08", "Random expressions follow the stated distributions",
  "The random expressions draw from the distributions and ranges they name.",
  ["inputs"], "all parameters", "Statistical tests sample.", ["src/stats/sample.rs"], [("rand_distr", "src/stats")])
p("N09", "Split sizes survive rounding for every frame height",
  "Ratio splits partition the rows and samples have the requested size for every frame and ratio.",
  ["inputs"], "all frames, ratios and counts", "Tests use round sizes.", [PY + "sample_and_split/sample_and_split.py"], [("ratio arithmetic", "sample_and_split.py")])
p("N10", "The stemmer equals the reference Snowball English stemmer",
  "For every word the stemmer's output equals that of the reference algorithm.",
  ["inputs"], "all words", "Tests stem a few words.", ["src/str_ext/snowball/**"], [("generated stemmer", "src/str_ext/snowball")])

with open(OUT, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
