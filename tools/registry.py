"""What each property's check runs.  quick/thorough are numbers of generated cases (split over shards)."""
PROPS = {}
def cpp(harness, name, quick, thorough=None, targets=(), flavour="plain", shards=4, **kw):
    return dict(kind="cpp", harness=harness, name=name, quick=quick, thorough=thorough or quick * 20, targets=list(targets), flavour=flavour, shards=shards, **kw)
def cli(harness, name, quick, thorough=None, targets=(), flavour="plain", shards=8, **kw):
    return dict(kind="py", harness=harness, name=name, quick=quick, thorough=thorough or quick * 15, targets=list(targets), flavour=flavour, shards=shards, **kw)
def prop(pid, tests, rule, technique, level_note, assumptions=(), probes=()):
    PROPS[pid] = dict(tests=tests, rule=rule, technique=technique, level_note=level_note, assumptions=list(assumptions), probes=list(probes))
def find(pid, name):
    for t in PROPS[pid]["tests"] + PROPS[pid]["probes"]:
        if t["name"] == name: return dict(t)
    raise KeyError((pid, name))
EXP = "Random exploration of the generated space by seed; no claim of absence. "

CONV = ["data2data", "data_rbf", "data_grid", "data_brdf_slice"]
prop("P01", [cpp("t_data", "text_roundtrip", 40000, 1500000, shards=8), cpp("t_data", "equals_detects_difference", 40000, 1000000)],
     "data sets of every named parametrization or free dimension, 1-60 rows, doubles of any magnitude; non-trivial = more than one row (round trip) or a decidable difference (comparison)",
     "property-based round trip of generated data sets against an in-memory model",
     EXP + "Values are compared to 15 significant digits, the precision the format prints.",
     ["finite values of magnitude up to 1e300 (the text format cannot hold infinities)"])
prop("P02", [cpp("t_data", "binary_roundtrip", 60000, 2000000, shards=8), cpp("t_data", "binary_text_binary", 20000, 600000), cpp("t_data", "binary_layout", 40000, 1000000)],
     "data sets of every parametrization and bound kind with arbitrary bit patterns; non-trivial = more than one row",
     "property-based round trip and format-model test (independent writer) with bit-exact oracle",
     EXP + "Bit-exact comparison; the documented layout is also written by the harness and read by the library.",
     ["input coordinates are not NaN (the domain box is undefined then)"])
prop("P04", [cpp("t_data", "text_loader_model", 120000, 4000000, shards=8), cpp("t_data", "cosine_correction", 60000, 1500000)],
     "small files with random header order, separators, comments, bound columns, combined with random filter and bound options; non-trivial = more than one row in the file and at least one kept",
     "model-based property test of the text loader against an independent reference loader",
     EXP + "Bound columns are declared for the first output channel only, which is all the loader supports.",
     ["dt-relative/dt-max are combined only with bounds that the file does not declare", "the clamp to positive values is not combined with output filters"])
prop("P05", [cpp("t_data", "domain_box", 40000, 1000000), cpp("t_data", "row_writes", 40000, 1000000)],
     "row sets of all signs and bound kinds (domain), sequences of 1-12 row writes checked against an array model after every step; non-trivial = several rows (and more than two writes)",
     "property-based invariant and model-based operation sequences",
     EXP + "The domain is checked on construction and after loading from both formats; writes do not update it in this library and are not required to.", [])
prop("P06", [cpp("t_params", "coordinates_match_definition", 400000, 8000000), cpp("t_params", "roundtrip_through_param", 400000, 8000000), cpp("t_params", "convert_composes", 300000, 6000000),
             cpp("t_params", "half_frame", 100000, 2000000), cpp("t_params", "hemisphere_test", 60000, 1000000), cpp("t_params", "outside_domain", 200000, 4000000), cpp("t_params", "reparametrized_rows", 30000, 600000)],
     "pairs of unit directions of the upper hemisphere (uniform, grazing, along the normal, coincident, mirrored) and pairs of parametrizations; non-trivial = away from the singular points of the parametrizations",
     "property-based testing against reference coordinates written from the documentation, round trips and composition laws",
     EXP + "At singular points (normal, horizon, coincident directions) only finiteness, unit length and the retained coordinates are judged.", [])
prop("P07", [cpp("t_params", "names_bijection", 20000, 200000), cpp("t_params", "unknown_names", 100000, 2000000), cpp("t_params", "names_through_files", 20000, 400000), cli("conv", "parametrization_list", 400, 6000, targets=CONV)],
     "all parametrizations; strings obtained by 1-3 edits of real names; non-trivial = the name is not a known one (strings), every case (enumeration)",
     "property-based enumeration of the name tables, mutation of names and round trips through file headers", EXP, [])
prop("P08", [cpp("t_params", "output_convert", 200000, 4000000)],
     "output kinds, channel counts, values and previous destination content; non-trivial = channel counts differ",
     "property-based testing against the definition of each conversion", EXP, [])
prop("P09", [cpp("t_args", "command_line", 60000, 1500000), cpp("t_args", "stored_command_line", 40000, 1000000), cpp("t_args", "pairs", 10000, 100000)],
     "command lines of 0-7 distinct options (flags, words, integers, reals of either sign, bracketed vectors in one or several arguments, lists of options), in every order; non-trivial = at least two options",
     "model-based property test of the argument parser and of the command line stored in function files", EXP, ["option values do not start with a letter after a dash (such words are options)"])
prop("P10", [cpp("t_args", "header_as_written", 60000, 1500000), cpp("t_args", "header_pairs_typed", 8000, 200000)],
     "headers of 0-8 keys with comments, tabs, CR line ends, both documented end markers and bodies that may start with '#'; non-trivial = several keys and a body",
     "model-based property test of the header parser, plus declarations written by the library's own writers", EXP, [])
prop("P36", [cpp("t_args", "vec_algebra", 80000, 2000000)],
     "vectors of length 1-12 with components of any magnitude; non-trivial = length above one", "property-based testing against the definitions in extended precision", EXP, ["printing uses the stream's default 6 digits"])
prop("P39", [cpp("t_timer", "histories", 300000, 8000000)],
     "1-14 operations on one or two timers, with pauses and durations of zero seconds to several days, from any origin of the clock; non-trivial = at least a minute measured",
     "stateful model-based property testing with a clock controlled by the harness (clock_gettime is interposed)", EXP, ["a timer is started when stopped and stopped when running; the elapsed time is read while it is stopped"])

FUN = ["nonlinear_function_abc", "nonlinear_function_beckmann", "nonlinear_function_blinn", "nonlinear_function_diffuse", "nonlinear_function_lafortune", "nonlinear_function_sgd",
       "nonlinear_function_spherical_gaussian", "nonlinear_function_ward", "nonlinear_function_retrobeckmann", "nonlinear_function_retroblinn", "nonlinear_function_retroyoo",
       "nonlinear_fresnel_schlick", "nonlinear_fresnel_normalized_schlick", "nonlinear_fresnel_retroschlick", "nonlinear_shadowing_schlick", "nonlinear_shadowing_smith", "nonlinear_shadowing_walter_smith"]
RAT = ["rational_function_legendre", "rational_function_chebychev", "rational_function_cosine"]
TREES = "single models of every kind with their options, products with Fresnel and masking factors, sums of 2-3 such terms, 1-3 channels, fixed/free parts, several input parametrizations, parameters in the models' valid ranges"
prop("P11", [cpp("t_func", "save_load", 200000, 3000000, targets=FUN, shards=8)],
     TREES + "; non-trivial = more than one part or a non-default option", "property-based save/load round trip comparing structure, options, parameters and values",
     EXP + "Values are compared at generated configurations to the 6 digits the files hold.", ["parameters are values that print exactly in 6 significant digits"])
prop("P12", [cpp("t_func", "jacobian", 800000, 20000000, targets=FUN, shards=8), cpp("t_func", "jacobian_at_bounds", 200000, 5000000, targets=FUN, shards=4)],
     TREES + "; non-trivial = a non-zero derivative was compared", "property-based comparison with numerical differentiation (Richardson-extrapolated central differences with an error estimate)",
     EXP + "Points within the step of a kink (clamps, cut-offs, horizon) are discarded.", ["layout jac[y*nbParameters+p]"])
prop("P13", [cpp("t_func", "parameter_vector", 500000, 10000000, targets=FUN, shards=8)],
     TREES + " with sequences of parameter sets; non-trivial = at least one free parameter", "model-based operation sequences on parameter vectors with a fresh twin as reference", EXP, [])
prop("P14", [cpp("t_func", "formula", 1500000, 40000000, targets=FUN, shards=8)],
     TREES + "; non-trivial = a value above zero was compared", "differential property test against an independent implementation of each model's formula",
     EXP + "The reference formulas are written from the headers' documentation and the papers cited there.", ["configurations strictly above the horizon"])
prop("P15", [cpp("t_func", "composition", 700000, 16000000, targets=FUN, shards=8)],
     TREES + "; non-trivial = at least two parts", "property-based algebraic laws (pointwise sum/product, concatenated parameters) against separately built parts", EXP, [])
prop("P16", [cpp("t_rational", "rational_value", 400000, 8000000, targets=RAT, shards=8), cpp("t_rational", "rational_basis", 3000, 60000, targets=RAT)],
     "all basis families, 1-4 inputs, 1-3 channels, up to 40 coefficients, domains and points in and around them; non-trivial = more than one coefficient in numerator and denominator",
     "differential property test against reference polynomials and a reference degree enumeration", EXP, [])
prop("P17", [cpp("t_rational", "rational_save_load", 150000, 3000000, targets=RAT, shards=8)],
     "as P16 with coefficients of any sign and magnitude; non-trivial = several coefficients", "property-based save/load round trip", EXP + "Coefficients are compared to the printed digits.", [])
prop("P30", [cpp("t_rational", "cpp_export", 48, 1200, targets=RAT, shards=8), cpp("t_export", "shader_export", 1200, 40000, targets=FUN, shards=8)],
     "rational functions exported as C++ and trees of models exported as shader/explorer source, compiled (shaders through a GLSL vocabulary shim) and evaluated at 8 configurations each; non-trivial = a value above 1e-5 was compared",
     "property-based differential test of compiled exports against the exporting function", EXP + "Exports of SGD and of models whose shader only supports one parametrization are generated in that form only.",
     ["shader constants are printed with 6 digits, so values are compared to 2e-4"], probes=[cpp("t_export", "shader_moment", 1, targets=FUN, known="F-SG-MOMENT-SHADER")])
prop("P37", [cpp("t_func", "initial_vector", 400000, 9000000, targets=FUN, shards=8), cpp("t_func", "initial_file", 150000, 3000000, targets=FUN, shards=8), cpp("t_func", "initial_partial_file", 100000, 2500000, targets=FUN, shards=8)],
     TREES + " with initial values given as lists or function files, globally or per term; non-trivial = at least one free parameter", "model-based property test of the initialisation", EXP,
     ["lists shorter than the parameter vector are completed with zeros by the option reader"])

RFIT = ["rational_fitter_eigen", "rational_fitter_leastsquare", "rational_fitter_quadprog", "rational_fitter_parallel"] + RAT
prop("P18", [cpp("t_rfit", "quadprog_bounds", 30000, 800000, targets=RFIT), cpp("t_rfit", "quadprog_schedules_agree", 20000, 500000, targets=RFIT), cpp("t_rfit", "quadprog_smallest", 20000, 500000, targets=RFIT), cpp("t_rfit", "parallel_bounds", 20000, 500000, targets=RFIT)],
     "samples (4-170, 1-3 inputs, 1-3 channels) of random rational functions of three bases with wide bounds, and arbitrary values with narrow or wide bounds; every scheduling mode; non-trivial = more than two coefficients (or a range of sizes)",
     "property-based testing with planted rational functions, bound-satisfaction oracle and metamorphic relations between option sets", EXP, ["generous bounds are at least a tenth of the data's scale", "the parallel fitter constrains the sign of the denominator only at the samples it starts from"])
prop("P19", [cpp("t_qp", "qp_exhaustive", 120000, 4000000), cpp("t_qp", "qp_certificate", 60000, 1500000), cpp("t_qp", "qp_infeasible", 60000, 2000000), cpp("t_qp", "qp_scheduling", 80000, 2000000)],
     "programs of 1-14 variables, 0-13 equalities and 0-60 inequalities (duplicated, opposite and scaled constraints included), feasible by an interior point or infeasible by a planted contradiction, under every scheduling mode; non-trivial = at least one inequality",
     "property-based testing against an exhaustive active-set reference (small programs) and an optimality certificate by non-negative least squares (large ones)", EXP, ["feasible programs have a point at least 0.01 inside every inequality, infeasible ones a contradiction of at least 0.05; other programs are decided by rounding"])
prop("P20", [cpp("t_rfit", "eigen_fit", 40000, 1000000, targets=RFIT), cpp("t_rfit", "leastsquare_fit", 40000, 1000000, targets=RFIT)],
     "as P18; non-trivial = more than two coefficients", "property-based testing with planted rational functions and optimality conditions (singular values, normal equations)", EXP, ["systems with a second singular value below 1e-3 of the largest are not judged: the fitter solves the squared system"])
NFIT = FUN + ["nonlinear_fitter_eigen", "nonlinear_fitter_ceres", "nonlinear_fitter_nlopt"]
prop("P21", [cpp("t_nfit", "never_worse", 24000, 600000, targets=NFIT, shards=8), cpp("t_nfit", "recovers_model", 16000, 400000, targets=NFIT, shards=4), cpp("t_nfit", "linear_problem", 40000, 1000000, targets=NFIT), cpp("t_nfit", "log_fit", 20000, 500000, targets=NFIT), cpp("t_nfit", "stopping_options", 20000, 500000, targets=NFIT), cpp("t_nfit", "no_free_parameters", 20000, 400000, targets=NFIT), cpp("t_nfit", "start_outside", 20000, 400000, targets=NFIT)],
     "generated model trees (sums, products, fixed parts), user-given starting points, random or model-generated samples, three solvers with their options; non-trivial = the error decreased, or the recovered model / known optimum was judged",
     "property-based testing with planted models, an instrumented probe function and closed-form linear least-squares solutions as oracles", EXP,
     ["recovery is judged only where the Jacobian at the model is well conditioned (and, for SLSQP, well scaled)", "nlopt fits are run with an evaluation limit: its only default criterion, a relative change of every parameter, is never met by a parameter that goes to zero", "COBYLA is not run: the library loops without evaluations from starts on a bound and may return a point that is not its best; nor BOBYQA, whose library code overruns its arguments when it refuses a start", "fits reported as failed are only required to fail for a reason: bounded eigen fits and nlopt"])
TAB = ["data_astm", "data_merl", "data_utia", "data_brdf_slice"]
def fz(name, quick, thorough, targets, flavour="asan", shards=4): return cpp("t_fuzz", name, quick, thorough, targets=targets, flavour=flavour, shards=shards)
prop("P03", [fz("text_data", 60000, 3000000, []), fz("text_data_huge", 60000, 2000000, [], "plain"), fz("binary_data", 60000, 3000000, []), fz("binary_data_huge", 60000, 2000000, [], "plain"), fz("binary_truncated", 60000, 2000000, []),
     fz("function_file_mutated", 60000, 3000000, FUN + RAT, shards=8), fz("function_file_huge", 60000, 2000000, FUN + RAT, "plain"), fz("function_truncated", 40000, 2000000, FUN + RAT), fz("command_line", 60000, 3000000, FUN + RAT), fz("table_files", 24000, 400000, TAB, shards=8),
     fz("interpolant_files", 40000, 2000000, ["data_rbf"]), fz("grid_arguments", 40000, 1000000, ["data_grid"])],
     "valid files of every kind with up to four mutations (tokens, lines, bytes, cuts, insertions), random text, truncations at any offset, contradictory headers, images with damaged structures, option strings; non-trivial = the file loaded with rows, was cut or contradicted, or had more than one option",
     "mutation and grammar-based fuzzing under AddressSanitizer, container bounds checks and a per-case CPU limit (oversized numbers in a plain build)", EXP + "Blind rather than coverage-guided: the formats are short and their generators know them.",
     ["dimensions of at most four digits", "functions are evaluated only when the header keeps its dimensions and parametrization", "cutting a binary file before its FORMAT line leaves an empty text file, and is not judged"])
prop("P28", [cli("conv", "convert_rows", 12000, 200000, targets=CONV), cli("conv", "round_trip", 4000, 60000, targets=CONV), cli("conv", "resample", 6000, 100000, targets=CONV), cli("conv", "image", 6000, 100000, targets=CONV), cli("conv", "threads", 1600, 30000, targets=CONV, threads=True), cli("conv", "errors", 6000, 80000, targets=CONV), cli("conv", "usage", 1200, 20000, targets=CONV)],
     "data sets of 1-29 rows in 5 input and 22 output parametrizations, text and binary, filters, confidence bounds, options in any order; scattered data and images resampled onto grids; nine kinds of invalid requests; non-trivial = several rows and a change of parametrization, a node with a value, several pixels judged, every invalid request",
     "property-based testing of the command-line tool against reference parametrizations and independent readers and writers of the formats", EXP,
     ["rows with a direction below the horizon are judged with --all-values only (they are zero otherwise)", "text files hold 15 digits"])
XPORT = ["brdf2data", "brdf2brdf", "brdf2gnuplot"] + FUN + ["data_utia", "data_merl", "data2data"]
prop("P29", [cli("exporttools", "sample", 16000, 300000, targets=XPORT), cli("exporttools", "resave", 8000, 150000, targets=XPORT), cli("exporttools", "plot", 12000, 200000, targets=XPORT), cli("exporttools", "polar", 8000, 150000, targets=XPORT), cli("exporttools", "tabulated", 40, 800, targets=XPORT), cli("exporttools", "errors", 8000, 100000, targets=XPORT), cli("exporttools", "usage", 1200, 20000, targets=XPORT)],
     "function files of 1-3 lobes of six models with optional Fresnel terms, or rational functions of any parametrization, sampled on 1-25 positions in up to 22 parametrizations (text and binary), plotted in four modes and re-saved one or two times; nine kinds of invalid requests; non-trivial = a value that is not zero, every invalid request",
     "property-based testing of the command-line tools against closed forms and reference parametrizations", EXP,
     ["positions away from the singular directions of the parametrization", "the cosine plot is judged for functions that know both directions", "shader and explorer exports are judged under P30"])
STATS = ["data2moments", "data2stats", "brdf2stats", "data_rbf", "data_brdf_slice"] + FUN
prop("P31", [cli("stats", "moments", 4000, 80000, targets=STATS), cli("stats", "data_stats", 8000, 150000, targets=STATS), cli("stats", "fit_stats", 10000, 200000, targets=STATS), cli("stats", "errors", 6000, 80000, targets=STATS), cli("stats", "usage", 1200, 20000, targets=STATS)],
     "image slices and scattered rows of 2-4 dimensions (moments), pairs of data sets of 1-3 rows in any common parametrization (data statistics), a data set of 1-20 rows and a sampled or perturbed function (fit statistics), masks and missing, unwritable or incompatible inputs; non-trivial = a metric that is not zero, every invalid request",
     "property-based testing of the command-line tools against the textbook definitions, recomputed independently", EXP,
     ["RBF lookups are exact only for up to three rows", "fit statistics with different input and output parametrizations are not implemented by the tool", "cosine weights are judged when the data hold both directions"])
PLUGS = ["data_astm", "data_grid", "data_merl", "data_rbf", "data_utia", "data_brdf_slice", "rational_function_legendre", "rational_function_chebychev", "rational_function_cosine"] + RFIT + NFIT + FUN
prop("P32", [cpp("t_plugins", "search_path", 12000, 300000, targets=PLUGS, shards=8), cpp("t_plugins", "shipped", 4000, 100000, targets=PLUGS, shards=8), cli("plugins", "tool_requests", 6000, 200000, targets=PLUGS + ["data2data", "data2stats", "data2moments", "data2brdf", "brdf2brdf", "brdf2data", "brdf2gnuplot", "brdf2stats"])],
     "1-4 directories holding, under shipped or invented names, links to plugins of any kind, text and empty files, directories, dangling links and unrelated libraries; paths of 1-6 entries with repeated, missing, relative and empty entries or no path at all; 1-5 requests of any kind, by the library and by eight tools; non-trivial = found beyond the first entry, or nothing to find",
     "model-based property testing: the class of the object obtained against a reference resolution of the search path", EXP + "dlopen is interposed so that the system's plugin directory is a scratch directory.",
     ["truncated shared objects are not given to the dynamic loader", "--fresnel with an unknown plugin falls back to the lobe alone and is not judged"])
PIPE = ["data2brdf", "brdf2data"] + RFIT + NFIT
prop("P34", [cpp("t_plugins", "compatibility", 20000, 400000), cli("fitpipe", "rational", 16000, 250000, targets=PIPE), cli("fitpipe", "lobe", 12000, 200000, targets=PIPE), cli("fitpipe", "failures", 8000, 100000, targets=PIPE), cli("fitpipe", "usage", 1200, 20000, targets=PIPE)],
     "samples of rational functions (representable or arbitrary, 4-31 rows, three bases, four fitters) and of five analytic lobes (up to 22 parametrizations, three fitters, started at or near the model), fitted and sampled again; twelve kinds of requests that must fail; non-trivial = a saved fit whose values are judged, every invalid request",
     "property-based testing of the command-line pipeline against the generating model, the requested bounds and the distances it prints", EXP,
     ["the eigenvector fit is judged on data that determine it", "fits started near the model must not end farther than they started; recovery is judged when started at the model and for rational functions", "--change-param is not exercised"])
BIND = ["alta", "data2brdf", "brdf2data", "data_rbf", "rational_function_legendre", "rational_function_chebychev"] + FUN + RFIT + NFIT
prop("P33", [cli("pybind", t, q, th, targets=BIND) for t, q, th in (("vectors", 16000, 200000), ("options", 6000, 60000), ("datasets", 16000, 200000), ("expressions", 12000, 150000), ("files", 12000, 150000), ("missing", 6000, 60000), ("fits", 8000, 120000), ("conversions", 12000, 150000), ("statistics", 6000, 100000))],
     "histories of 1-12 operations on vectors, options and data objects (indices inside and outside of the bounds, sizes that match and do not); lobes created by name, parameterised, summed and multiplied; loaded function files; fits with seven fitters; conversions between 22 parametrizations; statistics; None, unknown plugins and incompatible objects; non-trivial = several operations, rows or options, a value that is not zero, every successful fit and every refusal",
     "model-based property testing of the Python module against plain Python models and the command-line tools", EXP + "Every case runs in a process of its own.",
     ["dimensions that contradict a parametrization are not given to parameters()", "scattered data made by get_data hold no bounds and are not given to the bounded fitters", "statistics with RBF data of at most three rows"])
prop("P35", [cpp("t_rfit", "parallel_threads", 12000, 300000, targets=RFIT, threads=True)],
     "as P18 with size ranges and up to 300 samples, each fitted with one thread and three times with 2-8 threads (a failing case is then repeated under other schedules); non-trivial = more than one candidate size", "property-based differential testing of schedules (repeated multi-threaded runs against the sequential one)", EXP + "Interleavings are those the system schedules.", [])
prop("P22", [cpp("t_metrics", "function_distances", 120000, 3000000), cpp("t_metrics", "data_metrics", 120000, 3000000), cpp("t_metrics", "metrics_symmetric", 60000, 1000000)],
     "data sets of 1-200 rows above the horizon in 9 parametrizations, functions and interpolated data of another parametrization, masks of any non-zero value, identical and differing values; non-trivial = several samples kept",
     "property-based testing against the textbook formulas, plus symmetry and row-order invariance", EXP + "The cosine-weighted errors are those of the statistics tool, judged under P31.", ["at least one sample is kept by the mask", "both directions above the horizon"])
prop("P23", [cpp("t_dataio", "merl_load", 160, 4000, targets=["data_merl"], shards=8), cpp("t_dataio", "merl_save", 64, 1500, targets=["data_merl"], shards=8), cpp("t_dataio", "merl_invalid", 160, 3000, targets=["data_merl"], shards=4)],
     "full-size tables with hashed content (positive, signed, with invalid entries), 120 lookups by index and by configuration each (cell centres, random points, edges, mirrored azimuths, outside), row writes, truncations and wrong dimensions; non-trivial = every table, saved tables with overwritten rows",
     "property-based differential test against an independent writer and index map", EXP + "Points within 1e-7 of a cell boundary are not judged.", ["an entry with a negative channel is invalid and evaluates to zero"])
prop("P24", [cpp("t_dataio", "utia_files", 320, 8000, targets=["data_utia"], shards=8), cpp("t_dataio", "image_invalid", 2000, 60000, targets=["data_utia", "data_brdf_slice"], shards=4)],
     "full-size tables with hashed content in binary and EXR files, 120 lookups each; images and binaries cut at any byte or of another size; non-trivial = every table or invalid file",
     "property-based differential test against reference multilinear interpolation, round trips and mutation of files", EXP + "The interpolation computes in single precision; values are compared to 2e-4.", ["azimuths within [-2pi, 2pi]", "beyond the last measured elevation (75 degrees) the format extrapolates"])
prop("P25", [cpp("t_dataio", "slice_cells", 6000, 150000, targets=["data_brdf_slice"], shards=8), cpp("t_dataio", "image_invalid", 2000, 60000, targets=["data_utia", "data_brdf_slice"], shards=4)],
     "new slices and images of 1-40 pixels a side (with or without an alpha channel) for every parametrization, 80 reads, writes, lookups inside, on the border and outside each, saved and reloaded; non-trivial = more than one cell",
     "model-based operation sequences against a pixel array, with images from an independent EXR writer", EXP, ["pixels are single precision in files"])
prop("P26", [cpp("t_dataio", "astm_files", 60000, 1500000, targets=["data_astm"], shards=8)],
     "headers in any order, 3 or 4 angles, colour or integrated values, 0-20 rows, blank lines, comma and space separators, cut or short files; non-trivial = more than one row",
     "model-based property test of the loader", EXP, ["no data row when zero points are declared"])
prop("P27", [cpp("t_dataio", "grid", 40000, 1000000, targets=["data_grid"], shards=8), cpp("t_dataio", "rbf", 30000, 600000, targets=["data_rbf"], shards=8)],
     "grids of every supported parametrization and 1-14 nodes a side filled with random or affine values, queried at nodes, inside, on and beyond the border; scattered sets of 1-300 points in 1-4 dimensions; non-trivial = more than one node, more than three points",
     "property-based differential test against reference interpolation, affine reproduction and range invariants", EXP + "Among equidistant samples, any choice of the three nearest is accepted.", [])
TOOLS = ["data2data", "data2brdf", "brdf2brdf", "brdf2data", "brdf2gnuplot", "data2moments", "data2stats", "brdf2stats", "data_rbf", "data_grid", "nonlinear_fitter_eigen"] + FUN + RAT
SAVE = FUN + RAT + TAB + ["data_grid"]
prop("P38", [cpp("t_save", t, 6000, 150000, targets=SAVE, shards=4) for t in ("save_dataset", "save_function", "save_rational", "save_table")] + [cpp("t_save", "save_large", 64, 2000, targets=SAVE, shards=4), cli("saves", "limited", 3000, 60000, targets=TOOLS), cli("saves", "full_device", 1000, 20000, targets=TOOLS)],
     "data sets, functions, rational functions and tables of every kind and format, and every command-line tool; each save is run without any fault and again with a file size limit from zero to above the size, or on a device that is always full; non-trivial = the limit is below the size",
     "property-based fault injection: write failures at drawn offsets, against the fault-free output", EXP + "Failures are injected by the kernel (file size limit, /dev/full), so every write path is covered whatever calls it uses.", ["a failed save may leave a partial file behind"])
