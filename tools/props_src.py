#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props_src.py > properties.jsonl)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
      observe_at=observe or [],hook_needed=hook)))
I=["inputs"];IC=["inputs","configurations"]
C="sources/core/"; PL="sources/plugins/"; S="sources/softs/"

p("P01","Text data files round-trip",
 "Saving any data set to ALTA's text format and loading the file back yields a data set with the same number of rows, the same input and output dimensions, the same declared input and output parametrizations and the same row order. Every coordinate and value agrees with the original to the printed precision, whatever its magnitude or sign, and data sets compare equal exactly when they do so within the given tolerance.",
 I,"all dimensions, parametrizations, row counts and finite doubles (tiny, huge, negative, zero)",
 "The round-trip tests use two fixed files; the property ranges over all shapes and values.",
 [C+"data_storage.cpp",C+"data_storage.h",C+"vertical_segment.cpp",C+"common.cpp"],
 [("text save","alta::save_data_as_text"),("text load","alta::load_data_from_text"),("header parse","arguments::parse_header")],["saved file","loaded data"])
p("P02","Binary data files round-trip bit for bit",
 "Saving any data set (plain, or carrying symmetric or asymmetric confidence bounds) to ALTA's binary format and loading it back restores every value bit for bit, together with the row count, dimensions, parametrizations, kind of bounds and data domain. Converting a text file to binary and back loses nothing beyond the text precision.",
 I,"all dimensions, kinds of confidence bounds, row counts and bit patterns of the stored doubles",
 "The one test round-trips one file; bit patterns such as denormals, infinities, NaN and each kind of bounds are not sampled.",
 [C+"data_storage.cpp",C+"vertical_segment.cpp",C+"vertical_segment.h"],
 [("binary save","alta::save_data_as_binary"),("binary load","alta::load_data_from_binary"),("storage sizes","vertical_segment column_number/confidence_interval_columns")],["saved file","loaded data"])
p("P03","Malformed or truncated input files are rejected cleanly",
 "Whatever bytes are given as a data file (text, binary, MERL, UTIA, slice, ASTM or interpolant), as a function file or as a command line (data sets of at most 9999 dimensions), the library either loads them or reports failure (an error status, an empty handle or a C++ exception); it never reads or writes outside its buffers, never loops forever and never dies from a signal, and what it loads can be read (functions evaluated, when the header keeps its dimensions and parametrization). A binary data file whose content is shorter than its header declares, or whose header announces an unsupported version, precision or endianness, never loads.",
 ["inputs","fault_sequences"],"arbitrary byte strings, truncations at every offset and bounded mutations of valid files",
 "Tests only feed well-formed files; this quantifies over all malformed ones.",
 [C+"data_storage.cpp",C+"args.h",C+"function.cpp",C+"plugins_manager.cpp",C+"rational_function.cpp",PL+"data_io/merl.cpp",PL+"data_io/utia.cpp",PL+"data_io/astm.cpp"],
 [("binary loader checks","alta::load_data_from_binary"),("text loader","alta::load_data_from_text"),("function loading","plugins_manager::load_function")],["process status under sanitizers"])
p("P04","Text loader honours its filters and confidence-bound options",
 "Loading a text file with domain filters keeps exactly the rows whose input (and output) coordinates lie inside every given bound, in file order and unchanged. The confidence bounds attached to each kept row follow the documented rules: the columns of the file when its header declares them, otherwise the requested half-width, absolute or relative, with the requested clamps. The cosine correction divides the values by the product of both cosines and drops the rows that have a direction below the horizon.",
 IC,"all small files, header declarations and combinations of filter and bound options",
 "The tests load three fixed files with a single option set; combinations of options are a product space.",
 [C+"data_storage.cpp",C+"vertical_segment.cpp"],
 [("row filters and bounds","alta::load_data_from_text")],["loaded data"])
p("P05","A data set's reported domain is the tight box of its rows",
 "The minimum and maximum reported by a data set are, per input dimension, exactly the extreme values over its rows, whichever way the rows came in (loaded from text or binary, set one by one). Reading back a row gives what was written to it, writing one row changes no other, and a row of any other size is refused.",
 ["inputs","histories"],"all row sets, including negative-only, single-row and duplicate rows, and all sequences of writes",
 "Fitters normalise by this domain; tests look at a couple of positive-valued files.",
 [C+"vertical_segment.cpp",C+"data_storage.cpp",C+"data.h"],
 [("domain computation","vertical_segment ctor / load"),("row access","vertical_segment::get/set")],["loaded data"])
p("P06","Input parametrization conversions preserve the light/view geometry",
 "Converting a light/view configuration from Cartesian to any supported input parametrization and back gives unit vectors describing the same configuration, up to the symmetries that parametrization deliberately forgets (isotropic rotation, retro/projection reductions), and each parametrization's coordinates agree with its documented definition. Converting between two parametrizations equals going through Cartesian, and converting to the same parametrization is the identity. Coordinates that no pair of directions has (outside of a projected parametrization's domain) are answered with a configuration below the horizon, which callers can test for.",
 I,"all pairs of unit directions in the upper hemisphere, including grazing, normal and coincident ones, and all pairs of supported parametrizations",
 "The conversion tests check one or two hand-picked directions for a few parametrizations.",
 [C+"params.cpp",C+"params.h"],
 [("to cartesian","params::to_cartesian"),("from cartesian","params::from_cartesian"),("conversion","params::convert"),("half/difference frames","params::half_to_cartesian, rotate_normal/binormal")],["converted coordinates"])
p("P07","Parametrization and output names are a bijection with stable dimensions",
 "Every supported input and output parametrization prints a name that parses back to that same parametrization, and every name accepted in a file header or on a command line maps to one parametrization whose dimension is the documented one. Unknown names are reported as unknown rather than mapped to another parametrization. The list of parametrizations printed on request has them all.",
 I,"all input and output parametrizations and all strings",
 "Headers written by one tool are read by another through these names; no test enumerates them, nor near-miss strings.",
 [C+"params.cpp",C+"params.h",C+"data_storage.cpp"],
 [("name table","params::get_name/parse_input/parse_output"),("dimension table","params::dimension")],["parsed header"])
p("P08","Output conversions between colour and scalar follow their definition",
 "Converting a value between output kinds keeps it when the channel counts match, replicates a scalar into every channel when going to colour, and averages the channels when going to a scalar; converting scalar to colour and back is the identity.",
 I,"all supported output kinds and all values, with arbitrary previous content of the destination",
 "No test covers output conversions beyond a scalar case.",
 [C+"params.cpp",C+"params.h"],[("output conversion","params::convert (outputs)")],["converted values"])
p("P09","Command-line arguments are read back as given",
 "For any well-formed command line, each given option is reported as defined and reads back as the string, integer, real, vector or list that was written; options that were not given are reported undefined and read back as the caller's default. Order of distinct options does not matter.",
 I,"all option lists with flags, scalars, bracketed vectors and lists, in every order",
 "Tests use a handful of fixed command lines.",
 [C+"args.h"],[("parsing","arguments::arguments(argc,argv)"),("accessors","get_string/get_int/get_float/get_vec/get_vec<string>")],["option values"])
p("P10","Data and function headers are parsed as written",
 "A header made of '#KEY value...' lines yields exactly those keys and values, in any order, with the delimiting header lines handled, and parsing stops at the end of the header leaving the stream at the first body line. Writing the header of a data set or function and parsing it gives back the same declarations.",
 I,"all header key/value sets, line orders, spacing and bodies",
 "Tests parse one or two fixed headers.",
 [C+"args.h",C+"data_storage.cpp",C+"function.cpp"],[("header parse","arguments::parse_header")],["parsed header"])
p("P11","Saved functions load back as the same function",
 "Saving any fitted or hand-set function (a single lobe of any supported model, a sum, or a product with Fresnel or masking terms) to ALTA's function file and loading that file rebuilds a function with the same structure, parametrizations, dimensions and options that evaluates to the same values everywhere, up to the printed precision of its parameters.",
 IC,"all function plugins and their options, sums and products, output dimensions, parameter values and evaluation points",
 "Tests save and reload a few single functions with default parameters.",
 [C+"function.cpp",C+"function.h",C+"plugins_manager.cpp",PL+"nonlinear_function_*/function.cpp",PL+"nonlinear_fresnel_*/function.cpp",PL+"nonlinear_shadowing_*/function.cpp"],
 [("save","function::save, save_header/save_body"),("load","plugins_manager::load_function, function::load")],["function file","reloaded function values"])
p("P12","Analytic parameter Jacobians are the derivatives of the values",
 "For every nonlinear function, and for sums and products of them, the Jacobian with respect to the free parameters that the function reports equals the derivative of its value, in the documented row and column order, at every point where the value is differentiable.",
 I,"all function models, output dimensions, parameter vectors in their valid range and evaluation points",
 "Gradient-based fitters depend on every entry; no test computes a Jacobian.",
 [C+"function.cpp",PL+"nonlinear_function_*/function.cpp",PL+"nonlinear_fresnel_*/function.cpp",PL+"nonlinear_shadowing_*/function.cpp"],
 [("Jacobians","parametersJacobian of each plugin"),("composition","compound_function/product_function::parametersJacobian")],["Jacobian vs finite differences"])
p("P13","Function parameter vectors read back as set and bounds agree",
 "For every nonlinear function, sum or product, setting the free-parameter vector and reading it back returns the same vector, its length is the advertised number of parameters, and evaluating depends only on those parameters and the fixed options. Reported lower and upper bounds have that same length, with lower not above upper.",
 ["inputs","histories"],"all function models and compositions, output dimensions and parameter vectors, over sequences of sets",
 "Tests set the parameters of one or two models only.",
 [C+"function.cpp",PL+"nonlinear_function_*/function.cpp",PL+"nonlinear_fresnel_*/function.cpp",PL+"nonlinear_shadowing_*/function.cpp"],
 [("parameter access","parameters/setParameters/nbParameters"),("bounds","getParametersMin/getParametersMax")],["parameter vectors"])
p("P14","Analytic models evaluate to their published formula",
 "Each built-in analytic reflectance, Fresnel and masking model evaluates, for any parameters and any light/view configuration in the upper hemisphere, to the closed-form expression its documentation gives, per colour channel.",
 I,"all models and their variants, output dimensions, parameters in their valid range and configurations",
 "The tests evaluate a few models at a few points.",
 [PL+"nonlinear_function_*/function.cpp",PL+"nonlinear_fresnel_*/function.cpp",PL+"nonlinear_shadowing_*/function.cpp",C+"function.cpp"],
 [("evaluation","value of each plugin")],["function value"])
p("P15","Sums and products of functions compose pointwise",
 "The value of a sum of functions is the sum of the values of its terms, and the value of a product is the per-channel product of its factors, for any configuration expressed in any parametrization the combination accepts; the parameter vector of a combination, and its bounds, is the concatenation of the free parameters of its parts, and fixed parts keep theirs.",
 IC,"all lists of functions, fixed/free assignments, parametrizations and evaluation points",
 "Tests combine one fixed pair of functions.",
 [C+"function.cpp",C+"function.h",C+"plugins_manager.cpp"],
 [("sum","compound_function"),("product","product_function"),("construction","plugins_manager::get_function")],["function value"])
p("P16","Rational functions are the ratio of their basis polynomials",
 "A rational function evaluates, per channel, to the ratio of two linear combinations of its basis with the given coefficients; the basis functions of each family are distinct products of the documented one-dimensional polynomials of the normalised inputs, enumerated by non-decreasing total degree with the constant first. Resizing, or giving coefficients in another number, keeps the enumeration a prefix of the larger one.",
 I,"all basis families, input dimensions, numbers of coefficients, domains and evaluation points",
 "Tests fit one-dimensional data only; no test looks at the enumeration in higher dimensions.",
 [C+"rational_function.cpp",PL+"rational_function_legendre/rational_function.cpp",PL+"rational_function_chebychev/rational_function.cpp",PL+"rational_function_cosine/rational_function.cpp"],
 [("degree enumeration","rational_function_1d::index2degree/populate"),("evaluation","rational_function::value")],["function value"])
p("P17","Saved rational functions load back as the same function",
 "Saving any rational function of any basis family, size, dimension and domain and loading the file rebuilds a rational function with the same coefficients, parametrization and domain to the printed precision, so that it evaluates to the same values.",
 I,"all basis families, sizes, dimensions, domains and coefficient values",
 "Tests save a rational function but never compare a reloaded one over generated coefficients.",
 [C+"rational_function.cpp",C+"plugins_manager.cpp",PL+"rational_function_cosine/rational_function.cpp"],
 [("save","rational_function::save_body"),("load","rational_function::load")],["function file","reloaded values"])
p("P18","Bound-constrained rational fits satisfy every bound they report success on",
 "Whenever a confidence-bound rational fitter reports success, the fitted ratio lies inside the lower and upper bound of every sample (up to numerical tolerance), with a denominator that does not vanish there; when data was generated by a rational function the requested size can represent with generous bounds, the fit succeeds. Sizes are tried in increasing order and the first that fits is returned, and the outcome does not depend on the scheduling options.",
 IC,"all data sets, bounds, sizes of numerator and denominator and constraint-ordering options",
 "The non-regression tests compare against recorded files for one curve each.",
 [PL+"rational_fitters/quadprog.cpp",PL+"rational_fitters/quadprog_parallel.cpp",PL+"rational_fitters/quadratic_program.h","external/quadprog++/QuadProg++.cc"],
 [("fit","rational_fitter_quadprog/rational_fitter_parallel::fit_data"),("constraints","get_constraint")],["fitted function vs bounds"])
p("P19","The quadratic-programming solver returns optimal points or infeasible",
 "For every strictly convex, well-scaled quadratic program with independent equality constraints and any inequality constraints, the bundled solver returns a feasible point satisfying the optimality conditions together with its cost whenever some point satisfies the inequalities strictly, and reports infeasibility when no point satisfies them, whatever the constraint scheduling.",
 I,"all small strictly convex programs, feasible or not, with redundant and active constraints",
 "The solver is exercised only through fixed fits.",
 ["external/quadprog++/QuadProg++.cc","external/quadprog++/Array.hh"],[("active-set solver","QuadProgPP::solve_quadprog")],["solution, cost"])
p("P20","Least-squares rational fits recover representable data",
 "When samples come from a rational function the requested size can represent, the unconstrained rational fitters report success and the fitted ratio reproduces all samples to numerical tolerance (for the alternating least-squares fitter, when the numerator or the denominator is constant); on arbitrary data a successful fit minimises the fitter's own error: the linearised one over all coefficients, or the squared error over the numerator's coefficients for the denominator found. The fit is defined over the domain of its data.",
 IC,"all representable functions, sample sets, dimensions and channel counts",
 "Tests fit one curve of fixed size.",
 [PL+"rational_fitters/eigen.cpp",PL+"rational_fitters/leastsquare.cpp"],[("fit","rational_fitter_eigen/rational_fitter_leastsquare::fit_data")],["fitted function vs samples"])
p("P21","Nonlinear fits never end worse than they start and recover the model",
 "Fitting a nonlinear function to data never increases the squared error relative to the starting parameters, keeps parameters inside reported bounds where the solver is bound-constrained, and, when the data was generated by the same model near the start, recovers it. Fixed functions are left unchanged, the initial parameters requested by the user are where the fit starts, a logarithmic fit minimises the logarithmic error, and the requested stopping criteria are obeyed. A start outside of the bounds never ends as a successful fit that is still outside of them. A fit is defined over the domain of its data. (A fit the plugin reports as failed promises nothing.)",
 IC,"all models, data sets, starting points and solver options",
 "Tests run one fit per solver on fixed data.",
 [PL+"nonlinear_fitter_eigen/fitter.cpp",PL+"nonlinear_fitter_ceres/fitter.cpp",PL+"nonlinear_fitter_nlopt/fitter.cpp",C+"function.cpp"],
 [("fit","nonlinear_fitter_*::fit_data"),("bootstrap","nonlinear_function::bootstrap")],["residuals before and after"])
p("P22","Distances and error metrics follow their definition",
 "The distances between a function and a data set, and every metric between two data sets (L1, L2, L3 and maximum norm, mean-square and root-mean-square error per channel, over all samples or those a mask keeps), equal their textbook formula; they are zero for identical inputs, symmetric where the formula is, and unaffected by row order.",
 I,"all sample matrices, masks and functions",
 "No test computes a metric on non-trivial data.",
 [C+"metrics.cpp",C+"metrics.h",C+"function.cpp",C+"data.cpp"],
 [("metrics","errors::compute, errors::*"),("distances","function::L2_distance/Linf_distance")],["metric values"])
p("P23","MERL files load, interpolate and save consistently",
 "Loading a MERL binary, reading any sample by index or by configuration returns the stored value with the format's channel scaling (zero where the table marks it invalid with a negative value); each table cell is addressed by exactly one index whose coordinates convert back to that cell; saving and reloading reproduces the table, and truncated files or files of other dimensions are rejected.",
 I,"all table contents, cells, configurations and truncations",
 "No MERL file ships with the tests.",
 [PL+"data_io/merl.cpp"],[("index maps","data_merl::get/value, theta_half_index etc."),("load/save","data_merl::load/save")],["table values"])
p("P24","UTIA tables interpolate their samples and save back",
 "Loading a UTIA table and evaluating it at a grid configuration returns the stored sample, evaluation between grid points is multilinear in the surrounding samples (hence within their range up to the last measured elevation) and periodic in azimuth, and saving in either file format then loading reproduces the table; truncated files are rejected.",
 I,"all table contents, grid points and in-between configurations",
 "No UTIA file ships with the tests.",
 [PL+"data_io/utia.cpp"],[("interpolation","data UTIA value"),("load/save","UTIA load/save")],["table values"])
p("P25","Slice images hold one value per cell and survive EXR files",
 "Writing a value into a slice at a configuration and reading it at that configuration returns it, every row index maps to coordinates inside the slice's domain that map back to that row, evaluating outside the domain is safe, saving to an image file and reloading reproduces every pixel to the file's precision, a colour channel the file does not have reads zero, and truncated images are rejected.",
 ["inputs","histories"],"all slice sizes, angles, cells and pixel values",
 "Tests never read a slice back.",
 [PL+"data_io/slice.cpp",PL+"data_io/EXR_IO.h"],[("index map","BrdfSlice get/set/value"),("image i/o","t_EXR_IO")],["pixels"])
p("P26","ASTM files load as written and save back",
 "Loading an ASTM measurement file yields one row per data line with the coordinates and values of that line, however header lines are ordered, and saving then loading reproduces it; a file shorter than declared is rejected rather than read forever.",
 I,"all header orders, row counts and values",
 "No ASTM file ships with the tests.",
 [PL+"data_io/astm.cpp"],[("load/save","ASTM load/save")],["rows"])
p("P27","Interpolants reproduce data they interpolate",
 "A gridded or scattered interpolant built from samples evaluates at a sample position to that sample, evaluates between samples to a weighted mean of neighbouring samples (multilinear for grids, so affine data is reproduced exactly; beyond the border, the value at the border; for scattered samples, the three nearest, weighted by the inverse of their squared distances), and reports and saves the same rows, dimensions and domain as its source.",
 I,"all grids, sample sets, dimensions and query points",
 "The interpolants have no tests.",
 [PL+"data_interpolants/grid.cpp",PL+"data_interpolants/rbf.cpp"],[("grid","data_grid::value"),("rbf","data_rbf::value")],["interpolated values"])
p("P28","data2data converts rows without losing or inventing any",
 "Converting a data set with the conversion tool yields one output row for each input row the filters keep, whose coordinates are the input's re-expressed in the requested parametrization and whose values are the input's (rows with a direction below the horizon keep theirs with --all-values); writing in text and binary gives the same data, and resampling onto a format with positions of its own (a grid) takes positions from the one and values from the other, whatever the number of threads. Failures are reported by a non-zero exit status. Asking for help prints the usage and succeeds.",
 IC,"all data sets, parametrizations, formats and option combinations",
 "Tests run one or two fixed conversions and look at the exit status.",
 [S+"data2data/main.cpp",C+"params.cpp",C+"data_storage.cpp"],[("conversion loop","data2data main")],["output file","exit status"])
p("P29","Function export tools agree with the function they export",
 "Sampling a saved function on the positions of a data set, re-saving it, and plotting it against data write, for every sample, the value the function takes at that position in the requested parametrization. Missing or invalid inputs give a non-zero exit status and no partial success. Asking for help prints the usage and succeeds.",
 IC,"all saved functions, data sets, parametrizations and options",
 "Tests only look at the exit status of single runs.",
 [S+"brdf2data/main.cpp",S+"brdf2brdf/main.cpp",S+"brdf2gnuplot/main.cpp"],[("sampling","brdf2data main"),("re-save","brdf2brdf main"),("plot","brdf2gnuplot main")],["output file","exit status"])
p("P30","Exported source code computes the function it was exported from",
 "Exporting a rational function as C++, or an analytic model, product or sum of models as a shader or explorer file, produces source that compiles (the shader being GLSL) and computes, for any configuration above the horizon, the value the original function takes there.",
 IC,"all exportable functions, parameters and evaluation points",
 "No test compiles an export.",
 [C+"function.cpp",C+"rational_function.cpp",S+"brdf2brdf/main.cpp",PL+"nonlinear_function_*/function.cpp"],[("export","function::save with --export, save_call/save_body")],["compiled export values"])
p("P31","Moments and statistics tools report the defined quantities",
 "The moments tool writes, per output channel, the integral over the sampled domain of the values shifted by the data's minimum (order 0), and the moments of the two chosen coordinates up to order three, normalised by that integral. The statistics tools (data against data, data against a function) report the L1, L2, L3 and maximum norms, mean-square and root-mean-square errors of their definitions, plain and cosine-weighted, per channel and over the samples the mask keeps, zero when the inputs coincide. An unreadable input, an incompatible pair or an unwritable output gives a non-zero exit status. Asking for help prints the usage and succeeds.",
 IC,"all data sets, pairs of data sets, functions and options",
 "Tests run these tools once on fixed files and check the exit status.",
 [S+"data2moments/main.cpp",S+"data2stats/data2stats.cpp",S+"fit2stat/fit2stat.cpp",C+"metrics.cpp"],[("moments","data2moments main"),("stats","data2stats/fit2stat main")],["tool output"])
p("P32","Plugins load from the configured search path or fail cleanly",
 "Every shipped plugin requested by name is found through the search path configured at the time of the request, in path order, and the object obtained is of the requested kind; entries of the path that hold no suitable plugin (missing directories, files that are not plugins, plugins of another kind) are passed over, empty entries stand for the system directory, and a name found nowhere yields an empty result and an error exit from the tools, never a crash.",
 ["inputs","configurations"],"all plugin names, search-path lists (missing, empty, duplicate entries) and kinds of request",
 "Tests always run with one correct search path.",
 [C+"plugins_manager.cpp",C+"plugins_manager.h"],[("search","open_library/plugins_manager::get_*")],["returned object","exit status"])
p("P33","The Python bindings compute what the C++ library computes",
 "Data sets, functions, vectors and options built, read, evaluated, fitted, converted, saved or loaded through the Python module give the same values as the command-line tools on the same inputs, and out-of-range indices, sizes that do not match, None and incompatible objects raise a Python exception instead of touching memory or ending the interpreter; objects keep exactly what was put in them through any history, and copies are independent.",
 ["inputs","histories"],"all operation sequences over the module's objects",
 "Python tests are single scripted examples.",
 ["sources/python/alta.cpp","sources/python/wrapper_vec.h","sources/python/wrapper_data.h","sources/python/wrapper_args.h"],[("bindings","PYBIND11_MODULE(alta)")],["python values"])
p("P34","The fit pipeline is faithful end to end",
 "Fitting a data file with the command-line fitter and sampling the saved function on that file's positions gives values that reproduce the data when the model can represent it, stay within the requested bounds for the bounded fitters, and are no farther from the data than the starting point for the iterative ones, whichever parametrization the data and the function use; a function without a parametrization takes the one of the data, and nothing else of it changes. The distances printed and recorded in the file are those of the function saved; a failed fit, an incompatible plugin, an unreadable input, an unwritable output or a missing argument gives a non-zero exit status and leaves no function file. Asking for help prints the usage and succeeds.",
 IC,"all representable data sets, models, fitters and parametrizations",
 "Tests run fits on fixed data and mostly look at the exit status.",
 [S+"data2brdf/main.cpp",S+"brdf2data/main.cpp",C+"function.cpp",C+"plugins_manager.cpp"],[("pipeline","data2brdf main")],["function file","exit status"])
p("P35","Parallel fits do not depend on thread scheduling",
 "Running the multi-threaded rational fitter on the same data and options with any number of threads, any number of times, reports the same success or failure and a fit of the same size and quality satisfying the same bounds as a single-threaded run.",
 ["schedules","inputs"],"all thread counts and interleavings, data sets and degree ranges",
 "Tests run the parallel fitter once, with default threads.",
 [PL+"rational_fitters/quadprog_parallel.cpp"],[("parallel search","rational_fitter_parallel::fit_data")],["fitted function"])
p("P36","Vector helpers satisfy their algebra",
 "Dot, cross, normalisation, norms, products, clamping, sub-vector and component-wise helpers on vectors equal their mathematical definition for every length, and printing then parsing a vector gives the same vector.",
 I,"all vector lengths and values",
 "The Python test covers three-component vectors with small integers only.",
 [C+"common.h",C+"common.cpp"],[("vec helpers","common.h operators")],["vector values"])
p("P37","Initial parameters given by the user are applied exactly",
 "Initial parameter values given for a fit, as a list or as a saved function file, become the function's parameters in the documented order, exactly as given: for a single model, for each term of a sum and each factor of a product, whether the values are given once for the whole function or per part. Parts for which nothing is given keep the initialisation they have on their own.",
 IC,"all models, sums of models, channel counts and initial-value lists or files",
 "Tests never check the parameters after initialisation.",
 [C+"function.cpp",PL+"nonlinear_function_*/function.cpp"],[("bootstrap","nonlinear_function::bootstrap, compound_function::bootstrap")],["parameter vector"])
p("P38","A save that returns normally has written the complete file",
 "When saving a data set, a function, a rational function or a measured table returns normally, or a command-line tool writing an output exits with status 0, the output file holds every byte that the same save writes when nothing fails. When a write fails at any point of the file (no space left, file size limit), the library raises an error and the tools exit with a non-zero status. Without a failed write the save succeeds.",
 IC,"all data sets, functions and tables, all output formats, and a write failure after any number of bytes, including those still buffered when the file is closed",
 "Tests write small files on a disk that never fills up.",
 [C+"data.cpp",C+"function.cpp",PL+"data_io/merl.cpp",PL+"data_io/utia.cpp",PL+"data_io/EXR_IO.h",PL+"data_interpolants/grid.cpp","sources/softs/"],[("save","data::save, function::save, MERL/UTIA/slice/grid save, main() of the tools")],["file","exception","exit status"])
p("P39","The timer adds up the time it runs and prints it as hours, minutes and seconds",
 "After any history of starts, stops and resets, a stopped timer reports the sum of the durations between each start and its stop since the last reset, whatever the pauses between them; printing it gives hours, minutes below 60 and seconds below 60 that add up to that duration. Timers are independent of each other.",
 ["inputs","histories"],"all histories of starts, stops and resets, and all durations, including those of hours and days that fits take",
 "Tests cannot wait for minutes or hours.",
 [C+"common.cpp",C+"common.h"],[("timer","alta::timer::start, stop, reset, elapsed, print")],["elapsed seconds","text"])
if __name__=="__main__":
    import sys
    for d in P:
        assert len(d["title"])<=80,d["title"]
        print(json.dumps(d))
