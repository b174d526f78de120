"""writes properties.jsonl (the text of the properties lives here)"""
import json
from pathlib import Path

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]),
    )
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)


prop(
    "C01", "Every processed site is stored exactly once, in every schedule",
    "When a parallel processing run ends, the results file contains the complete result of every successfully "
    "processed site exactly once, each result layer under its own name with all of its rows. This holds for every "
    "number of worker, combiner and writer processes, every chunk and cache size and every interleaving. The "
    "progress counters end up equal to the number of successful and of finished sites.",
    ["schedules", "configurations"],
    "all interleavings of pool workers, combiners, combiner threads, writers, progress display and the main process; "
    "all numbers of processes, chunk sizes, cache sizes and durations of a site",
    "The tests run one real schedule with 3 sites; lost, duplicated or misfiled results depend on timeouts and on how "
    "the shutdown interleaves with the last results.",
    ["rt1/_rtprocess_writer.py"],
    [("result queue -> combiner -> out queue -> writer", "rt1/_rtprocess_writer.py:RT1_processor"),
     ("shutdown hand-shake", "rt1/_rtprocess_writer.py:RT1_processor.stop")],
    ["results HDF file", "progress counters"],
    [("queue/out_queue", "results waiting to be combined / written", "rt1/_rtprocess_writer.py:_setup_manager")],
)
prop(
    "C02", "A processing run always terminates and never opens its store twice",
    "Every parallel processing run comes to an end and releases all of its processes and threads, also when sites "
    "fail, when writing to the results file fails or when the run is terminated by a signal. At no time is the "
    "results file opened by one process while another process has it open for writing.",
    ["schedules", "fault_sequences"],
    "all interleavings x (no fault | k-th write fails | k-th open fails | failing sites | SIGTERM at the k-th operation "
    "of the main process)",
    "Deadlocks need a particular order of a fault, the throttling of the workers and the shutdown; the tests never "
    "make a write fail and never send a signal.",
    ["rt1/_rtprocess_writer.py"],
    [("worker throttling and release", "rt1/_rtprocess_writer.py:_save_file_process,_worker_process"),
     ("write lock", "rt1/_rtprocess_writer.py:_save_file_process"),
     ("signal handler", "rt1/_rtprocess_writer.py:manual_shutdown")],
    ["end of the run", "open/close of the HDF store"],
)
prop(
    "C03", "A failing site affects only itself",
    "If reading or processing some sites of a run fails, returns nothing or finds no data, the results of all other "
    "sites are stored as if the failing sites were not part of the run, and nothing is stored for the failing ones. "
    "The progress counters count failed sites as finished but not as successful.",
    ["fault_sequences", "schedules"],
    "all assignments of outcomes {ok, read error, no data, processing error, nothing returned} to the sites of a run, "
    "in all interleavings",
    "The test-suite contains one run with a single failing (empty) site at the last position.",
    ["rt1/_rtprocess_writer.py"],
    [("error handling of the workers", "rt1/_rtprocess_writer.py:_worker_process"),
     ("None results", "rt1/_rtprocess_writer.py:_combiner_process")],
    ["results HDF file", "progress counters"],
)
prop(
    "C04", "Repeated or interrupted runs complete the results without duplicates",
    "Running the processing again into an existing results file processes exactly the requested sites that are not "
    "yet stored, leaves everything already stored unchanged, and gives every new site a number that no other site "
    "has. After any sequence of runs with different site lists, failing sites or an interruption by a signal, each "
    "site is stored at most once, completely, under one number and under the name given by the (own) naming convention, each site is "
    "evaluated with its own arguments, and a final run over all sites completes the file.",
    ["histories", "crash_points"],
    "all sequences of runs over subsets (in any order) of a site universe, with failing sites, and with an "
    "interruption at any operation of the main process",
    "The tests repeat one run once with the same list; gaps in the numbering, reordered lists and interrupted runs are "
    "not sampled.",
    ["rt1/_rtprocess_writer.py", "rt1/general_functions.py", "rt1/rtresults.py"],
    [("check of existing IDs", "rt1/_rtprocess_writer.py:_check_IDs"),
     ("numbering of new IDs", "rt1/general_functions.py:find_missing"),
     ("append to the store", "rt1/_rtprocess_writer.py:_save_file_process")],
    ["results HDF file"],
)
prop(
    "C05", "Reading results by name, number, position or chunk returns exactly that data",
    "Reading a layer of a results file for one site (by its name or by its number), for the first sites, for a list of "
    "sites, by position of the index-values, or chunk by chunk returns exactly the rows that were stored for these sites, in stored order, each row "
    "once. Iterating in chunks covers every site exactly once, and translating numbers into names never moves a row "
    "to another site.",
    ["configurations", "inputs"],
    "all small stores (number of sites, gaps and order in the numbering, rows per site, single and multi-index layers, "
    "several configurations) x all ways of reading them",
    "The tests read one store with three consecutively numbered sites of equal length.",
    ["rt1/rtresults.py"],
    [("row selection", "rt1/rtresults.py:HDFaccessor"), ("chunk iterator", "rt1/rtresults.py:_get_nids_iter")],
    ["return values of the dataset accessors"],
)
prop(
    "C06", "A saved fit is restored with identical settings, data and results",
    "A fit (or a multi-configuration fit) that was written to a dump file or to a results file and is loaded again has "
    "the same name, settings, parameter definitions, dataset, auxiliary data, reader arguments and fit results, and "
    "evaluates to the same model values and retrieved parameter series as before saving.",
    ["configurations", "inputs"],
    "all combinations of scattering functions, parameter variabilities, units, interaction setting, dataset shapes, "
    "auxiliary data and single/multiple configurations, saved in each of the available ways",
    "The tests round-trip two fixed fits; types, ordering and names that only occur in other configurations are not "
    "covered.",
    ["rt1/rtfits.py", "rt1/rtresults.py"],
    [("conversion to data-frames", "rt1/rtfits.py:_get_fit_to_hdf_dict"),
     ("re-creation", "rt1/rtresults.py:HDFaccessor.load_fit"),
     ("pickling", "rt1/rtfits.py:dump,load,__getstate__,__setstate__")],
    ["loaded fit objects"],
)
prop(
    "C07", "Each observation uses exactly the parameter value of its own time group",
    "For every variability setting (constant, per date, per time period, groups of N dates, user-provided groups or "
    "their combination) and every dataset, the fit estimates one value per distinct group and uses for each "
    "observation the value of the group it belongs to. The arrays used in the fit contain every observation exactly "
    "once with its own incidence angle, weight and auxiliary values, and the reported parameter series gives each date "
    "the value of its group.",
    ["inputs", "configurations"],
    "all small datasets (length, repeated dates, unsorted input) x all combinations of variability settings of two "
    "fitted parameters x start values, weights and auxiliary data",
    "The tests use a few fixed datasets and check plausibility of fit results, not the assignment of each observation.",
    ["rt1/rtfits.py", "rt1/general_functions.py"],
    [("grouping", "rt1/rtfits.py:param_dyn_dict,_groupindex,_dataset_used"),
     ("assignment", "rt1/rtfits.py:_assignvals,res_df"),
     ("padding", "rt1/general_functions.py:rectangularize")],
    ["fit.res_df", "fit.data/inc/mask", "fit.calc_model()"],
)
prop(
    "C08", "The optimiser minimises the documented residuals with their true derivative",
    "The quantity minimised by a fit is the (weighted) difference between model and data in the units of the data, one "
    "entry per observation, and the derivative handed to the optimiser is the derivative of these residuals with "
    "respect to every fitted value (first-order contributions, step-wise parameters). The optimiser starts at the "
    "documented start values within the documented bounds, and reported results are the optimiser's solution.",
    ["configurations", "inputs"],
    "all combinations of units, weights, fitted parameters (scattering functions, optical depth, albedo, expressions of "
    "parameters), variabilities and small datasets",
    "A wrong derivative still converges on the test data; the tests check that a known parameter is recovered "
    "approximately.",
    ["rt1/rtfits.py", "rt1/rt1.py"],
    [("residuals", "rt1/rtfits.py:performfit"), ("jacobian", "rt1/rtfits.py:_calc_jac"),
     ("model derivative", "rt1/rt1.py:jacobian")],
    ["arguments of the optimiser", "fit.fit_output"],
)
prop(
    "C09", "A fit object always answers according to its current settings",
    "After any sequence of assigning datasets, parameter definitions, scattering functions or units to fit objects, "
    "running fits and reading derived quantities, every derived quantity equals the one of a newly created fit object "
    "with the same settings. Operations on one fit object never change what another one answers.",
    ["histories"],
    "all sequences (up to a depth) of set/read/fit operations on one, two or several coexisting fit objects",
    "Derived quantities are cached; stale values need a particular order of reads and assignments that tests do not "
    "enumerate.",
    ["rt1/rtfits.py"],
    [("cached properties and their invalidation", "rt1/rtfits.py:__setattr__,_clear_cache,_cached_props")],
    ["derived properties of the fit", "fit.calc_model()"],
)
prop(
    "C10", "Multi-configuration fits share inputs and stay independent otherwise",
    "After any sequence of adding configurations and setting dataset, auxiliary data, reader arguments or name on a "
    "multi-configuration fit, every configuration sees exactly the inputs set last, and each configuration keeps its "
    "own settings and results. Applying a function or accessing an attribute or method on all configurations yields "
    "for each selected configuration the same as doing it on that fit alone.",
    ["histories", "configurations"],
    "all sequences (up to a depth) of add/replace/set/fit/apply operations on containers with up to three configurations",
    "The tests build one container in one order.",
    ["rt1/rtfits.py"],
    [("shared setters", "rt1/rtfits.py:MultiFits"), ("accessor", "rt1/rtfits.py:_MultiAccessors")],
    ["fit.configs", "fit.accessor", "fit.apply"],
)
prop(
    "C11", "A config file yields exactly the fit it describes",
    "Parsing a configuration file yields a fit whose parameter definitions, scattering functions, units, solver options "
    "and processing specifications have exactly the written values with the documented types. In a multi-configuration "
    "file each configuration equals the common sections updated with its own overrides, unaffected by the other "
    "configurations.",
    ["programs", "configurations"],
    "all config files generated from a grammar of sections, value types, scattering functions (incl. linear "
    "combinations) and per-config overrides",
    "The tests parse three example files.",
    ["rt1/rtparse.py"],
    [("section parser", "rt1/rtparse.py:RT1_configparser")],
    ["parsed fit objects", "process specs"],
)
prop(
    "C12", "Setting up a processing folder applies overrides and keeps existing files",
    "Setting up a processing run creates the output folders, uses the configuration and modules stored in an existing "
    "output folder instead of overwriting them, and applies explicitly given overrides to the parsed specifications, "
    "the copied configuration and the fit. Without overrides, repeating the set-up any number of times leaves every "
    "file in the folder unchanged; nothing is deleted unless removal is requested and confirmed.",
    ["histories", "configurations"],
    "all sequences of set-ups with and without overrides, changed source configurations/modules, and all answers to the "
    "prompts",
    "The tests perform a handful of set-ups in a fixed order.",
    ["rt1/rtprocess.py"],
    [("set-up", "rt1/rtprocess.py:RTprocess.setup,_copy_cfg_and_modules"),
     ("overrides", "rt1/rtprocess.py:override_config"), ("prompt", "rt1/rtprocess.py:_confirm_input")],
    ["files in the output folder", "parsed specifications"],
)
prop(
    "C13", "Model output is the sum of its documented contributions",
    "For every geometry and parameter set, the total backscatter equals the sum of surface, volume and interaction "
    "contribution, weighted by the bare-soil fraction as documented, and the surface and volume contributions equal "
    "their closed-form expressions evaluated from the scattering functions. Limits hold: no vegetation leaves only the "
    "surface, full bare-soil fraction leaves only bare soil, zero albedo removes volume and interaction contributions.",
    ["inputs", "configurations"],
    "all combinations of volume and surface functions x geometry x a grid of angles, optical depth, albedo, surface "
    "normalisation and bare-soil fraction (incl. boundary values)",
    "The tests compare a few curves with stored values.",
    ["rt1/rt1.py", "rt1/surface.py", "rt1/volume.py"],
    [("contributions", "rt1/rt1.py:calc,surface,volume,interaction")],
    ["RT1.calc()"],
)
prop(
    "C14", "The interaction contribution equals its defining integral",
    "For every combination of scattering functions (with their Legendre expansions) and geometry, the analytically "
    "evaluated first-order interaction contribution equals the direct numerical integration of the defining "
    "surface-volume and volume-surface scattering integrals with the same expansions.",
    ["inputs", "configurations"],
    "all combinations of volume and surface functions (incl. linear combinations and generalised scattering angles) x "
    "geometries x angles x parameter values",
    "The tests compare two configurations with tabulated coefficients.",
    ["rt1/rt1.py", "rt1/scatter.py"],
    [("coefficient expansion", "rt1/rt1.py:_calc_interaction_expansion,_extract_coefficients"),
     ("F-integral", "rt1/rt1.py:_calc_Fint,_S2_mu")],
    ["RT1.calc()"],
)
prop(
    "C15", "Analytic derivatives equal the derivatives of the model",
    "The derivatives of the model with respect to optical depth, albedo, surface normalisation, bare-soil fraction and "
    "scattering-function parameters, in all units, equal the numerical derivatives of the evaluated surface and volume "
    "contributions. The same holds for the slope and curvature with respect to the incidence angle and for the angular "
    "derivatives of the scattering functions.",
    ["inputs", "configurations"],
    "all scattering functions x parameters x units x grid of angles and parameter values",
    "The tests check slopes of two functions; derivatives w.r.t. parameters are only exercised through converging fits.",
    ["rt1/rt1.py", "rt1/volume.py", "rt1/surface.py"],
    [("jacobian", "rt1/rt1.py:jacobian"), ("slopes", "rt1/rt1.py:tot_slope,tot_curv"),
     ("angular derivatives", "rt1/volume.py:p_theta_diff; rt1/surface.py:brdf_theta_diff")],
    ["RT1.jacobian()", "RT1.*_slope", "RT1.*_curv"],
)
prop(
    "C16", "Results do not depend on how the same model is specified or evaluated",
    "Evaluating the same model with symbolic or numeric parameters, with either symbolic backend, element by element or "
    "for whole arrays, with any of the geometry settings that describe the same angles, or with pre-evaluated "
    "coefficients gives the same result. Evaluating an object repeatedly or after changing its parameters or angles "
    "gives what a new object would give.",
    ["configurations", "histories", "inputs"],
    "all pairs of equivalent specifications x scattering functions, and all orders of evaluating/changing one object",
    "The tests compare the two backends for one configuration.",
    ["rt1/rt1.py"],
    [("geometry handling", "rt1/rt1.py:_get_fn..."), ("backends", "rt1/rt1.py:_fnevals")],
    ["RT1.calc()"],
)
prop(
    "C17", "Scattering functions agree with their Legendre expansions and definitions",
    "Every volume and surface scattering function evaluates to its documented formula for scalar and array input, is "
    "normalised as documented, and its Legendre coefficients represent the function. Linear combinations equal the "
    "weighted sum of their members in value, expansion, albedo/optical depth handling and derivatives.",
    ["inputs", "configurations"],
    "all scattering functions x parameters x expansion orders x grid of angles, and all linear combinations of up to "
    "three members",
    "The tests check single evaluations for a few angles.",
    ["rt1/volume.py", "rt1/surface.py", "rt1/scatter.py"],
    [("functions", "rt1/volume.py,rt1/surface.py"), ("expansion", "legexpansion, legcoefs")],
    ["p()", "brdf()", "legexpansion()"],
)
prop(
    "C18", "Unit conversions are consistent everywhere",
    "Converting backscatter between linear and decibel and between intensity and normalised backscatter follows the "
    "documented formulas, is inverted exactly by the opposite conversion, and composes to the identity around any cycle "
    "of conversions. Fits of the same data given in any of the four units evaluate the same model in the respective "
    "unit.",
    ["inputs", "configurations"],
    "all cycles through the four unit combinations x a grid of values and angles x fit configurations",
    "The tests only use one unit combination per fit.",
    ["rt1/general_functions.py", "rt1/rtfits.py"],
    [("conversion", "rt1/general_functions.py:dBsig0convert"), ("model units", "rt1/rtfits.py:_calc_model")],
    ["dBsig0convert()", "fit.calc_model()"],
)
prop(
    "C19", "Performance metrics equal their definitions for any pair of series",
    "Every performance metric evaluated through a fit or directly equals its textbook definition applied to the two "
    "named series aligned by date, for any combination of dataset, model and parameter series. Symmetric metrics do "
    "not depend on the order of the two series, and metrics reflect the current state of the fit.",
    ["inputs", "configurations"],
    "all metrics x all small series over a value grid x all pairs of available series of a fit",
    "The tests check each metric on one random series.",
    ["rt1/rtmetrics.py", "rt1/rtfits.py"],
    [("metrics", "rt1/rtmetrics.py:RTmetrics"), ("series lookup", "rt1/rtmetrics.py:_metric_keys")],
    ["fit.metric", "RTmetrics"],
)
prop(
    "C20", "Parameter definitions behave like the plain dictionary they are given as",
    "After any sequence of adding, replacing, changing or removing parameter definitions, the definition container "
    "lists exactly the current parameters with their current specification and converts to the equivalent plain "
    "dictionary. Converting to a dictionary or table and back yields an equal container, and invalid definitions are "
    "rejected without changing it.",
    ["histories", "inputs"],
    "all sequences (up to a depth) of container operations over a set of valid and invalid specifications",
    "The container is only used implicitly by the tests.",
    ["rt1/_containers.py"],
    [("container", "rt1/_containers.py:_RT1_defdict,_RT1_variable")],
    ["fit.defdict"],
)
prop(
    "C21", "Exported layers contain exactly the requested quantities of each fit",
    "Exporting a list of parameters, model contributions, metrics and custom functions stores for every fit exactly the "
    "requested quantities: fitted dynamic, auxiliary and model series as time series with their dates, constants and "
    "static values once per site, in the requested units. The export of one fit does not depend on which fits were "
    "exported before.",
    ["configurations", "histories"],
    "all subsets of exportable quantities x unit options x fits with different variabilities, in all orders of fits",
    "The tests export one list of parameters from one processing run.",
    ["rt1/rtprocess.py"],
    [("export", "rt1/rtprocess.py:export_data_to_HDF,_HDF_export_postprocess,_postprocess_getparams")],
    ["exported HDF layers"],
)
prop(
    "C22", "Processing a site gives the same result as fitting it directly",
    "For every site, the result produced by the processing chain (reader, fit, storing, optional finalising function) "
    "equals that of fitting the site's data directly with the configured fit, independently of the sites processed "
    "before in the same process. Sites without data, already existing output or failing fits are handled as documented "
    "by the configured exception handling and never change the outcome of other sites.",
    ["histories", "fault_sequences"],
    "all orders of sites with different data, auxiliary data, empty data, existing output and failing fits processed by "
    "the same worker, single and multi-config",
    "The tests process identical random sites and only check that files exist.",
    ["rt1/rtprocess.py", "rt1/processing_config.py"],
    [("evaluation of a site", "rt1/rtprocess.py:_evalfunc"),
     ("exception handling", "rt1/processing_config.py:exceptfunc"),
     ("finalising", "rt1/rtprocess.py:_run_postprocess,_finalout_reader")],
    ["returned result layers"],
)
prop(
    "C23", "Grouping, padding and splitting helpers lose nothing",
    "The helpers used to group, pad, split, chunk and number data return every input element exactly once in the "
    "documented place and order, mark exactly the padded elements, for every kind of input they are documented for.",
    ["inputs"],
    "all small inputs (up to a length) over a small value alphabet",
    "The helpers are only exercised through a few fits.",
    ["rt1/general_functions.py"],
    [("helpers", "rt1/general_functions.py")],
    ["return values"],
)
prop(
    "C24", "Plotting and reading a fit never changes it",
    "Producing any of the available plots, printing summaries or reading results leaves the settings, data, results and "
    "later model evaluations of a fit unchanged, in any order of such operations.",
    ["histories"],
    "all sequences (up to a depth) of plot/summary/read operations on performed fits",
    "The tests do not cover plotting.",
    ["rt1/rtplots.py", "rt1/rtfits.py"],
    [("plots", "rt1/rtplots.py")],
    ["state of the fit"],
)

prop(
    "C25", "Every drawn value belongs to the observation, date and unit it is drawn for",
    "In every plot of a fit (scatter, timeseries, residuals, results, single measurement-groups, intermediate results and residuals), "
    "every drawn point, curve, label and color belongs to the observation, group, date, incidence-angle, parameter and unit it is drawn "
    "for; also if groups are not contiguous in time, contain different numbers of observations or share dates. Polar plots and "
    "hemispherical reflectances show the values of the functions.",
    ["configurations", "histories"],
    "all combinations of the stated datasets, groupings, units and plot options; all artists of each figure",
    "The existing tests only check that plots can be generated.",
    ["rt1/rtplots.py"],
    [("fit_timeseries", "rt1/rtplots.py"), ("hemreflect", "rt1/rtplots.py")],
    ["content of the figures"],
)
prop(
    "C26", "Interactive figures show the current state of their widgets, not the past",
    "Whatever sequence of slider movements, button clicks, changed parameter-limits and zooms is performed in the interactive figures "
    "(printsig0analysis, analyzemodel), the displayed measurements, model curves, ranges, indicators and labels are those of the "
    "current state of the widgets, and every offered state can be displayed.",
    ["histories"],
    "all operations in all reachable states of the widgets of the stated figures",
    "The existing tests do not operate the widgets.",
    ["rt1/rtplots.py"],
    [("printsig0analysis", "rt1/rtplots.py"), ("analyzemodel", "rt1/rtplots.py")],
    ["content of the figures"],
)

prop(
    "C27", "Processing restores the calling process; log-files hold every message once",
    "A log-file started by the user holds exactly the messages emitted while it was active, at or above its level, in order; the "
    "log-file of a processing run holds every message (main process, workers, combiners, writers, captured warnings) at or above "
    "logfile_level exactly once, and other handlers of the calling process get the same messages as without it. After a run (finished, "
    "failed or interrupted by SIGTERM) the log-level, handlers, captured warnings and signal-handlers of the calling process are as "
    "before, and a run that finished or failed leaves no process behind.",
    ["histories", "schedules", "fault_sequences"],
    "all histories of log-file operations and of runs, all points of failure or interruption, all schedules within the bounds",
    "The existing tests never read a log-file and do not look at the state of the process after a run.",
    ["rt1/__init__.py", "rt1/rtprocess.py", "rt1/_rtprocess_writer.py"],
    [("start_log_to_file", "rt1/__init__.py"), ("_worker_configurer", "rt1/rtprocess.py"), ("_listener_process", "rt1/rtprocess.py"), ("writer_pool", "rt1/_rtprocess_writer.py")],
    ["log-files", "loggers and signal-handlers of the calling process"],
)
prop(
    "C28", "A results folder shows exactly the results it contains",
    "RTresults finds exactly the sub-folders with the expected structure (or the folder itself) under their names, whatever the names "
    "are. Each result lists and loads exactly the HDF-, NetCDF-, config- and dump-files it contains, by name, number, path, at random and, "
    "if there is only one, without a name; a missing or ambiguous name is an error. Whatever happened to the files, to other objects and "
    "to open handles before: after rescan() the current files are shown and drawn from, without it the state of the last scan or the "
    "current one, and a name or number never returns the fit of another site.",
    ["inputs", "histories"],
    "all folder trees, subsets of files and histories of changes, scans and accesses",
    "The existing tests read one folder that never changes.",
    ["rt1/rtresults.py"],
    [("RTresults", "rt1/rtresults.py"), ("rescan", "rt1/rtresults.py"), ("load_fit", "rt1/rtresults.py"), ("_get_results", "rt1/rtresults.py")],
    ["result-folders", "open results"],
)
prop(
    "C29", "Calls leave no traces",
    "Whatever is passed to rt1 (datasets, parameter- and model-definitions, solver options, scattering functions, arrays, lists, overrides "
    "and options of plots) is never changed by it. Calls are independent: each call returns what it returns in a fresh process, whatever was "
    "called before with the same inputs, and fits, models, parsers and results obtained earlier keep their contents when other objects are "
    "created from the same inputs, copied, changed, fitted, stored or plotted. Global settings (working directory, environment, seeds, "
    "numpy-, pandas-, matplotlib- and warning-settings, signal- and log-handlers, threads) are the same after a call as before.",
    ["inputs", "histories"],
    "all sequences of calls of a catalogue that spans all parts of rt1",
    "The existing tests use new inputs in each test and look at the returned values only.",
    ["rt1/rtfits.py", "rt1/_containers.py", "rt1/rt1.py", "rt1/surface.py", "rt1/volume.py", "rt1/rtplots.py", "rt1/rtparse.py", "rt1/general_functions.py"],
    [("Fits", "rt1/rtfits.py"), ("reinit_object", "rt1/rtfits.py"), ("_RT1_defdict", "rt1/_containers.py"), ("_check_monotonic_dataset_index", "rt1/rtfits.py"),
     ("RT1", "rt1/rt1.py"), ("LinCombV", "rt1/volume.py"), ("LinCombSRF", "rt1/surface.py"), ("RT1_configparser", "rt1/rtparse.py")],
    ["calls that share inputs"],
)

out = Path(__file__).resolve().parent.parent / "properties.jsonl"
for d in P:
    assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
out.write_text("".join(json.dumps(d) + "\n" for d in P))
print(len(P))
