"""Writes properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, pathlib

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=hook)))


CALC = "src/rt1_model/_calc.py"
SCAT = "src/rt1_model/_scatter.py"
SRF = "src/rt1_model/surface.py"
VOL = "src/rt1_model/volume.py"
HELP = "src/rt1_model/helpers.py"
PLOT = "src/rt1_model/plot.py"
INIT = "src/rt1_model/__init__.py"

prop("C01", "Evaluation is independent of history",
     "What a model reports - its contributions, Jacobian, parameter values and angles - is a function of its current "
     "configuration (distributions, parameter definitions and values, geometry, output settings) alone. After any sequence of "
     "reconfigurations, parameter updates (including parameters named for the first time), evaluations and errors, it reports the "
     "same as a newly created model that is given the current configuration directly.",
     ["histories", "configurations", "inputs"],
     "every finite sequence of public operations on a model, at every point of the sequence",
     "Tests build a model, configure it once and evaluate it once; nothing re-evaluates after the geometry mode, a parameter "
     "definition, the set of named parameters, the distributions or an output setting has changed, which is where the cached "
     "cosines, coefficients, compiled functions and symbol lists can go stale.",
     [CALC, SCAT, HELP],
     [("explicit invalidation of cached cosines on geometry changes", CALC + ":_clear_geom_cache"),
      ("explicit invalidation of parsed parameter definitions", CALC + ":_clear_param_cache"),
      ("lazy coefficients reset when the evaluation geometry is set", CALC + ":set_monostatic, set_bistatic"),
      ("per-argument-name cache of compiled distributions", SCAT + ":_Scatter._lambda_func")],
     [("fn-coefficients and their compiled form", "lazily computed symbolic expansion of the interaction term", CALC),
      ("cached cosines", "cos(t_0), cos(t_ex) and their powers", CALC)],
     ["RT1.calc", "RT1.surface", "RT1.volume", "RT1.interaction", "RT1.jacobian", "RT1.tau/omega/NormBRDF/bsf"])

prop("C02", "Reported contributions are the documented first-order solution",
     "At every point of any run a model with fully specified parameters reports surface, volume and interaction contributions equal "
     "to the documented first-order solution for its current state (the interaction term being the documented integral over the "
     "distributions' Legendre series truncated at their number of coefficients), their total equal to the sum, and "
     "sigma0 / intensity / dB versions that are the documented conversions of each other. This holds for mono- and bistatic geometry, "
     "for any choice of which angles are fixed and which are dynamic, for any bare-soil fraction, for tau = 0 and for nadir "
     "incidence.",
     ["histories", "configurations", "inputs"],
     "all model definitions, geometries, parameter values and histories leading to them",
     "Tests check three fn-coefficient values for isotropic surfaces and that the total is the sum of the parts; no test compares an "
     "interaction contribution with its defining integral, a bistatic result with a monostatic one, or a fixed angle with the same "
     "dynamic angle.",
     [CALC, SCAT, SRF, VOL],
     [("closed-form contributions", CALC + ":_surface,_volume,_interaction,_S2_mu,_calc_Fint_1,_calc_Fint_2"),
      ("symbolic coefficient extraction", CALC + ":_calc_interaction_expansion,_integrate_0_2pi_phis,_extract_coefficients"),
      ("unit conversion", CALC + ":_convert_sig0_db"),
      ("distribution definitions", SRF), ("distribution definitions", VOL), ("linear combinations", SCAT + ":_LinComb")],
     [], ["RT1.calc", "RT1.surface", "RT1.volume", "RT1.interaction"])

prop("C03", "The Jacobian is the derivative of surface plus volume",
     "At every point of any run, each entry of the Jacobian equals the partial derivative of the current surface-plus-volume signal "
     "(in the model's current output units) with respect to the named parameter, through every place where that parameter enters: "
     "optical depth, albedo, BRDF normalisation, bare-soil fraction or either scattering distribution. The least-squares format "
     "holds exactly these numbers, with one column per static parameter and, for a parameter given as a timeseries, one column "
     "per timestamp that is non-zero only for that timestamp's measurements.",
     ["histories", "configurations", "inputs"],
     "all model definitions (including parameter expressions that share symbols), unit settings, parameter shapes and histories",
     "No test compares a Jacobian with a derivative; the retrieval notebooks converge even with a wrong Jacobian.",
     [CALC],
     [("analytic derivatives and chain rule", CALC + ":_dsurface_*, _dvolume_*, _d_surface_ddummy, _d_volume_ddummy"),
      ("assembly for least_squares", CALC + ":jacobian")],
     [], ["RT1.jacobian"])

prop("C04", "Switching the evaluation backend is invisible",
     "Switching between the sympy and the symengine backend at any moment - between operations, or from another thread while an "
     "evaluation is in progress - never changes what any model reports beyond rounding, and never makes a valid evaluation fail. "
     "An unknown backend is rejected and leaves the current one selected.",
     ["schedules", "histories", "configurations"],
     "all placements of backend switches in a history or inside concurrent evaluations",
     "One test evaluates one model per backend from scratch; no test changes the backend during the life of a model (functions "
     "compiled by one backend are then used together with coefficients expanded by the other) or while an evaluation runs.",
     [INIT, HELP, CALC, SCAT],
     [("process-wide backend selection", INIT + ":set_lambda_backend"),
      ("call signature unification", HELP + ":_lambdify"),
      ("backend dependent expansion", CALC + ":_expand")],
     [("selected backend", "process-wide", INIT)], ["RT1.calc", "RT1.jacobian", "get_lambda_backend"])

prop("C05", "Models in one process do not influence each other",
     "Models that live in one process - also when they share distribution objects or parameter names, and when they are used from "
     "different threads under any interleaving - each report exactly what they would report if they were alone. Creating, "
     "reconfiguring, evaluating, failing or discarding one model never changes another.",
     ["schedules", "histories"],
     "all interleavings of operations on different models at the granularity of the package's own statements",
     "Tests never keep two models alive with interleaved operations and never use threads; class-level caches, the bounded size of "
     "those caches, module-level state and shared distribution objects are only exercised by one model at a time.",
     [CALC, SCAT, HELP],
     [("caches keyed by instance", CALC + ":lru_cache on methods and properties"),
      ("cache of compiled distributions shared by all models using the object", SCAT + ":_Scatter._lambda_func"),
      ("parsing with a module-level symbol table", HELP + ":_parse_sympy_param")],
     [("class-level caches", "shared by all models in the process; cleared by any of them", CALC)],
     ["RT1.calc", "RT1.jacobian", "RT1.param_dict"])

prop("C06", "Rejected calls leave no trace",
     "A configuration call that is rejected with an error - unknown or fixed angle, exit angle in monostatic geometry, missing or "
     "non-numeric angle, invalid backend, invalid constructor argument, unusable parameter value - changes nothing: afterwards the "
     "model reports exactly what it would have reported without the call. An evaluation that is rejected because a parameter is "
     "missing or a Jacobian request is invalid changes nothing beyond storing the parameters passed with it, and succeeds once the "
     "missing information is supplied.",
     ["histories", "fault_sequences", "inputs"],
     "all invalid calls, placed anywhere in any history",
     "One expected-failure test passes an invalid angle; no test looks at the state of a model after an error.",
     [CALC, INIT],
     [("argument validation", CALC + ":set_geometry,set_monostatic,set_bistatic,_sanitize_geometry_parameter"),
      ("missing parameter reporting", CALC + ":calc,_eval_param")],
     [], ["RT1.calc", "RT1.t_0/t_ex/p_0/p_ex", "RT1.param_dict", "get_lambda_backend"])

prop("C07", "Interrupted or failing evaluations do not corrupt a model",
     "If an evaluation is cut short at any instant - keyboard interrupt, memory exhaustion, a failing compilation or numerical "
     "routine - the error reaches the caller, the model's configuration and output settings are unchanged apart from the parameters "
     "passed with the call, and every later evaluation reports the correct values. Re-issuing an interrupted configuration call "
     "brings the model into exactly the state the uninterrupted call would have produced.",
     ["crash_points", "fault_sequences", "histories"],
     "all interruption points inside the package's code and inside the libraries it calls, in any history",
     "No test interrupts anything; half-built coefficient caches or half-applied settings can only be seen after an interruption at "
     "a particular instant.",
     [CALC, SCAT, HELP, PLOT],
     [("results are stored only once complete", CALC + ":_fn,_fnevals,lru_cache"),
      ("temporary settings are restored", PLOT + ":Analyze3D._cx_set_intq")],
     [], ["RT1.calc", "RT1.jacobian", "Analyze/Analyze3D sliders"])

prop("C08", "A pickled model is a faithful checkpoint",
     "A model pickled at any point of its life and restored in the same or another process - under either backend, also when the "
     "original process has since crashed - reports the same values, accepts the same further operations and gives the same results "
     "for them as the original would have. A checkpoint that could not be written completely (full disk, torn file) is reported or "
     "rejected, never restored as something else. Pickling (also if it fails) or copying a model neither changes nor disables anything on the original, and "
     "original and restored model are independent afterwards.",
     ["crash_points", "histories"],
     "all points of any history at which the checkpoint is taken, all continuations",
     "One test pickles one evaluated model and compares one evaluation in the same process; it never uses the original or the copy "
     "further, never reconfigures the copy, and never pickles models in other states.",
     [CALC, SCAT, HELP],
     [("state selection for pickling", CALC + ":RT1.__getstate__")],
     [], ["cloudpickle.dumps/loads", "copy.deepcopy", "RT1.*"])

prop("C09", "Analyzers show the model at the displayed slider values",
     "After every slider or range-selector event, in any order and with several analyzers open on one model, each analyzer displays "
     "exactly the contributions the analyzed model has at the slider values it shows (and the extent over the selected parameter's "
     "range, or nothing when none is selected). Sliders start at the given start value or the centre of their range and carry the "
     "given name.",
     ["schedules", "histories"],
     "all orders of user events over one or more analyzers",
     "The notebook test only constructs the analyzers and discards them; no event is ever delivered to one.",
     [PLOT, CALC],
     [("event handlers", PLOT + ":Analyze._update,Analyze3D._update"),
      ("slider specification", PLOT + ":Analyze._parse_parameters")],
     [("analyzed model", "geometry and parameters used by the analyzer", PLOT)],
     ["Analyze.ax", "Analyze.sliders", "Analyze3D.ax"])

prop("C10", "Runs are reproducible across processes",
     "Executing the same sequence of operations in another process gives the same results (up to rounding) and the same errors: "
     "nothing depends on hash randomisation, on the iteration order of sets, on memory addresses, on wall-clock time or on "
     "which other models the process has handled before.",
     ["schedules", "histories"],
     "all hash seeds, clock behaviours and process pre-histories, for any sequence of operations",
     "The test suite runs with one fixed hash seed (PYTHONHASHSEED=0) and never compares two processes.",
     [CALC, HELP, PLOT],
     [("named rather than positional hand-over of symbol sets", CALC + ":_get_param_symbs,_eval_param"),
      ("fixed argument order of compiled functions", HELP + ":_lambdify")],
     [], ["RT1.calc", "RT1.jacobian"])

prop("C11", "Work can be split over measurements, chunks and workers",
     "Evaluating a whole dataset at once - any broadcastable mix of scalar, per-measurement and per-timestamp parameters and "
     "angles - gives, element by element, the same contributions as evaluating any partition of it chunk by chunk, in any order, on "
     "the same model or on restored copies in workers that crash, restart, or process chunks late, twice or out of order. In "
     "particular special values such as tau = 0 in one element never change another element.",
     ["schedules", "fault_sequences", "inputs"],
     "all partitions, dispatch orders, worker failures, duplications and delays, and all broadcastable parameter shapes",
     "Tests evaluate single points or one full-shaped array; none compares an array evaluation with its elements or mixes shapes.",
     [CALC, SCAT, HELP],
     [("broadcasting in the contributions", CALC + ":calc,_calc_Fint_1,_calc_Fint_2,_S2_mu"),
      ("tau = 0 handling", CALC + ":calc"),
      ("broadcasting wrapper", HELP + ":_lambdify")],
     [], ["RT1.calc"])

prop("C12", "Log messages are emitted exactly once under any configuration order",
     "However often, in whatever order and from however many threads the log level and format are set, every message at or above "
     "the level set last is written exactly once, in the format set last, and none below it is written. A rejected call (unknown level or unusable format) changes neither the level nor the format. Logging never changes the "
     "values a model reports.",
     ["schedules", "histories"],
     "all sequences and interleavings of log configuration calls and evaluations",
     "Notebook tests call the configuration once; nobody counts the emitted lines or configures twice.",
     [INIT, CALC],
     [("single handler attached on first use", INIT + ":_ensure_handler"), ("format presets", INIT + ":_set_logfmt")],
     [("package handler", "stream handler attached at most once", INIT)], ["rt1_model logger output", "set_loglevel"])

prop("C13", "Caller-owned arrays and returned arrays are not shared with the model",
     "A model takes the values of the arrays it is given (parameters, angles, intensity, numeric definitions) at the time of the call: "
     "modifying such an array afterwards never changes what the model reports. Arrays it returned (results, angles, parameter "
     "quantities; not the live `param_dict`) belong to the caller: modifying them (for example adding noise in place) never "
     "changes what the model reports later, and evaluating never modifies the caller's arrays.",
     ["histories", "schedules"],
     "all placements of in-place modifications of caller buffers between any operations",
     "Tests never modify an array after handing it over; the retrieval notebooks modify returned arrays but never compare with an "
     "unmodified run.",
     [CALC],
     [("conversion of inputs", CALC + ":update_params,_sanitize_geometry_parameter"),
      ("fresh result arrays", CALC + ":_convert_sig0_db")],
     [], ["RT1.calc", "RT1.update_params", "RT1.set_geometry"])

prop("C14", "Retrievals recover the parameters, also when killed and resumed",
     "A least-squares retrieval that uses the model's residuals and Jacobian on noise-free data, started near the generating "
     "parameters of an identifiable setup, recovers them within a bounded number of evaluations. This also holds when it is "
     "interrupted at any evaluation and resumed from the last accepted parameters, with the same model or one restored "
     "from a checkpoint.",
     ["crash_points", "fault_sequences", "histories"],
     "all interruption points and resume sequences of a retrieval, over the retrieval set-ups of the documentation",
     "The retrieval notebooks run one seed without interruptions, with noise, and accept a mean parameter error of 0.15.",
     [CALC],
     [("residuals", CALC + ":update_params,calc"), ("Jacobian for scipy.optimize", CALC + ":jacobian")],
     [], ["scipy.optimize.least_squares result"])

prop("C15", "Inspecting a model never changes it",
     "Reading values, evaluating contributions or Jacobians without passing parameters, plotting a distribution, computing a "
     "hemispherical reflectance, opening or using an analyzer, pickling and copying - also by several threads at the same time - leave a model's and its distributions' reported "
     "parameters, angles, settings and results exactly as they were; repeating an evaluation gives identical numbers.",
     ["histories", "schedules"],
     "all placements and orders of inspection operations in a history",
     "Tests construct plots and analyzers in isolation and never look at the model afterwards.",
     [CALC, PLOT, SCAT],
     [("read-only evaluation path", CALC), ("plot helpers", PLOT), ("temporary settings", PLOT + ":Analyze3D")],
     [], ["RT1.calc", "RT1.param_dict", "RT1.t_0/t_ex/p_0/p_ex", "RT1.dB/sig0/int_Q"])

prop("C16", "Scattering distributions are normalised",
     "Every volume phase function integrates to one over the sphere, and the nadir-normalised BRDF has unit hemispherical reflectance "
     "at nadir, for every admissible asymmetry parameter.",
     ["inputs"], "all asymmetry parameters and incidence directions",
     "No test integrates a distribution.", [VOL, SRF], [("closed forms", VOL), ("closed forms", SRF)], [], ["V.calc", "SRF.calc"])

prop("C17", "Legendre expansions converge to their distribution",
     "The Legendre expansion of every distribution (and linear combination) converges to the distribution itself as the number of "
     "coefficients grows.",
     ["inputs"], "all distributions, asymmetry parameters and directions",
     "Tests only evaluate the expansion without looking at its value.", [VOL, SRF, SCAT],
     [("Legendre coefficients", VOL), ("Legendre coefficients", SRF)], [], ["legendre_expansion"])

prop("C18", "Distribution objects report their documented function at any point of any run",
     "At any point of any run - with either backend, from any thread, after copies, checkpoints and restarts, linear combinations, cache "
     "evictions and interrupted or rejected calls - a scattering distribution object reports its documented function: `calc` gives "
     "the formula's value for all given (broadcast) angles and parameters, `legendre_expansion` the truncated Legendre series, polar "
     "plots draw these two functions for the requested incidence angles and parameters, and `hemreflect` the cosine-weighted "
     "integral of the BRDF over the upper hemisphere times its normalisation. Missing parameters are rejected.",
     ["histories", "schedules", "fault_sequences"],
     "all histories of operations on any set of (shared, copied, combined, restored) distribution objects",
     "Tests evaluate a few distributions at single points; plots are only drawn, and no object is used twice, copied or restored.",
     [SCAT, VOL, SRF, PLOT, HELP],
     [("numerical evaluation and its cache", SCAT + ":calc"), ("expansion", SCAT + ":legendre_expansion"),
      ("linear combinations", SCAT + ":_LinComb"), ("plots", PLOT + ":polarplot,hemreflect")],
     [("compiled functions of a distribution", "lru_cache", SCAT)],
     ["calc", "legendre_expansion", "polarplot", "hemreflect", "ncoefs"])

prop("C19", "The package works without its optional dependencies",
     "symengine and matplotlib are optional: whichever of them (or of their submodules) is missing or fails to import - or if the import "
     "of the package itself was interrupted and is repeated - the package can be imported (star-imports, too), uses symengine "
     "as backend exactly if it is available and rejects it otherwise without a change, and models and distributions report the same "
     "results as in a complete installation. Distributions and models saved in one installation can be restored in another one "
     "(except for functions compiled by symengine, which are documented as platform-dependent).",
     ["fault_sequences", "histories"],
     "all import failures and installations, and all histories of checkpoints moving between them",
     "The tests run in one complete installation; no import ever fails.",
     [INIT, CALC, SCAT, HELP, PLOT],
     [("choice of the backend", INIT + ":set_lambda_backend"), ("optional plot functions", CALC + ":_register_plotfuncs"),
      ("plot functions of distributions", SCAT + ":_register_plotfuncs"), ("expansion", CALC + ":_expand")],
     [("lambda backend of the process", "symengine only if importable", INIT)],
     ["import rt1_model", "get_lambda_backend", "RT1.calc", "RT1.jacobian", "V.calc", "SRF.calc"])

prop("C20", "Long runs stay bounded",
     "A process can create, reconfigure, evaluate, copy, checkpoint and discard any number of models and distributions - with calls that "
     "are rejected or interrupted in between - without accumulating them: only a bounded number of discarded models and distributions "
     "(and of the arrays that belong to them) stays in memory, and the same operations give the same results and errors in every round.",
     ["histories", "fault_sequences"],
     "all histories and their repetition over arbitrarily many rounds in one process",
     "Every test handles a handful of models in a short-lived process; nothing looks at what stays behind.",
     [CALC, SCAT, HELP],
     [("bounded caches of functions and intermediate results", CALC + ":lru_cache"), ("compiled functions of distributions", SCAT + ":_lambda_func"),
      ("temporary cache of the exponential integrals", CALC + ":_S2_mu")],
     [("compiled functions and cosines of models", "bounded lru_cache", CALC)],
     ["RT1.calc", "RT1.jacobian", "RT1.set_geometry", "RT1.update_params"])

prop("C21", "Process-wide settings are left alone and do not matter",
     "The package is a guest in its process. No call - accepted, rejected or interrupted at any point, from any thread - and no import of "
     "the package changes process-wide state that belongs to the host: numpy's error handling and print options, warning filters, random "
     "number generators, the environment, working directory, locale, signal handlers, garbage collection, loggers other than the "
     "package's own (and logging's global switches), matplotlib's settings and figures that the package did not create. Conversely, "
     "whatever the host sets there while it keeps the program running (print options, non-raising error handling, warning filters, seeds, "
     "plot settings, working directory, log levels, ...) does not influence the reported results.",
     ["histories", "fault_sequences", "schedules"],
     "all histories of calls, interruptions and threads, and all changes the host makes to its settings in between",
     "The tests run in one process with default settings and look only at return values.",
     [INIT, CALC, SCAT, VOL, SRF, HELP, PLOT],
     [("temporary numpy error handling", CALC + ":_S2_mu"), ("compiled functions", SCAT + ":_lambda_func"), ("plots and analyzers", PLOT),
      ("log handlers", INIT + ":set_loglevel")],
     [("process-wide state of the host", "unchanged by the package", INIT)],
     ["every public call", "import rt1_model"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P))
