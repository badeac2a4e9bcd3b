#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from the table below (claimed = has a module)."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def P(id, title, statement, over, text, why, files, mech, observe, note):
    return {
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe,
            "hook_needed": None,
        },
        "_note": note,
    }


S, R = "utide/_solve.py", "utide/_reconstruct.py"
ALLF = [S, R, "utide/harmonics.py", "utide/confidence.py", "utide/constituent_selection.py"]

PROPS = [
    P(
        "C01",
        "Concurrent calls do not influence each other",
        "Any number of threads may call solve and reconstruct at the same time, also on shared "
        "argument objects and on one shared coefficient set, and every call returns (or raises) "
        "exactly what it would if it were made alone. No interleaving makes a call hang, and calls "
        "made after such a storm are still right.",
        ["schedules", "inputs"],
        "Every interleaving, at source-line or byte-code granularity, of 2-4 threads each making 1-3 "
        "calls, including near-identical requests and stalled or cancelled threads.",
        "All tests are single-threaded; shared module state (tables, defaults, caches) that a call "
        "scribbles on or memoises wrongly is only visible under an interleaving.",
        [*ALLF, "utide/_ut_constants.py", "utide/astronomy.py"],
        [
            ("module-level tables are copied before they are edited", "utide/harmonics.py FUV, linearized_freqs"),
            ("options are deep-copied from the defaults for each call", "utide/_solve.py _process_opts"),
        ],
        ["return values and exceptions of utide.solve / utide.reconstruct per thread"],
        "seeded search over thread schedules; pre-emption at line/byte-code boundaries of package code only",
    ),
    P(
        "C02",
        "Results do not depend on the history of earlier calls",
        "In a long-lived process the outcome of a call depends on its own arguments only, never on "
        "which calls were made before, whether they failed, or what callers did to their argument "
        "buffers and to returned objects. A returned object never changes afterwards unless its owner "
        "changes that very object.",
        ["histories", "inputs", "fault_sequences"],
        "Every history of near-identical, failing and cancelled calls, reused buffers and modified results.",
        "Tests make one or two unrelated calls per process; stale caches and shared mutable state need a "
        "history of nearly identical requests.",
        [*ALLF, "utide/utilities.py"],
        [
            ("defaults deep-copied", "utide/_solve.py _process_opts"),
            ("results built from fresh arrays", "utide/_solve.py _solv1; utide/_reconstruct.py"),
        ],
        ["return values in one long-lived process against a pristine process"],
        "seeded search over call histories; oracle is the same call in a freshly forked process",
    ),
    P(
        "C03",
        "Arguments and public constant tables are never modified",
        "Neither solve nor reconstruct modifies any object passed to it (times, values, option lists "
        "and dicts, coefficients) or the public constituent tables, whether the call completes, fails or is "
        "interrupted. Read-only arguments work as well as writable ones, and results do not change when "
        "the caller later overwrites its own buffers.",
        ["inputs", "crash_points", "configurations"],
        "Every container, dtype, option set and missing-value notation, and every point at which the call "
        "fails or is interrupted.",
        "Tests never compare arguments before and after a call, and never interrupt one.",
        [S, R, "utide/harmonics.py", "utide/periodogram.py", "utide/constituent_selection.py"],
        [
            ("masked copies of the inputs", "utide/_solve.py _slvinit"),
            ("copies of tables before editing", "utide/harmonics.py"),
        ],
        ["argument objects and utide.ut_constants before and after the call"],
        "seeded search over argument representations and interruption points",
    ),
    P(
        "C04",
        "A call that fails or is aborted leaves no trace",
        "If a call is cancelled at any point, runs out of memory, loses a numerical kernel, or meets "
        "warnings-as-errors or floating-point traps, it either raises or returns the right answer, never "
        "a wrong one. Afterwards process-wide state is as before, and the same call retried, and any "
        "other call, gives its normal result.",
        ["crash_points", "fault_sequences", "inputs"],
        "Every source line and every intercepted kernel or allocation at which a call can be aborted.",
        "Tests inject no failures; unwinding paths are never executed by them.",
        [*ALLF, "utide/robustfit.py", "utide/periodogram.py"],
        [
            ("errstate only through context managers", "utide/harmonics.py FUV, utide/confidence.py"),
            ("no module state written by a call", "all modules"),
        ],
        ["exceptions, return values, numpy error state, warnings filters, streams, file descriptors"],
        "seeded search over abort points and failing kernels",
    ),
    P(
        "C05",
        "verbose=False is silent; output never decides results",
        "With verbose=False a call writes nothing to standard output or error and works the same when "
        "those streams are closed, full or broken. With verbose=True the numerical result is the same as "
        "without, or the stream's own error is raised.",
        ["fault_sequences", "inputs", "configurations"],
        "Every option set and every state of the output streams, including failing and cancelled calls.",
        "Tests run with working streams and do not capture what is printed.",
        [S, R],
        [("printing guarded by the verbose option", "utide/_solve.py _solv1; utide/_reconstruct.py _reconstruct")],
        ["sys.stdout, sys.stderr and file descriptors 1 and 2"],
        "seeded search over stream states and option sets",
    ),
    P(
        "C06",
        "Randomness is confined to Monte Carlo intervals and reproducible",
        "Only conf_int='MC' consumes the global random stream; every other call leaves it untouched, also "
        "when it fails. Monte Carlo intervals are a function of the arguments and the stream's state, "
        "advance the stream rather than reset it, and randomness never reaches the point estimates.",
        ["histories", "schedules", "inputs"],
        "Every sequence of Monte Carlo and other calls interleaved with the user's own draws and re-seedings.",
        "Tests run Monte Carlo once and cannot control or observe the stream.",
        [S, "utide/confidence.py"],
        [("multivariate_normal draws only in the Monte Carlo branch", "utide/confidence.py _confidence")],
        ["np.random.get_state() around calls; results per stream state"],
        "seeded search over interleavings of draws, seeds and calls",
    ),
    P(
        "C07",
        "Monte Carlo and linearised intervals agree for well-determined tides",
        "For constituents that are well determined, Monte Carlo confidence intervals agree with the "
        "linearised ones whatever the random stream, the option set, and the loss pattern. In particular "
        "phases near 0/360 and orientations near 0/180 do not inflate them.",
        ["inputs", "configurations"],
        "Every state of the random stream, 1-D and 2-D, white and coloured estimates, all nodal/phase modes.",
        "Tests only check that Monte Carlo runs; no values are compared.",
        ["utide/confidence.py"],
        [
            ("cluster() unwraps angles", "utide/confidence.py cluster"),
            ("shared variance estimates", "utide/confidence.py _confidence"),
        ],
        ["*_ci items of the result"],
        "seeded search over records, option sets and random streams; statistical bound",
    ),
    P(
        "C08",
        "White-noise confidence intervals cover the truth at their nominal rate",
        "For a known tide in white noise, errors of the estimated constants have the spread that the "
        "white-noise intervals state, whatever was lost, however sampled, 1-D or 2-D, linearised or Monte "
        "Carlo, and whatever the datum of the record. Robust fits do not state intervals that are far too "
        "narrow or not numbers.",
        ["inputs", "configurations", "fault_sequences"],
        "Every tide, sampling and loss pattern; 150 independent noise realisations per configuration.",
        "A single noise realisation cannot decide a coverage statement.",
        ["utide/confidence.py", S],
        [("misfit variance and model covariance", "utide/confidence.py _confidence, ut_linci")],
        ["constants and *_ci items over replicated experiments"],
        "seeded search over configurations; pooled z-scores with 5-sigma acceptance bands",
    ),
    P(
        "C09",
        "Missing samples carry no information",
        "However the loss of a sample is written down (NaN, infinity, mask over garbage, in one velocity "
        "component or both, missing time, or no entry at all), the constants are the same. The content of "
        "a missing entry never matters.",
        ["inputs", "fault_sequences"],
        "Every loss pattern of the channel and every notation of loss, for all option sets.",
        "Tests try two notations on one pattern each and compare no notations with each other.",
        [S, "utide/_time_conversion.py"],
        [("masking and compression of invalid samples", "utide/_solve.py _slvinit")],
        ["result of solve for the same loss in different notations"],
        "seeded search over loss patterns and notations",
    ),
    P(
        "C10",
        "What is sampled of a tide is enough to get the tide back",
        "If the record is a tide made of the requested constituents plus a mean and trend, sampled through "
        "any loss, jitter, delay or reordering that leaves the problem well posed, solve returns the true "
        "constants under every nodal, phase, trend, inference and ordering option. Predictions reproduce "
        "the tide at any time inside or outside the record.",
        ["inputs", "configurations", "fault_sequences"],
        "Oceans of 1-24 of all 144 constituents, every loss pattern of the simulated gauge, all option sets.",
        "Tests recover M2/S2-like series on complete records; they never vary constituents, loss and options.",
        [*ALLF, "utide/astronomy.py", "utide/ellipse_params.py", "utide/_time_conversion.py"],
        [
            ("harmonic basis with nodal and astronomical terms", "utide/harmonics.py FUV, ut_E"),
            ("least-squares solution and conversion to constants", "utide/_solve.py _solv1"),
        ],
        ["constants returned by solve; series returned by reconstruct"],
        "seeded search over oceans and gauge faults against an independent model of the astronomy",
    ),
    P(
        "C11",
        "Undetected outliers do not decide robust estimates",
        "With method='robust' and any of the documented weight functions, a few percent of corrupted "
        "samples of any magnitude leave the estimated constants as close to the truth as the good samples "
        "alone allow, and grossly corrupted samples get smaller weights than the good ones.",
        ["inputs", "fault_sequences"],
        "Every corruption pattern up to six percent of samples and magnitudes from mild to 1e6, all weight functions.",
        "Tests use one series with one outlier pattern and the default weight function.",
        ["utide/robustfit.py", S],
        [("iteratively reweighted least squares", "utide/robustfit.py robustfit")],
        ["constants, weights of the result"],
        "seeded search over corruption patterns",
    ),
    P(
        "C12",
        "A prediction depends only on its own time and the coefficients",
        "The predicted value at a time does not depend on which other times are asked for, their order, "
        "number, duplication or notation; missing times give NaN exactly there. So any splitting, "
        "reordering, retrying or parallel execution of prediction requests assembles to the same series.",
        ["inputs", "schedules", "histories"],
        "Every partition, order and duplication of requests, every missing pattern, serial or on threads.",
        "Tests reconstruct only at the record's own complete times in one call.",
        [R, "utide/harmonics.py"],
        [("values are scattered back by the mask of valid times", "utide/_reconstruct.py")],
        ["h, u, v of reconstruct"],
        "seeded search over request streams against one reference evaluation",
    ),
    P(
        "C13",
        "Coefficients are self-contained and survive a restart",
        "Everything needed for prediction is in the returned coefficients: stored, copied or sent to another "
        "process by the usual means and loaded after a crash or restart, they predict the same values, and "
        "a copy is independent of the original.",
        ["crash_points", "histories", "inputs"],
        "Every option set and storage means, with crashes between and during stores.",
        "Tests never store coefficients or predict in another process.",
        [S, R, "utide/utilities.py"],
        [("coef.aux carries reference time, latitude, indices and options", "utide/_solve.py")],
        ["predictions in another process from stored coefficients"],
        "seeded search over option sets, storage means and crash points",
    ),
    P(
        "C14",
        "The constants are loaded completely and correctly or not at all",
        "If reading the constants file fails, is cut short or meets corruption, importing the package raises; "
        "it never leaves a package that computes with partial or altered tables. Once the fault is gone the "
        "import works and the tables are right.",
        ["fault_sequences", "crash_points"],
        "Every failing or short read, truncation and corruption of the file, one-off or persistent.",
        "Tests import the package once from an intact file.",
        ["utide/_ut_constants.py", "utide/utilities.py"],
        [("loadbunch of the npz archive at import", "utide/_ut_constants.py")],
        ["outcome of import utide and the tables"],
        "seeded search over I/O faults on scratch copies",
    ),
    P(
        "C15",
        "Results do not depend on the environment of the process",
        "Time zone, wall clock, locale, working directory, hash seed, optimisation level, random seeds, print "
        "options, thread and import order do not change any result, nor does the run leave files behind.",
        ["configurations", "inputs"],
        "Every combination of environment settings drawn, for generated calls.",
        "Tests run in one environment.",
        [*ALLF, "utide/_time_conversion.py"],
        [("time arithmetic on numpy datetime64 without time zones", "utide/_time_conversion.py")],
        ["results in fresh interpreters under different environments"],
        "seeded search over environments",
    ),
    P(
        "C16",
        "Replicas keeping different time conventions and containers converge",
        "Archives of one gauge that keep time under different epochs or date types, and values in different "
        "containers, give the same constants, and each can serve the others' prediction requests in the "
        "others' notation.",
        ["inputs", "configurations", "fault_sequences"],
        "Every documented time notation and array_like container, under one lossy gauge.",
        "Tests compare four notations on one record.",
        ["utide/_time_conversion.py", S, R],
        [("normalisation of times", "utide/_time_conversion.py _normalize_time")],
        ["constants and predictions per replica"],
        "seeded search over notations and loss patterns",
    ),
    P(
        "C17",
        "Bunch is a dictionary with attributes, and its updates are atomic",
        "Under any history of operations a Bunch holds what a dictionary would, attribute and item access "
        "agree, strict updates with an unknown key change nothing, restricted updates never add keys, and "
        "it copies and pickles like a dictionary. A failing update leaves it as it was.",
        ["histories", "fault_sequences"],
        "Every history of operations, with failing sources and files.",
        "Tests run no histories of Bunch operations.",
        ["utide/utilities.py"],
        [("Bunch", "utide/utilities.py Bunch")],
        ["Bunch operations"],
        "seeded search over operation histories against a dictionary model",
    ),
    P(
        "C18",
        "Inferred constituents keep the prescribed relation to their reference",
        "An inferred constituent has exactly the prescribed amplitude ratio and phase offset to its reference, for "
        "each rotating component of a velocity, whatever the record, its losses and the order in which the inference "
        "is listed. If the water has that relation, both constants are recovered also from records too short to "
        "separate them; the approximate method reduces the contamination of the reference on near-regular records. "
        "Linearised intervals of an inferred scalar constituent are those of its reference times the ratio.",
        ["inputs", "histories", "fault_sequences", "configurations"],
        "Every set of inferred/reference pairs, ratios and offsets, record length and pattern of lost, late and "
        "missing samples of a network of stations.",
        "Tests use one inferred pair on one complete record.",
        [S, "utide/harmonics.py"],
        [
            ("exact inference folded into the basis", "utide/_solve.py _solv1"),
            ("approximate inference correction", "utide/_solve.py _solv1; utide/harmonics.py"),
            ("pairing of names and ratios", "utide/constituent_selection.py"),
        ],
        ["A, g, Lsmaj, Lsmin, theta, their intervals, predictions"],
        "seeded search over stations, losses and inference options; oracle is the reference model's relation",
    ),
    P(
        "C19",
        "The analysis commutes with a change of units, datum, axes or gauge",
        "Multiplying the values by a constant, adding a constant, swapping, mirroring or rotating the velocity axes "
        "changes amplitudes, mean, trend, phases, orientation and linearised "
        "intervals by exactly that change and nothing else, whatever the values and losses are. With "
        "ordinary least squares the constants of a sum of two records are the vector sum of their constants, and (raw "
        "phases, no nodal corrections) a record shifted in time has the same constants.",
        ["inputs", "histories", "fault_sequences"],
        "Every tide, noise, scale from 1e-9 to 1e7, datum, turn of the axes and loss pattern, seen by several gauges.",
        "Tests run each record once, in one unit and one set of axes.",
        [S, "utide/confidence.py", "utide/ellipse_params.py", "utide/robustfit.py"],
        [
            ("linear fit and unit-free weights", "utide/_solve.py; utide/robustfit.py"),
            ("ellipse parameters", "utide/ellipse_params.py ut_cs2cep"),
        ],
        ["constants, intervals, mean, trend of several gauges"],
        "seeded search; metamorphic oracle between simulated gauges under the same faults",
    ),
    P(
        "C20",
        "Diagnostics, ordering and selection agree with the constants",
        "The order asked for (PE, SNR, frequency, a list) changes only the order of the rows, and is the order it "
        "says. PE and SNR are those of the constants and intervals reported beside them, reconstruct uses "
        "exactly the constituents that meet min_SNR and min_PE (or are named), and predictions of disjoint "
        "selections add up to that of the union (less repeated mean and trend).",
        ["inputs", "histories", "configurations", "fault_sequences"],
        "Every solution, order, threshold, selection and partition of it over servers that lose and delay answers.",
        "Tests check the order of one solution; thresholds and partitions are not tested.",
        [S, R, "utide/diagnostics.py"],
        [
            ("ordering and PE/SNR", "utide/_solve.py; utide/diagnostics.py ut_diagn"),
            ("selection", "utide/_reconstruct.py _reconstr1"),
        ],
        ["rows of the result, PE, SNR, predictions"],
        "seeded search over solutions, orders and selections",
    ),
    P(
        "C21",
        "Automatic selection follows the length of the record, nothing else",
        "With constit='auto' the analysed constituents are exactly those of the table whose separation from their "
        "comparison constituent is at least Rayleigh_min cycles over the length of the record, first to last time (besides those "
        "named for inference), in frequency order. The "
        "values, holes inside the record, arrival order and earlier analyses do not matter.",
        ["inputs", "histories", "crash_points", "fault_sequences"],
        "Every archive as it grows through loss, delay, duplication and restart, and every Rayleigh_min.",
        "Tests use one record length with auto selection.",
        ["utide/constituent_selection.py", S],
        [("Rayleigh criterion", "utide/constituent_selection.py ut_cnstitsel"), ("record length", "utide/_solve.py _slvinit")],
        ["names and frequencies of the result"],
        "seeded search over growing archives; oracle is the criterion evaluated from the raw table",
    ),
    P(
        "C22",
        "The fit is the best fit to what was received, whatever that is",
        "With method='ols' the constants, mean and trend are those of the least-squares projection of the received "
        "values on the harmonic basis (with the nodal corrections and phase convention asked for), "
        "for arbitrary values: noise, steps, sticking, saturated or drifting sensors.",
        ["inputs", "histories", "fault_sequences"],
        "Every content of a record, option set and loss pattern; an archive analysed as it fills.",
        "Tests fit clean synthetic tides or one archived record.",
        [S, "utide/harmonics.py"],
        [("least-squares solution", "utide/_solve.py _solv1"), ("basis", "utide/harmonics.py ut_E, FUV")],
        ["A, g, Lsmaj, Lsmin, theta, mean, slope"],
        "seeded search; oracle is an independent reference implementation of basis and projection",
    ),
    P(
        "C23",
        "A request that makes no sense is refused, never answered",
        "An unknown keyword, option value, weight function, constituent name or epoch, arrays of unequal length or "
        "wrong dimension, no or no valid data, a missing latitude, incomplete or inconsistent inference options, and contradictory "
        "options (SNR order without intervals, Monte Carlo with inference, dates with a numeric epoch) raise an exception; no numbers "
        "are returned. A refused request leaves later requests unaffected.",
        ["inputs", "histories", "fault_sequences"],
        "Every corruption in transit of one field of a valid request, in histories of intact and corrupted ones.",
        "Tests contain four invalid calls; a typo that silently selects a default is not among them.",
        [S, R, "utide/_time_conversion.py", "utide/constituent_selection.py", "utide/robustfit.py"],
        [("option checking", "utide/_solve.py _process_opts; utide/_reconstruct.py")],
        ["exceptions of solve and reconstruct"],
        "seeded search over corruptions of requests",
    ),
    P(
        "C24",
        "A data file is read completely and correctly or not at all",
        "loadbunch returns exactly the tree stored in a .mat or .npz file: Matlab structures as nested Bunches, one-element "
        "arrays as scalars, other arrays squeezed with dtype and values kept, float arrays with non-finite elements masked exactly there "
        "(if masked); convert_unicode_arrays and showmatbunch show the same tree without altering it. "
        "If the file is damaged, missing or cannot be read it raises, leaves no file open, and a "
        "later load of the mended or replaced file gives the contents of that file.",
        ["inputs", "histories", "fault_sequences", "crash_points"],
        "Every tree of values, file format, replacement history, damage that a checksum of the archive notices, "
        "and failing, short or interrupted read.",
        "Tests load five intact files.",
        ["utide/utilities.py"],
        [("loading", "utide/utilities.py loadbunch, _structured_to_bunch, _crunch"), ("conversion", "utide/utilities.py convert_unicode_arrays")],
        ["return values and exceptions of loadbunch, showmatbunch, convert_unicode_arrays; open descriptors"],
        "seeded search over file trees, histories of replacement, medium and read-call faults",
    ),
    P(
        "C25",
        "Coloured intervals follow the noise around each constituent",
        "With white=False and linearised intervals, each constituent's interval reflects the density of the noise in "
        "its own frequency band and velocity component, not that of other bands or of the other component, and "
        "shrinks with the square root of the record length, also for gappy and irregular records.",
        ["inputs", "fault_sequences", "configurations"],
        "Every distribution of noise over bands and components, sampling step, record length and loss pattern.",
        "Tests compare intervals of one record with archived numbers.",
        ["utide/confidence.py", "utide/periodogram.py"],
        [("band-averaged spectrum of the residual", "utide/periodogram.py band_psd"), ("intervals", "utide/confidence.py _confidence")],
        ["*_ci of the result, median over repeated noise"],
        "seeded search over noise spectra and losses, statistical oracle from the simulated noise",
    ),
    P(
        "C26",
        "A robust fit is what it reports about itself",
        "The solution of a robust fit is the weighted least-squares fit under the very weights it reports (multiplying the rows), in "
        "the order of the received samples, however the iteration ends, also by maxit. The weights are between "
        "0 and 1 and, on convergence, follow from the residuals (adjusted by leverage and robust scale) by the named function and tuning constant; residual rms, leverage, "
        "singular values, iterations and the ordinary solution reported with it are right. The iteration is the documented one: it starts from the "
        "ordinary solution, stops when the mean squared weighted residual improves by a fraction less than tol (taking the last step back if it got "
        "worse) or after maxit.",
        ["inputs", "fault_sequences", "configurations", "crash_points"],
        "Every weight function, tuning constant, tolerance and iteration budget, real or complex models, with erring sensors.",
        "Tests compare one robust solution with archived numbers; weights and statistics are not looked at.",
        ["utide/robustfit.py", S],
        [("iteratively reweighted least squares", "utide/robustfit.py robustfit"), ("weights in the result", "utide/_solve.py _solv1")],
        ["coef.rf, coef.weights, return value of robustfit"],
        "seeded search over records, sensor faults and budgets; oracle is an independent weighted projection",
    ),
    P(
        "C27",
        "Monte Carlo intervals of a current follow the direction of the noise",
        "Under noise with a principal direction (and, in coloured runs, a second disturbance with another direction within one "
        "frequency band) the Monte Carlo intervals of Lsmaj, Lsmin, theta and g of every well-determined ellipse are those of the noise "
        "projected on the ellipse: uncertain along the noise, certain across it, with the right sign of the covariance of u and v "
        "(white: within a third; coloured: on the code's scale, within a wider factor).",
        ["inputs", "fault_sequences", "configurations", "seeds"],
        "Every noise direction and ellipse orientation, white and coloured, gapped and jittered records, any draw of the noise and of the random stream.",
        "Tests do not compare an interval with the noise it is the interval of; the covariance of u and v is not looked at.",
        ["utide/confidence.py", S],
        [("Monte Carlo covariance", "utide/confidence.py _confidence"), ("covariance of u and v", "utide/confidence.py nearestSPD, _confidence")],
        ["coef.Lsmaj_ci, Lsmin_ci, theta_ci, g_ci"],
        "seeded search over noise, orientation and gauge faults; oracle is linear error propagation of the noise known from the simulation",
    ),
    P(
        "C28",
        "Every call ends, in steps and memory bounded by the size of the request",
        "solve and reconstruct return or raise after a bounded number of steps, whatever the values of the record (constant, fitted exactly, huge, "
        "tiny, unsorted, repeated times), the tolerance and tuning of a robust fit (an iteration that never converges ends after maxit), and also when a "
        "numerical kernel they use fails every time from some moment on (a covariance matrix that never becomes positive definite). Memory grows with the "
        "number of samples times the number of parameters, not with the square of the number of samples.",
        ["inputs", "fault_sequences", "configurations", "crash_points"],
        "Every record, tolerance, budget and kernel that may fail, from any of its uses on.",
        "A test that does not end is no test; those there are run on well-behaved records with default budgets.",
        ["utide/robustfit.py", "utide/confidence.py", S],
        [("iteration limit", "utide/robustfit.py robustfit"), ("adjustment limit", "utide/confidence.py nearestSPD")],
        ["end of the call, statements executed, peak of allocated memory"],
        "seeded search over records, budgets and persistently failing kernels, with a step counter in the interpreter",
    ),
    P(
        "C29",
        "A call keeps nothing: a long-lived service does not grow",
        "When a call of solve or reconstruct is over (completed, refused, failed or cancelled) and its owner has dropped the arguments and the result, nothing in the "
        "process refers to them any more; a result of solve does not keep the caller's arrays alive. Memory, live objects, threads and open "
        "descriptors do not grow with the number of requests answered, whatever their mix.",
        ["inputs", "histories", "fault_sequences", "configurations"],
        "Every history of requests of any length with ever new data, names, latitudes and times, including aborted ones.",
        "Tests make a handful of calls and exit; retention has no effect on their results.",
        ["utide/_solve.py", "utide/_reconstruct.py", "utide/utilities.py", "utide/harmonics.py"],
        [("no state between calls", "utide/_solve.py solve, utide/_reconstruct.py reconstruct"), ("files closed", "utide/utilities.py loadbunch")],
        ["weak references to arguments and results; traced memory, live objects, threads, descriptors"],
        "seeded search over histories with failing and cancelled requests; growth judged over two stretches after a warm-up",
    ),
    P(
        "C30",
        "The analysis of a current is the analysis of its components",
        "Ellipses, mean and trend of a current analysed by ordinary least squares are those that the scalar analyses of its two components "
        "(each with the samples missing in the other left out) make up, also with inferred constituents; linearised intervals are those that the components' intervals "
        "imply; predictions, whole or of selected constituents, are those of the components. A current along one line has the constants, "
        "weights and predictions of the scalar that moves along it, in any direction and for robust fits too.",
        ["inputs", "fault_sequences", "configurations"],
        "Every record, direction, pattern of loss common to both or in one component, constituent set, inference and option set.",
        "Tests compare vector results with archived vector results and scalar ones with scalar ones, never the one with the other.",
        [S, R, "utide/confidence.py", "utide/harmonics.py"],
        [("ellipse parameters", "utide/_solve.py _solv1, utide/harmonics.py ut_cs2cep"), ("linearised intervals", "utide/confidence.py ut_linci"), ("prediction", "utide/_reconstruct.py _reconstr1")],
        ["coef fields of vector and scalar solves", "u, v, h of reconstruct"],
        "seeded search; oracle relates two analyses of one record, intervals by independent numeric propagation",
    ),
    P(
        "C31",
        "Every answer is complete and in canonical form",
        "Whatever solve answers, the answer has every part that the request implies and no other, one number per constituent in each row, "
        "counts that add up, g within 0..360, theta within 0..180, A and Lsmaj not negative, |Lsmin| not above Lsmaj, intervals and SNR not negative, PE within "
        "0..100 and adding up to 100, weights within 0..1 for exactly the valid samples, and the reference time within the record. Well-posed requests "
        "get finite numbers throughout. reconstruct answers with one number for each valid time, NaN for each missing one, and the request it is for.",
        ["inputs", "fault_sequences", "configurations"],
        "Every state of the gauge (dead, stuck, clipped, just switched on, out of order, any units), option set and prediction request.",
        "Tests run healthy records with a few option sets and look at a few fields.",
        ALLF,
        [("fields and ranges", "utide/_solve.py _solv1"), ("intervals", "utide/confidence.py _confidence, ut_linci"), ("prediction", "utide/_reconstruct.py reconstruct")],
        ["all fields of coef", "all fields of the result of reconstruct"],
        "seeded search over sensor states and options; refusals are allowed, half answers are not",
    ),
    P(
        "C32",
        "Requests that mean the same get the same answer",
        "An option left out of solve or reconstruct means its documented default; positional or keyword passing, the order of keywords, the sequence type and "
        "order of constituent names, Python or numpy numbers, flags and strings, the mapping type of option groups and the values of options that do "
        "not apply make no difference; naming the constituents that automatic selection finds gives the automatic answer, naming all constituents "
        "in a prediction the unrestricted one, and names absent from the coefficients change nothing.",
        ["inputs", "configurations", "fault_sequences"],
        "Every option set times every combination of notations, on any record.",
        "Tests use one notation for each option.",
        ["utide/_solve.py", "utide/_reconstruct.py", "utide/constituent_selection.py", "utide/robustfit.py", "utide/utilities.py"],
        [("options and defaults", "utide/_solve.py default_opts, _process_opts, _translate_opts, validate_*"), ("request for a prediction", "utide/_reconstruct.py reconstruct, _reconstruct"), ("names", "utide/constituent_selection.py ut_cnstitsel"), ("defaults of the robust fit", "utide/robustfit.py robustfit")],
        ["all fields of coef", "series returned by reconstruct"],
        "seeded search over rewritings of one request by several clients, compared with the request with everything spelled out",
    ),
]

NA = []


def main():
    claimed = {
        p["id"]
        for p in PROPS
        if os.path.exists(os.path.join(HERE, "dst", "props", p["id"].lower() + ".py"))
    }
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python check.py setup",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"/opt/venv/bin/python check.py check {p['id']}",
                "thorough_cmd": f"/opt/venv/bin/python check.py check {p['id']} --tier thorough",
                "technique": "deterministic simulation with fault injection (seeded search)",
                "level": "exploration",
                "level_note": p["_note"],
            }
            for p in PROPS
            if p["id"] in claimed
        ],
        "not_applicable": [
            {"property": p["id"], "reason": "check not built yet"}
            for p in PROPS
            if p["id"] not in claimed
        ]
        + NA,
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
