"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
S = "src/kalmankit/standard.py"; X = "src/kalmankit/extended.py"; U = "src/kalmankit/utils.py"
V = "src/kalmankit/_version.py"; VR = "versioneer.py"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

prop("C01", "Linear filtering returns the exact Gaussian posterior at every time step",
 "For every linear-Gaussian model with valid covariances (any state, observation and control dimensions, any number of steps, every system matrix and noise covariance free to change at every step), running the standard filter over a sequence of observations and controls returns, for each step k, the mean and covariance of the state at k given the initial estimate, the controls and observations up to and including k. Entry k of every per-step input is the one used for step k: the transition, control and process noise at k lead from the estimate at k-1 (the initial estimate for the first step) to the prior at k, and the observation matrix and noise at k describe observation k. Agreement is to floating-point accuracy, whatever the units (scale) of the states and observations, including singular or zero initial and process covariances, noise-free sensors and observations far from their prediction.",
 ["inputs","configurations"], "all linear-Gaussian models and observation/control sequences whose innovation covariances are numerically invertible",
 "The tests compare two tiny fixed models (one scalar with Q=0, one 2x2 of five steps) with stored or pykalman numbers; nothing covers m!=n, p!=n, time-varying Q and R, scaling, long runs or singular covariances.",
 [S], [("predict/update recursion over zipped per-step parameters", f"{S}:KalmanFilter.filter"), ("gain by linear solve", f"{S}:KalmanFilter.update")], ["KalmanFilter.filter"])

prop("C02", "Linear smoothing returns the exact posterior given the whole sequence",
 "For every linear-Gaussian model with valid covariances and invertible predicted covariances, the standard smoother returns for each step k the mean and covariance of the state at k given the initial estimate, all controls and the entire observation sequence, to floating-point accuracy. This holds for models that vary at every step, with or without control, for every dimension and every sequence length from one upwards. The last smoothed estimate is the last filtered one.",
 ["inputs","configurations"], "all linear-Gaussian models with invertible innovation and one-step-ahead covariances, all observation/control sequences of length at least 1",
 "Tests smooth one scalar constant model and one 2x2 five-step model with constant Q and R; an off-by-one in a time-varying Q, R or B, a wrong transpose visible only for n>2, or a length-1/long-sequence error passes them.",
 [S], [("backward RTS pass using transition k+1", f"{S}:KalmanFilter.smooth")], ["KalmanFilter.smooth"])

prop("C03", "Extended filter linearises at the right point and follows its recursion",
 "For every differentiable model, each step of the extended filter equals: prior mean f(previous estimate, control of this step), prior covariance J P J' + Q with J the transition Jacobian at (previous estimate, control of this step), then the optimal linear correction with innovation z - h(prior mean), the observation Jacobian at the prior mean, and this step's R. The first step starts from the initial mean and covariance. The user's functions are only evaluated at those points, for any state, observation and control dimension, number of steps, and scalar- or vector-valued h.",
 ["inputs","configurations"], "all nonlinear f, h with their Jacobians, time-varying Q and R, observation and control sequences",
 "All extended-filter tests use linear f and h with constant or control-encoded Jacobians, so evaluating a Jacobian at the wrong point, at the wrong time, or with the wrong control cannot be seen.",
 [X], [("predict evaluates f and jacobian_A at (xk, uk)", f"{X}:ExtendedKalmanFilter.predict"), ("update evaluates h and jacobian_H at the prior", f"{X}:ExtendedKalmanFilter.update"), ("loop", f"{X}:ExtendedKalmanFilter.filter")], ["ExtendedKalmanFilter.filter", "calls into f, h, jacobian_A, jacobian_H"])

prop("C04", "Extended smoother follows the nonlinear RTS recursion over its filter pass",
 "For every differentiable model with invertible predicted covariances, the extended smoother returns at the last step the filtered estimate, and at each earlier step k the filtered estimate corrected by G (smoothed k+1 - f(filtered k, control k+1)) with covariance P + G (smoothed covariance k+1 - predicted covariance k+1) G', where the transition Jacobian is evaluated at the filtered estimate k with the control of step k+1 and the process noise is that of step k+1. The filtered estimates it refines are exactly those the extended filter returns for the same input. It holds for every dimension and every sequence length from one upwards, with or without controls.",
 ["inputs","configurations"], "all nonlinear models, time-varying Q/R, control sequences, lengths >= 1",
 "The single smoother test uses a linear model with constant noise after the first step; nonlinear linearisation points and time-varying noise are never exercised.",
 [X], [("backward extended RTS pass", f"{X}:ExtendedKalmanFilter.smooth")], ["ExtendedKalmanFilter.smooth"])

prop("C05", "Extended and standard filters agree on every linear model",
 "When f and h are linear (or affine through the control), the extended filter and the standard filter built from the same model give the same filtered estimates, smoothed estimates, covariances and gains for the same observations and controls, up to rounding. This holds for every dimension, for time-varying transitions, controls and noises, and when no control is given.",
 ["inputs","configurations"], "all linear models expressible to both filters and all observation/control sequences",
 "One scalar constant model is compared with stored numbers that the standard filter also produces; no multidimensional or smoothing comparison between the two classes exists.",
 [S, X], [("two independent implementations of the same recursion", f"{S} and {X}")], ["KalmanFilter.filter/smooth", "ExtendedKalmanFilter.filter/smooth", "kalman_gains"])

prop("C06", "Single predict/update steps obey the formulas and compose to filter",
 "For both filters, one direct call of predict returns the documented prior mean and covariance and one direct call of update returns the documented corrected mean and covariance (optimal gain (H P H' + R)^-1, innovation z - Hx or z - h(x)) for the values passed to that call, independent of the matrices and state the object was constructed with and of any earlier call. Alternating predict and update by hand over a sequence, starting from the initial estimate, gives exactly the estimates that filter returns for that sequence. Arguments may be passed by position or by the documented names.",
 ["inputs","histories"], "all valid single-step arguments, both classes, arbitrary earlier calls on the same object, all online sequences",
 "Tests call predict once per class on one 2x2 input and never call update directly, so online use and its equality with batch filtering are unchecked.",
 [S, X], [("stateless predict/update methods taking per-step values", f"{S}:predict,update; {X}:predict,update")], ["predict", "update", "filter"])

prop("C07", "Missing control means no control, for every way of leaving it out",
 "In the standard filter, leaving out the control - no control matrix, no control sequence, None passed to a single prediction step, or an all-NaN control row or control matrix at some steps - gives the results of the same model with zero control at exactly those steps, in prediction, filtering and smoothing, and for inputs of any real numeric dtype including integers. In the extended filter, leaving out the control sequence hands the user's functions a float array of NaN with the shape of that step's observation for each step, and otherwise each step's own control row is handed over unchanged. A control that is present is always applied, at its own step and no other, even when it is partly zero.",
 ["inputs","configurations"], "all combinations of present/absent/per-step-missing control matrix and control sequence, both classes, filter/smooth/predict, all real dtypes",
 "Tests run with B=None and U=None together or both present, float arrays only; integer data, one-sided absence, per-step NaN and None in predict are never run.",
 [S, X, U], [("all-NaN marker array", f"{U}:check_none_and_broadcast"), ("skip control when marker is all NaN", f"{S}:KalmanFilter.predict")], ["KalmanFilter.predict/filter/smooth", "control argument received by f and jacobian_A"])

prop("C08", "Returned covariances are valid and information never increases uncertainty",
 "For both filters and every model with valid covariances, each filtered and smoothed covariance is symmetric and positive semidefinite up to rounding. A measurement never increases uncertainty: each filtered covariance is no larger (in the positive-semidefinite order) than the predicted one it came from, and for the standard filter each smoothed covariance is no larger than the filtered one at the same step. Observing with larger measurement noise, or starting the standard filter from a larger initial covariance, never yields a smaller filtered covariance at any step.",
 ["inputs","configurations"], "all models with valid covariances, any dimension and length, both classes, filter and smooth",
 "Tests compare a few covariance numbers of 1x1 and 2x2 models; validity and monotonicity as such are never asserted.",
 [S, X], [("covariance update (I-KH)P and RTS covariance update", f"{S}:update,smooth; {X}:update,smooth")], ["errors returned by filter and smooth"])

prop("C09", "Reported covariance is the true error covariance of an optimal unbiased estimate",
 "For every linear-Gaussian model, the standard filter's estimate is unbiased, its reported covariance equals the actual covariance of its estimation error under that model, and its error is uncorrelated with every observation up to that step (so no linear estimator does better). The same holds for the smoother with respect to every observation of the whole sequence. Successive innovations of the filter are mutually uncorrelated.",
 ["inputs","configurations"], "all linear-Gaussian models (the estimator's weights are measured by probing it, its error statistics then follow exactly from the model)",
 "No test relates the reported covariances to actual estimation error; they compare both to another implementation on one model.",
 [S], [("optimal gain and covariance recursions", f"{S}:KalmanFilter.update,filter,smooth")], ["KalmanFilter.filter", "KalmanFilter.smooth"])

prop("C10", "Filtering is causal, index-aligned and resumable",
 "For both filters, the estimate at step k depends only on the initial estimate and on the inputs (model entries, noises, observations, controls) of steps up to k: changing or removing anything later, or supplying model entries beyond the last observation, leaves it unchanged, while the last smoothed estimate of any prefix is the filtered one at that step. Stopping after any step and starting a new filter from the returned mean and covariance with the remaining inputs reproduces the remaining results. Each step's inputs do take effect at that step.",
 ["inputs","histories"], "all models, all split points, all perturbations of later inputs, both classes",
 "Tests only run whole sequences once; no prefix, resume or perturbation run exists.",
 [S, X], [("sequential loop carrying only mean and covariance", f"{S}:filter; {X}:filter"), ("zip over per-step inputs", f"{S}:filter")], ["filter", "smooth"])

prop("C11", "Linear estimates are affine in the data; covariances and gains ignore the data",
 "For the standard filter and smoother, covariances and gains depend only on the model matrices and the initial covariance: they are the same for every observation sequence, control sequence and initial mean. The estimated states are jointly affine in the initial mean, controls and observations: a weighted combination (weights summing to one) of inputs yields the same combination of outputs, however large the observations are.",
 ["inputs"], "all linear models and pairs of data sets, including extreme observations",
 "Every test runs one data set per model, so data-dependent shortcuts (gating, clipping, early exit) are invisible.",
 [S], [("gain and covariance recursions take no data", f"{S}:predict,update,smooth")], ["filter", "smooth", "kalman_gains"])

prop("C12", "Results do not depend on the choice of coordinates or units",
 "Re-expressing a model in other state coordinates (any invertible linear change of basis, including reordering components and changing units by large factors), other observation coordinates, or other control coordinates re-expresses the filtered and smoothed means and covariances and the gains accordingly, for the standard filter. For the extended filter the same holds for linear changes of state and observation coordinates of nonlinear models. No component, ordering or scale is treated specially.",
 ["inputs","configurations"], "all models and all invertible linear coordinate changes of state, observation and control",
 "Tests run each model in one coordinate system of order one; hard-coded thresholds, jitter or index mix-ups that respect that system pass.",
 [S, X], [("coordinate-free matrix formulas", f"{S}; {X}")], ["filter", "smooth", "kalman_gains"])

prop("C13", "The gain list records exactly every measurement update, in order",
 "For both filters, after any sequence of predict, update, filter and smooth calls on an object, its gain list holds exactly one gain per measurement update performed since construction, in the order they were performed: one for each direct update, one per observation for each filter run and for the filtering pass of each smooth run, none for predictions. Each recorded gain is the optimal gain of that update (it reproduces that step's correction of mean and covariance), and entries already recorded never change. Every entry is an array of its own: no two share memory, in one object or in different ones.",
 ["histories","inputs"], "all call histories on one or several objects, all models, both classes",
 "No test reads the gain list at all.",
 [S, X], [("append on every update", f"{S}:KalmanFilter.update; {X}:ExtendedKalmanFilter.update")], ["kalman_gains", "update", "filter", "smooth"], [("kalman_gains","computed gains", f"{S}, {X}: __init__, update")])

prop("C14", "Calls are pure: inputs untouched, results repeatable and independent",
 "No call modifies the arrays given to the constructor or to the call (read-only arrays work), the arrays a user function returned and still holds, nor process-wide numeric state. Repeating a call with the same arguments gives the same result whatever calls were made before it on this or any other object, including objects sharing the same arrays and calls made from inside user functions. Results already returned never change later, and overwriting them does not influence later calls.",
 ["histories","inputs"], "all interleavings of predict/update/filter/smooth calls over several objects of both classes sharing arrays, with the caller overwriting returned arrays",
 "Each test builds one object and calls it once; no history, sharing, re-entrancy or aliasing is exercised.",
 [S, X, U], [("fresh arrays per call; only the gain list is mutable", f"{S}; {X}")], ["all public methods", "constructor arrays", "returned arrays"])

prop("C15", "Concurrent use from several threads gives the sequential results",
 "Threads that filter, smooth, predict or update at the same time, each with its own filter object or several with the same one, sharing model arrays or user functions, each get the results they would get alone, under every thread schedule. On a shared object the gain list ends up holding exactly the gains of all the updates performed, none lost or duplicated.",
 ["schedules","histories"], "all schedules of concurrent calls on shared or separate objects of both classes",
 "All tests are single-threaded.",
 [S, X], [("loop state in local variables; list append", f"{S}:filter,smooth; {X}:filter,smooth")], ["all public methods from concurrent threads", "kalman_gains"])

prop("C16", "Failures surface unchanged and leave the filter usable",
 "If the innovation covariance of a step is exactly singular, the call raises numpy's LinAlgError instead of returning numbers; an exception raised by a user function (also one that only the caller's numpy error or warning settings turn into an exception), or an interrupt (such as KeyboardInterrupt) delivered at any point of a call, propagates unchanged to the caller. After such a failure at any step of any call, inputs are unmodified and every later call on the same object gives the result a fresh object would give, with its gains appended after the ones already there; any gains a failed call itself leaves behind are those of updates it made before failing.",
 ["fault_sequences","histories"], "a fault at every step and every user-function call position, and an interrupt between any two lines, of filter, smooth, predict and update, followed by any later calls",
 "No test makes any call fail.",
 [S, X], [("linear solve raises on singular innovation covariance", f"{S}:update; {X}:update"), ("no object state besides the gain list", f"{S}; {X}")], ["raised exceptions", "results of later calls"])

prop("C17", "Results do not depend on how the numbers are represented in memory",
 "Both filters accept every documented form of the same numbers with identical results: scalar per-step observations or 1-vectors, scalar per-step noises or their 1-vector and 1x1 forms, one-state means as vector or 1x1 column, integer, boolean or single-precision arrays holding the same values (to single precision only when the initial covariance is in single precision too), Fortran-ordered, strided, reversed, byte-swapped, broadcast or read-only arrays, and the state size given explicitly or inferred. For T observations and n states, filter and smooth always return floating-point arrays of shape (T, n) and (T, n, n).",
 ["inputs","configurations"], "all numerically equal representations of each model and data set, both classes, filter and smooth",
 "Tests use C-contiguous float64 arrays in two fixed shapes.",
 [S, X, U], [("float64 output allocation", f"{S}:filter,smooth; {X}:filter,smooth"), ("atleast_1d innovation", f"{S}:update; {X}:update")], ["filter", "smooth"])

prop("C18", "Fusing independent measurements jointly, one by one or in any order is the same",
 "For both filters with linear observations, correcting once with several measurements whose noises are independent gives the same estimate and covariance as correcting with them one after another in any order. A measurement that does not depend on the state (zero observation matrix) leaves mean and covariance unchanged, and repeating a measurement q times equals one with its noise covariance divided by q. A noise-free measurement is reproduced exactly by the corrected estimate and leaves no uncertainty in the measured combination.",
 ["inputs","histories"], "all states, measurement sets, partitions and orders, both classes",
 "update is never called directly by a test, and no test has more than one way to fuse the same data.",
 [S, X], [("update step", f"{S}:KalmanFilter.update; {X}:ExtendedKalmanFilter.update")], ["update", "filter"])

prop("C19", "Utility functions classify and mark missing arrays exactly",
 "The all-NaN test is true exactly when every element of a real numeric array of any shape and dtype is NaN, and never for an array holding any number, zero or infinity. The none-check returns a given array itself, unchanged, whatever it contains, and for a missing one returns a new floating-point array of the reference's shape holding only NaN, whatever the reference's dtype, without touching the reference.",
 ["inputs"], "all real arrays of any shape, dtype and memory layout",
 "Tests check four small float arrays and one 2x2 float reference (with an assertion that cannot see a wrong shape).",
 [U], [("full_like with nan", f"{U}:check_none_and_broadcast"), ("isnan().all()", f"{U}:is_nan_all")], ["utils.check_none_and_broadcast", "utils.is_nan_all"])

prop("C20", "Reported package version identifies the source state it comes from",
 "In a git checkout the reported version is the nearest reachable release tag ('v' followed by a digit) without its prefix, followed when commits were made since or tracked files are modified by '+' (or '.' if the tag already has one), the number of commits since, 'g' and the abbreviated commit, and '.dirty' iff tracked files are modified; without any release tag it is '0+untagged.COUNT.gHASH[.dirty]'; the full commit id, the date it was committed (ISO 8601 with its own time zone) and dirtiness are reported alongside. In an archive exported by git the tag or commit recorded at export decides; otherwise the project root directory or one of its two nearest ancestors named 'kalmankit-VERSION' does; failing all, the version is '0+unknown', never an exception. The runtime and the build-time version code agree in every such state.",
 ["histories","configurations"], "all git histories (commits, branches, annotated and lightweight tags, detached heads, dirty trees), archives and plain directories",
 "No test touches the version code; the working copy itself is only ever one state.",
 [V, VR], [("git describe pieces and pep440 rendering", f"{V}:git_pieces_from_vcs,render"), ("archive keywords", f"{V}:git_versions_from_keywords"), ("parent directory", f"{V}:versions_from_parentdir"), ("same at build time", f"{VR}:get_versions")], ["kalmankit.__version__", "_version.get_versions()", "versioneer.get_versions()"])

prop("C21", "Built distributions carry the version of the tree they were built from",
 "Building the package (source distribution or library build) from any git state freezes exactly the version information computed for that state: the unpacked result reports that same version, commit and dirtiness when imported anywhere, with no git available and regardless of the repository or directory it is placed in. It contains the package's other modules unchanged. Building leaves the checkout's own tracked files unchanged.",
 ["histories","configurations"], "all git states at build time and all install locations",
 "No test builds the package.",
 [VR, V, "setup.py"], [("version file rewritten into build and sdist trees", f"{VR}:get_cmdclass,write_to_version_file")], ["setup.py build/sdist output", "kalmankit.__version__ of the built tree"])

prop("C22", "Time-invariant filters reach the Riccati steady state and forget their start",
 "For every time-invariant detectable and stabilisable model the standard filter's covariances and gains converge, at the rate of its closed-loop dynamics, to the unique stabilising solution of the Riccati equation from every initial covariance, and estimates started from different initial means and covariances become equal. Started from zero covariance the filtered covariances never decrease from step to step; once converged they stay there however long the run, and an abrupt change of the model afterwards is followed to the new steady state.",
 ["inputs","histories"], "all detectable and stabilisable time-invariant models, all initial estimates, long runs, regime changes (bounded form: within the number of steps the closed-loop rate implies)",
 "Tests run 10 steps at most and never look at convergence.",
 [S], [("covariance recursion", f"{S}:KalmanFilter.filter")], ["KalmanFilter.filter over long runs", "kalman_gains"])

prop("C23", "Copies and pickles of a filter behave as the original and live apart from it",
 "A filter of either class can be duplicated at any point of its life with copy.copy, copy.deepcopy or pickle (any protocol, any number of times, alone or in a container, also into another process; for the extended filter provided the user's functions can be pickled). The duplicate has the same type (also of an instance of a user's subclass, with its further attributes), state size and recorded gains, and every later call on it gives the result the original would have given, its gains appended after those carried over. After a deep copy or a pickle round trip the two share nothing: calls on one, or overwriting the arrays the original was built from, neither change the other's results nor its gains.",
 ["histories","configurations"], "both classes, all models and call histories before and after duplication, all ways of duplicating",
 "No test copies or pickles a filter.",
 [S, X], [("plain attributes only; no custom copying", f"{S}:KalmanFilter.__init__; {X}:ExtendedKalmanFilter.__init__")], ["copy.copy/deepcopy, pickle", "filter, smooth, predict, update of the duplicate", "kalman_gains"])

prop("C24", "Importing and using the package leaves the rest of the world alone",
 "Importing kalmankit from any place (checkout, exported archive, plain directory, built copy, read-only or foreign-owned tree, deleted working directory; git working, absent or failing) and using its filters writes no file besides Python's bytecode caches and git's own index refresh, opens no network connection, prints nothing to standard output, nor to standard error where git works or is absent, starts no process other than local read-only git queries while the version is determined (none at all when only filtering, and none at all from a built distribution), loads no third-party package besides numpy, and leaves process-wide state as it was: working directory, environment, sys.path, warning filters, numpy error, print and random state, other random generators, signal handlers, logging, locale, decimal context, garbage collector settings, threads, open files, child processes, functions of other modules.",
 ["configurations","histories","faults"], "all source locations, environments, interpreter options and git failures at import; all models and call sequences afterwards",
 "Tests import the package once, in one place, and look at return values only.",
 [S, X, U, V, "src/kalmankit/__init__.py"], [("version looked up at import", "src/kalmankit/__init__.py; " + f"{V}:get_versions,run_command"), ("no state outside the objects", f"{S}:KalmanFilter; {X}:ExtendedKalmanFilter")], ["import kalmankit", "processes, files, output and process-wide state around it"])

prop("C25", "Nothing but the model and the recorded gains is kept in memory",
 "A filter of either class keeps alive only what it was constructed from and the gains it records. The observations, controls, callback values and results of a call (one that completes, fails or is interrupted, in any thread) can be freed as soon as the caller drops them; a gain keeps no larger buffer alive; however many calls are made, with whatever lengths and values, memory in use grows by the recorded gains only, not at all by predict or by failing calls' own data; a dropped filter lets its model, callbacks and gains go, so that any number of filters can be made and dropped in constant memory; and the working memory of one call stays proportional to its results.",
 ["histories","inputs","faults"], "all call histories on both classes, fresh data each time, endless online loops, generations of filters",
 "Tests make one call on each object and never look at memory.",
 [S, X, U], [("gains are the only record kept", f"{S}:KalmanFilter.update; {X}:ExtendedKalmanFilter.update"), ("no module-level state", f"{U}:check_none_and_broadcast,is_nan_all")], ["weak references to arguments, results, callbacks and filters", "traced memory over many calls"])

prop("C26", "A filter works from the model it currently holds",
 "The public attributes of a filter hold the model it works from (A, B, H, Q, R, xk, Pk of the standard filter; Q, R, xk, Pk, f, h, jacobian_A, jacobian_H of the extended one). When the caller assigns an attribute, overwrites or rescales the array it holds (as a whole or at some steps), swaps a user function (with its Jacobian) or changes the parameters it depends on between calls - also to another number of steps, of measurements or of controls, or from no control to control and back -, every later filter and smooth call gives what a filter newly constructed from the changed model gives. So one filter can be moved along an endless sequence chunk by chunk by setting xk and Pk (and the chunk's matrices, in new arrays or in reused buffers). Emptying, cutting or replacing the gain list makes later gains follow what the caller left there. Calls themselves never change these attributes.",
 ["histories","inputs"], "all sequences of edits of any attributes of both classes interleaved with calls",
 "Tests construct a filter, call it once and never touch an attribute.",
 [S, X], [("attributes read anew by every call", f"{S}:KalmanFilter.filter,smooth; {X}:ExtendedKalmanFilter.filter,smooth,predict,update"), ("missing control decided per call", f"{S}:KalmanFilter.predict")], ["public attributes", "filter/smooth results after edits", "kalman_gains"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
