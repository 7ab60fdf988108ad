"""The properties: source of properties.jsonl and MANIFEST.json (make_meta.py)."""

S = "src/modopt/"
INP, HIS, CFG, SCH, FLT = ("inputs", "histories", "configurations", "schedules",
                           "fault_sequences")


def P(id, title, statement, over, text, why, files, mechanism, observe, technique,
      note, level="exploration"):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                files=[S + f for f in files],
                mechanism=[{"name": n, "where": S + w} for n, w in mechanism],
                observe=observe, technique=technique, note=note, level=level)


MON = "runtime monitoring: "
PROPS = [
    P("C01", "Convex proximity operators return the proximal point",
      "For every input, weights and scaling factor, each proximity operator of a convex "
      "regulariser (soft sparse threshold, ridge, elastic net, group lasso, ordered "
      "weighted L1, squared k-support norm, nuclear norm, positivity, composition with "
      "an orthogonal linear operator, combination of several operators) returns the "
      "unique minimiser of half the squared distance to the input plus the scaling "
      "factor times the regulariser. The result has the shape of the input and keeps "
      "real data real and complex data complex.",
      [INP, CFG], "all real/complex arrays of any shape and memory layout, all weights, "
      "k, thresholds and extra factors", "Tests compare one 9-element array per "
      "operator; minimality is a statement about all competitors and all inputs (ties, "
      "zeros, k at its limits, breakpoints).",
      ["opt/proximity.py", "signal/noise.py", "signal/svd.py"],
      [("closed-form operators", "opt/proximity.py"),
       ("theta search of the k-support norm", "opt/proximity.py")],
      ["return value of op(data, extra_factor)"],
      "optimality monitors (reference proximal point, subgradient and competitor tests)",
      "held on the generated operators/inputs; trusts numpy/scipy linear algebra"),
    P("C02", "Thresholding keeps or shrinks exactly the entries it should",
      "Hard thresholding returns unchanged every value whose modulus is at least its "
      "threshold and zero for the others; soft thresholding reduces every modulus by "
      "its threshold, down to zero, keeping sign or phase. The same rules apply to the "
      "singular values in the singular-value thresholding functions (with the "
      "requested number of principal components and with per-component thresholds), "
      "and the left/right singular vectors are kept.",
      [INP, CFG], "all data (values exactly at the threshold included), scalar and "
      "array thresholds, hard/soft, matrices of any shape",
      "Tests use one array and one threshold; values at the threshold, complex data, "
      "array thresholds and rectangular matrices are not sampled.",
      ["signal/noise.py", "signal/svd.py"],
      [("thresh", "signal/noise.py"), ("svd_thresh, svd_thresh_coef, find_n_pc",
                                        "signal/svd.py")],
      ["return values of the thresholding functions"],
      "reference-model monitors on thresholding results and spectra",
      "held on the generated cases; numpy's SVD is the reference"),
    P("C03", "Partial-SVD thresholding equals full thresholding, whatever the history",
      "Low-rank thresholding through a partial singular value decomposition returns "
      "the same matrix as thresholding the full spectrum, for every rank estimate, "
      "also when the estimate is too small, too large or left over from earlier calls "
      "on other data. The rank it reports is the number of singular values above the "
      "threshold.",
      [HIS, INP], "all call histories on one operator, all initial ranks, rank hints, "
      "matrix sizes, ranks and thresholds", "The estimate is state carried between "
      "calls; tests make one call.",
      ["signal/svd.py", "opt/proximity.py"],
      [("doubling of the number of values until the smallest is below the threshold",
        "signal/svd.py"), ("rank kept between calls", "opt/proximity.py")],
      ["op(), the returned rank"],
      "differential monitor over call histories against the full SVD",
      "held on the histories explored; spectra within 1e-6 of the threshold excluded"),
    P("C04", "Costs are the documented functionals and add up",
      "The cost reported by every data-fidelity, proximity and linear operator is the "
      "value of its documented functional at the data given (half the squared residual, "
      "weighted L1, squared L2, nuclear norm, group norm, zero for constraints...), a "
      "real scalar, and evaluating it changes nothing. The cost of a combination, of a "
      "cost object and of the ADMM cost is the sum of the costs of its parts, each "
      "evaluated on its own data.",
      [INP, CFG], "all operators, weights, linear operators, inputs, sets of operators",
      "Tests compare a single number per operator; sums over random sets of operators "
      "and complex data are not sampled.",
      ["opt/proximity.py", "opt/gradient.py", "opt/cost.py", "opt/algorithms/admm.py"],
      [("cost methods", "opt/proximity.py"), ("sum over operators", "opt/cost.py")],
      ["cost(x), costObj.cost after get_cost"],
      "reference-functional monitors; two pinned defects are known findings",
      "held except the listed findings (OWL ordering, k-support norm value)"),
    P("C05", "The gradient is H^T(Hx - y) of the current x, y and H",
      "After every evaluation the published gradient equals the transpose operator "
      "applied to (operator(x) minus the observed data), for the operators and "
      "observed data in force at that moment: nothing stale survives a change of data, "
      "operator or evaluation point, and it is the derivative of the reported cost. "
      "Observed data are protected against writing unless asked otherwise, and are "
      "converted and checked to the requested type.",
      [HIS, INP], "all histories of evaluations and of changes of data and operators, "
      "all shapes, real and complex", "Tests evaluate one gradient once; the histories "
      "in which data or operators change are not exercised.",
      ["opt/gradient.py"],
      [("get_grad recomputes from the properties", "opt/gradient.py"),
       ("observed data setter", "opt/gradient.py")],
      ["grad, cost, obs_data"],
      "history monitor with reference formula and finite differences",
      "held on the histories explored"),
    P("C06", "Every linear operator is linear and its adjoint is the adjoint",
      "For all inputs, <A x, y> equals <x, A* y> for the matrix, filter-bank and "
      "identity operators, operators are additive and homogeneous, and a linear "
      "combination returns each operator's result and adjoins to the weighted sum (or "
      "the mean, without weights) of the adjoints. The helper that tests an operator "
      "against its transpose accepts exactly the pairs whose two inner products agree.",
      [INP, CFG], "all matrices, filter banks, weights, shapes, real and complex data",
      "Tests apply each operator to one array; adjointness is a statement on all pairs.",
      ["opt/linear/base.py", "opt/linear/wavelet.py", "signal/wavelet.py",
       "signal/validation.py", "math/convolve.py"],
      [("adj_op", "opt/linear/base.py"),
       ("rotated filters in the adjoint", "signal/wavelet.py")],
      ["op, adj_op"],
      "dot-product, superposition and definition monitors",
      "held on the generated operators; odd-sized filters (documented use)"),
    P("C07", "CPU wavelet transform: exact coefficients, exact reconstruction",
      "For every wavelet, boundary mode, level, data shape (odd sizes and 1 to 3 "
      "dimensions) and batch size, the transform returns the coefficients of the "
      "direct decomposition of each batch element, in a stable order that matches the "
      "published shapes, and the adjoint gives back data of the given shape equal to "
      "the input. Results do not depend on the number of jobs, on thread timing or on "
      "earlier calls, and with orthogonal wavelets and periodic extension the "
      "transform preserves inner products.",
      [INP, CFG, SCH], "all wavelets/modes/levels/shapes/batches/jobs and thread "
      "schedules of the batch", "Tests use one wavelet on one even square image, "
      "without batch.",
      ["opt/linear/wavelet.py"],
      [("coefficient flattening and shapes", "opt/linear/wavelet.py"),
       ("joblib threads over the batch", "opt/linear/wavelet.py")],
      ["op, adj_op, coeffs_shape"],
      "differential monitor against PyWavelets, with delays injected in batch threads",
      "held on the combinations explored; PyWavelets is trusted"),
    P("C08", "Solvers reach the minimiser of the problem they are given",
      "With step sizes in the admissible range, forward-backward (with and without "
      "acceleration and restarts), generalised forward-backward, POGM, Condat and "
      "gradient descent converge from any start to the minimiser of the sum of data "
      "fidelity and regularisers (for the primal-dual solver: to a saddle point), for "
      "real and complex data. Without acceleration the objective never increases from "
      "one forward-backward iterate to the next, and stopping on the default cost "
      "test leaves a point whose objective is close to the minimum.",
      [INP, CFG], "all strongly convex problems, starting points, regularisers, "
      "admissible steps, solver options", "Tests run fixed 2-iteration problems; "
      "convergence depends on the whole trajectory.",
      ["opt/algorithms/forward_backward.py", "opt/algorithms/primal_dual.py",
       "opt/algorithms/gradient_descent.py"],
      [("update steps", "opt/algorithms/")],
      ["x_final, y_final, metrics"],
      "bounded-progress monitor: optimality conditions after a fixed iteration budget",
      "'eventually' restated as a bound on iterations for condition numbers below 20"),
    P("C09", "Iterates follow the published recursions",
      "At every iteration the variables of forward-backward (plain, FISTA, "
      "Chambolle-Dossal, FISTA-mod, adaptive and greedy restarts), generalised "
      "forward-backward, POGM and Condat are those of the cited algorithms, with the "
      "parameters and parameter updates given by the user and the scaling factor "
      "handed to each proximity operator. This holds at every iteration, not only in "
      "the limit.",
      [HIS, CFG], "all iterations of all runs, problems, parameters, restarts, updates",
      "Tests look at the final point of short runs where wrong momentum, restart or "
      "relaxation still converges.",
      ["opt/algorithms/forward_backward.py", "opt/algorithms/primal_dual.py"],
      [("_update methods, FISTA class", "opt/algorithms/forward_backward.py"),
       ("Condat update", "opt/algorithms/primal_dual.py")],
      ["variables shown to metrics at every iteration, x_final"],
      "online trace checker against reference recursions",
      "held on the traces explored; a trace stops being compared at a restart test "
      "too close to call"),
    P("C10", "Gradient-descent schemes apply their documented update rules",
      "Every iteration of the plain, vanilla, AdaGrad, RMSprop, momentum, ADAM and SAGA "
      "schemes moves the estimate by step over (root of the speed plus epsilon) times "
      "the direction defined by the scheme, with the step given by the user's "
      "schedule, also when the data change from one iteration to the next. The "
      "proximity operator is applied, scaled by the step, exactly at iterations whose "
      "index is a multiple of the epoch size.",
      [HIS, CFG], "all iterations, rates, epoch sizes, step schedules, data streams",
      "Tests check convergence of a toy problem only.",
      ["opt/algorithms/gradient_descent.py"],
      [("_update_grad_dir, _update_grad_speed, _update_reg, reset",
        "opt/algorithms/gradient_descent.py")],
      ["x_new, dir_grad, speed_grad shown to metrics"],
      "online trace checker against reference update rules",
      "held on the traces explored"),
    P("C11", "ADMM and fast ADMM follow their protocol",
      "At every iteration each of the two optimisers is called exactly once, first "
      "then second, from the current estimate of its variable and with the observation "
      "of the algorithm for the operators and constraint given; the results become the "
      "new estimates, the final values and the values shown to metrics, also when an "
      "optimiser reuses the array it returned before. With cost "
      "functions, the run stops at the first iteration at which the test on the sum of "
      "both costs and the weighted squared constraint residual says so.",
      [HIS, CFG], "all operators, constraints, optimisers, couplings, run lengths",
      "Tests run one identity problem with trivially correct optimisers.",
      ["opt/algorithms/admm.py"],
      [("_update of ADMM and FastADMM", "opt/algorithms/admm.py"),
       ("cost object", "opt/algorithms/admm.py")],
      ["calls of the optimisers, u_final, v_final, metrics"],
      "recording optimisers + online protocol checker; two known findings",
      "held except the two listed findings (multiplier, acceleration)"),
    P("C12", "Iteration control: how many, in which order, resumable",
      "A solver asked for n iterations performs exactly n, or stops at the first "
      "iteration at which its cost declares convergence; every iteration evaluates "
      "gradient, proximity operators and cost the number of times its algorithm says, "
      "and calls each parameter update once. Running a then b iterations gives the "
      "same iterates as running a + b (for the gradient-descent schemes, whose epochs "
      "begin with each run, when a is a number of epochs), results already handed out stay unchanged, and "
      "progress bar, verbosity and automatic start change nothing but the output.",
      [HIS, CFG], "all solvers, plans of iterate() calls, stopping points, options",
      "Tests run each solver once with a fixed count.",
      ["opt/algorithms/base.py", "opt/algorithms/forward_backward.py",
       "opt/algorithms/primal_dual.py", "opt/algorithms/gradient_descent.py",
       "opt/algorithms/admm.py"],
      [("_iterations, _run_alg", "opt/algorithms/base.py")],
      ["calls of operators, cost and updates; idx, converge, x_final; output"],
      "event-count monitor over recorded callbacks, split-run comparison",
      "held on the histories explored"),
    P("C13", "Metrics are recorded when, where and as configured",
      "Every metric is evaluated at the configured period of iterations and at the "
      "last one, on the solver's current variables under the configured names plus the "
      "constant arguments, and its history lists the iteration indices, the dates and "
      "the values returned. A metric with early stopping ends the run exactly when the relative "
      "change of the means over the two halves of its window falls below the "
      "threshold, one without never does, no metric changes the iterates, and histories "
      "already handed out stay as they were.",
      [HIS, CFG], "all solvers, periods, metric values, windows, iterate() histories",
      "Tests only run solvers with one metric and look at nothing it recorded.",
      ["base/observable.py", "opt/algorithms/base.py"],
      [("MetricObserver", "base/observable.py"),
       ("_compute_metrics and period test", "opt/algorithms/base.py")],
      ["calls of metrics, solver.metrics, stopping iteration"],
      "online monitor of metric calls against a contract model",
      "held on the histories explored"),
    P("C14", "The cost test declares convergence exactly when documented",
      "The cost is evaluated once per cost interval, at every iteration that is a "
      "multiple of it; each time a full window of costs has been collected, "
      "convergence is declared exactly when the means of its older and recent halves "
      "differ by at most the tolerance, relatively to the recent mean, and a new "
      "window begins. The published cost is the latest evaluated one, and without an "
      "interval nothing is evaluated or declared.",
      [HIS, INP], "all cost sequences (constant, decreasing, oscillating, negative, "
      "NaN, huge), intervals, windows, tolerances", "Tests feed two values; the window "
      "logic is about whole sequences.",
      ["opt/cost.py"],
      [("check_cost, get_cost", "opt/cost.py")],
      ["get_cost results, cost, calls of the operators' cost, printed text"],
      "online checker of the answer sequence against a model",
      "held on the sequences explored; borderline comparisons (1e-9) not judged"),
    P("C15", "Observers are notified once each, in order, never re-entrantly",
      "Adding, removing and notifying in any order: each observer registered for a "
      "signal is called exactly once per notification, in order of registration, with "
      "the notifying object, the signal and the values given; others are not called. "
      "Registering twice counts once, removing stops the calls, a notification from "
      "within (or during) another is refused and reported, observers that add or "
      "remove others meanwhile do not make it skip anyone, and an observer that "
      "raises does not block later notifications.",
      [HIS, SCH], "all histories of add/remove/notify with raising and re-entrant "
      "observers, on several objects and threads", "Tests notify a couple of times and "
      "never with failing or re-entrant observers.",
      ["base/observable.py"],
      [("lock and observer lists", "base/observable.py")],
      ["calls of observers, results of notify_observers"],
      "history monitor against an executable model",
      "held on the histories explored"),
    P("C16", "Callers' data are never modified; results belong to the caller",
      "No public function, operator or solver modifies an array, list or dictionary "
      "handed to it (apart from the documented reweighting of weights and protection "
      "of observed data), and all work on read-only arrays. Solvers keep their own "
      "copies of initial guesses, never write into arrays owned by the gradient or "
      "proximity operators, and no result handed out earlier changes later.",
      [INP, HIS, CFG], "all public entry points, memory layouts, reuse patterns of the "
      "caller's arrays", "Tests never look at their inputs afterwards.",
      ["base", "math", "signal", "opt"],
      [("copies on construction", "opt/algorithms/"),
       ("out-of-place arithmetic", "signal/, math/, opt/")],
      ["bytes of arguments before/after, read-only arguments, held results"],
      "write sanitizer: read-only arguments, byte snapshots of arguments and buffers",
      "held on the calls explored"),
    P("C17", "Objects are independent of each other, of history and of threads",
      "The same call with the same data gives the same result whatever was called "
      "before, and operators have no memory of earlier calls on other data (except the "
      "documented rank estimate). Solvers and operators stepped alternately or in "
      "concurrent threads give exactly what each gives alone, a metrics configuration "
      "shared by several solvers yields separate histories, options of one instance "
      "never leak into the next, and process-wide state (random generators, error "
      "settings, directory, environment) is left alone.",
      [HIS, SCH], "all interleavings of calls and instances, thread schedules",
      "Tests use fresh objects, one at a time.",
      ["opt", "base", "math", "signal"],
      [("state held in instances only", "opt/"), ("local random generators",
                                                  "signal/noise.py, math/matrix.py")],
      ["results alone vs. interleaved/threaded; process state"],
      "differential monitor over interleavings and threads (switch interval 1 us)",
      "held on the interleavings explored; they are counted in the evidence"),
    P("C18", "Invalid configurations are refused, valid ones accepted",
      "Every parameter outside its documented domain (type of algorithm parameters and "
      "updates, ranges, options of the acceleration, weights, operators without the "
      "required methods, unknown names, wrong dimensions) is refused with the "
      "documented kind of exception before anything is iterated, leaving existing "
      "objects as they were. Every value inside the domain, limits included, is "
      "accepted, and operators of foreign classes with the right methods work with a "
      "warning.",
      [CFG], "all parameters of all entry points, values inside, outside and at the "
      "limits of their domains", "Tests try one bad value for some of the parameters "
      "and seldom the limits.",
      ["opt/algorithms", "opt/linear", "opt/proximity.py", "opt/cost.py",
       "opt/gradient.py", "base", "signal", "math"],
      [("checks on construction", "opt/algorithms/base.py")],
      ["exceptions and subsequent state"],
      "acceptance monitor over generated valid/invalid neighbours",
      "held on the configurations explored"),
    P("C19", "Rearranging data loses, duplicates and misplaces nothing",
      "Cube, map and matrix views of the same stack convert into each other and back "
      "without loss, for every layout and image size, every pixel at its documented "
      "place and of unchanged type; data that do not fit the layout are refused. "
      "Rotations by 180 degrees, two-dimensional zero padding and axis rolls put every "
      "element exactly where documented.",
      [INP, CFG], "all shapes, layouts, paddings, rolls, dtypes, memory layouts",
      "Tests use one 3-D array and square layouts.",
      ["base/transform.py", "base/np_adjust.py"],
      [("cube2map, map2cube, map2matrix, matrix2map, ...", "base/transform.py"),
       ("rotate, pad2d, ftl, ftr, fancy_transpose", "base/np_adjust.py")],
      ["return values"], "conservation and round-trip monitors with unique values",
      "held on the shapes explored"),
    P("C20", "Convolution is the convolution sum, whatever the method",
      "Convolution gives the centred convolution sum, with zero boundary for the "
      "default method and periodic boundary with missing values as zero for the "
      "alternative one, for every data and kernel size. Stack and filter-bank "
      "convolutions treat every image and filter separately, and rotated kernels mean "
      "kernels turned by 180 degrees; the adjoint filter bank sums over filters.",
      [INP, CFG], "all data, kernel sizes, filter banks, methods, rotations",
      "Tests use one 3x3 case per method.",
      ["math/convolve.py", "signal/wavelet.py"],
      [("convolve, convolve_stack", "math/convolve.py"),
       ("filter_convolve, filter_convolve_stack", "signal/wavelet.py")],
      ["return values"], "reference-sum monitor (direct summation)",
      "held on the cases explored; even kernels with the alternative method are "
      "rejected by its library"),
    P("C21", "The power method returns the spectral radius",
      "With enough iterations the power method returns the largest eigenvalue modulus "
      "of a positive operator (times the requested factor) and its inverse; it applies "
      "the operator to unit vectors only, at most the requested number of times, and "
      "stops once two successive norms differ by less than the tolerance. The same "
      "seed gives the same result, another call starts afresh.",
      [INP, CFG, HIS], "all positive operators, shapes, seeds, tolerances, budgets, "
      "repeated calls", "Tests use one operator and one seed.",
      ["math/matrix.py"], [("get_spec_rad", "math/matrix.py")],
      ["spec_rad, inv_spec_rad, calls of the operator, output"],
      "recording operator + reference eigenvalues",
      "held on operators with a spectral gap"),
    P("C22", "Matrix tools satisfy their defining identities",
      "Orthogonalisation returns orthogonal (or orthonormal) rows spanning, row by row, "
      "the same spaces as the input; projections, nuclear norms and rotation matrices "
      "satisfy their definitions, for real and complex data. Rotating a matrix by quarter "
      "turns permutes its elements exactly, by any angle it leaves the centre and shows at "
      "each point a neighbour of the point that turns into it, and non-square matrices "
      "are refused.",
      [INP], "all matrices of full row rank, vectors, angles",
      "Tests use one 3x3 matrix.", ["math/matrix.py"],
      [("gram_schmidt, project, nuclear_norm, rot_matrix, rotate", "math/matrix.py")],
      ["return values"], "identity monitors", "held on the cases explored"),
    P("C23", "Image quality metrics equal their definitions, masks included",
      "Mean squared error, signal-to-noise ratio, peak signal-to-noise ratio, "
      "normalised root mean squared error and structural similarity equal their "
      "definitions on the magnitudes of both images normalised to [0, 1], and a mask "
      "restricts both the test and the reference image. They are unchanged by "
      "positive rescaling and shift of either image, and the arguments are not "
      "modified.",
      [INP], "all images, real/complex, masks", "Tests compare fixed numbers on one "
      "image pair.", ["math/metrics.py"],
      [("_preprocess_input and formulas", "math/metrics.py")], ["return values"],
      "reference-definition and metamorphic monitors",
      "held on the cases explored; scikit-image's structural similarity is trusted"),
    P("C24", "Statistics, kernels and filters equal their definitions",
      "Median absolute deviation, its Gaussian-consistent scaling, mean squared error "
      "and both peak signal-to-noise ratios (also over stacks) equal their definitions "
      "for all data. Gaussian kernels and Gaussian and Mexican-hat filters have the "
      "documented values, symmetry and normalisation for every shape and width.",
      [INP], "all data, shapes, widths", "Tests compare one array.",
      ["math/stats.py", "signal/filter.py"],
      [("formulas", "math/stats.py"), ("formulas", "signal/filter.py")],
      ["return values"], "reference-definition monitors", "held on the cases explored"),
    P("C25", "Noise is additive, of the requested level, and reproducible",
      "Gaussian noise adds to each element (or each image of a stack, with one level "
      "per image) independent zero-mean values of the requested standard deviation; "
      "Poisson noise adds independent counts whose mean and variance are the magnitude "
      "of the data. The same seed or generator "
      "gives the same noise, different seeds different noise, and data, shape and "
      "the global generators are untouched.",
      [INP, HIS], "all data, levels, seeds, generators", "Tests compare one seed.",
      ["signal/noise.py"], [("add_noise", "signal/noise.py")], ["return values"],
      "statistical and reproducibility monitors with fixed seeds",
      "moments judged at six standard errors on fixed seeds: no flaky alarms"),
    P("C26", "Reweighting multiplies the weights by 1 / (1 + |x| / (n w0))",
      "Each reweighting divides the current weights by one plus the magnitude of the "
      "data over the threshold factor times the original weights, in place, so that "
      "the operators sharing the weights see them, however many reweightings came "
      "before, and refuses data of another shape. In the primal-dual solver the requested number of "
      "reweightings happen, each from the transform of the current estimate and "
      "followed by a full run.",
      [HIS, INP], "all weights, data, factors, numbers of reweightings",
      "Tests reweight once.", ["opt/reweight.py", "opt/algorithms/primal_dual.py"],
      [("reweight", "opt/reweight.py"), ("loop over reweightings",
                                         "opt/algorithms/primal_dual.py")],
      ["weights after each call, events of the solver"],
      "history monitor against the formula", "held on the histories explored"),
    P("C27", "Logs, warnings and file checks leave a faithful, tidy trace",
      "Every message sent to an open log appears once, in order, in its own file "
      "between its start and end lines, several logs do not mix, and closing a log "
      "leaves no handler attached and no file open. Warnings and caught errors are "
      "printed and, with a log, recorded; missing files and programs are reported and "
      "existing ones accepted, and cost plots are written to the requested file.",
      [HIS, INP], "all histories of opening, logging to, closing and reopening logs",
      "Tests open and close one log and only look at file existence.",
      ["interface/log.py", "interface/errors.py", "plot/cost_plot.py"],
      [("set_up_log, close_log", "interface/log.py"), ("warn, catch_error, ...",
                                                       "interface/errors.py")],
      ["log files, handlers, open file descriptors, printed text"],
      "history monitor over files, handlers and descriptors in a scratch folder",
      "held on the histories explored"),
    P("C28", "The external transform is called exactly and leaves no files behind",
      "The external wavelet program is run with exactly the data, options and file "
      "names of the call and its output is returned unchanged, also for concurrent "
      "calls; filters derived from it select and trim the right planes. Whatever the "
      "program does (missing, crashing, writing nothing, truncated or wrong output), "
      "a failure is reported as an exception, temporary files are removed unless asked "
      "to be kept, and no other file is touched.",
      [FLT, INP, CFG], "all data, options, paths, faults of the program at each point",
      "Tests have no such program: none of this is run at all.",
      ["signal/wavelet.py", "interface/errors.py"],
      [("call_mr_transform, execute, get_mr_filters, trim_filter",
        "signal/wavelet.py")],
      ["command line and input seen by a stand-in program, results, files left"],
      "stand-in executable with fault injection, file-system monitor",
      "ten fault kinds enumerated in scratch folders; the real program is not available",
      level="fault_enumeration"),
    P("C29", "Moving data between backends keeps values, shape and type",
      "Selecting an array backend returns that library (or falls back to the default "
      "one, with a warning, when it is unavailable), and moving arrays to it and back to "
      "the CPU keeps values, shape and numerical type; conversion to and from torch "
      "tensors keeps shape and values in single precision. Data already in place are "
      "returned as they are, and no input is modified.",
      [INP, CFG], "all arrays, dtypes, backends installed here",
      "Tests move one array per backend.", ["base/backend.py"],
      [("get_backend, get_array_module, change_backend, move_to_cpu, "
        "convert_to_tensor", "base/backend.py")],
      ["return values, warnings"], "round-trip monitors on the real libraries",
      "numpy, tensorflow and torch on CPU; cupy needs a GPU and is not reached"),
    P("C30", "Positivity zeroes exactly the negative entries",
      "The positivity threshold replaces every negative entry by zero and leaves every "
      "other entry, the shape, the type and the nesting of ragged arrays as they are, "
      "for scalars, arrays of any dimension and ragged arrays of any depth. It is "
      "idempotent, does not modify its input, and refuses anything else.",
      [INP], "all scalars, arrays, ragged nestings", "Tests use four inputs.",
      ["signal/positivity.py", "opt/proximity.py"],
      [("positive, pos_thresh, pos_recursive", "signal/positivity.py")],
      ["return values"], "reference-definition monitor", "held on the cases explored"),
    P("C31", "Type checks convert exactly and refuse the rest",
      "The float and integer checks accept numbers, lists, tuples and arrays and "
      "return equal values of the requested kind with the same shape (integers by "
      "truncation), returning data already right as they are; everything else is "
      "refused. The array check refuses non-arrays and wrong types and sets the write "
      "protection as asked, with a warning when it takes it away.",
      [INP], "all objects, nested containers, dtypes, flags",
      "Tests use a handful of values.", ["base/types.py"],
      [("check_float, check_int, check_callable, check_npndarray", "base/types.py")],
      ["return values, flags, exceptions, warnings"], "reference-definition monitor",
      "held on the cases explored"),
    P("C32", "The torch wavelet transform matches the CPU transform",
      "On torch tensors the transform returns, for every wavelet, boundary mode, level, "
      "shape and batch, the same coefficients as the reference decomposition of the "
      "same data, with the published shapes. Its adjoint gives back the data, in the "
      "given shape.",
      [INP, CFG], "all wavelets/modes/levels/shapes supported by the library",
      "No test runs it here.", ["opt/linear/wavelet.py"],
      [("TorchWaveletTransform", "opt/linear/wavelet.py")], ["op, adj_op"],
      "differential monitor against PyWavelets",
      "runs on CPU tensors; the cupy wrapper needs a GPU and is not reached"),
    P("C33", "Without its optional libraries the package still works, or says so",
      "With any set of the optional libraries missing (or installed but unusable), the "
      "package imports, everything "
      "that does not need the missing ones behaves as before, and everything that does "
      "is refused with an import error (or the documented fallback and warning). "
      "Nothing fails with another error, and no result silently changes.",
      [CFG, FLT], "all subsets of optional libraries missing or present",
      "Tests run with everything installed.",
      ["base/backend.py", "math/convolve.py", "math/metrics.py", "math/stats.py",
       "opt/proximity.py", "opt/linear/wavelet.py", "plot/cost_plot.py",
       "signal/wavelet.py", "interface/errors.py", "opt/algorithms/base.py"],
      [("guarded imports", "all modules")],
      ["results and exceptions in processes where libraries are hidden"],
      "import-fault injection in subprocesses, differential results",
      "every single library and random subsets (quick), more subsets (thorough)",
      level="fault_enumeration"),
    P("C34", "Printed reports, progress bars and cost plots tell what happened",
      "In verbose mode the printed iteration numbers, costs, terms of the cost, changes "
      "in cost, announcements of convergence and reweighting numbers, and the number of "
      "power-method iterations, are those of the run; a progress bar advances once per "
      "iteration and a cost plot shows every recorded cost and leaves other figures "
      "alone. Without verbose mode and progress bar, the run prints nothing but warnings. Printing never changes a "
      "result.",
      [HIS, CFG], "all runs, verbosity settings, cost intervals, convergence points",
      "Tests run silently or ignore what is printed.",
      ["opt/cost.py", "opt/proximity.py", "opt/gradient.py", "opt/reweight.py",
       "opt/algorithms/base.py", "opt/algorithms/primal_dual.py", "math/matrix.py",
       "plot/cost_plot.py", "signal/validation.py", "signal/svd.py"],
      [("verbose cost test", "opt/cost.py"), ("iteration loop", "opt/algorithms/base.py")],
      ["standard output and error streams", "progress bar", "figures handed to savefig"],
      "captured transcripts parsed and checked against what the run did",
      "held on the runs explored"),
    P("C35", "Long use accumulates nothing, and dropped objects are freed",
      "Repeated calls of functions and operators, iterations of solvers, notifications, "
      "logs and plots keep no memory beyond the recorded numbers (costs and metrics) and "
      "leave no open files, threads, log handlers or temporary files behind. Once the "
      "caller drops an object, it and the data it was given are freed.",
      [HIS], "all numbers of repetitions and iterations", "Tests make a few calls each.",
      ["opt/algorithms/base.py", "opt/cost.py", "opt/gradient.py", "opt/proximity.py",
       "opt/linear/wavelet.py", "base/observable.py", "interface/log.py",
       "plot/cost_plot.py", "signal/wavelet.py", "math/matrix.py"],
      [("iteration loop", "opt/algorithms/base.py"),
       ("observers", "base/observable.py"), ("log handlers", "interface/log.py")],
      ["live memory, open files, threads, handlers, files", "weak references"],
      "resource monitors over repeated rounds, weak references to dropped objects",
      "growth in all of five rounds after a warm-up is reported"),
    P("C36", "A failing call reports its error and leaves everything usable",
      "An exception raised at any call by a caller's operator, regulariser, cost, "
      "parameter update, metric or observer reaches the caller unchanged; after it, or "
      "after a call refused for unusable data, operators, gradients, costs, reweightings, "
      "metric histories and observers behave as if the failing call had not been made, "
      "and no progress bar, file or thread is left behind. A solver interrupted in this "
      "way can be run again, reaches the same solution and keeps consistent histories, "
      "and its ingredients give in another solver exactly what they would have given.",
      [HIS, CFG], "all points of failure, all exceptions, all later uses",
      "No test makes a callback fail.",
      ["opt/algorithms/base.py", "opt/cost.py", "opt/gradient.py", "opt/proximity.py",
       "opt/linear/base.py", "opt/reweight.py", "base/observable.py", "math/matrix.py"],
      [("iteration loop", "opt/algorithms/base.py"), ("costs", "opt/cost.py"),
       ("notification", "base/observable.py")],
      ["exceptions that come out", "results of objects used after a failure",
       "open files, threads, progress bars"],
      "fault injection into callbacks; differential comparison with untouched twins",
      "held on the failure points explored"),
    P("C37", "Arguments mean what the documentation says: names, order, defaults",
      "Every function and constructor takes its arguments by position, in the documented "
      "order, or by their documented names, with the same outcome; and leaving an "
      "optional argument out has exactly the outcome of passing its documented default: "
      "the same results, printed text, warnings, errors and later behaviour of the "
      "object made.",
      [INP, CFG], "all inputs, all combinations of given and omitted arguments",
      "Tests mostly pass one combination of arguments and compare with stored results.",
      ["base", "math", "signal", "interface", "opt/algorithms", "opt/cost.py",
       "opt/gradient.py", "opt/proximity.py", "opt/linear", "opt/reweight.py"],
      [("solver options", "opt/algorithms/forward_backward.py"),
       ("thresholding", "signal/noise.py"), ("convergence options", "opt/cost.py")],
      ["results, prints and warnings with an argument given or left out"],
      "differential monitor: same call with arguments omitted, named and by position",
      "held on the calls explored; the table of documented defaults is ours"),
    P("C38", "Results depend on the values, not on how they are stored",
      "Every function, operator method and solver gives the same result, up to the "
      "rounding of the type, whatever the representation of equal arguments: memory "
      "layout and strides, byte order, integer or floating-point type, single or double "
      "precision, list, tuple or array, Python or numpy numbers.",
      [INP, CFG], "all values, all representations of them",
      "Tests use small contiguous native arrays of one type.",
      ["base", "math", "signal", "opt/algorithms", "opt/cost.py", "opt/gradient.py",
       "opt/proximity.py", "opt/linear", "opt/reweight.py"],
      [("metrics", "math/metrics.py"), ("projections", "math/matrix.py"),
       ("wavelet packing", "opt/linear/wavelet.py"), ("thresholding", "signal/noise.py")],
      ["results of calls on equal values stored differently"],
      "differential monitor: two representations of the same arguments",
      "held on the representations explored; half precision and numpy's own type rules "
      "are not judged"),
]
