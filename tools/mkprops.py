"""Writes properties.jsonl (the source of the property list; run after editing)."""
import json, pathlib

S = "src/tranquilo/"
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [S + f for f in files],
            "state": [{"name": a, "meaning": b, "where": S + c} for a, b, c in state],
            "mechanism": [{"name": a, "where": S + b} for a, b in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


p("C01", "Every evaluated point is feasible",
  "For every problem with a feasible start, every parameter vector at which the criterion is evaluated (start, model sample, candidate, line-search and speculative points) satisfies all finite lower and upper bounds exactly, one-sided bounds included. The returned solution satisfies them too.",
  ["inputs", "configurations", "histories"],
  "all bounds (two-sided, one-sided, None, partially infinite), start points incl. on a bound, functypes, samplers, subsolvers, batch sizes, acceptance deciders, and all histories of accepted steps",
  "Tests run a handful of bounded problems and look only at the final solution; a single infeasible intermediate evaluation is never observed.",
  ["region.py", "sample_points.py", "solve_subproblem.py", "acceptance_decision.py"],
  [("region shape and cube bounds clipped at the problem bounds", "region.py"),
   ("mapping from the unit cube clips at cube bounds", "region.py"),
   ("clipping of candidates and line search points", "solve_subproblem.py, acceptance_decision.py")],
  observe=["arguments of the criterion", "solution_x of the result"])

p("C02", "The incumbent only moves to points that pass the acceptance rule",
  "In every iteration the current point is replaced if and only if the finite candidate value improves on the current value by at least the required minimum improvement; otherwise the current point, its index and its value stay exactly as they were. Hence with noiseless evaluations and a nonnegative minimum improvement the sequence of current values never increases, and it never exceeds the start value.",
  ["inputs", "histories", "configurations"],
  "all criteria, all sequences of candidate values (better, equal, worse, infinite), all acceptance deciders and minimum improvements",
  "Tests check one acceptance call with a mocked history and the end result of converging runs; ties, required improvements, infinite candidates and whole histories are not covered.",
  ["acceptance_decision.py", "tranquilo.py"],
  [("comparison of actual improvement with the minimum improvement", "acceptance_decision.py"),
   ("state update with the acceptance result", "tranquilo.py")],
  state=[("state.x/fval/index", "the current point", "tranquilo.py")],
  observe=["states of the result", "acceptance decider return value"])

p("C03", "The reported result and states agree with the evaluations that were made",
  "The returned solution, its criterion value and every per-iteration record (current point, candidate, indices, value, step length, ratio of actual to expected improvement, new/used/discarded model points) refer to points that were really evaluated and equal what the recorded evaluations imply. The solution is the current point of the last iteration, and its value is that evaluation (noiseless) or the mean of the evaluations available when it was accepted (noisy).",
  ["inputs", "histories", "configurations"],
  "all runs: functypes, noise, deciders, stopping reasons, accepted and rejected final iterations",
  "Tests compare the solution with a known optimum up to a few decimals; a value, index or record that belongs to another evaluation passes.",
  ["tranquilo.py", "acceptance_decision.py", "history.py"],
  [("assembly of the state and of the result dict", "tranquilo.py"),
   ("calculation of rho and the step length", "acceptance_decision.py")],
  observe=["result dict", "states", "history"])

p("C04", "The evaluation ledger is exact",
  "The criterion is called exactly as often as requested for every point, with exactly that parameter vector, and each outcome is stored once, under the point it belongs to, in order and unaltered (except for the documented replacement of failures and NaN). The number of recorded evaluations equals the number of criterion calls, also if some points need zero or several evaluations in one batch or if the criterion modifies its argument.",
  ["inputs", "schedules", "histories"],
  "all evaluation requests (multiplicities, orders, repeated points), batch evaluators, n_cores, functypes",
  "One test checks a two-point request on a fixed linear criterion; interleavings of requests within runs are not examined.",
  ["wrap_criterion.py", "history.py"],
  [("repetition of arguments and indices", "wrap_criterion.py"), ("index mapper and growing arrays", "history.py")],
  observe=["arguments and results of the batch evaluator", "history getters"])

p("C05", "Stopping limits are obeyed and reported truthfully",
  "After an iteration, no further iteration starts once the number of criterion evaluations has reached its limit, the iteration limit is reached or the time limit has passed, and the iterations performed never exceed the iteration limit. A run only reports one of these reasons if the respective limit was reached, and a run that stops early names a reason that holds.",
  ["inputs", "histories", "configurations"],
  "all limits (including ones hit at start or exactly at an iteration end), criteria, batch sizes and noise settings",
  "No test sets a limit and counts evaluations, iterations or time.",
  ["tranquilo.py", "process_arguments.py"],
  [("loop range and checks at the end of the loop body", "tranquilo.py")],
  observe=["number of criterion calls", "states", "message"])

p("C06", "Convergence is only declared if the named criterion holds",
  "A run reports convergence only right after an iteration that accepted a new point, only if convergence checks are enabled, and only if the change of criterion, parameters or the model gradient named in the message really is within its tolerance. If such a test is passed after an accepted step the run stops there.",
  ["inputs", "histories", "configurations"],
  "all tolerances (zero, default, large), scales of criterion and parameters, and sequences of accepted and rejected steps",
  "Tests only see runs that converge with default tolerances; wrong normalisation, wrong state pairs or checks after rejections go unnoticed.",
  ["tranquilo.py"],
  [("convergence test of the last two states", "tranquilo.py")],
  observe=["message", "last two states"])

p("C07", "Trust-region radius management",
  "After each iteration the radius is expanded by the expansion factor if the ratio of actual to expected improvement reaches the increase threshold and the step was large relative to the radius; it is kept if the ratio reaches the decrease threshold or the number of evaluations per point was just increased; and it is shrunk by the shrinking factor otherwise. The new radius always lies between minimum and maximum radius (and below the step-ratio cap unless that is smaller than the minimum), starts at the configured initial value, and the region is always centred at the current point.",
  ["inputs", "histories", "configurations"],
  "all radius options, ratios (including exact thresholds, infinities), step lengths and histories",
  "Three parameterised unit tests cover one expand, one shrink and one constant case of the function; never its use within a run.",
  ["adjust_radius.py", "tranquilo.py", "options.py"],
  [("radius rule", "adjust_radius.py"), ("new region for the next iteration", "tranquilo.py")],
  state=[("trustregion", "centre, radius and bounds", "tranquilo.py")],
  observe=["adjust_radius", "states[k].trustregion"])

p("C08", "Model sample membership",
  "In every iteration the surrogate model is built from distinct evaluated points: the current point, previously evaluated points from the search region around it, and new points sampled in the trust region, at least the target sample size before points are dropped for stagnation, each evaluated at least the current number of evaluations per point. The new points are just enough to reach the target sample size, rounded up to a multiple of the batch size.",
  ["inputs", "histories", "configurations"],
  "all target sizes, batch sizes, search radius factors, filters, evaluation counts and evaluation histories",
  "Unit tests look at filters and the history in isolation; no test inspects which points enter a model during a run.",
  ["tranquilo.py", "filter_points.py", "history.py"],
  [("search region, filter, sampling and additional evaluations", "tranquilo.py"),
   ("points in region", "history.py")],
  observe=["filter, sampler, fitter arguments", "states[k].model_indices"])

p("C09", "Model data are the averages of the evaluations at the model points",
  "Every model is fitted to exactly one observation per model point, consisting of that point and the arithmetic mean of all evaluations made at it so far, in matching order; without averaging one observation per evaluation is used. Evaluations of other points never enter.",
  ["inputs", "histories"],
  "all index selections and orders, replicate counts, functypes, residual counts, run histories",
  "A test fetches model data for one fixed selection; order and replicate mix-ups in runs are invisible to it.",
  ["history.py", "tranquilo.py"],
  [("get_model_data", "history.py"), ("fit calls", "tranquilo.py")],
  observe=["get_model_data", "arguments of the model fitter"])

p("C10", "Sampled points lie in the trust region",
  "Every sampler returns exactly the requested number of finite points, all inside the trust region intersected with the bounds; hull samplers place them on its boundary, and with more than one parameter no two points of a random hull sample coincide, and interior samples cover the whole region. The result depends on the passed generator and arguments only, does not modify them, and optimal sampling is never worse than its own start sample in the determinant criterion.",
  ["inputs", "configurations"],
  "all region shapes, centres, radii, bounds, numbers of new and existing points, dimensions, sampler options and generator states",
  "Tests check bounds for a few samples on one region with two parameters; spheres, off-centre cubes and other sizes are not covered.",
  ["sample_points.py", "region.py"],
  [("unit-space sampling, projection on the hull and mapping to the region", "sample_points.py")],
  observe=["get_sampler(...)"])

p("C11", "Excess points are dropped worst-first and the current point is kept",
  "Dropping removes exactly the requested number of points: repeatedly the one furthest from the current point while any lies outside the trust region, then one of the closest pair, never the current point while others remain, and the one nearer to the current point if the pair does not contain it. Points and indices stay aligned and ordered, and filters that keep, discard or limit points return exactly the documented subset.",
  ["inputs"],
  "all point clouds (ties and duplicates included), centres, radii, numbers to drop and target sizes",
  "Tests cover three small fixed clouds.",
  ["filter_points.py"],
  [("drop_worst_points and the filters", "filter_points.py")],
  observe=["drop_worst_points", "get_sample_filter(...)"])

p("C12", "Candidates of the subproblem are admissible and never predicted to be worse",
  "For every model and region the candidate returned by the subproblem step is finite, lies inside the trust region and the bounds, and the reported expected improvement equals the model value at the region's centre point minus the model value at the candidate and is nonnegative. If the configured solver fails, its error is raised unless the fallback is enabled, in which case the fallback's solution is returned.",
  ["inputs", "configurations", "fault_sequences"],
  "all models (indefinite, singular, zero, badly scaled), regions, solvers, and solver failures or inadmissible solver outputs",
  "Tests call the step with one model and a mocked failing solver; out-of-region or deteriorating solutions are not injected.",
  ["solve_subproblem.py", "region.py"],
  [("template around the solvers: mapping, projection, expected improvement, fallback", "solve_subproblem.py")],
  observe=["get_subsolver(...)"])

p("C13", "Built-in subproblem solvers reach the optimum of the quadratic model",
  "On the unit cube (bntr, bntr_fast with every conjugate gradient method) and the unit ball (gqtpar, gqtpar_fast) the built-in solvers return points inside the domain. Their model value is, up to a stated tolerance, no worse than that of any other point of the domain for convex models, in the ball also for every other model, and it is never worse than the start point. The compiled and the plain version of a solver agree. The inner methods of the cube solver (cg, steihaug_toint, trsbox) stay inside the ball (trsbox also inside the bounds), never do worse than the best step along the projected steepest descent and reach minima of convex models inside the ball (cg, steihaug_toint). The linear solvers return optimal points of the ball cut with the bounds.",
  ["inputs"],
  "all gradients and Hessians of a bounded integer family in one to six dimensions, all built-in solvers",
  "Tests compare with a few stored solutions; active bounds, the hard case and flat directions are covered by single examples only.",
  ["subsolvers/bntr.py", "subsolvers/bntr_fast.py", "subsolvers/gqtpar.py", "subsolvers/gqtpar_fast.py", "subsolvers/fallback_subsolvers.py", "subsolvers/_conjugate_gradient.py", "subsolvers/_steihaug_toint.py", "subsolvers/_trsbox.py", "subsolvers/linear_subsolvers.py"],
  [("bounded Newton trust-region iterations", "subsolvers/bntr.py"), ("More-Sorensen iterations", "subsolvers/gqtpar.py")],
  observe=["bntr", "bntr_fast", "gqtpar", "gqtpar_fast", "fallback solvers"])

p("C14", "Runs are reproducible and free of side effects",
  "Two runs with the same arguments and seed evaluate the same points in the same order and return the same result, whatever ran before in the process, whatever the state of the global random generator, and whatever the number of workers of the evaluator for a given batch size. Runs neither touch the global random state nor modify the caller's start vector, bounds or option objects.",
  ["schedules", "configurations", "histories"],
  "all configurations, preceding runs, global generator states, evaluation completion orders and worker counts",
  "No test runs the optimizer twice or inspects inputs afterwards.",
  ["tranquilo.py", "process_arguments.py", "sample_points.py", "wrap_criterion.py"],
  [("own generators derived from the seed", "process_arguments.py")],
  observe=["sequence of criterion arguments", "result", "caller's objects"])

p("C15", "Evaluations per point adapt to simulated noise within limits",
  "The number of evaluations per point changes by at most one per iteration: down if the share of simulated ratios above the high threshold exceeds its limit, unchanged if the share above the low threshold does or the actual ratio is good enough, and up otherwise. It always stays within its configured minimum and maximum, never changes in noiseless runs, and applies to all model points of the next iteration; an increase is signalled exactly if the number grew.",
  ["inputs", "histories", "configurations"],
  "all simulated ratio vectors (shares exactly at limits included), thresholds, limits and run histories",
  "There is no test of the adjustment at all.",
  ["adjust_n_evals.py", "tranquilo.py", "options.py"],
  [("adjust_n_evals", "adjust_n_evals.py"), ("use in the main loop", "tranquilo.py")],
  observe=["adjust_n_evals", "evaluation requests of runs"])

p("C16", "Failing evaluations never break a run and are never accepted",
  "If evaluations after the start raise, return NaN or return infinite values, at whatever positions, noisy or not, the run completes, records each of them as an infinite value of the right shape, and never accepts such a point or lets it change the current point. Evaluations that succeed in the same batch are unaffected, and a candidate that fails counts as a rejected step.",
  ["fault_sequences", "inputs", "configurations"],
  "all positions and kinds of failures (exception, NaN, plus/minus infinity, whole batches), functypes, deciders, evaluators",
  "Tests inject a failure into one wrapped call, never into a run and never for vector-valued criteria with several failures.",
  ["wrap_criterion.py", "acceptance_decision.py", "handle_infinity.py"],
  [("replacement of tracebacks and NaN", "wrap_criterion.py"), ("non-finite candidate branch", "acceptance_decision.py")],
  observe=["history", "states", "no exception from the run"])

p("C17", "Infinite values are clipped beyond all finite ones",
  "Before fitting, each infinite entry is replaced by a finite value that is strictly worse (for plus infinity) or strictly better (for minus infinity) than every finite value in its column, by a margin in proportion to their range, and all finite entries stay unchanged. Columns are treated independently and the result is always finite.",
  ["inputs"],
  "all matrices of finite and infinite values: equal, negative, single and missing finite values",
  "One test covers one matrix.",
  ["handle_infinity.py"],
  [("clip_relative", "handle_infinity.py")],
  observe=["get_infinity_handler('relative')"])

p("C18", "Noise variance estimates are replicate variances from nearby points",
  "The estimated noise (co)variance is the evaluation-weighted average of the unbiased sample (co)variances at points within the configured multiple of the radius that have enough replicates, where the requirement is lowered to the best available if no point meets it and is at least two. Points further away or with fewer replicates and failed or infinite evaluations have no influence; without any repeated successful evaluation the estimate is zero.",
  ["inputs", "histories"],
  "all replicate counts, distances, thresholds, scalar and vector criteria",
  "One simulation test checks an average up to a tolerance.",
  ["estimate_variance.py"],
  [("classic variance estimator", "estimate_variance.py")],
  observe=["get_variance_estimator(...)"])

p("C19", "Region geometry respects bounds and unit mappings are inverse",
  "A region is a ball exactly if no bound lies within the radius of its centre and a box otherwise; the box is the volume-preserving cube cut at the bounds. Mapping to unit space and back is the identity on the region, images of region points lie in the unit ball or cube, and points mapped from unit space never leave the bounds.",
  ["inputs", "configurations"],
  "all centres, radii, bounds (one-sided, missing, infinite, touching), dimensions",
  "Tests use one centre and radius with two-sided bounds.",
  ["region.py", "bounds.py", "volume.py"],
  [("shape, cube bounds, effective centre and radius, maps", "region.py")],
  observe=["Region"])

p("C20", "Fitted models reproduce data generated by a model of their class",
  "For sufficiently many points in general position every unpenalised fitter recovers a polynomial of its class exactly (coefficients, cross terms and halved squares), per residual and in unit coordinates of the region, and just- or underdetermined fits interpolate the data. Penalised fits minimise their documented penalised criterion: no other coefficients are better.",
  ["inputs", "configurations"],
  "all integer polynomials and lattice samples of a bounded family, dimensions one to three, several residuals, both region shapes, all fitters and model types",
  "Tests fit two-parameter quadratics on one random sample per fitter.",
  ["fit_models.py", "models.py", "region.py"],
  [("feature matrix, fitters and reshaping to Hessians", "fit_models.py")],
  observe=["get_fitter(...)", "model.predict"])

p("C21", "Moving, adding and aggregating models preserves predictions",
  "Moving a model to another region leaves its predictions at every parameter vector unchanged; adding two models adds their predictions and rejects incompatible ones; aggregating a linear least-squares vector model yields the sum of squared predictions. None of these operations changes its inputs.",
  ["inputs"],
  "all scalar and vector models with and without second-order terms, regions of both shapes including anisotropic boxes, and parameter vectors",
  "Tests move one two-parameter model between two balls.",
  ["models.py", "aggregate_models.py"],
  [("move_model, add_models, predict", "models.py"), ("aggregators", "aggregate_models.py")],
  observe=["move_model", "add_models", "predict", "get_aggregator(...)"])

p("C22", "Clustering is a partition around central points",
  "Every point gets exactly one cluster label, labels are consecutive, every cluster has exactly one centre that belongs to it, and all members lie within the given radius of their centre. Points with a neighbourhood free of other points form their own cluster and two centres are never the same point.",
  ["inputs"],
  "all point clouds (duplicates and ties included) and radii",
  "Tests use well separated random clusters.",
  ["clustering.py", "filter_points.py"],
  [("greedy clustering", "clustering.py")],
  observe=["cluster", "get_sample_filter('clustering')"])

p("C23", "Components and options are resolved faithfully",
  "A built-in name selects exactly that component and a callable is used as given; unknown names, wrong types, invalid option names and missing mandatory arguments are rejected with an error. Each component receives the user's value for every option it supports and the default otherwise, converted to the default's type, plus exactly those runtime arguments it declares, and neither defaults nor user bundles are modified.",
  ["configurations", "inputs"],
  "all combinations of component signatures, default and user option bundles, positional and keyword runtime arguments and redundancy modes",
  "Tests cover single examples per branch.",
  ["get_component.py", "options.py", "process_arguments.py"],
  [("get_component", "get_component.py"), ("update_option_bundle", "options.py")],
  observe=["get_component", "update_option_bundle", "component factories"])

p("C24", "Argument processing applies the documented defaults and rejects bad input",
  "For every combination of functype, noise, cores, batch size and dimension the defaults of model type, sample size, search radius, batch size, evaluation counts, filter, acceptance decider, fitter, residualisation, stagnation and radius follow the documented rules, and explicit user values always win. Contradictory values (batch smaller than cores, nonpositive factors or counts, unknown model types or aggregations, non-boolean flags) are rejected with an error, and combinations that are called experimental (noise or several cores with scalar functions, noise with several cores) give a warning.",
  ["configurations"],
  "the full finite product of the listed argument values",
  "Tests check some helper functions for single values.",
  ["process_arguments.py", "options.py"],
  [("process_arguments and its helpers", "process_arguments.py"), ("default functions", "options.py")],
  observe=["process_arguments(...)"])

p("C25", "Evaluations are batched as requested",
  "Sampling and line-search batches have sizes that are multiples of (or equal to) the batch size, the initial replicate count is rounded up to such a multiple, and the evaluator is never asked for more workers than configured or than there are evaluations. Empty requests trigger no evaluator call.",
  ["configurations", "histories", "schedules"],
  "all batch sizes, core counts, target sizes and histories",
  "Parallel runs in tests only check the solution.",
  ["tranquilo.py", "wrap_criterion.py", "process_arguments.py"],
  [("next_multiple", "process_arguments.py"), ("effective number of cores", "wrap_criterion.py")],
  observe=["batch evaluator calls"])

p("C26", "Line-search acceptance uses its batch and picks the best point",
  "With a batch size above one, line-search acceptance evaluates exactly one batch containing the candidate; if the candidate is near the region's border (within a tenth of its radius or half width, wherever the region lies) the batch contains the points continuing the step at doubling distances (cut at the bounds) up to three, and the rest are speculative samples around the candidate. The point with the lowest value in the batch is the one judged for acceptance, while the radius ratio is based on the candidate; with batch size one it behaves exactly like classic acceptance.",
  ["inputs", "histories", "configurations"],
  "all batch sizes, value orderings in the batch (ties, infinities), region shapes and candidate positions",
  "Tests check helper functions and one full call per branch.",
  ["acceptance_decision.py"],
  [("accept_classic_line_search and helpers", "acceptance_decision.py")],
  observe=["get_acceptance_decider('classic_line_search')"])

p("C27", "The evaluation history is a faithful append-only store",
  "After any sequence of additions, every point and evaluation can be retrieved under the index returned when it was added, in insertion order and bit-identical, for single indices, lists, arrays, slices and masks; later additions (including ones that grow the storage) never change earlier entries. Criterion values are the documented aggregate of the stored vectors, counts are exact, evaluations of unknown points are rejected, and region queries return exactly the indices of points within the radius.",
  ["histories", "inputs"],
  "all operation sequences up to a bound, index kinds, functypes, growth beyond the preallocated storage",
  "Tests run fixed short sequences and one growth step.",
  ["history.py"],
  [("History", "history.py")],
  observe=["History"])

p("C28", "Stagnating model steps are handled as configured",
  "If there are more model points than needed and the relative step is below the keep threshold, worst points are dropped one at a time with a refit each until the step is long enough or the target size is reached; if the step is still below the minimum, worst points are replaced by new samples, at most the configured number of times, keeping the old ones if dropping is disabled. A step that is long enough triggers neither, and the current point always stays in the sample.",
  ["histories", "configurations", "inputs"],
  "all sequences of relative step lengths, sample sizes, thresholds, increments and trial limits",
  "No test drives the main loop through these branches deliberately.",
  ["tranquilo.py", "filter_points.py"],
  [("drop and replace loops", "tranquilo.py")],
  observe=["fit, sample and solve calls of one iteration"])

p("C29", "Exploration samples lie within bounds and are reproducible",
  "Exploration samples have the requested size, lie within the bounds, are identical for equal seeds, and follow the selected method and distribution (low-discrepancy methods stratify each coordinate; triangular sampling peaks at the given point). Unknown methods or distributions and infinite bounds are rejected.",
  ["inputs", "configurations"],
  "all methods, distributions, sizes, bounds and seeds",
  "Tests check a few sizes and one seed.",
  ["exploration_sample.py"],
  [("draw_exploration_sample", "exploration_sample.py")],
  observe=["draw_exploration_sample"])

p("C30", "The poisedness constant bounds all Lagrange polynomials",
  "For a sample that determines quadratic models the Lagrange polynomials are one at their own point and zero at the others, and the returned constant is the largest absolute value they attain in the unit ball or cube, attained at the returned point by the polynomial of the returned index. Improving a sample replaces one point per iteration and does not modify its input.",
  ["inputs"],
  "unisolvent lattice samples in one to three dimensions, both shapes",
  "Tests use textbook samples in two dimensions, where the ordering of second-order terms cannot matter.",
  ["poisedness.py"],
  [("lagrange polynomials and maximisation", "poisedness.py")],
  observe=["get_poisedness_constant", "improve_poisedness"])

p("C31", "Residualised fitting builds on the model of the previous iteration",
  "With residualisation the model is fitted to the residuals of the model of the preceding iteration, moved to the current region, and the prediction is the sum of both; without it the old model has no influence. Simulations of noise use the same previous model as the fit they imitate.",
  ["histories", "inputs", "configurations"],
  "all run histories, old models and regions (including anisotropic boxes)",
  "Tests never inspect which old model is passed, or fit with a residualised anisotropic model.",
  ["tranquilo.py", "fit_models.py", "models.py"],
  [("old_model argument", "tranquilo.py"), ("residualisation", "fit_models.py")],
  observe=["fitter arguments during runs", "get_fitter(..., residualize=True)"])

p("C32", "Noisy acceptance spends a bounded, sufficient number of evaluations",
  "In noisy acceptance the candidate receives between the minimum and maximum number of evaluations and the current point only as many additional ones as keep it within the maximum. Within these limits the numbers grow with noise and required power and shrink with the expected improvement, and suffice for the configured confidence and power; the decision compares the means of all evaluations of both points.",
  ["inputs", "histories", "configurations"],
  "all noise levels, existing evaluation counts, expected improvements, confidence and power levels, limits",
  "Tests check three hand-computed cases.",
  ["acceptance_sample_size.py", "acceptance_decision.py"],
  [("get_acceptance_sample_sizes", "acceptance_sample_size.py"), ("accept_noisy", "acceptance_decision.py")],
  observe=["get_acceptance_sample_sizes", "evaluation requests of noisy runs"])

p("C33", "Simulated noise ratios are those of the fitted model under the estimated noise",
  "The noise simulation returns one ratio per requested draw, each the true-model improvement at the solution of a model fitted to noisy data over that solution's expected improvement. Without noise all ratios equal the ratio of the model itself, draws depend only on the passed generator, the off-diagonal covariances are ignored exactly if requested, and no criterion evaluation happens.",
  ["inputs", "configurations"],
  "all models, samples, covariances, numbers of draws and generator states of a bounded family",
  "One test checks a single convergence-to-one case.",
  ["rho_noise.py"],
  [("simulate_rho_noise", "rho_noise.py")],
  observe=["simulate_rho_noise"])

p("C34", "Volume conversions are consistent",
  "Volumes of balls and cubes and their radii are inverse to each other, converting a radius between ball and cube preserves volume and scaling multiplies it by the given factor, in every dimension. All of them are strictly increasing in the radius and unknown shapes are rejected.",
  ["inputs"],
  "all radii, factors and dimensions of a bounded family",
  "Tests check single values per function.",
  ["volume.py"],
  [("volume functions", "volume.py")],
  observe=["volume functions"])

p("C35", "Visualisation reflects the recorded run",
  "The diagnostic figure of optimization results has one column per case, titled with the case, where a case is the chosen iteration of a result or one of several iterations of the same result. Every column shows what the result stores: the values of all criterion evaluations in order, with the evaluations that were newly added, reused from the history, discarded, and the current best one marked at their own index and value; for at most two parameters the sample points themselves with the same roles and the trust region as a circle, otherwise the absolute correlations between the parameters over the sample points; the distances of the points of the model from the centre of the trust region in units of its radius, in the Euclidean and the maximum norm; and for all iterations, with the chosen one marked, the trust region radius, the ratio of actual and expected improvement clipped to [-1, 3], the quality of the sample (log determinant) and the number of clusters per point. Plotting never changes the results.",
  ["inputs", "history"],
  "all results of runs in any dimension, all selections of iterations and all forms of passing results",
  "Tests only check that plotting does not fail.",
  ["visualize.py"],
  [("visualize_tranquilo", "visualize.py")],
  observe=["traces, shapes and titles of the figure", "result before and after plotting"])

out = pathlib.Path(__file__).resolve().parents[1] / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
