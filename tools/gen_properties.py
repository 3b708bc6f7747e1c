"""Writes /verif/properties.jsonl (the text lives here; the jsonl is the committed output)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["src/reor/" + f for f in files], "state": state or [],
                          "mechanism": [{"name": a, "where": "src/reor/" + b} for a, b in mech],
                          "observe_at": observe or [], "hook_needed": hook}})
I = ["inputs"]; IC = ["inputs", "configurations"]; ICH = ["inputs", "configurations", "histories"]

p("C01", "Simplex projection returns the exact nearest point of the simplex",
  "Projecting any non-empty real vector onto the standard simplex gives a vector with non-negative entries that sum to one and that is the Euclidean-nearest such vector to the input. The matrix forms apply exactly that projection to every row (or every column), in place, and change nothing else; the vector form leaves its argument alone unless it is given as the output.",
  I, "all real vectors of every length >= 1 and all real matrices of every shape, including ties, points already in the simplex, and negative entries",
  "Tests project a few hand-picked vectors of length 1-2 and random points whose entries are all in [0,1]; they check membership only, never optimality, never the column form, and cannot cover every vector and length.",
  ["simplex_projection.py"], [("simplex_project_vector", "simplex_projection.py"), ("simplex_project_rows", "simplex_projection.py"), ("simplex_project_columns", "simplex_projection.py")],
  observe=["reor.simplex_projection.*"])
p("C02", "Random stochastic matrices are stochastic",
  "The left-stochastic generator returns a matrix of the requested shape with non-negative entries whose columns each sum to one; the right-stochastic generator does the same for rows. The entries depend only on the given random state.",
  IC, "every shape (square or not), every seed or generator state with non-degenerate draws",
  "No test checks the generators themselves for all shapes; square shapes cannot tell rows from columns.",
  ["_random_matrix.py"], [("left_stochastic_matrix/right_stochastic_matrix", "_random_matrix.py")], observe=["reor._random_matrix"])
p("C03", "FurthestSum selects the requested number of distinct admissible points",
  "For every square dissimilarity matrix, admissible start index, exclusion list and number of refinement steps, the selection has exactly the requested number of indices, all distinct, all valid sample indices and none of them excluded. Requests that cannot be met (non-square matrix, start index out of range or excluded, too few points left) are rejected with a ValueError, and the inputs are not modified.",
  IC, "all matrices, sizes, start indices, exclusion lists (distinct in-range indices) and refinement counts",
  "Tests use one or two matrices and exclusion lists that leave a single point; the interaction of exclusion, refinement and exhaustion of the candidates is not sampled.",
  ["furthest_sum.py"], [("candidate list / selection bookkeeping", "furthest_sum.py")], observe=["reor.furthest_sum.furthest_sum"])
p("C04", "FurthestSum choices are greedy maximisers of total dissimilarity",
  "For every symmetric dissimilarity matrix with zero diagonal and no refinement steps, the first selected index is the start index and every further index maximises, over all admissible indices not yet selected, the sum of dissimilarities to the indices selected before it. Each refinement step replaces the next selected index in cyclic order by an admissible index that maximises the sum of dissimilarities to the other selected indices.",
  IC, "all symmetric zero-diagonal matrices, sizes, start indices, exclusions and refinement counts",
  "Tests check the final set for one 3x3 matrix and one convex hull; a stale or mis-signed running sum changes the choice only for particular matrices and step counts.",
  ["furthest_sum.py"], [("incremental distance sums", "furthest_sum.py")], observe=["reor.furthest_sum.furthest_sum"])
p("C05", "Line-search step rules shrink safely and stay within their bounds",
  "For every positive current step length, descent direction and cost values at which a step is rejected, the next trial step is positive and at most max(0.5, upper safeguard) times the current one, and it equals the minimiser of the quadratic interpolant whenever that lies between the safeguards and half the current step otherwise. The spectral step is the quotient of its arguments clamped to the configured bounds, and the upper bound when the curvature is not positive; hence every line search ends after finitely many trials.",
  IC, "all real costs, slopes, step lengths, curvatures and all admissible safeguard/bound settings",
  "Only exercised incidentally through full fits with default settings, where out-of-bound proposals rarely occur.",
  ["spg.py", "archetypal_analysis.py", "gpnh_convex_coding.py", "mtd_convex_coding.py", "gpnh_convex_coding_crom.py"],
  [("get_next_spg_step_length/get_next_spg_alpha", "spg.py")], observe=["reor.spg"])
p("C06", "Archetypal analysis keeps both factors row-stochastic",
  "Starting from valid initial factors, every accepted or rejected optimisation step of kernel and standard archetypal analysis leaves non-negative weights whose rows sum to one and non-negative archetype coefficients whose rows sum to one. In particular the weights returned by fit and transform and the fitted dictionary are always row-stochastic.",
  ICH, "all symmetric kernels / data matrices, sizes, initial factors, step sizes and numbers of iterations",
  "Tests run a handful of random problems and check only the final factors with default line-search settings.",
  ["archetypal_analysis.py", "simplex_projection.py"], [("projected line search", "archetypal_analysis.py")],
  state=[{"name": "weights and dictionary", "meaning": "row-stochastic factors", "where": "src/reor/archetypal_analysis.py"}], observe=["KernelAA.fit_transform", "KernelAA.transform", "dictionary_"])
p("C07", "Archetypal analysis cost is the documented objective of its factors",
  "The cost that archetypal analysis evaluates, monitors and reports always equals the squared Frobenius error ||X - S D C X||^2 (computed through the kernel, D the diagonal matrix of scale factors, identity when relaxation is off) of the factors it currently holds, including inside its line searches over the weights and the dictionary. In particular the reported final cost is the objective value of the returned weights and dictionary.",
  ICH, "all symmetric kernels, all factor values and sizes, zero and non-zero relaxation, any sequence of updates",
  "Tests compare costs before and after an update but never to the documented formula from the data; cached products make the value depend on update history.",
  ["archetypal_analysis.py"], [("cost evaluation from cached products", "archetypal_analysis.py")],
  state=[{"name": "cached kernel products", "meaning": "must match the current factors when read", "where": "src/reor/archetypal_analysis.py"}], observe=["cost_", "KernelAA._evaluate_cost"])
p("C08", "Archetypal analysis steps follow the exact projected gradient",
  "In every dictionary or weights update of archetypal analysis the factor moves from its current value towards the row-wise simplex projection of (current value minus a bounded positive step times the exact gradient of the objective at the current point), by a fraction in (0, 1]. The gradient used is the exact derivative of the objective for every symmetric kernel, with and without relaxation.",
  ICH, "all symmetric kernels, factors, scale factors and sizes, in any update history",
  "Finite-difference tests check one random point of one size with loose tolerance, and only directly after a fresh workspace set-up, so stale cached products are invisible.",
  ["archetypal_analysis.py", "spg.py"], [("gradient routines and projected step", "archetypal_analysis.py")], observe=["KernelAA updates"])
p("C09", "GPNH convex coding cost is the documented regularised objective",
  "The cost evaluated, monitored and reported by GPNH convex coding equals the mean squared reconstruction error of the data by weights times dictionary plus the regularisation weight times the mean over ordered pairs of distinct components of the mean squared difference of their dictionary rows (zero for a single component), for the factors currently held. In particular the reported final cost is the objective value of the returned weights and dictionary.",
  ICH, "all data, factors, sizes (including one component) and regularisation weights, any sequence of updates",
  "Tests only check that a perfect reconstruction has zero cost without regularisation; normalisation constants and stale caches are not pinned.",
  ["gpnh_convex_coding.py"], [("loss + dictionary penalty", "gpnh_convex_coding.py")],
  state=[{"name": "cached Gram matrices", "meaning": "must match the current factors when read", "where": "src/reor/gpnh_convex_coding.py"}], observe=["cost_"])
p("C10", "GPNH convex coding steps follow the exact gradient",
  "Each dictionary update of GPNH convex coding moves the dictionary along the exact negative gradient of its regularised objective, and each weights update moves the weights towards the row-wise simplex projection of (weights minus a bounded positive step times the exact gradient), by a fraction in (0, 1]. This holds for every problem size, including a single component, and in any update history.",
  ICH, "all data, factors, sizes and regularisation weights, any sequence of updates",
  "GPNH has no gradient tests at all; descent tests pass with a wrong but positively correlated direction.",
  ["gpnh_convex_coding.py"], [("gradient routines", "gpnh_convex_coding.py")], observe=["GPNHConvexCoding updates"])
p("C11", "MTD convex coding cost is the documented regularised objective",
  "The cost evaluated, monitored and reported by MTD convex coding equals the GPNH-type objective plus the weights regularisation times the normalised squared deviation of the weights sequence, after the largest lag, from its mixture-transition-distribution prediction (order-weighted sum over lags of transition matrix times lagged weights), for the factors and parameters currently held. In particular the reported final cost is the objective value of the returned factors and parameters.",
  ICH, "all data, factors, sizes, lag sets (any order, gaps), regularisation weights and update sequences",
  "Tests evaluate the cost only for perfect reconstructions and exactly Markovian weights (cost zero) with two lags.",
  ["mtd_convex_coding.py"], [("loss + penalties", "mtd_convex_coding.py"), ("predicted weights", "mtd_convex_coding.py")],
  state=[{"name": "predicted weights and Gram caches", "meaning": "must match current factors/parameters when read", "where": "src/reor/mtd_convex_coding.py"}], observe=["cost_"])
p("C12", "MTD convex coding steps follow the exact gradient in every block",
  "Every dictionary, weights and parameter update of MTD convex coding uses the exact derivative of its full regularised objective with respect to that block: the dictionary moves along the negative gradient, the weights rows, the order weights and the transition-matrix columns move towards the simplex projection of a bounded positive gradient step, by a common fraction in (0, 1]. This holds for every set of lags (any order, any gaps), every size and any update history.",
  ICH, "all data, factors, parameters, sizes, lag sets and regularisation weights, any sequence of updates",
  "Finite-difference tests use one random point, one size and the lags they list; boundary rows near the first and last lags carry little weight in them.",
  ["mtd_convex_coding.py"], [("gradient routines", "mtd_convex_coding.py")], observe=["MTDConvexCoding updates"])
p("C13", "Convex coding weights and Markov parameters stay stochastic",
  "Starting from valid initial values, every update of GPNH and MTD convex coding and of the GPNH CROM leaves weights with non-negative rows summing to one, order weights that are non-negative and sum to one, and transition matrices that are non-negative with columns summing to one. In particular everything fit and transform return or store satisfies these constraints.",
  ICH, "all data, initial values, sizes, lag sets, step sizes and iteration counts",
  "Tests check the final values of a few random runs; the column projection of transition matrices has no test of its own.",
  ["gpnh_convex_coding.py", "mtd_convex_coding.py", "gpnh_convex_coding_crom.py", "simplex_projection.py"],
  [("projected line searches", "mtd_convex_coding.py")], observe=["fit_transform results", "order_weights", "transition_matrices"])
p("C14", "GPNH CROM fits its Markov model consistently",
  "The residual minimised when the GPNH CROM fits its Markov parameters equals the normalised squared deviation, after the largest lag, of the weights from their order-weighted lagged transition-matrix prediction, evaluated at the parameters currently held. Each parameter update uses the exact derivative of that residual with respect to the order weights and the transition matrices, and the weights themselves are left unchanged.",
  ICH, "all weight sequences, sizes, lag sets, parameters and update sequences",
  "The module has no tests at all.",
  ["gpnh_convex_coding_crom.py"], [("residual, gradient and line search of the Markov parameters", "gpnh_convex_coding_crom.py")], observe=["GPNHConvexCodingCROM.fit"])
p("C15", "Forecasts iterate the fitted mixture-transition model",
  "For every horizon, the forecast for a sample is the dictionary reconstruction of the weights obtained by applying, that many times, the order-weighted sum of transition matrices to the weights at the corresponding lags (earlier forecasts being fed back), starting from the weights of the samples up to and including that one; horizon zero gives the reconstruction itself. Exactly the samples with too little history (fewer than the largest lag) are reported as missing, and forecast weights are again convex combinations.",
  IC, "all data, horizons, lag sets (any order, gaps) and fitted parameters, for both forecasting models",
  "One small example of one model is tested; the CROM forecast is never run.",
  ["mtd_convex_coding.py", "gpnh_convex_coding_crom.py"], [("predict", "mtd_convex_coding.py"), ("predict", "gpnh_convex_coding_crom.py")], observe=["predict"])
p("C16", "Descent and stopping are enforced and reported truthfully",
  "With monotone decrease required, an archetypal-analysis, GPNH or MTD fit either raises or returns a cost no larger than the cost of its initial guess, and every line search it performs ends with a step satisfying the sufficient-decrease condition or a step below the step tolerance. The reported iteration count is the number of iterations performed, iteration stops at the first iteration whose cost change is below the tolerance or at the iteration limit, and, with a positive tolerance, a fit that exhausts the limit without converging issues a warning.",
  ICH, "all data, initial guesses, tolerances, iteration limits and update schedules of all iterative models",
  "Tests check descent on a few runs; no test looks at the iteration count or the warning.",
  ["archetypal_analysis.py", "gpnh_convex_coding.py", "mtd_convex_coding.py", "fembv.py"], [("_iterate and line searches", "gpnh_convex_coding.py")], observe=["cost_", "n_iter_", "warnings"])
p("C17", "FEM-BV constraints describe exactly the bounded-variation affiliations",
  "For every number of samples and components (at least two) and every total-variation bound, the linear constraints FEM-BV generates are satisfiable by auxiliary values if and only if the affiliations are non-negative, sum to one at every sample, and (when a bound is set) each component's total variation over time is at most the bound. Without a bound no variation constraint and no auxiliary variable is present.",
  IC, "all sample counts, component counts and bounds, with and without a bound",
  "Tests compare four fixed small matrices.",
  ["fembv.py"], [("_initialize_constraints", "fembv.py")], observe=["A_eq", "b_eq", "A_ub", "b_ub"])
p("C18", "FEM-BV weight updates return feasible minimisers",
  "Given that the linear-program solver returns a minimiser of the program it is given, every FEM-BV weights update yields affiliations that are non-negative, sum to one at each sample, respect the total-variation bound, and minimise the affiliation-weighted sum of distances over all such affiliations. With a single component the affiliations are left at one.",
  ICH, "all distance matrices, sizes, bounds and update histories",
  "The weights update is never run by the tests on real models with a bound; vertex assignments depend on index bookkeeping that fixed examples do not pin.",
  ["fembv.py"], [("_update_weights", "fembv.py")], observe=["FEMBV.fit_transform"])
p("C19", "FEM-BV k-means uses squared distances and weighted-mean centroids",
  "For all data and affiliations the FEM-BV k-means distance of a sample to a cluster is the squared Euclidean distance to its centroid, and each parameter update sets every centroid with positive total affiliation to the affiliation-weighted mean of the samples, which minimises the cost for fixed affiliations. The reported cost is the affiliation-weighted sum of those distances for the fitted affiliations and centroids.",
  ICH, "all data, affiliations and sizes",
  "The module has no tests.",
  ["fembv_kmeans.py", "fembv.py"], [("distance matrix and centroid update", "fembv_kmeans.py")], observe=["FEMBVKMeans.fit", "Theta", "cost_"])
p("C20", "The local VARX fit solves the weighted least-squares problem it documents",
  "For every order, number of variables, optional external factors (with any number of external lags) and non-negative sample weights, the fitted intercept, lag matrices and external coefficients satisfy the weighted normal equations of predicting each sample from its own p previous samples and the current and lagged external factors. The stored residuals are exactly the sample minus that prediction at every time after the pre-sample, and zero in the pre-sample.",
  IC, "all data, weights, orders p and s, dimensions and external factors",
  "One data set with p = 2, no weights and no external factors is tested; blocks for external factors and their lags never run.",
  ["fembv_varx.py"], [("design matrix and parameter unpacking", "fembv_varx.py")], observe=["FEMBVVARXLocalLinearModel.fit"])
p("C21", "FEM-BV VARX aligns components of different memory in time",
  "For every assignment of memories to components, row t of the FEM-BV VARX affiliations and distances refers to the same sample for every component: the sample that many steps after the largest memory, with distance the squared norm of that component's one-step residual at that sample. Parameter updates weight each such sample by its affiliation, and the reported coefficients are those of the component models.",
  ICH, "all data, memories (equal or mixed), external factors, affiliations",
  "No test constructs the model; mixed memories are never run.",
  ["fembv_varx.py"], [("_initialize_components/_evaluate_distance_matrix/_update_parameters", "fembv_varx.py")], observe=["FEMBVVARX.fit", "mu", "A", "B0"])
p("C22", "Piecewise VARX regresses every sample of a regime on its own past",
  "For every order, external lag order, trend setting and regime labelling, each regime's fitted intercept and coefficient matrices satisfy the normal equations of regressing exactly the samples labelled with that regime on their own lagged values and lagged external values, and the stored residual of each sample is the sample minus its regime's prediction. Labels returned by transform are those of the fitted classifier on the same predictors.",
  IC, "all data (one- or multi-dimensional), orders, external factors, trend settings and labellings",
  "The module has no tests.",
  ["pwvarx.py"], [("_stack_predictors/_fit_var_model", "pwvarx.py")], observe=["ClusterPWVARX.fit_transform", "transform"])
p("C23", "The k-means CROM transition matrix is the empirical Markov chain",
  "For every label sequence in which each cluster has a successor, the fitted transition matrix entry (j, k) is the fraction of visits to cluster k (other than the last sample) that are followed by cluster j, so its columns are probability distributions. Prediction with horizon h applies that matrix h times to the indicator of each sample's cluster, giving probability distributions for every sample.",
  IC, "all data / label sequences, numbers of clusters and horizons",
  "The module has no tests.",
  ["crom.py"], [("transition counts and predict", "crom.py")], observe=["KMeansMarkovCROM.fit", "predict"])
p("C24", "Fitting, transforming and predicting never modify arrays they did not create",
  "No fit, transform, fit_transform, inverse_transform or predict call changes the contents of any array the caller holds: not the data, kernel, initial factors, external factors, labels or exclusion lists passed to it, not results returned by earlier calls, and not a fitted dictionary or centroids stored by an earlier call. The only exception is an array passed explicitly as an output argument or to the in-place projection functions.",
  ["inputs", "histories", "configurations"], "all public entry points, all inputs, all sequences of calls",
  "Tests never compare inputs before and after a call; aliasing shows only after a particular sequence of in-place updates.",
  ["archetypal_analysis.py", "gpnh_convex_coding.py", "mtd_convex_coding.py", "gpnh_convex_coding_crom.py", "fembv.py", "fembv_kmeans.py", "fembv_varx.py", "pwvarx.py", "furthest_sum.py"],
  [("defensive copies", "gpnh_convex_coding.py")], observe=["all public entry points"])
p("C25", "Transform keeps the fitted model and optimises only the weights",
  "Transforming data with a fitted archetypal-analysis, GPNH, MTD or FEM-BV k-means model leaves the fitted dictionary or centroids, order weights and transition matrices exactly as fitted, and returns weights for the new data optimised against them, for every way of initialising the fit (including custom). Reconstruction is the product of weights and fitted dictionary.",
  ICH, "all data, fitted models, initialisation modes and call sequences",
  "Tests call update routines directly; transform is run in one test only.",
  ["archetypal_analysis.py", "gpnh_convex_coding.py", "mtd_convex_coding.py", "fembv.py", "fembv_kmeans.py"], [("transform", "gpnh_convex_coding.py")], observe=["transform", "inverse_transform"])
p("C26", "Invalid settings and initial guesses are rejected before any fitting",
  "A fit whose number of components or iteration limit is not a positive integer, whose tolerance is not a non-negative number, whose kernel is not square, or whose custom initial guess has the wrong shape or weights/order-weights/transition matrices (for archetypal analysis also dictionary) that do not sum to one along the required axis raises ValueError without running an iteration. Valid settings are never rejected, and a missing number of components means all features (all samples for kernel models).",
  IC, "all settings and initial guesses of every fit entry point",
  "No test exercises the checks.",
  ["archetypal_analysis.py", "gpnh_convex_coding.py", "mtd_convex_coding.py", "fembv.py", "_validation.py"], [("_check_* helpers and argument checks", "_validation.py")], observe=["fit", "fit_transform"])
p("C27", "Initial guesses follow the requested initialisation",
  "Random initialisation yields row-stochastic weights (and, for archetypal analysis, dictionaries; for Markov models simplex order weights and column-stochastic transition matrices); furthest-sum initialisation yields a dictionary made of distinct admissible samples of the data, honouring the requested start index, exclusions and refinement steps; custom initialisation starts from exactly the given values. An unknown initialisation name is rejected with ValueError, and all randomness comes from the given random state.",
  IC, "all data, sizes, initialisation modes and options of every model",
  "Tests set factors by hand; initialisation options are never exercised.",
  ["archetypal_analysis.py", "gpnh_convex_coding.py", "mtd_convex_coding.py", "fembv.py", "fembv_kmeans.py"], [("_initialize_* helpers", "gpnh_convex_coding.py")], observe=["fit with init=..."])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q) + "\n")
print(len(P))
