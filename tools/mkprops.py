#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [x if isinstance(x, dict) else {"name": x, "where": files[0]} for x in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
S = "src/qinfer/"
prop("C01", "Every SMC update applies Bayes' rule exactly to every particle",
 "After any sequence of single or batch updates, each particle's weight is its weight at the last resampling or reset times the product of the likelihoods the model assigned to it since, normalised so that the weights are non-negative and sum to one (also when a noisy model returns negative likelihoods, which count as zero). The normalisation recorded for each update is the probability of that datum under the weights before it, and the total log-likelihood is the sum of their logarithms. After the weights are updated, and not before, every particle is moved by the model's own time step for exactly that experiment, keeping its weight.",
 ["histories", "inputs"], "all sequences of outcomes and experiments, all particle clouds, all likelihood tables including zeros",
 "test_smc.py drives one mock model with scalar outcomes and only inspects n_ess and resample_count; no test compares weights, normalisations or moved locations after a history of updates.",
 [S+"smc.py", S+"abstract_model.py"],
 [("SMCUpdater.update", S+"smc.py: weight assignment, clipping, time step"), ("SMCUpdater.hypothetical_update", S+"smc.py: weights * L / norm"), ("Simulatable.update_timestep", S+"abstract_model.py")],
 ["particle weights", "particle locations", "normalization record"],
 ["SMCUpdater.particle_weights", "SMCUpdater.particle_locations", "SMCUpdater.normalization_record", "SMCUpdater.log_total_likelihood"])
prop("C02", "Data history and the zero-weight policies are honoured exactly",
 "The data record lists every datum passed to an update, once each and in order, is append-only and cannot be altered through the value handed to callers. When an update leaves no particle with support, the configured policy alone decides: 'error' raises and 'skip' returns, both leaving particles, weights and normalisation record as they were; 'ignore' and 'warn' carry on; 'reset' warns and returns the updater to a fresh, uniformly weighted cloud drawn from its prior; an unknown policy raises ValueError. An update that does not hit the zero-weight condition never takes any of these paths.",
 ["histories", "configurations"], "all update histories containing impossible or vanishing data at any position, all policies and thresholds",
 "No existing test uses a zero-weight policy, an impossible datum, data_record or normalization_record.",
 [S+"smc.py"], [("SMCUpdater.update zero-weight branch", S+"smc.py update"), ("data_record / normalization_record", S+"smc.py properties")],
 ["data record", "normalization record", "weights"], ["SMCUpdater.update return/exception/warnings", "SMCUpdater.data_record", "SMCUpdater.normalization_record"])
prop("C03", "Resampling happens exactly when due and is counted once; batches keep schedule",
 "An update that checks for resampling resamples if and only if the effective sample size has fallen below the configured fraction of the particle number, and an update that does not check never does; a batch update performs its updates in order and checks exactly after every resample_interval-th datum, rejecting mismatched lengths before touching any state. Each resampling calls the resampler once with the model and current particles, adopts the returned particles and weights, canonicalises them if and only if configured, clears the model cache (tolerating a failing clear), increments the resample count by one and sets the just-resampled flag, which the next update clears; resampling again without new data warns. The recorded minimum effective sample size is the smallest one reached after any update and never increases.",
 ["histories", "configurations", "fault_sequences"], "all interleavings of updates, batches, explicit resamplings and resets; all thresholds, intervals, resamplers and cache failures",
 "test_smc.py checks the count for one threshold with repeated identical data; batch_update, just_resampled, canonicalisation, cache failures and resampler replacement are never exercised.",
 [S+"smc.py"], [("SMCUpdater._maybe_resample", S+"smc.py"), ("SMCUpdater.resample", S+"smc.py"), ("SMCUpdater.batch_update", S+"smc.py")],
 ["resample count", "just_resampled flag", "minimum n_ess", "particles"], ["SMCUpdater.resample_count", "just_resampled", "min_n_ess", "calls into the resampler and the model"])
prop("C04", "Reset restores exactly what was asked from the prior and nothing else",
 "A full reset draws the requested number of particles (by default the current number) from the prior and gives them uniform weights; a partial reset redraws only the selected parameter columns, taken from the same columns of prior draws, and leaves every other column and (if asked) the weights untouched. New particles are canonicalised as complete parameter vectors if and only if the updater canonicalises. Asking for a new particle number and a partial reset together raises ValueError without changing anything, and resetting never alters the data record, normalisation record, resample count or minimum effective sample size.",
 ["histories", "configurations"], "all histories before the reset, all selections of columns and particle numbers, canonicalisation on or off",
 "No existing test calls reset other than through the constructor.",
 [S+"smc.py"], [("SMCUpdater.reset", S+"smc.py"), ("SMCUpdater.__init__", S+"smc.py")],
 ["particles", "weights"], ["SMCUpdater.reset", "SMCUpdater.particle_locations", "SMCUpdater.particle_weights"])
prop("C05", "Hypothetical updates, Bayes risk and information gain are pure and exact",
 "Asking for hypothetical updates, the Bayes risk or the expected information gain never changes the updater, and the hypothetical weights, likelihoods and normalisations for each (outcome, experiment) pair equal what an actual update with that single datum would produce. The Bayes risk of each experiment is the outcome-averaged, Q-weighted posterior variance and the information gain is the outcome-averaged relative entropy of posterior to prior weights, finite for every cloud including ones with impossible outcomes or particles of zero weight. The value for an experiment does not depend on which other experiments are evaluated in the same call, whether or not the number of outcomes depends on the experiment.",
 ["inputs", "histories"], "all particle clouds and weights, likelihood tables including 0 and 1, batches of experiments, constant and varying outcome numbers",
 "test_metrics.py compares the risk and gain for smooth precession likelihoods with loose tolerance and never with zero-probability outcomes, zero weights, several parameters with unequal Q, or purity.",
 [S+"smc.py", S+"metrics.py"], [("SMCUpdater.hypothetical_update", S+"smc.py"), ("SMCUpdater.bayes_risk", S+"smc.py"), ("SMCUpdater.expected_information_gain", S+"smc.py")],
 ["weights", "locations"], ["return values of hypothetical_update, bayes_risk, expected_information_gain"])
prop("C06", "Liu-West resampling keeps ancestry, validity, count and weights",
 "Resampling returns exactly the requested number of particles with uniform weights and leaves the input distribution unchanged. Every returned particle is a times one ancestor of positive weight plus (1-a) times the mean plus the kernel noise scaled by h and the square root of the covariance; a candidate judged invalid is redrawn around its own ancestor while accepted candidates are never touched again. With postselection every returned particle is valid unless the iteration limit was reached, in which case a warning is raised after exactly that many rounds; without postselection validity is never consulted, and ancestors are drawn in proportion to their weights.",
 ["inputs", "histories", "configurations"], "all particle clouds, validity predicates, kernels, a/h parameters, iteration limits and particle numbers",
 "No existing test exercises LiuWestResampler directly; the SMC tests only count how often some resampler ran.",
 [S+"resamplers.py"], [("LiuWestResampler.__call__", S+"resamplers.py rejection loop"), ("LiuWestResampler.a setter", S+"resamplers.py")],
 ["slots still to resample", "ancestor of each slot"], ["calls to model.are_models_valid and the kernel", "returned ParticleDistribution"])
prop("C07", "Particle estimators and credible regions summarise exactly the stored cloud",
 "For every particle cloud the reported particle number, effective sample size, mean, expectation of a function, covariance, correlation and entropy are those of the stored weighted points, constructing a distribution from unnormalised weights normalises them without modifying the caller's arrays, and reading them changes nothing. Samples are always stored particles of positive weight, in proportion to weight. A credible region consists of the highest-weight particles, is the smallest such prefix whose total weight exceeds the level (all particles if none does), together with its outside partitions the cloud, and reports only the selected parameters. The hull and ellipsoid estimators enclose exactly that region, the ellipsoid being given as the documented covariance and centre, and membership of a point is decided by the same region, method by method.",
 ["inputs"], "all weighted clouds with ties, zero weights, single particles, any dimension, all levels in [0,1] and parameter slices",
 "test_region_estimates.py and test_distributions.py check loose statistical bounds on a few random clouds and never level 1, ties, zero weights or slices together with return_outside.",
 [S+"distributions.py"], [("ParticleDistribution.est_credible_region", S+"distributions.py"), ("ParticleDistribution.est_mean/est_covariance_mtx/n_ess/sample", S+"distributions.py")],
 ["particle_weights", "particle_locations"], ["ParticleDistribution methods"])
prop("C08", "Mixed approximate updating uses the good model for the heaviest particles only",
 "In every update the mixed updater evaluates the good model on exactly the particles needed to carry the configured fraction of the posterior weight when taken from the heaviest down, plus any particle whose weight alone reaches the threshold, and never on fewer than the configured minimum; every other particle is evaluated with the approximate model, each particle by exactly one model per outcome and experiment. The weights, normalisations and likelihoods that result are Bayes' rule for that mixture of likelihoods, in the original particle order. This holds for every mixture ratio, including those that send all particles to one model.",
 ["inputs", "configurations", "histories"], "all weight vectors with and without ties, all ratios in [0,1], thresholds and minimum counts",
 "No existing test constructs MixedApproximateSMCUpdater.",
 [S+"smc.py"], [("MixedApproximateSMCUpdater.hypothetical_update", S+"smc.py")],
 ["good/bad partition"], ["calls to the two models' likelihood", "returned weights"])
prop("C09", "Bayesian information matrices accumulate once per update from the right cloud",
 "The Bayesian information updater starts its matrix from the given initial matrix, or from the prior's gradients when none is given, and each update adds exactly the prior-averaged Fisher information of that experiment; the adaptive matrix instead adds the average over the posterior as it was before that datum. The caller's initial matrix is never modified and returned matrices are copies. In every other respect, including every constructor option, the updater behaves exactly as the plain one.",
 ["histories", "configurations"], "all sequences of updates and batches, initial matrices, adaptive or not, and updater options",
 "test_precession_model.py runs one scalar model and checks a loose asymptotic bound; matrices, aliasing, adaptive accumulation order and constructor options are not checked.",
 [S+"smc.py"], [("SMCUpdaterBCRB.update", S+"smc.py"), ("SMCUpdaterBCRB.__init__", S+"smc.py"), ("SMCUpdaterBCRB._bim", S+"smc.py")],
 ["current_bim", "adaptive_bim"], ["SMCUpdaterBCRB.current_bim", "adaptive_bim", "posterior_bayes_information", "prior_bayes_information"])
prop("C10", "Every model's likelihood is a probability tensor with counted evaluations",
 "For every bundled model, every valid parameter vector and every experiment, the likelihoods over the outcome domain lie in [0,1] and sum to one, and follow the model's documented formula. Entry [i,j,k] of a likelihood call depends only on outcome i, parameter vector j and experiment k, so any batch equals the entries computed one at a time in any order, and inputs are not modified. Validity is decided per row by the documented bounds, and each likelihood call raises the model's call count by outcomes times parameter vectors times experiments. The distance between two parameter vectors is the sum of the absolute differences of their components in the model's scale, row by row, and the benchmarking module's conversions between fidelity and depolarising parameter invert each other for every dimension.",
 ["inputs", "histories"], "all bundled models, batches of outcomes, parameters and experiments in any order, histories of calls",
 "The concrete-model tests check shapes and value bounds for one fixed random batch per model; values, index order, normalisation, and call counts are not compared.",
 [S+"abstract_model.py", S+"test_models.py", S+"rb.py", S+"unstructured_models.py", S+"tomography/models.py"],
 [("likelihood implementations", S+"test_models.py, rb.py, tomography/models.py"), ("FiniteOutcomeModel.pr0_to_likelihood_array", S+"abstract_model.py"), ("Model.likelihood call counting", S+"abstract_model.py")],
 ["call_count"], ["Model.likelihood", "Model.call_count", "Model.are_models_valid"])
prop("C11", "Simulated data are possible outcomes of the right model and experiment",
 "Simulating an experiment returns, for each repetition, parameter vector and experiment, an outcome in that experiment's domain that has positive probability for that vector and that experiment, distributed according to the likelihood and independently across repetitions; a single repetition of one vector and one experiment gives a scalar. This holds for models with constant and with experiment-dependent outcome numbers and for integer and structured outcomes. Each call raises the simulation count by repetitions times vectors times experiments.",
 ["inputs", "histories"], "all models over finite domains, all batch shapes and repetitions, deterministic and stochastic likelihoods",
 "base_test.py checks only the shape and domain membership of simulated data for one batch; frequencies, index alignment, and sim_count are not checked, and varying-outcome models are not simulated at all by the base class.",
 [S+"abstract_model.py", S+"derived_models.py", S+"domains.py"],
 [("FiniteOutcomeModel.simulate_experiment", S+"abstract_model.py"), ("BinomialModel/MultinomialModel/GaussianHyperparameterizedModel.simulate_experiment", S+"derived_models.py")],
 ["sim_count"], ["Simulatable.simulate_experiment", "Simulatable.sim_count"])
prop("C12", "Repeated-measurement models are exact batches of their underlying model",
 "For a binomial or multinomial derived model the probability of each count outcome is the multinomial law of the underlying single-shot probabilities for that parameter vector and experiment, summing to one over its domain, whose members are exactly the count vectors of n_meas shots. Updating a particle cloud with one n_meas-shot outcome gives the same posterior as updating with the individual shots of the underlying model in any order. Validity, time step and parameter names are those of the underlying model, and the number of outcomes and the Fisher information are those of n_meas shots, for scalar and structured experiment parameters.",
 ["inputs", "histories"], "all underlying two- and many-outcome models, shot counts per experiment, orders of single shots",
 "test_concrete_models.py checks shapes and bounds only; no test compares counts with individual shots or calls n_outcomes of the multinomial model.",
 [S+"derived_models.py", S+"utils.py", S+"domains.py"],
 [("BinomialModel", S+"derived_models.py"), ("MultinomialModel", S+"derived_models.py"), ("binomial_pdf / multinomial_pdf", S+"utils.py")],
 ["none beyond counters"], ["likelihood", "n_outcomes", "domain", "simulate_experiment", "fisher_information"])
prop("C13", "Model decorators change only what they document and delegate everything else",
 "However models are stacked, the chain, base and underlying model reflect the stacking order, and every facet a decorator does not document changing (parameters and their names, weighting matrix, experiment dtype, outcome domain, validity, canonical form, time step, cost, cache clearing, simulation, likelihood) is that of the model it wraps on the same particles. Hyper-parameterised and random-walk decorators hand the wrapped model exactly its own parameter columns and keep every array consistent with the enlarged parameter number. Poisoned likelihoods stay within [0,1] and do not alter the wrapped model's arrays, powered likelihoods are the exact power, and every evaluation or simulation through the decorator is counted once by it.",
 ["programs", "inputs", "configurations"], "all stacks of decorators over stub models, all facets, all batches",
 "test_concrete_models.py instantiates single decorators and checks shapes; stacking, delegation of each facet, canonicalisation with extra parameters and counters are not covered.",
 [S+"derived_models.py", S+"ale.py", S+"parallel.py"],
 [("DerivedModel delegation", S+"derived_models.py"), ("PoisonedModel / MLEModel / GaussianHyperparameterizedModel", S+"derived_models.py")],
 ["call_count", "sim_count"], ["all public facets of the decorated model"])
prop("C14", "Random-walk time steps move exactly the walking parameters of each particle",
 "In a random-walk model each time step adds to each particle, for each experiment, an independent draw of the step distribution; in a Gaussian random walk only the designated parameters move, with the covariance that is fixed or carried by that very particle, times the experiment's scale factor, applied in the transformed coordinates when a transformation is given, and all other parameters (including the covariance parameters) are unchanged. The result is indexed particle, parameter, experiment, and the input array is not modified. The reported update covariance is that of the steps actually taken.",
 ["inputs", "configurations", "histories"], "all step distributions, index subsets, fixed or learned, diagonal or dense covariances, scale factors, transformations, batches",
 "test_concrete_models.py checks shapes and one covariance estimate to 1 decimal; index alignment with several experiments and particles is not checked.",
 [S+"derived_models.py"], [("RandomWalkModel.update_timestep", S+"derived_models.py"), ("GaussianRandomWalkModel.update_timestep", S+"derived_models.py"), ("GaussianRandomWalkModel.est_update_covariance", S+"derived_models.py")],
 ["particle locations"], ["update_timestep return values"])
prop("C15", "Parallelising a model over engines never changes any result",
 "For every number of engines, threshold, batch and repetition count, likelihoods and simulated data obtained through the parallel model have the same shape and per-index meaning as those of the serial model, in the same order, with each parameter vector (or experiment) handled by exactly one engine, including when there are fewer items than engines. At or below the serial threshold no engine is used; a model restored from a pickle without a view works serially and refuses parallel work with RuntimeError. Counters of the parallel model advance exactly as for serial evaluation.",
 ["schedules", "inputs", "configurations"], "all splits over engines, any engine completion order, numbers of items below/above engines and thresholds, repeats",
 "One mock view with a fixed number of engines is used with shape checks; chunk alignment, simulation splitting, repeats and pickling are untested.",
 [S+"parallel.py"], [("DirectViewParallelizedModel.likelihood", S+"parallel.py"), ("DirectViewParallelizedModel.simulate_experiment", S+"parallel.py"), ("__getstate__", S+"parallel.py")],
 ["counters"], ["likelihood", "simulate_experiment", "calls to the direct view"])
prop("C16", "Outcome domains enumerate, count, test and convert their members consistently",
 "For every finite domain the enumerated values are exactly its members, each once, their number equals the reported member count, and membership tests accept precisely arrays all of whose entries are members. Product domains are the Cartesian product of their factors however the factors are passed, and conversion between structured and regular arrays is a bijection preserving shape and values for any array shape. The example point is always a member with the domain's dtype.",
 ["inputs", "programs"], "all integer ranges, real intervals, multinomial sizes and nested products of them, arrays of any shape",
 "test_domains.py uses one instance per class with fixed good and bad points; enumeration contents, duplicates, nesting and partially valid arrays are not checked.",
 [S+"domains.py", S+"utils.py"], [("IntegerDomain/RealDomain/MultinomialDomain/ProductDomain", S+"domains.py"), ("join_struct_arrays/separate_struct_array", S+"utils.py")],
 ["none"], ["Domain public methods"])
prop("C17", "Performance tests record every step faithfully and contain failures",
 "A performance trial alternates exactly n_exp times: choose an experiment from the posterior so far, simulate it on the true model with the current true parameters, update, then let the true parameters evolve; row i records the truth in force when datum i was generated, the outcome, experiment, estimate, resample count and the weighted squared loss after update i. A multiple run starts exactly n_trials independent trials through the given apply function and stores each in its own row; a failing trial masks only its row when failures are allowed and otherwise raises. The progress bar is always finished, and the caller's numpy error policy is restored on every path, including failure.",
 ["fault_sequences", "histories", "configurations"], "all positions and kinds of failures, true models differing from the estimated one, apply functions of any completion order, progress bars",
 "No existing test calls perf_test or perf_test_multiple.",
 [S+"perf_testing.py"], [("perf_test", S+"perf_testing.py"), ("perf_test_multiple", S+"perf_testing.py"), ("numpy_err_policy/timing", S+"perf_testing.py")],
 ["performance array", "numpy error state"], ["returned arrays", "numpy.geterr()", "progressbar calls"])
prop("C18", "Experiment heuristics and the designer propose what their state dictates",
 "The exponentially sparse heuristic proposes scale*base^n for the n-th datum of its updater, the particle-guess heuristic inverts two distinct current particles and fails after its iteration limit, ensembles delegate to a member of positive probability, and each returns a single experiment of the model's dtype with the fixed fields as given. The experiment designer leaves every field other than the designed one as guessed, never modifies the caller's guess, and with guess storing returns within one experiment the best design seen so far under its cost, forgetting it when a new experiment starts.",
 ["histories", "configurations"], "all data histories, guesses, cost functions, optimisation algorithms and sequences of designs and new experiments",
 "No existing test exercises the designer or any heuristic except through one smoke test of ExpSparse.",
 [S+"expdesign.py"], [("ExpSparseHeuristic / PGH / EnsembleHeuristic", S+"expdesign.py"), ("ExperimentDesigner.design_expparams_field / new_exp", S+"expdesign.py")],
 ["best cost and experiment so far"], ["returned experiment parameters"])
prop("C19", "Composite prior distributions draw exactly from their constituents",
 "Product priors concatenate independent draws of their factors in order; mixtures draw each sample from exactly one component of positive weight with the component counts that were chosen, for every sample number; postselected priors return only valid samples, redrawing only the invalid ones and raising after exactly the iteration limit; constrained-sum priors rescale every sample to the required total. Every distribution returns an array of n rows and n_rvs columns for any n that the caller may overwrite, with support inside its documented range; giving a distribution by its moments or by its shape parameters is the same distribution.",
 ["inputs", "configurations", "fault_sequences"], "all combinations of constituent distributions, sample numbers, validity predicates and limits",
 "test_distributions.py checks moments for a few instances; row provenance, redraw discipline, negative totals and exact limits are not checked.",
 [S+"distributions.py"], [("ProductDistribution / MixtureDistribution / PostselectedDistribution / ConstrainedSumDistribution", S+"distributions.py"), ("simple distributions' sample", S+"distributions.py")],
 ["samples still to draw"], ["sample return values", "calls to constituents"])
prop("C20", "Adaptive likelihood estimation uses exactly the samples it drew",
 "The adaptive likelihood estimator simulates its model until the hedged error estimate of every entry is below tolerance and not longer, drawing at least the configured minimum number of samples and then in the configured steps. The returned likelihood for each outcome, parameter vector and experiment is the hedged frequency of that outcome among all samples drawn for that entry and the number actually drawn, so the two outcomes' likelihoods sum to one and lie in [0,1]. The model's simulation count equals the number of simulations performed.",
 ["histories", "configurations", "inputs"], "all outcome sequences of the simulator, all tolerances, minimum sample numbers, steps and hedging parameters",
 "One test checks shape and bounds with default parameters, where the minimum and the step coincide.",
 [S+"ale.py"], [("ALEApproximateModel.likelihood", S+"ale.py"), ("binom_est_p / binom_est_error", S+"ale.py, utils.py")],
 ["running counts"], ["likelihood return value", "simulator calls", "sim_count"])
prop("C21", "Simple estimators feed every datum once, in order, to the right model",
 "The one-call estimators turn each row of the data (array columns, named fields, file or text stream) into exactly one update, in row order, with the count as outcome and the remaining columns as the experiment fields they are documented to be, under the documented model and prior ranges. The returned mean and covariance are those of the resulting updater, scalars for one-parameter models, and the updater is handed back when requested. Inputs of unsupported type raise TypeError.",
 ["inputs", "configurations"], "all data tables, column layouts, sources, prior ranges and interleaved settings",
 "No existing test calls the simple estimators.",
 [S+"simple_est.py"], [("data_to_params / load_data_or_txt / do_update", S+"simple_est.py"), ("simple_est_prec / simple_est_rb", S+"simple_est.py")],
 ["updater"], ["return values", "updater.data_record"])
prop("C22", "Canonicalised tomographic states are physical, and physical states are unchanged",
 "Canonicalising tomographic parameters yields, for every row independently, a positive semidefinite state (of unit trace unless subnormalised states are allowed) obtained by zeroing negative eigenvalues and rescaling; a state that is already physical is returned unchanged, and canonicalising twice equals canonicalising once. Measurement probabilities are the clipped inner product of state and effect for the same row and experiment. In diffusive tomography the diffusion parameter is carried along untouched, every time step leaves physical states, a step of zero time moves nothing, and steps are independent per particle with standard deviation eps * sqrt(t). Bases are orthonormal and Hermitian with the identity first, the elements and labels of a tensor product are the products of the factors' in the same order, and states and parameters convert back and forth. Every draw of a prior over density operators or channels is a physical state of the promised rank, reality, product form or trace preservation, GADFLI priors have the mean they are given; random measurements come from the announced set, and the best of several has the greatest predicted variance. Particles of a tomographic updater stay physical through resampling.",
 ["inputs", "histories"], "all parameter rows in and out of the state space, batches, measurement effects, subnormalised or not, diffusion steps, bases, priors and heuristics",
 "test_concrete_models.py checks shapes and that canonicalised models are valid, but every tomographic model is declared valid, so physicality is never tested; priors and heuristics are only tested for not failing.",
 [S+"tomography/models.py", S+"tomography/bases.py", S+"tomography/distributions.py", S+"tomography/expdesign.py"], [("TomographyModel.canonicalize/trunc_neg_eigs/renormalize/likelihood", S+"tomography/models.py"), ("DiffusiveTomographyModel.update_timestep", S+"tomography/models.py"), ("TomographyBasis", S+"tomography/bases.py"), ("DensityOperatorDistribution and subclasses", S+"tomography/distributions.py"), ("heuristics", S+"tomography/expdesign.py")],
 ["particle locations"], ["canonicalize", "likelihood", "update_timestep", "priors", "heuristics"])
prop("C23", "Numerical geometry and probability routines agree with exact answers",
 "Minimum-volume enclosing ellipsoids contain all their points, touch the smallest possible volume and have its centre, all to the stated tolerance; point-in-ellipsoid tests decide by the quadratic form, one point at a time as in batches, and volumes are those of the ellipsoid whatever its axes. Matrix square roots of Hermitian matrices are the positive semidefinite root of the nonnegative part, and the reported error is the Frobenius distance of the square from the matrix. The simplex maps are inverse to each other on arrays of any shape, rows are positive and sum to one, and the origin is the uniform row. Central difference quotients equal the gradient for functions of second degree, with any steps, and converge to the gradient in second order otherwise. Multinomial and binomial probabilities are exact products, zero for impossible counts (and never undefined by rounding), with the last side given or implied; multinomial samples have the announced shape, add up to the number of trials, never show impossible sides and have the right mean. Compactified grids lie at equal steps of the logistic distribution function. No routine alters its arguments.",
 ["inputs"], "all real point sets, ellipsoids, matrices, simplices, functions and multinomial distributions, of any dimension and batch shape",
 "Tests sample a handful of inputs and most routines only on one shape.",
 [S+"utils.py", S+"finite_difference.py"], [("mvee, in_ellipsoid, ellipsoid_volume, sqrtm_psd, to_simplex, from_simplex, multinomial_pdf, sample_multinomial, compactspace", S+"utils.py"), ("FiniteDifference", S+"finite_difference.py")],
 ["none"], ["return values"])
prop("C24", "Clusters, distances, densities and displays describe the cloud they are taken from",
 "Every particle belongs to exactly one reported cluster or to the noise: clusters are the connected groups of points with at least the minimum number of neighbours within the given distance and the points next to them, under any metric, with distances of heavy particles shortened when clustering by weight; the noise is reported first and warned about from a tenth of the particles on. The moments of clusters are those of their own particles with their own share of weight, covariances within and between clusters add up to that of the cloud. Distances between clouds are scaled by the model's scale matrix. Marginal densities are the slope of the interpolated distribution function on the grid asked for, smoothing neither makes nor loses probability and widens by the kernel's variance; joint densities are given at their own mesh point, whatever the resolution of the axes. Divergence between clouds depends only on what the clouds stand for, ignores particles of zero weight, and grows as the clouds are moved apart. Formatted estimates, times and summaries read back as the values they stand for, to the uncertainty's leading digit, and comparisons to a number of significant figures are relative to each number's own magnitude.",
 ["inputs"], "all clouds of particles, weights, metrics, grids, kernels and scales",
 "Tests only call these functions once each, on one random cloud, without looking at what they return.",
 [S+"clustering.py", S+"metrics.py", S+"distributions.py", S+"smc.py", S+"utils.py"], [("particle_clusters", S+"clustering.py"), ("rescaled_distance_mtx, weighted_pairwise_distances", S+"metrics.py"), ("ParticleDistribution.est_cluster_*, est_kl_divergence", S+"distributions.py"), ("SMCUpdater.posterior_marginal, posterior_mesh, _repr_html_", S+"smc.py"), ("format_uncertainty, pretty_time", S+"utils.py")],
 ["none"], ["return values", "warnings", "plots"])
prop("C25", "Priors draw independent rows from the law they document, reproducibly",
 "Every simple prior draws from exactly the law its documentation names: uniform, discrete uniform, normal (also truncated), multivariate normal, slanted normal (uniform plus noise), log-normal, beta, gamma, Dirichlet, beta-binomial, uniform on the simplex, Haar and Ginibre states of a qubit, and tabulated densities; not only are its moments and support right, the probability of every interval of every coordinate and of their combinations is. Rows are independent of each other, within one call and across calls, whatever the sizes of the calls, and so are the coordinates that the law makes independent. Draws depend only on NumPy's global generator: after the same seed the same calls give the same rows, a prior keeps nothing from one call to the next, and rows are never given out twice. The gradients of the log density of normal and multivariate normal priors are exact, and a postselected prior has those of the prior it selects from.",
 ["inputs", "histories"], "all parameters of the priors, numbers of rows, sequences of calls and seeds",
 "Tests compare a few moments of one instance per class, loosely; none looks at the law, at independence, or at repeated calls.",
 [S+"distributions.py"], [("sample and grad_log_pdf of the simple distributions", S+"distributions.py")],
 ["none (NumPy's generator)"], ["samples", "gradients"])
if __name__ == "__main__":
    for p in P:
        print(json.dumps(p, ensure_ascii=False))
