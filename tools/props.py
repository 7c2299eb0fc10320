"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
D = "ais_benchmarks/distributions/"
S = "ais_benchmarks/sampling_methods/"


def prop(id, title, statement, over, text, tests, files, mech, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=None), _note=note))


prop("C01", "Closed-form distributions evaluate their textbook density everywhere",
     "The multivariate normal, uniform box, exponential, Banana and BenchDen (uniform, exponential, Maxwell, Laplace, symmetric "
     "Pareto) distributions return, at every point and for every admissible parameter value, the density (and its logarithm) "
     "documented for that family; outside the support the density is 0 and the log density is -inf. The log density stays finite and exact far in the tails, where the density underflows.",
     ["inputs", "configurations"], "every parameter vector (mean, covariance, centre, radius, rate) and every evaluation point, in and out of support",
     "Tests compare the normal and uniform densities at a handful of fixed points; the exponential, BenchDen and Banana densities have no test.",
     [D + "parametric", D + "benchden", D + "rare/banana2d.py"],
     [("prob / log_prob", D + "parametric/CMultivariateNormal.py"), ("prob / log_prob", D + "benchden/")],
     "parameters and points symbolic; batches of up to 2 points (4 thorough), d up to 3 (6)", ["prob(x)", "log_prob(x)"])

prop("C02", "prob and log_prob agree, give one value per row, rows independent",
     "For every distribution prob(x) is a non-negative array with exactly one entry per row of the N x D input, equals exp(log_prob(x)), and each "
     "row's value depends only on that row (any batch, order or single-row call gives the same value) while the input is left unmodified; points "
     "of the wrong dimensionality are rejected. The base class answers through whichever of likelihood or log likelihood it was given.",
     ["inputs", "configurations"], "every batch of points, every parameter value, every distribution class",
     "Tests evaluate two classes on fixed points and never compare batch and single-row evaluation or prob with log_prob elsewhere.",
     [D + "distributions.py", D + "parametric", D + "mixture", D + "benchden", D + "rare"],
     [("CDistribution.prob/log_prob fall-back and _check_shape", D + "distributions.py")],
     "batches of up to 3 rows (6 thorough), all values symbolic", ["prob(x)", "log_prob(x)"])

prop("C03", "A mixture is the normalised weighted sum of its components",
     "A mixture's density is sum_k w_k p_k(x) with the given weights normalised to one after dropping NaN, negative and zero weights (all weights "
     "unusable: equal weights), its log density is the logarithm of that, and a Gaussian mixture is the mixture of its diagonal-covariance normals. "
     "Sampling draws each row from one component, chosen with exactly those probabilities and independently for every row; a caller's weight array is never modified.",
     ["inputs", "configurations"], "every weight vector (any sign, NaN), component parameter, evaluation point and random draw",
     "No test covers mixture weights; one metric test builds a GMM with fixed good weights.",
     [D + "mixture/CMixtureModel.py", D + "mixture/CGaussianMixtureModel.py"],
     [("set_weights", D + "mixture/CMixtureModel.py"), ("prob / log_prob / sample", D + "mixture/CMixtureModel.py")],
     "2-3 components (5 thorough), d = 1-2, up to 3 samples", ["prob(x)", "log_prob(x)", "sample(n)"])

prop("C04", "Box integrals are exact masses and support() bounds the distribution",
     "integral(a, b) of a uniform distribution is the exact probability of the box [a, b] for every query box (nested, overlapping or disjoint), "
     "non-negative, additive over a split box and 1 over the whole support; a delta has mass 1 exactly on boxes holding its location. The fall-back "
     "integral of every other distribution is the Monte-Carlo estimate from n points uniform in the box: volume times their average density, or hit or miss "
     "under the largest of them. support() "
     "returns the lower and upper limits of the documented support and the density is 0 outside it.",
     ["inputs", "configurations"], "every box, centre, radius and location",
     "The repository integrates two fixed distributions over their full support by Monte Carlo.",
     [D + "parametric/CMultivariateUniform.py", D + "parametric/CMultivariateDelta.py", D + "distributions.py"],
     [("integral", D + "parametric/"), ("support", D + "distributions.py")],
     "d = 1-2 (3 thorough), all boxes symbolic, Monte Carlo with 1-3 points", ["integral(a, b)", "support()"])

prop("C05", "sample(n) draws n x d points from the distribution's own parameters",
     "For every sampleable distribution sample(n) (default 1) returns an n x d array whose rows are independent draws governed by the current "
     "parameters: uniform points spread linearly over the box, normals with exactly the stored mean and covariance, exponentials with the stored mean, "
     "deltas at their location, and every row lies in the support and has positive density under the distribution that produced it.",
     ["inputs", "configurations", "schedules"], "every parameter vector, every n in the bound and every value the random source can return",
     "Sampling tests look at the histogram of one seed; the boundary draws (u = 0) and other shapes never occur.",
     [D + "parametric", D + "benchden", D + "rare"],
     [("sample", D + "parametric/")],
     "n = 1-3 (5 thorough), d = 1-3, random values symbolic", ["sample(n)"])

prop("C06", "Re-parameterising a distribution equals building a fresh one",
     "After moments, weights or location are updated (set_moments, set_weights, a new location), in any sequence and interleaved with evaluations and sampling, a distribution evaluates, "
     "samples and reports exactly like a new object constructed with the final parameters: cached inverses, determinants and terms never go stale. "
     "A covariance that is not usable is rejected rather than silently kept.",
     ["inputs", "histories"], "every sequence of updates within the bound, every mean and covariance",
     "No test changes the parameters of an existing distribution.",
     [D + "parametric/CMultivariateNormal.py", D + "parametric/CMultivariateUniform.py", D + "parametric/CMultivariateDelta.py", D + "distributions.py"],
     [("set_moments and the cached terms", D + "parametric/CMultivariateNormal.py"), ("loc / scale properties", D + "distributions.py")],
     "sequences of 1-3 updates, d = 1-2", ["set_moments", "prob(x)", "sample(n)"])

prop("C07", "A kernel density estimate is the weighted sum of scaled kernels at its points",
     "Each kernel is a symmetric, non-negative density with one value per point equal to its textbook formula, and a kernel density model evaluates "
     "at every query point to sum_i w_i prod_j K((x_j - x_ij)/h_j)/h_j with normalised weights, for every data set, weighting and bandwidth.",
     ["inputs", "configurations"], "every set of data points, weights, bandwidths and query points",
     "The kernel density estimate had no test and could not be constructed.",
     [D + "nonparametric/CKernelDensity.py", D + "mixture/CMixtureModel.py"],
     [("kernels and prob", D + "nonparametric/CKernelDensity.py")],
     "1-3 data points, d = 1-2, 1-2 query points", ["CKernelDensity.prob", "CKernel.prob"])

prop("C08", "ABC posteriors and conditioned models follow their generative definition",
     "The approximate Bayesian computation distribution evaluates to prior(z) times the surrogate likelihood of the observation given the simulated "
     "one at slack eps (log form: the sum), for every latent row independently, whichever of the likelihood forms was supplied, and reads the generator "
     "conditioned on exactly that latent point; its samples pass a prior draw through the generator and the sensor model; conditioning a generic noisy model shifts its output by the true value.",
     ["inputs", "configurations"], "every prior, latent, observation, slack and simulator output",
     "The ABC test plots a fixed posterior and asserts nothing about its values.",
     [D + "derived/CABCDistribution.py", D + "derived/CGenericNoisyFunction.py"],
     [("prob / log_prob", D + "derived/CABCDistribution.py")],
     "1-2 latent rows (3 thorough), d = 1-2", ["prob(x)", "log_prob(x)"])


prop("C11", "DM-AIS and LAIS weight samples by the deterministic mixture and adapt by rule",
     "The initial proposals are spread uniformly over the domain. Every DM-AIS and LAIS iteration draws K samples from each of the N Gaussian proposals, weights each sample by the target density over the equal mixture of "
     "the proposals it was drawn under, and normalises the weights of the call to one. DM-AIS then moves its proposals to new samples selected "
     "with probability proportional to those weights; LAIS moves each proposal by L Metropolis-Hastings steps that accept a move exactly when "
     "pi(new)/pi(old) exceeds the uniform draw. The sample history grows only by appending, aligned with the weights.",
     ["inputs", "configurations", "schedules"], "every target density, starting proposals, random draws and selection",
     "The sampler tests only look at an empirical divergence after thousands of samples of one seed; a wrong weight formula still passes.",
     [S + "dm_ais.py", S + "layered_ais.py", S + "base.py"],
     [("importance_sample / adapt", S + "dm_ais.py"), ("importance_sample / MH upper layer", S + "layered_ais.py")],
     "N = 1-2 (3), K = 1-2, L = 1-2, 1-2 iterations, d = 1-2", ["importance_sample", "proposals"])

prop("C12", "M-PMC weights by the current mixture and adapts weights and means by it",
     "M-PMC starts from proposals spread uniformly over the domain, draws each sample from the current mixture, weights it by target over mixture density, normalised, and then sets each component's mixture weight to "
     "the weighted sum of the responsibilities rho_k(x) (component share of the mixture density at x under the parameters it was drawn with) and its "
     "mean to the responsibility-weighted average of the samples (equations 14.1 and 14.2 of Cappe et al.). The mixture weights stay a "
     "probability vector and the reported proposals are the ones used next.",
     ["inputs", "configurations", "schedules"], "every target density, mixture state and random draw",
     "Tests look at a divergence from one seed; an error in the adaptation only slows convergence.",
     [S + "m_pmc.py", S + "base.py"], [("importance_sample / adapt", S + "m_pmc.py")],
     "N = 1-2 components, K = 1-3 samples, 1-2 iterations, d = 1-2", ["importance_sample", "proposals"])

prop("C13", "Tree-pyramid samples, weights and density follow the piecewise proposal",
     "The simple tree pyramid (no or leaf resampling) draws every sample from the proposal of its leaf inside that leaf's cell, its importance weight "
     "is the target density at that sample divided by the proposal density that generated it, on one common scale for the whole history and "
     "normalised to one where documented; samples, weights and target values stay aligned row by row over any number of calls. The "
     "density it reports is a normalised piecewise model over its leaves and 0 outside the domain. With the dm and mixture methods new samples of "
     "a normal-kernel pyramid are drawn from the mixture of its leaves and weighted by target over that mixture density.",
     ["inputs", "configurations", "schedules", "histories"], "every target density, domain, draw and sequence of calls",
     "Only an empirical divergence over one seed and the default configuration is tested.",
     [S + "tree_pyramid.py"], [("importance_sample, weigh, resampling, prob", S + "tree_pyramid.py")],
     "d = 1-2, up to 3 expansion rounds, haar and normal kernels", ["importance_sample", "prob(x)"])

prop("C14", "The tree pyramid is an exact partition, refined where volume is largest",
     "After any sequence of expansions the leaves of the pyramid partition the root cell exactly into dyadic cells without gaps or overlap, parents, "
     "children, depths, indices and leaf list agree, and find(x) returns the leaf that contains x. Sampling refines the leaves in "
     "order of largest importance volume (in the dm and mixture methods the leaves that hold points drawn from the mixture), and with an effective-sample-size target a leaf is expanded exactly when it holds enough samples and "
     "their normalised ESS is below the target.",
     ["inputs", "configurations", "histories"], "every sequence of expansions, query point, weight vector and target",
     "No test looks at the tree.",
     [S + "tree_pyramid.py"], [("expand, find, CTreePyramid, CESSExpansionCriteria", S + "tree_pyramid.py")],
     "d = 1-3, up to 3 expansions, 3 rounds", ["leaves", "find(x)"])

prop("C15", "HiDaisee splits, weights and updates its evidence tree as specified",
     "HiDaisee draws each sample uniformly in a leaf reached by choosing children in proportion to their scores, weights it by target over leaf "
     "density, and splits a leaf exactly when it has enough samples and its normalised ESS is below the target. Its leaves always partition the domain and hold "
     "exactly the samples that lie in them, re-weighted for their leaf; every ancestor's evidence is updated and the model density is "
     "the leaf's probability over its volume inside the domain and 0 outside.",
     ["inputs", "configurations", "schedules", "histories"], "every target density, domain, draw sequence, threshold",
     "Only an empirical divergence over one seed is tested.",
     [S + "hi_daisee.py"], [("importance_sample, split, update, prob", S + "hi_daisee.py")],
     "d = 1-2, 3-4 samples (6 thorough)", ["importance_sample", "prob(x)"])


ALL = [S + f for f in ("base.py", "dm_ais.py", "layered_ais.py", "m_pmc.py", "rejection.py", "metropolis_hastings.py", "nested.py",
                       "multi_nested.py", "tree_pyramid.py", "hi_daisee.py")]

prop("C10", "Asking a sampler for samples returns a coherent, growing history",
     "importance_sample returns an m x d array and m weights that are the stored history; rejection, MH, nested and HiDaisee reach exactly the requested n, "
     "the others at least n (each multi-nested call adds samples). Earlier samples stay (the tree pyramid redraws), asking for no more than present changes nothing, "
     "and split calls equal one call for DM-AIS, LAIS, M-PMC, HiDaisee and the tree pyramid. Rejection, MH, nested, HiDaisee and Haar "
     "tree-pyramid samples lie in the domain; weights of DM-AIS, LAIS, rejection, MH and the nested samplers sum to one.",
     ["inputs", "schedules", "histories"], "every target density, domain, random draw and sequence of requested sizes",
     "Tests ask each sampler once for one size with one seed.",
     ALL, [("importance_sample", S)], "nine samplers, d = 1-2, up to 4 samples (6 thorough), 2-3 calls; retries bounded",
     ["importance_sample(n)", "samples", "weights"])

prop("C16", "Rejection sampling accepts exactly when the scaled proposal covers the draw",
     "Rejection sampling proposes points from its proposal, accepts a point exactly when a uniform draw u satisfies u * scaling * q(x) <= pi(x) inside the domain, discards "
     "all others, keeps proposing until it has the requested number, and gives the accepted samples equal weights. This holds for "
     "every proposal density, scaling and target, and accepted samples are stored in order.",
     ["inputs", "configurations", "schedules"], "every target, proposal density, scaling, domain and draw",
     "One seed and the default uniform proposal; a shifted acceptance threshold still yields plausible samples.",
     [S + "rejection.py"], [("rejection_sample / importance_sample", S + "rejection.py")],
     "n = 1-3 over 1-2 calls, bounded number of proposals, d = 1-2", ["importance_sample", "sample"])

prop("C17", "Metropolis-Hastings accepts by its ratio, with burn-in and thinning",
     "The Metropolis-Hastings sampler starts inside the domain, proposes symmetric steps around the current state kept inside the domain, and moves exactly when the "
     "ratio pi(new) q(old|new) / (pi(old) q(new|old)) exceeds the uniform draw. It discards n_burnin states once per chain and keeps one "
     "state of every n_steps; the next call resumes from the last state, weights are equal and sample(n) returns n states.",
     ["inputs", "configurations", "schedules"], "every target density, symmetric or asymmetric step density, domain and draw",
     "One seed with default burn-in and step count; an inverted or unnormalised ratio is not visible in a coarse divergence.",
     [S + "metropolis_hastings.py"], [("mcmc_step / importance_sample / sample", S + "metropolis_hastings.py")],
     "burn-in 0-2, thinning 1-2, 1-2 samples, bounded retries, d = 1-2; a recorded finding covers steps that are rejected", ["importance_sample", "sample"])

prop("C18", "Nested samplers remove the lowest live point and replace it above its level",
     "Each nested-sampling step stores the live point of lowest target value (of every cluster for multi-nested) and replaces it by the first candidate inside the domain whose value is at "
     "least that level: a step from another live point, or a draw from the cluster's ellipsoid. The other live points are untouched, and weights are "
     "the removed level times the prior mass shell between X_i = exp(-i/N), normalised. Stored samples never change afterwards. A cluster's ellipsoid has the mean and inflated covariance of its "
     "points and the volume that goes with it; a subdivision is accepted exactly when every cluster has dims + 1 points, the total volume shrinks to the given ratio and the mean distance of the centres is large enough.",
     ["inputs", "configurations", "schedules"], "every target, set of live points, draw, base-point selection and cluster labelling",
     "One seed; the tests cannot see which live point is replaced or what its level is.",
     [S + "nested.py", S + "multi_nested.py"], [("importance_sample / resample", S + "nested.py"), ("importance_sample / clusters", S + "multi_nested.py")],
     "2-3 live points (4 with two clusters), 1-3 samples, 1-2 calls, bounded retries, d = 1-2; subdivisions of 3-6 points", ["samples", "weights", "live_points"])

prop("C19", "Reported cost counters equal the work actually done",
     "num_target_evals equals the number of points at which the target was evaluated, num_proposal_samples the points drawn from proposals (a chain's or live set's "
     "initial points excluded) and num_proposal_evals the proposal density evaluations, for every sampler and any sequence of calls. The acceptance rate is samples "
     "per proposed sample, and get_stats reports exactly these values, the number of samples and the NESS.",
     ["inputs", "schedules", "histories"], "every target, draw and sequence of calls",
     "No test reads a counter; benchmark results depend on them.",
     ALL, [("num_target_evals, num_proposal_samples, num_proposal_evals, get_stats", S + "base.py")],
     "nine samplers, d = 1-2, 1-2 calls of up to 3 samples, bounded retries", ["get_stats()", "get_acceptance_rate()"])

prop("C20", "reset() makes a used sampler behave like a fresh one",
     "After reset() any sampler has empty history and zero counters and, given the same random values, produces exactly the samples, weights, model density "
     "and counters a newly built sampler produces, whatever calls were made before: no proposal, live point, chain state, evidence or tree node survives.",
     ["inputs", "schedules", "histories"], "every target, draw and sequence of calls before the reset",
     "Samplers are never reset in tests, while the benchmark loop resets them before each repetition.",
     ALL, [("reset", S)], "nine samplers, d = 1-2, 1-2 calls before and one after the reset", ["reset()", "samples", "weights"])

prop("C21", "The normalised effective sample size follows its definition and range",
     "get_NESS is (sum w)^2 / (n sum w^2) for importance samplers: between 1/n and 1, unchanged when all weights are rescaled, 1 exactly when they are equal. MH and rejection use "
     "n over the autocorrelation time (cut at the first negative pair), invariant to affine changes of a dimension; nested samplers use exp(entropy)/n of their weights, "
     "ignoring zeros; the tree pyramid and HiDaisee use the weights of the samples they return.",
     ["inputs", "histories"], "every weight vector and sample history",
     "No test evaluates the NESS.",
     [S + "base.py", S + "metropolis_hastings.py", S + "rejection.py", S + "nested.py", S + "tree_pyramid.py", S + "hi_daisee.py", "ais_benchmarks/metrics/statistics.py"],
     [("get_approx_NESS / get_NESS", S), ("autocorr, NESS metric", "ais_benchmarks/metrics/statistics.py")],
     "up to 4 samples (5 thorough), d = 1-2", ["get_NESS()", "get_approx_NESS()"])

prop("C22", "Every sampler's own density is a coherent model of what it draws from",
     "As a distribution a sampler gives prob = exp(log_prob), one non-negative value per row, for any batch. The retained-sample models (rejection, MH, nested) are the "
     "equal mixture of n_samples_kde normals of the given bandwidth at uniformly selected samples, rebuilt after new samples; DM-AIS, LAIS and M-PMC "
     "report the mixture of their current proposals; the tree pyramid and HiDaisee their piecewise models.",
     ["inputs", "schedules", "histories"], "every target, draw, bandwidth and query point",
     "Tests only feed this density to a divergence of one run.",
     ALL, [("prob / log_prob / _update_model", S)], "nine samplers, d = 1-2, 1-2 calls, 1-2 kernels, 1-2 query points", ["prob(x)", "log_prob(x)"])

M = "ais_benchmarks/metrics/"
prop("C23", "KL divergence follows its definition and the laws of a divergence",
     "The KL divergence metric normalises both densities over the evaluated points and reports sum p log(p/q): never negative, zero when both are proportional, unchanged when "
     "either is rescaled or the points are reordered, and +inf when the distributions do not overlap. Points where either density is not positive are left out, "
     "and evaluation draws points from the support of the target.",
     ["inputs"], "every pair of densities, zeros included, at the evaluated points",
     "Two or three fixed normal pairs, compared with loose tolerances.",
     [M + "divergences.py", M + "base.py"], [("CKLDivergence.compute", M + "divergences.py")],
     "1-3 points (4 thorough), d = 1-2", ["compute(params)", "value"])

prop("C24", "Jensen-Shannon divergence is symmetric and lies between 0 and 1 bit",
     "The JSD metric normalises both densities over the evaluated points and reports the base-2 Jensen-Shannon divergence: symmetric in its arguments, within [0, 1], zero when "
     "both are proportional, 1 when they do not overlap, unchanged by rescaling either density or reordering the points.",
     ["inputs"], "every pair of densities, zeros included, at the evaluated points",
     "Fixed normal pairs with loose tolerances; disjoint supports never occur.",
     [M + "divergences.py", M + "base.py"], [("CJSDivergence.compute", M + "divergences.py")],
     "1-3 points (4 thorough), d = 1-2", ["compute(params)", "value"])

prop("C25", "EVMSE is the squared error between the two expected values",
     "The expected-value metric reports the squared Euclidean distance (summed over dimensions) between the expectations of the evaluation points under the two densities, each normalised over those points: "
     "non-negative, zero for proportional densities, symmetric, invariant to rescaling of a density, and it scales quadratically with the space.",
     ["inputs"], "every pair of densities and evaluation points",
     "Fixed normal pairs with loose tolerances.",
     [M + "divergences.py", M + "base.py"], [("CExpectedValueMSE.compute", M + "divergences.py")],
     "1-4 points (6 thorough), d = 1-3", ["compute(params)", "value"])

prop("C26", "Time and memory meters accumulate exactly the measured intervals",
     "The elapsed-time metric reports the sum of the durations between pre() and post() since the last reset, not counting the time in between, and the memory metric the "
     "growth of the heap between pre() and post(); reset() returns both to zero, and compute() reports without changing the accumulated value.",
     ["inputs", "schedules"], "every sequence of clock readings and heap sizes",
     "Real clocks cannot be pinned down, so nothing is asserted.",
     [M + "performance.py", M + "base.py"], [("pre / post / compute / reset", M + "performance.py")],
     "1-3 intervals (5 thorough) and a reset in between", ["value", "compute()"])


BM = "ais_benchmarks/benchmark/CBenchmark.py"
prop("C27", "evaluate_method runs each repetition to its size or time limit and meters it",
     "Each of the n_reps repetitions starts from a reset sampler and reset metrics and asks for one batch more than it has until max_samples are reached or the summed "
     "sampling time exceeds the limit, passing the time that is left. Every metric meters exactly the sampling calls and is computed once per batch with the target, "
     "the method and the evaluation sample count; one result row is written per batch, and the random generator is seeded only if rseed >= 0.",
     ["inputs", "schedules", "configurations"], "every sequence of batch sizes returned, durations, metric values, time limits and metric lists",
     "The benchmark loop has no test; its timing cannot be pinned down with real clocks.",
     [BM, M + "performance.py"], [("evaluate_method", BM)], "1-2 repetitions (3 thorough), up to 4 samples, durations and limits symbolic",
     ["CBenchmark.evaluate_method"])

prop("C28", "Every results row holds the right quantity under every column of the header",
     "The results file starts with a header and gets one row per evaluated batch for every target, method and repetition; each field is the value of its column's quantity for "
     "that batch: dimensions, number of samples, each configured metric to five decimals, NESS and acceptance rate to three, names, and the three cost "
     "counters. Each method is built for the target it runs on, and a new run rewrites the file.",
     ["inputs", "configurations"], "every metric list, metric value, counter and number of targets, methods and repetitions",
     "Nothing reads the results file in the tests; a shifted column is only seen in wrong plots.",
     [BM], [("run / write_results", BM)], "1-2 targets (3), 1-2 methods (3), 1-2 repetitions, up to 2 batches", ["results file"])

prop("C29", "A loaded benchmark is exactly what its configuration files say",
     "load_methods builds every configured method in order with its parameters, name, debug flag, dimensions and the exact limits of the domain; load_benchmark builds every "
     "target with its parameters, name and evaluation settings, aligned by index; load_config takes over metrics, repetitions, seed and output settings. Loading again "
     "replaces what was there, and a target that cannot be built raises ValueError.",
     ["inputs", "configurations", "histories"], "every parameter value, domain limit and sequence of loads",
     "No test loads a configuration; rounding of the limits is invisible for the shipped integers.",
     [BM, D + "distributions.py"], [("load_methods / load_benchmark / load_config", BM)], "1-3 targets and methods (6 thorough), d = 1-3",
     ["CBenchmark.methods", "CBenchmark.targets"])

PU, UM = "ais_benchmarks/utils/plot_utils.py", "ais_benchmarks/utils/misc.py"
prop("C30", "Evaluation grids are complete and evenly spaced; times split exactly",
     "make_grid gives, for every box and resolution, evenly spaced axes from the low to the high limit with as many points as the resolution fits (at least one), and "
     "every combination of axis values exactly once, in the order of the returned shape for one and two dimensions; grid_sample_distribution pairs each point with the (log) density at "
     "that point. time_to_hms splits a time into whole hours, whole minutes below 60 and the remaining seconds.",
     ["inputs"], "every box, resolution, density and time",
     "The grid helpers have no test.",
     [S + "base.py", PU, UM], [("make_grid / grid_sample_distribution", S + "base.py"), ("make_grid / grid_sample_distribution", PU), ("time_to_hms", UM)],
     "d = 1-3, up to 4 points per axis (6), times up to 3 h (30)", ["make_grid", "time_to_hms"])

prop("C31", "Generated mixtures have proper components, weights and support",
     "generateRandomGMM returns the requested number of components with deviations uniform in their range, means uniform in the space and five deviations away from its "
     "border, weights proportional to uniform draws and summing to one, and the tightest support that covers every component by five deviations; "
     "generateEggBoxGMM returns equal components on exactly the grid of the space, with the space widened by five deviations as support.",
     ["inputs", "schedules"], "every space, deviation range, number of components and random draw",
     "The generators have no test.",
     [UM, D + "mixture/CGaussianMixtureModel.py"], [("generateRandomGMM / generateEggBoxGMM", UM)], "1-3 components (5), d = 1-3", ["generateRandomGMM", "generateEggBoxGMM"])

prop("C32", "A Gaussian mixture survives the round trip through its YAML description",
     "to_dict of a Gaussian mixture, written to a benchmark file and loaded again with load_benchmark, gives a target of the same type, dimensions, support, means, "
     "deviations and density, with the name and evaluation settings that were asked for (or the documented defaults).",
     ["inputs", "histories"], "every mixture and evaluation setting",
     "to_dict has no test.",
     [D + "distributions.py", D + "mixture/CGaussianMixtureModel.py", BM], [("to_dict", D + "distributions.py"), ("load_benchmark", BM)],
     "1-3 components (5), d = 1-3", ["to_dict", "load_benchmark"])

prop("C33", "The stream reader and wait_for_ready report exactly what happened, whatever the timing",
     "CNonBlockingStreamReader behaves like a buffer of lines under every interleaving of its reading thread with the caller: read() hands out each line once and in "
     "order and \"\" when none waits, read_last_and_clear() returns the latest line (None if none waits) and leaves nothing or exactly that line in front of later "
     "ones, and the thread ends with its stream. wait_for_ready returns True only after is_ready did, before the time limit, and raises TimeoutError only when the "
     "limit passed without it.",
     ["schedules", "inputs"], "every interleaving, sequence of operations, readiness history and duration",
     "Nothing tests them, and a race of two threads shows up only by chance.",
     [UM, D + "distributions.py"], [("CNonBlockingStreamReader", UM), ("wait_for_ready", D + "distributions.py")],
     "1-3 lines (4), 2-3 operations, 2 polls (4)", ["read", "read_last_and_clear", "wait_for_ready"])

prop("C34", "Drawings show the values they stand for",
     "Density curves are the (scaled) density at evenly spread points of the whole range, level sets its values on the grid with x across and y up, at heights the "
     "density takes; tree bars, cells and prisms are exactly the leaf cells with area, height or volume equal to the leaf's weight; generative models show mean and three standard deviations of what they generate; the samplers draw q(x), every weighted "
     "proposal, every sample with its weight, live point and chain state where it is; visual items hold their function, ticks and labels, and after a sequence "
     "exactly the last item of each identifier is visible, completely.",
     ["inputs", "histories"], "every density, domain, tree, weight, sample and sequence of items",
     "No test draws anything.",
     [PU, S + "base.py", S + "tree_pyramid.py", "ais_benchmarks/visualization/matplotlib/viz_interface.py"],
     [("plot_pdf / plot_pdf2d / plot_tpyramid_* / plot_grid_* / rect_prism", PU), ("CMixtureSamplingMethod.draw", S + "base.py"),
      ("draw_2d_tree / draw_3d_tree", S + "tree_pyramid.py"), ("draw_sequence / draw_frames", "ais_benchmarks/visualization/matplotlib/viz_interface.py"),
      ("CFunction / CAxis", "ais_benchmarks/visualization/visuals.py")],
     "grids up to 2x3 (3x3), 1-2 expansions (4), 2 samples, 4 items (6)", ["draw", "draw_sequence"])


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k != '_note'}) + "\n")
    checks = [dict(property=p['id'], quick_cmd="./check %s quick" % p['id'], thorough_cmd="./check %s thorough" % p['id'],
                   technique="symbolic execution of /repo's Python with an SMT solver (z3, cvc5) deciding branches and assertions; "
                             "counterexamples replayed on the real code",
                   level="model_checking",
                   level_note="Holds for every value within the bounds (%s); trusts the numpy/random models in vf/ (validated by replaying "
                              "witnesses on real numpy), real arithmetic for floats." % p['_note'])
              for p in P if p['id'] not in [n['property'] for n in NA]]
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=NA,
             notes="No hooks in /repo. Every check loads /repo's current sources at run time; ./check <id> quick|thorough.")
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties")


if __name__ == '__main__':
    main()
