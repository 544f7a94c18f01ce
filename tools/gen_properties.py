#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand; the file is committed)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": state, "meaning": "carried between operations"}]
    if observe: a["observe_at"] = [observe]
    if hook is not None: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

U = "zhusuan/distributions/univariate.py"; M = "zhusuan/distributions/multivariate.py"
B = "zhusuan/distributions/base.py"; DU = "zhusuan/distributions/utils.py"
BN = "zhusuan/framework/bn.py"; MB = "zhusuan/framework/meta_bn.py"; FU = "zhusuan/framework/utils.py"

p("C01", "Shapes follow the sample/batch/value/group contract",
  "For every distribution, every set of parameter shapes that broadcast together and every grouping, a sample has shape [n] + batch + value (without [n] when no number of samples is asked for), and the (log) probability of any given value that broadcasts against batch + value has the broadcast batch shape without the grouped axes, whatever was known about the shapes when the graph was built. The reported batch and value shapes agree with those of the samples, and no statically known shape ever contradicts the shape at run time. Knowing fewer static shapes never changes a value.",
  ["inputs", "configurations"], "all distributions, parameter/value ranks and dimensions incl. 1 and broadcasting, static/partially known/unknown shapes, number of samples given as nothing, number or runtime scalar, group sizes as number or runtime scalar",
  "Tests sample a few shape tuples per distribution; the contract is over all combinations of broadcasting, ranks, static knowledge, grouping and sample-count forms.",
  [B, U, M, DU], [("sample / log_prob / prob / batch_shape / value_shape", B), ("per-class _sample, _batch_shape, _get_batch_shape, _log_prob", U + ", " + M), ("explicit broadcasting and dynamic shape helpers", DU)],
  observe="tensors returned by sample/log_prob/prob/batch_shape/value_shape")
p("C02", "Log probabilities equal the documented density",
  "For every distribution, valid parameters, floating type and value in the support, the log probability equals the density or mass documented for that distribution at that element, summed over the grouped axes, and the probability is its exponential. Every alternative parameterisation, option and alias denotes the same density. Negative values of a folded normal and values outside the interval of a uniform have probability zero. A distribution says correctly whether this is a density or a mass, and of which types its values and parameters are.",
  ["inputs", "configurations"], "all distributions x parameter/value/type/option combinations of the declared domains",
  "A unit test fixes a handful of parameter/value pairs at default options; a wrong term that vanishes at those pairs (unit scale, two categories, zero location, one type) goes unnoticed.",
  [U, M, DU], [("_log_prob / _prob of every class", U + ", " + M), ("log_combination", DU)], observe="log_prob(), prob()")
p("C03", "Samples follow the distribution that log_prob describes",
  "For every distribution and parameters, the law of a sample induced by the law of the underlying random numbers is the documented distribution, with values in its support and of the requested type, so sampling and probability evaluation describe the same distribution. Samples along the sample axis, and elements of the batch, use disjoint random numbers.",
  ["inputs", "configurations"], "all distributions, parameters and types; the whole space of underlying random outcomes, discretised",
  "Statistical tests on one sampled stream cannot see dependence between elements, wrong tails or support violations and tolerate sizeable errors; the law is a statement about all noise outcomes.",
  [U, M, DU], [("_sample of every class", U + ", " + M), ("open_interval_standard_uniform", DU)], observe="sample() as a function of the outputs of the random ops in the graph")
p("C04", "Gradients flow through samples and densities exactly as declared",
  "When a distribution is declared reparameterised, the gradient of a sample with respect to each parameter is the derivative of that sample with the randomness held fixed; when it is not, no gradient at all reaches any parameter through a sample. With the path-derivative option no gradient reaches the parameters through the log probability except through the given value; without it the gradient with respect to every parameter is the score.",
  ["inputs", "configurations"], "all distributions x is_reparameterized x use_path_derivative x parameters",
  "Existing tests check for a few classes that a gradient is (not) None; leaking or lost gradients along one parameter or one option silently bias every estimator.",
  [U, M, B], [("stop_gradient in _sample", U + ", " + M), ("path_param", B)], observe="tf.gradients of sample()/log_prob() wrt parameters")
p("C05", "Invalid parameters and values are rejected, never silently used",
  "Parameters of different or unsupported types, shapes that cannot be broadcast, ranks that are too small, non-scalar or negative group sizes, non-scalar temperatures and sample counts, and experiment counts that are not positive integer scalars are rejected with an error: when the distribution is built if this is already known, otherwise when anything depending on it is evaluated. Given values of the wrong type or an incompatible shape are rejected likewise, and with numeric checking on, parameters or values that make an intermediate result infinite or undefined raise an error.",
  ["inputs", "configurations", "fault_sequences"], "all distributions x kinds of invalid argument x statically known / runtime-only, with all valid neighbours accepted",
  "Tests check some static messages; runtime-only assertions have to be wired to every output that depends on the bad argument.",
  [B, U, M, DU], [("group_ndims and n_samples assertions, _check_input_shape", B), ("assert_same_float_dtype, assert_rank_at_least, assert_scalar, assert_positive_int32_scalar", DU), ("constructors", U + ", " + M)], observe="exceptions from constructors, sample, log_prob and Session.run")
p("C06", "A Bayesian net always reports the joint density of its current nodes",
  "After any sequence of adding nodes, reading values, querying nodes and asking for log densities, every stochastic node has one value (its observation, or one sample drawn once) that all later computation sees, its conditional log probability is the density of that value, and the log joint is the sum over exactly the stochastic nodes present, or the user's override. Adding a node under an existing name is an error and changes nothing, asking for an unknown or deterministic node's density is an error, and observed nodes report their observation.",
  ["histories", "programs"], "all operation sequences up to a bounded depth over a small alphabet of nodes, observations and queries",
  "The caches (sample, conditional log probability, log joint) interact with the order of operations; tests exercise single sequences.",
  [BN], [("_BayesianNet.stochastic/deterministic/get/cond_log_prob/log_joint", BN), ("StochasticTensor.tensor/cond_log_p caches", BN)], state="nodes, cached samples and log joint", observe="public API of BayesianNet and values from Session.run")
p("C07", "Observations reach exactly the model instance being built",
  "However model builds nest, repeat, fail with an exception or run in different threads at the same time, a net built by observing a model sees exactly the observations passed to that call, and a net built outside any such call sees none. Afterwards the enclosing build continues with its own observations. A model declared to reuse variables has one set of variables for all its builds, any other model a new one for every build.",
  ["histories", "schedules", "fault_sequences"], "all nesting trees up to a bounded size with an exception at every point, all interleavings of two building threads up to a preemption bound",
  "Context stacks are global state; leaks need a specific nesting, exception point or interleaving.",
  [MB, FU, BN], [("MetaBayesianNet.observe / _run_with_observations", MB), ("Context stack", FU), ("_get_observation", BN)], state="context stacks, variable scopes", observe="nodes and observations of the nets built; global variables created")
p("C08", "Node-building shortcuts equal explicit construction",
  "Every convenience method of a Bayesian net and every old-style node class builds the same node as constructing the distribution with the same arguments and adding it explicitly: every argument, including grouping, type, number of samples, reparameterisation, path derivative and numeric checks, reaches the distribution or the sampling unchanged. Aliases behave identically, and given values or observations override sampling in the same way.",
  ["programs", "configurations"], "all shortcut methods and classes x each argument at a non-default value",
  "About forty near-identical wrappers forward about ten arguments each; a dropped or swapped argument is invisible at its default value.",
  [BN, "zhusuan/legacy/framework/stochastic.py", "zhusuan/legacy/distributions/special.py"], [("BayesianNet.normal ... concrete", BN), ("legacy StochasticTensor wrappers", "zhusuan/legacy/framework/stochastic.py")], observe="properties, sample and log_prob of the distribution of the node; shape of its samples")
p("C09", "Stochastic nodes and objectives behave like the tensors they stand for",
  "Every arithmetic, comparison, logical and indexing expression on a stochastic node or variational objective, with the operand on either side, and every use as operator input, fetch or feed key, gives what the same expression on its tensor gives, including type conversion errors. Nodes are hashable and equal only to themselves, and using one as a truth value or iterating over it is an error.",
  ["programs", "inputs"], "all operators x operand orders x operand kinds x types",
  "Thirty operators times operand kinds and orders; swapped operands of a non-commutative operator only show for particular operands.",
  ["zhusuan/utils.py", BN, "zhusuan/variational/base.py"], [("TensorArithmeticMixin", "zhusuan/utils.py"), ("tensor conversion and session registration", BN + ", zhusuan/variational/base.py")], observe="values of expressions")
p("C10", "Variational objectives have the value their definition gives",
  "For any model, observations, variational family and sample axes, the evidence lower bound is the mean over the sample axes of log joint minus log variational density, the importance weighted bound and importance-sampled likelihood are the log of the mean importance weight, and the inclusive objective weights the variational log density by self-normalised importance weights. All latent nodes and only those enter, observed nodes of the variational net do not, an observation of a latent name takes precedence over its variational sample, and a model given as net or as log joint function gives the same value. Each objective builds the model once, and without latent nodes the evidence lower bound is the mean log joint. A latent node without observation or posterior, a missing sample axis where one is needed, fewer than two samples for the leave-one-out estimator, and giving both or neither description of the posterior are errors.",
  ["inputs", "programs", "configurations"], "all bounded combinations of numbers of latents, axes, model forms, posterior forms and importance weights incl. extreme ones",
  "Tests use one latent and one axis; sums over several latents, mixed observed/latent variational nets and axis handling are combinatorial.",
  ["zhusuan/variational/base.py", "zhusuan/variational/exclusive_kl.py", "zhusuan/variational/monte_carlo.py", "zhusuan/variational/inclusive_kl.py", "zhusuan/evaluation.py"], [("_log_joint_term, _entropy_term, bn", "zhusuan/variational/base.py"), ("_objective, importance, rws", "zhusuan/variational/*.py"), ("is_loglikelihood", "zhusuan/evaluation.py")], observe="Session.run of objectives and costs")
p("C11", "Gradient estimators are unbiased",
  "Averaged over all outcomes of the sampled latent variables, the gradient of the score-function, multi-sample (VIMCO) and importance-weighted surrogate costs equals minus the exact gradient of the corresponding bound with respect to variational and model parameters (VIMCO with the leave-one-out geometric mean baselines of its paper; for the inclusive objective, minus the self-normalised importance weighted gradient of the variational log density), and the reparameterised cost gives the pathwise gradient of the sampled bound. This holds in every training iteration, with or without variance reduction, baseline network and moving average, for every number of samples and position of the sample axis. Variance reduction subtracts exactly the given baseline and the (bias corrected) moving mean of the earlier learning signals, and the baseline cost is half the mean squared distance between learning signal and baseline.",
  ["inputs", "histories", "configurations"], "all outcomes of discrete latents for bounded models and numbers of samples, several consecutive iterations",
  "Tests compare noisy averages for one model; bias from a wrong baseline, a leaked gradient or a state update is below their tolerance or needs a second iteration.",
  ["zhusuan/variational/exclusive_kl.py", "zhusuan/variational/monte_carlo.py", "zhusuan/variational/inclusive_kl.py"], [("reinforce", "zhusuan/variational/exclusive_kl.py"), ("vimco", "zhusuan/variational/monte_carlo.py"), ("importance", "zhusuan/variational/inclusive_kl.py")], state="moving mean of the learning signal", observe="tf.gradients of surrogate costs under enumerated latent outcomes")
p("C12", "An HMC step is a valid Metropolis transition for every chain",
  "Given the momenta and acceptance draws, one step moves every chain by the documented number of leapfrog steps with the current step size and mass, and accepts it exactly when the draw is below min(1, exp(energy difference)), otherwise leaving that chain and all its latent variables untouched; divergent proposals are rejected. The reported old and new energies, log densities, momenta, acceptance rates and samples are those of this transition, and chains do not influence one another. The proposal is reversible and volume preserving, so the target is left invariant.",
  ["inputs", "histories", "configurations"], "all grids of positions, momenta, acceptance draws, leapfrog counts, chain/data shapes and multi-latent models within bounds; sequences of steps",
  "Tests check moments of long runs of one target; per-chain accept decisions, several latents and rejection paths are not visible there.",
  ["zhusuan/hmc.py"], [("leapfrog, acceptance, Metropolis test", "zhusuan/hmc.py")], state="latent variables", observe="latent variables and HMCInfo fetched with the sampling op")
p("C13", "HMC adaptation happens only when, and as, it is switched on",
  "With step size or mass adaptation switched off the sampler keeps using fixed values: the given step size before any adaptation, the averaged adapted value afterwards, and the last estimated mass; with it on, the step size follows the dual averaging recursion and the mass is the inverse of the exponentially weighted variance from the configured iteration on, unit before. This holds for every sequence of on/off choices, and the step size and mass always stay finite and positive.",
  ["histories", "configurations"], "all on/off histories of both switches up to a bounded length, several settings of the adaptation parameters",
  "The adaptation state is carried across iterations and depends on the history of switches; tests run adaptation off or a single pattern.",
  ["zhusuan/hmc.py"], [("StepsizeTuner", "zhusuan/hmc.py"), ("ExponentialWeightedMovingVariance", "zhusuan/hmc.py"), ("_init_step_size, _adapt_mass", "zhusuan/hmc.py")], state="step size, dual averaging statistics, moving mean/variance, iteration counter", observe="updated_step_size, init_momentum, hamiltonian and samples of HMCInfo")
p("C14", "Stochastic gradient samplers perform their documented update",
  "Given the random numbers, each call of the sampling operation of SGLD, preconditioned SGLD, SGHMC and SGNHT (both integrator orders, scalar and vector friction) changes every latent variable, momentum, friction and preconditioner exactly as the documented update equation says for the gradient of the log joint at the current mini-batch, and reports those values. Momenta are resampled exactly once in every n calls, or never when disabled; learning rates fed at run time take effect in that call; chains and latent variables get independent noise of the documented variance.",
  ["histories", "inputs", "configurations"], "all configurations x histories of several calls x noise vectors on a grid",
  "Tests look at the error of a density estimate after thousands of steps of a one-dimensional target.",
  ["zhusuan/sgmcmc.py"], [("_update of SGLD, PSGLD, SGHMC, SGNHT", "zhusuan/sgmcmc.py"), ("_apply_updates", "zhusuan/sgmcmc.py")], state="latents, momenta, friction, preconditioner, iteration counter", observe="variables and info after each call")
p("C15", "One training or sampling step has one outcome under every schedule",
  "For every legal execution order of the operations in one run of a sampling operation or of a gradient step (samplers with several coupled latent variables, adaptation on or off, score-function training with moving average), the values fetched and the variables left behind are the same. In particular no variable is overwritten before everything that needs its old value has read it.",
  ["schedules"], "all orders of conflicting variable accesses not fixed by data or control dependencies",
  "The runtime picks an order by timing; a test run sees one of them.",
  ["zhusuan/hmc.py", "zhusuan/sgmcmc.py", "zhusuan/variational/exclusive_kl.py"], [("assign ops and control dependencies", "zhusuan/hmc.py, zhusuan/sgmcmc.py, zhusuan/variational/exclusive_kl.py")], state="graph variables", observe="fetched values and variables after one step under every explored order")
p("C16", "Annealed importance sampling is unbiased and follows its schedule",
  "The temperature schedule starts at the proposal, ends at the target and is nondecreasing with the documented number of intermediate distributions and the requested shape, and the returned log likelihood is the log mean over chains of the telescoping importance weights evaluated at the states visited. Averaged over all outcomes of proposal draws and transitions that leave the intermediate distributions invariant, the mean importance weight equals the true marginal likelihood, for every number of temperatures, chains and adaptation settings.",
  ["histories", "inputs", "configurations"], "all paths of finite-state transition kernels for bounded numbers of temperatures and states",
  "Tests compare one noisy estimate with a loose tolerance; an off-by-one in the telescoping sum is within it.",
  ["zhusuan/evaluation.py"], [("AIS", "zhusuan/evaluation.py")], state="temperature, accumulated log weights", observe="run(), fetched values of the AIS object")
p("C17", "Normalizing flows return the density of the transformed samples",
  "For every input, parameter value, number of flows and leading shape, the log density returned by planar and inverse autoregressive flows is the input log density minus the log absolute determinant of the Jacobian of the returned transformation, and the transformation is invertible. The autoregressive network's outputs for a coordinate depend only on earlier coordinates. Each point is transformed independently of the others, and mismatching shapes are errors.",
  ["inputs", "configurations"], "grids of parameters and points x dimensions x numbers of flows x leading shapes, numerical Jacobians",
  "Tests check one random input near the zero initialisation, where wrong Jacobian terms are invisible.",
  ["zhusuan/transform.py"], [("planar_normalizing_flow, inv_autoregressive_flow, linear_ar", "zhusuan/transform.py")], observe="returned samples and log probabilities")
p("C18", "Backward operation search returns exactly the needed operations in order",
  "For every graph, set of seeds and set of tensors treated as inputs, the result contains each operation needed to compute the seeds from those inputs (through data or control edges) exactly once, nothing else, and every operation after all its needed predecessors. Variables of a function declared to reuse variables are created by its first call and shared by all later ones.",
  ["inputs", "programs"], "all directed acyclic graphs up to a bounded number of operations with data/control edges, all seed sequences and input sets",
  "Tests use four small shapes; traversal errors depend on sharing patterns and seed order.",
  [FU], [("get_backward_ops, reuse_variables", FU)], observe="returned list")
p("C19", "Log-sum-exp and log-mean-exp are exact, stable and shape preserving",
  "For every tensor, axes and keep-dimension choice, the results equal the logarithm of the sum or mean of exponentials over exactly those axes without overflow or underflow, including infinite and very large or small entries; all weights zero gives minus infinity. Merging dictionaries gives later ones precedence and changes none of them.",
  ["inputs"], "all tensors over a small alphabet of extreme values up to a bounded size, all axis subsets",
  "Tests use one random matrix; extremes and axis combinations are where stability fails.",
  ["zhusuan/utils.py"], [("log_mean_exp, log_sum_exp, merge_dicts", "zhusuan/utils.py")], observe="returned values")
p("C20", "Effective sample size follows its definition",
  "For every chain, the effective sample size of a scalar chain is n / (1 + 2 * sum of autocorrelations from lag one up to the first negative one), independent of shifting and scaling the chain, and for vector chains the reported value is the smallest positive one over dimensions after discarding the burn-in.",
  ["inputs"], "all chains over a small alphabet up to a bounded length",
  "The test only asserts two inequalities on long random chains.",
  ["zhusuan/diagnostics.py"], [("effective_sample_size, effective_sample_size_1d", "zhusuan/diagnostics.py")], observe="returned values")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
