#!/usr/bin/env python3
"""Writes /verif/KNOWN_FINDINGS.json (run by hand; the file is committed, checks only read it)."""
import json, os, subprocess
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h\t%s"], text=True).splitlines()
C = {s: h for h, s in (l.split("\t", 1) for l in log)}
def c(prefix):
    m = [h for s, h in C.items() if s.startswith(prefix)]
    assert len(m) == 1, (prefix, m)
    return m[0]
F = [
 ("C03", "fix: fold samples of FoldNormal", "FoldNormal(mean=0, std=1).sample(): negative samples"),
 ("C04", "fix: stop gradients through samples of Gamma", "gradients of Gamma/Beta/InverseGamma/Dirichlet samples reached their parameters although is_reparameterized is False"),
 ("C04", "fix: stop gradients through samples of Poisson", "Poisson(rate, dtype=tf.float32).sample(): tf.gradients of anything depending on it raised LookupError"),
 ("C01", "fix: set the static shape of Gamma", "Gamma/Beta/InverseGamma/Dirichlet samples lost statically known dimensions"),
 ("C10", "fix: reject latent nodes", "elbo(model with a latent node that is neither observed nor in the variational net) raised nothing"),
 ("C06", "fix: reject duplicate names of deterministic", "bn.normal('a', ..); bn.deterministic('a', ..) silently dropped the stochastic node"),
 ("C06", "fix: keep node names unique and the log joint current", "with zs.BayesianNet() as bn: zs.Normal('a', ..); zs.Normal('a', ..) replaced the node; bn.log_joint(); zs.Normal('b', ..); bn.log_joint() left out b"),
 ("C07", "fix: let MetaBayesianNet be built without", "MetaBayesianNet(f).observe() raised TypeError"),
 ("C11", "fix: read the REINFORCE moving mean", "reinforce(): moving mean updated before or after it was read, depending on the schedule (also C15)"),
 ("C10", "fix: let reinforce() work", "elbo(...).reinforce() without latent nodes raised TypeError"),
 ("C15", "fix: make SGLD and PSGLD update all", "SGLD/PSGLD with two coupled latents: second gradient could see the first latent already updated"),
 ("C15", "fix: increment the SGMCMC iteration", "SGHMC/SGNHT: resampling decision raced with the increment of the iteration counter (also C14)"),
 ("C19", "fix: log_mean_exp and log_sum_exp", "log_mean_exp([-inf, -inf]) was nan"),
 ("C20", "fix: do not count lag 0", "effective sample size of an uncorrelated chain was n/3"),
 ("C17", "fix: avoid overflow in the planar flow", "planar flow with w.u > 88 returned inf/nan"),
 ("C17", "fix: do not let rounding errors", "planar flow with w = 100, u = -1 failed with \"w'u must be greater or equal to -1\""),
 ("C07", "fix: keep the context stacks", "two threads observing models at the same time saw each other's observations"),
 ("C08", "fix: forward is_continuous", "zs.Empirical('x', tf.int32, [2], is_continuous=True).dist.is_continuous was False"),
 ("C08", "fix: probability of values an Implicit", "zs.Implicit('x', tf.constant([1., 2.]), value_shape=[]).dist.prob([1., 3.]) was [inf, -inf]"),
 ("C09", "fix: operators with a numpy array", "np.array([1., 2.], 'float32') + node gave an object array of Tensors"),
 ("C09", "fix: reflected operators of tensor-like", "2 * node raised TypeError for a float32 node"),
 ("C11", "fix: let REINFORCE's moving mean", "reinforce(variance_reduction=True) of a float64 model raised TypeError"),
 ("C15", "fix: do not change the HMC step size", "HMC with step size adaptation fed False after True: the step size was overwritten before or after the leapfrog steps used it, depending on the schedule (also C12, C13)"),
 ("C13", "fix: accept a Tensor as the initial step", "HMC(step_size=Tensor, adapt_step_size=...) raised TypeError"),
 ("C13", "fix: shrink the HMC log step size", "dual averaging shrank the log step size towards 10*step_size instead of log(10*step_size)"),
 ("C13", "fix: keep the given HMC step size", "adapt_step_size False from the start: step size became 1 after the first iteration"),
 ("C13", "fix: do not search for an HMC step", "step size search ran although adaptation was off"),
 ("C13", "fix: use unit mass in HMC", "adapt_mass False from the start: infinite mass from mass_collect_iters on, the chain never moved"),
 ("C01", "fix: Implicit probabilities are those", "Implicit(samples [2, 3], value_shape=[3]).log_prob(x): shape (2, 3) instead of (2,)"),
]
out = {"comment": "status 'fixed' entries suppress nothing. status 'known' entries name one exact case of a check.",
       "findings": [{"status": "fixed", "property": p, "line": "fixed: property=%s %s %s" % (p, c(pre), w)} for p, pre, w in F]}
out["findings"] += json.load(open("/verif/tools/known_open.json")) if os.path.exists("/verif/tools/known_open.json") else []
json.dump(out, open("/verif/KNOWN_FINDINGS.json", "w"), indent=1)
