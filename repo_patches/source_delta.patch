From d32cd64d9aa2d7c8b64744bfd1242157b3c106f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:43 +0000
Subject: [PATCH 01/30] fix: fold samples of FoldNormal onto the nonnegative
 half line

FoldNormal._sample returned plain Normal samples, so about half of them were
negative and had zero density under the distribution's own log_prob.
---
 zhusuan/distributions/univariate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zhusuan/distributions/univariate.py b/zhusuan/distributions/univariate.py
index 3c0bf87..8461a74 100644
--- a/zhusuan/distributions/univariate.py
+++ b/zhusuan/distributions/univariate.py
@@ -309,7 +309,8 @@ class FoldNormal(Distribution):
             mean = tf.stop_gradient(mean)
             std = tf.stop_gradient(std)
         shape = tf.concat([[n_samples], self.batch_shape], 0)
-        samples = tf.random_normal(shape, dtype=self.dtype) * std + mean
+        samples = tf.abs(
+            tf.random_normal(shape, dtype=self.dtype) * std + mean)
         static_n_samples = n_samples if isinstance(n_samples, int) else None
         samples.set_shape(
             tf.TensorShape([static_n_samples]).concatenate(
-- 
2.43.0


From c1bc3a07b44fcf88706f9671342c30f40e2bee88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:43 +0000
Subject: [PATCH 02/30] fix: stop gradients through samples of Gamma, Beta,
 InverseGamma, Dirichlet

These distributions are not reparameterized (is_reparameterized is False), but
tf.random_gamma is differentiable, so gradients of their samples leaked into
alpha and beta and biased score function estimators.
---
 zhusuan/distributions/multivariate.py | 3 ++-
 zhusuan/distributions/univariate.py   | 9 +++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/zhusuan/distributions/multivariate.py b/zhusuan/distributions/multivariate.py
index a3a5a46..c8567ed 100644
--- a/zhusuan/distributions/multivariate.py
+++ b/zhusuan/distributions/multivariate.py
@@ -660,7 +660,8 @@ class Dirichlet(Distribution):
     def _sample(self, n_samples):
         samples = tf.random_gamma([n_samples], self.alpha,
                                   beta=1, dtype=self.dtype)
-        return samples / tf.reduce_sum(samples, -1, keepdims=True)
+        return tf.stop_gradient(
+            samples / tf.reduce_sum(samples, -1, keepdims=True))
 
     def _log_prob(self, given):
         given, alpha = maybe_explicit_broadcast(
diff --git a/zhusuan/distributions/univariate.py b/zhusuan/distributions/univariate.py
index 8461a74..86afa7d 100644
--- a/zhusuan/distributions/univariate.py
+++ b/zhusuan/distributions/univariate.py
@@ -732,8 +732,9 @@ class Gamma(Distribution):
                                          self.beta.get_shape())
 
     def _sample(self, n_samples):
-        return tf.random_gamma([n_samples], self.alpha,
-                               beta=self.beta, dtype=self.dtype)
+        return tf.stop_gradient(
+            tf.random_gamma([n_samples], self.alpha,
+                            beta=self.beta, dtype=self.dtype))
 
     def _log_prob(self, given):
         alpha, beta = self.alpha, self.beta
@@ -829,7 +830,7 @@ class Beta(Distribution):
             self.alpha, self.beta, 'alpha', 'beta')
         x = tf.random_gamma([n_samples], alpha, beta=1, dtype=self.dtype)
         y = tf.random_gamma([n_samples], beta, beta=1, dtype=self.dtype)
-        return x / (x + y)
+        return tf.stop_gradient(x / (x + y))
 
     def _log_prob(self, given):
         # TODO: not right when given=0 or 1
@@ -1142,7 +1143,7 @@ class InverseGamma(Distribution):
     def _sample(self, n_samples):
         gamma = tf.random_gamma([n_samples], self.alpha,
                                 beta=self.beta, dtype=self.dtype)
-        return 1 / gamma
+        return tf.stop_gradient(1 / gamma)
 
     def _log_prob(self, given):
         alpha, beta = self.alpha, self.beta
-- 
2.43.0


From 5ca48880c4c82f77eddf5c52ff4e1691114f78ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:43 +0000
Subject: [PATCH 03/30] fix: reject latent nodes that have no variational
 posterior

The validation iterated over the names of the nodes instead of the nodes, so
it never raised the documented error.
---
 zhusuan/variational/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zhusuan/variational/base.py b/zhusuan/variational/base.py
index 44dc7d2..659c013 100644
--- a/zhusuan/variational/base.py
+++ b/zhusuan/variational/base.py
@@ -89,7 +89,7 @@ class VariationalObjective(TensorArithmeticMixin):
         self._observed = copy.copy(observed)
 
     def _validate_variational_inputs(self, bn):
-        for node in bn.nodes:
+        for node in six.itervalues(bn.nodes):
             if isinstance(node, StochasticTensor) and (not node.is_observed()):
                 raise ValueError(
                     "Stochastic node '{}' in the model is neither "
-- 
2.43.0


From e6c1a30f0ff9c9a96ae3751d7001b59922c2fc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:43 +0000
Subject: [PATCH 04/30] fix: reject duplicate names of deterministic nodes

deterministic() silently replaced an existing node of the same name, dropping
a stochastic node from the log joint.
---
 zhusuan/framework/bn.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/zhusuan/framework/bn.py b/zhusuan/framework/bn.py
index 3fdeb1b..beaf488 100644
--- a/zhusuan/framework/bn.py
+++ b/zhusuan/framework/bn.py
@@ -345,6 +345,12 @@ class _BayesianNet(object):
             return ret
         return None
 
+    def _check_name_unique(self, name):
+        if name in self._nodes:
+            raise ValueError(
+                "There exists a node with name '{}' in the {}. Names should "
+                "be unique.".format(name, BayesianNet.__name__))
+
     def stochastic(self, name, dist, **kwargs):
         """
         Add a stochastic node in this :class:`BayesianNet`.
@@ -358,10 +364,7 @@ class _BayesianNet(object):
 
         :return: A :class:`StochasticTensor`.
         """
-        if name in self._nodes:
-            raise ValueError(
-                "There exists a node with name '{}' in the {}. Names should "
-                "be unique.".format(name, BayesianNet.__name__))
+        self._check_name_unique(name)
         # invalidate the log joint cache
         if hasattr(self, "_log_joint_cache"):
             del self._log_joint_cache
@@ -380,6 +383,7 @@ class _BayesianNet(object):
 
         :return: A Tensor. The same as `input_tensor`.
         """
+        self._check_name_unique(name)
         input_tensor = tf.convert_to_tensor(input_tensor)
         self._nodes[name] = input_tensor
         return input_tensor
-- 
2.43.0


From 112eaad8475ef4862e8d5340a32b3f69da8ef160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:07 +0000
Subject: [PATCH 05/30] fix: set the static shape of Gamma, Beta, InverseGamma,
 Dirichlet samples

The static shape of tf.random_gamma loses known dimensions when the parameters
are partially defined; the other distributions set it explicitly.
---
 zhusuan/distributions/multivariate.py |  7 ++++++-
 zhusuan/distributions/univariate.py   | 21 ++++++++++++++++++---
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/zhusuan/distributions/multivariate.py b/zhusuan/distributions/multivariate.py
index c8567ed..cec6e79 100644
--- a/zhusuan/distributions/multivariate.py
+++ b/zhusuan/distributions/multivariate.py
@@ -660,8 +660,13 @@ class Dirichlet(Distribution):
     def _sample(self, n_samples):
         samples = tf.random_gamma([n_samples], self.alpha,
                                   beta=1, dtype=self.dtype)
-        return tf.stop_gradient(
+        samples = tf.stop_gradient(
             samples / tf.reduce_sum(samples, -1, keepdims=True))
+        static_n_samples = n_samples if isinstance(n_samples, int) else None
+        samples.set_shape(
+            tf.TensorShape([static_n_samples]).concatenate(
+                self.get_batch_shape()).concatenate(self.get_value_shape()))
+        return samples
 
     def _log_prob(self, given):
         given, alpha = maybe_explicit_broadcast(
diff --git a/zhusuan/distributions/univariate.py b/zhusuan/distributions/univariate.py
index 86afa7d..4253eb6 100644
--- a/zhusuan/distributions/univariate.py
+++ b/zhusuan/distributions/univariate.py
@@ -732,9 +732,14 @@ class Gamma(Distribution):
                                          self.beta.get_shape())
 
     def _sample(self, n_samples):
-        return tf.stop_gradient(
+        samples = tf.stop_gradient(
             tf.random_gamma([n_samples], self.alpha,
                             beta=self.beta, dtype=self.dtype))
+        static_n_samples = n_samples if isinstance(n_samples, int) else None
+        samples.set_shape(
+            tf.TensorShape([static_n_samples]).concatenate(
+                self.get_batch_shape()))
+        return samples
 
     def _log_prob(self, given):
         alpha, beta = self.alpha, self.beta
@@ -830,7 +835,12 @@ class Beta(Distribution):
             self.alpha, self.beta, 'alpha', 'beta')
         x = tf.random_gamma([n_samples], alpha, beta=1, dtype=self.dtype)
         y = tf.random_gamma([n_samples], beta, beta=1, dtype=self.dtype)
-        return tf.stop_gradient(x / (x + y))
+        samples = tf.stop_gradient(x / (x + y))
+        static_n_samples = n_samples if isinstance(n_samples, int) else None
+        samples.set_shape(
+            tf.TensorShape([static_n_samples]).concatenate(
+                self.get_batch_shape()))
+        return samples
 
     def _log_prob(self, given):
         # TODO: not right when given=0 or 1
@@ -1143,7 +1153,12 @@ class InverseGamma(Distribution):
     def _sample(self, n_samples):
         gamma = tf.random_gamma([n_samples], self.alpha,
                                 beta=self.beta, dtype=self.dtype)
-        return tf.stop_gradient(1 / gamma)
+        samples = tf.stop_gradient(1 / gamma)
+        static_n_samples = n_samples if isinstance(n_samples, int) else None
+        samples.set_shape(
+            tf.TensorShape([static_n_samples]).concatenate(
+                self.get_batch_shape()))
+        return samples
 
     def _log_prob(self, given):
         alpha, beta = self.alpha, self.beta
-- 
2.43.0


From c9bda5a449521db7420d9e1d288ddbe4ec891833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:07 +0000
Subject: [PATCH 06/30] fix: let MetaBayesianNet be built without args or
 kwargs

Both default to None, and observe() then failed to unpack them.
---
 zhusuan/framework/meta_bn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zhusuan/framework/meta_bn.py b/zhusuan/framework/meta_bn.py
index 0ffbf5a..acc5f42 100644
--- a/zhusuan/framework/meta_bn.py
+++ b/zhusuan/framework/meta_bn.py
@@ -60,8 +60,8 @@ class MetaBayesianNet(object):
                              "is not provided.")
         else:
             self._f = f
-        self._args = copy.copy(args)
-        self._kwargs = copy.copy(kwargs)
+        self._args = () if args is None else copy.copy(args)
+        self._kwargs = {} if kwargs is None else copy.copy(kwargs)
         self._scope = scope
         self._reuse_variables = reuse_variables
         self._log_joint = None
-- 
2.43.0


From 8872a5131bdaa412dc178302c7b4192daed7bc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:07 +0000
Subject: [PATCH 07/30] fix: read the REINFORCE moving mean before updating it

The subtraction and the update of the moving mean were unordered, so depending
on the schedule the baseline already contained the current learning signal,
which biases the gradient estimate.
---
 zhusuan/variational/exclusive_kl.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zhusuan/variational/exclusive_kl.py b/zhusuan/variational/exclusive_kl.py
index d2eceb1..8cd5cad 100644
--- a/zhusuan/variational/exclusive_kl.py
+++ b/zhusuan/variational/exclusive_kl.py
@@ -212,9 +212,12 @@ class EvidenceLowerBoundObjective(VariationalObjective):
                 initializer=tf.constant_initializer(0.),
                 trainable=False)
 
-            update_mean = moving_averages.assign_moving_average(
-                moving_mean, bc, decay=decay)
+            # The moving mean must be read before it is updated, otherwise the
+            # baseline would depend on the current samples.
             l_signal = l_signal - moving_mean
+            with tf.control_dependencies([l_signal]):
+                update_mean = moving_averages.assign_moving_average(
+                    moving_mean, bc, decay=decay)
             with tf.control_dependencies([update_mean]):
                 l_signal = tf.identity(l_signal)
 
-- 
2.43.0


From bf5677edf8a1987bf1bd291fa36b6b159d144397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:07 +0000
Subject: [PATCH 08/30] fix: let reinforce() work when there is no latent node

The entropy term is None then; sgvb() and the cost below already handle it.
---
 zhusuan/variational/exclusive_kl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zhusuan/variational/exclusive_kl.py b/zhusuan/variational/exclusive_kl.py
index 8cd5cad..adcb78d 100644
--- a/zhusuan/variational/exclusive_kl.py
+++ b/zhusuan/variational/exclusive_kl.py
@@ -193,7 +193,9 @@ class EvidenceLowerBoundObjective(VariationalObjective):
         :return: A Tensor. The surrogate cost for Tensorflow optimizers to
             minimize.
         """
-        l_signal = self._log_joint_term() + self._entropy_term()
+        l_signal = self._log_joint_term()
+        if self._entropy_term() is not None:
+            l_signal += self._entropy_term()
         baseline_cost = None
 
         if variance_reduction:
-- 
2.43.0


From 4fe337c946ab1c9ac6f4bf810a487c2621050d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:07 +0000
Subject: [PATCH 09/30] fix: make SGLD and PSGLD update all latent variables
 simultaneously

With several latent variables the assignment of one could run before the
gradient of another was computed, so the result depended on the schedule.
---
 zhusuan/sgmcmc.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/zhusuan/sgmcmc.py b/zhusuan/sgmcmc.py
index dfcccfd..1a529a3 100644
--- a/zhusuan/sgmcmc.py
+++ b/zhusuan/sgmcmc.py
@@ -189,15 +189,21 @@ class SGLD(SGMCMC):
         pass
 
     def _update(self, qs, grad_func):
-        return zip(*[self._update_single(q, grad)
-                     for q, grad in zip(qs, grad_func(qs))])
+        new_qs = [self._update_single(q, grad)
+                  for q, grad in zip(qs, grad_func(qs))]
+        return self._assign_updates(qs, new_qs)
 
     def _update_single(self, q, grad):
-        new_q = q + 0.5 * self.lr * grad + tf.random_normal(
+        return q + 0.5 * self.lr * grad + tf.random_normal(
             tf.shape(q), stddev=tf.sqrt(self.lr))
-        update_q = q.assign(new_q)
-        info = {"q": new_q}
-        return update_q, info
+
+    def _assign_updates(self, qs, new_qs):
+        # No latent variable may be overwritten before all the new values
+        # (whose gradients may depend on every latent variable) are computed.
+        with tf.control_dependencies(new_qs):
+            update_ops = [q.assign(new_q) for q, new_q in zip(qs, new_qs)]
+        infos = [{"q": new_q} for new_q in new_qs]
+        return update_ops, infos
 
 
 class PSGLD(SGLD):
@@ -244,17 +250,15 @@ class PSGLD(SGLD):
         self.vs = self.preconditioner._define_variables(qs)
 
     def _update(self, qs, grad_func):
-        return zip(*[self._update_single(q, grad, aux)
-                     for q, grad, aux in zip(qs, grad_func(qs), self.vs)])
+        new_qs = [self._update_single(q, grad, aux)
+                  for q, grad, aux in zip(qs, grad_func(qs), self.vs)]
+        return self._assign_updates(qs, new_qs)
 
     def _update_single(self, q, grad, aux):
         g = self.preconditioner._get_preconditioner(
             self.preconditioner_hparams, q, grad, aux)
-        new_q = q + 0.5 * self.lr * g * grad + tf.random_normal(
+        return q + 0.5 * self.lr * g * grad + tf.random_normal(
             tf.shape(q), stddev=tf.sqrt(self.lr * g))
-        update_q = q.assign(new_q)
-        info = {"q": new_q}
-        return update_q, info
 
 
 class SGHMC(SGMCMC):
-- 
2.43.0


From 5a256cfed978f39a971d269dd2760e68951cea45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:07 +0000
Subject: [PATCH 10/30] fix: increment the SGMCMC iteration counter after the
 updates

The increment was unordered with the reads that decide whether the momentum is
resampled, so the resampling iteration depended on the schedule.
---
 zhusuan/sgmcmc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zhusuan/sgmcmc.py b/zhusuan/sgmcmc.py
index 1a529a3..6bdb37b 100644
--- a/zhusuan/sgmcmc.py
+++ b/zhusuan/sgmcmc.py
@@ -104,8 +104,9 @@ class SGMCMC(object):
         self._define_variables(qs)
         update_ops, infos = self._update(qs, grad_func)
 
-        with tf.control_dependencies([self.t.assign_add(1)]):
-            sample_op = tf.group(*update_ops)
+        # The updates read the iteration counter, so it is incremented last.
+        with tf.control_dependencies(update_ops):
+            sample_op = tf.group(self.t.assign_add(1))
         list_attrib = zip(*map(lambda d: six.itervalues(d), infos))
         list_attrib_with_k = map(lambda l: dict(zip(self._latent_k, l)),
                                  list_attrib)
-- 
2.43.0


From a3b0deeba8f83e1e4cded9c5515377ecdc33598d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:07 +0000
Subject: [PATCH 11/30] fix: log_mean_exp and log_sum_exp of infinite entries

A slice whose entries are all -inf (all importance weights zero) gave nan
instead of -inf.
---
 zhusuan/utils.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/zhusuan/utils.py b/zhusuan/utils.py
index fc77731..f7102d9 100644
--- a/zhusuan/utils.py
+++ b/zhusuan/utils.py
@@ -150,6 +150,15 @@ class TensorArithmeticMixin(object):
         )
 
 
+def _finite_max(x, axis):
+    """
+    The maximum of `x` along `axis` (retained), with infinite maximums replaced
+    by zeros so that it can be subtracted from `x` without producing NaNs.
+    """
+    x_max = tf.reduce_max(x, axis=axis, keepdims=True)
+    return tf.where(tf.is_finite(x_max), x_max, tf.zeros_like(x_max))
+
+
 def log_sum_exp(x, axis=None, keepdims=False):
     """
     Deprecated: Use tf.reduce_logsumexp().
@@ -166,7 +175,7 @@ def log_sum_exp(x, axis=None, keepdims=False):
         x.
     """
     x = tf.convert_to_tensor(x)
-    x_max = tf.reduce_max(x, axis=axis, keepdims=True)
+    x_max = _finite_max(x, axis)
     ret = tf.log(tf.reduce_sum(tf.exp(x - x_max), axis=axis,
                                keepdims=True)) + x_max
     if not keepdims:
@@ -188,7 +197,7 @@ def log_mean_exp(x, axis=None, keepdims=False):
         x.
     """
     x = tf.convert_to_tensor(x)
-    x_max = tf.reduce_max(x, axis=axis, keepdims=True)
+    x_max = _finite_max(x, axis)
     ret = tf.log(tf.reduce_mean(tf.exp(x - x_max), axis=axis,
                                 keepdims=True)) + x_max
     if not keepdims:
-- 
2.43.0


From 0a3e12a598a1e0aa3fffa99886c452778ee90aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:07 +0000
Subject: [PATCH 12/30] fix: do not count lag 0 in the effective sample size

The autocorrelation at lag 0 is always 1, so the effective sample size of
independent samples was reported as n / 3.
---
 zhusuan/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zhusuan/diagnostics.py b/zhusuan/diagnostics.py
index 5e51e69..d98301c 100644
--- a/zhusuan/diagnostics.py
+++ b/zhusuan/diagnostics.py
@@ -30,7 +30,7 @@ def effective_sample_size_1d(samples):
         return np.mean((samples[:n - lag] - mu_hat) * (samples[lag:] - mu_hat))
 
     sum_rho = 0
-    for t in range(0, n):
+    for t in range(1, n):
         rho = 1 - (var - auto_covariance(t)) / var_plus
         if rho < 0:
             break
-- 
2.43.0


From 69df38ee69a70bb6305a598759546c6dd0d62735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:07 +0000
Subject: [PATCH 13/30] fix: avoid overflow in the planar flow parameters

log(exp(x) + 1) is inf for x > 88 in float32.
---
 zhusuan/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zhusuan/transform.py b/zhusuan/transform.py
index 6563333..1354910 100644
--- a/zhusuan/transform.py
+++ b/zhusuan/transform.py
@@ -161,7 +161,7 @@ def planar_normalizing_flow(samples, log_probs, n_iters):
             dot_prod = tf.matmul(param_w, aux_u, transpose_a=True)
             param_u = aux_u + param_w / tf.matmul(param_w, param_w,
                                                   transpose_a=True) \
-                * (tf.log(tf.exp(dot_prod) + 1) - 1 - dot_prod)
+                * (tf.nn.softplus(dot_prod) - 1 - dot_prod)
             param_u = tf.transpose(param_u, name='param_u_%d' % iter)
             param_bs.append(param_b)
             param_ws.append(param_w)
-- 
2.43.0


From 32cb7b660adb3294563ecb430f5bd6b38035d098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:05 +0000
Subject: [PATCH 14/30] fix: keep the context stacks of threads and of context
 classes apart

The stack was a class attribute found through inheritance: two threads building
models at the same time saw each other's observations, and all kinds of
contexts shared one stack once the base class had been used.
---
 zhusuan/framework/utils.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/zhusuan/framework/utils.py b/zhusuan/framework/utils.py
index 1d9b3ef..114d705 100644
--- a/zhusuan/framework/utils.py
+++ b/zhusuan/framework/utils.py
@@ -5,6 +5,7 @@ from __future__ import absolute_import
 from __future__ import print_function
 from __future__ import division
 from collections import deque, OrderedDict
+import threading
 import warnings
 
 import tensorflow as tf
@@ -20,8 +21,13 @@ __all__ = [
 class Context(object):
     """
     Context stack.
+
+    Every thread has its own stacks, one for each direct subclass of
+    :class:`Context` (shared with the subclasses of that class).
     """
 
+    _thread_local = threading.local()
+
     def __init__(self):
         super(Context, self).__init__()
 
@@ -34,9 +40,10 @@ class Context(object):
 
     @classmethod
     def get_contexts(cls):
-        if not hasattr(cls, "_contexts"):
-            cls._contexts = []
-        return cls._contexts
+        if not hasattr(Context._thread_local, "stacks"):
+            Context._thread_local.stacks = {}
+        kind = next((c for c in cls.__mro__ if Context in c.__bases__), cls)
+        return Context._thread_local.stacks.setdefault(kind, [])
 
     @classmethod
     def get_context(cls):
-- 
2.43.0


From 78a9833fb102d9d8a77d47ee78f1505ed2e20ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:06 +0000
Subject: [PATCH 15/30] fix: accept a Tensor as the initial step size of an
 adaptive HMC

The documented 0-D Tensor failed in tf.constant when adaptation was requested.
---
 zhusuan/hmc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zhusuan/hmc.py b/zhusuan/hmc.py
index cfcee4c..1a8a4b1 100644
--- a/zhusuan/hmc.py
+++ b/zhusuan/hmc.py
@@ -67,7 +67,6 @@ class StepsizeTuner:
         with tf.name_scope("StepsizeTuner"):
             self.adapt_step_size = tf.convert_to_tensor(
                 adapt_step_size, dtype=tf.bool, name="adapt_step_size")
-            self.initial_stepsize = initial_stepsize
 
             self.gamma = tf.convert_to_tensor(gamma, dtype=tf.float32,
                                               name="gamma")
@@ -76,8 +75,9 @@ class StepsizeTuner:
                                               name="kappa")
             self.delta = tf.convert_to_tensor(delta, dtype=tf.float32,
                                               name="delta")
-            self.mu = tf.constant(10 * initial_stepsize, dtype=tf.float32,
-                                  name="mu")
+            initial_stepsize = tf.convert_to_tensor(
+                initial_stepsize, dtype=tf.float32, name="initial_stepsize")
+            self.mu = tf.multiply(10., initial_stepsize, name="mu")
 
             self.step = tf.Variable(0.0, dtype=tf.float32,
                                     name="step", trainable=False)
-- 
2.43.0


From 622b4ca9f9b8112fa26b476979130ae809d81e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:06 +0000
Subject: [PATCH 16/30] fix: shrink the HMC log step size towards log(10 *
 step_size)

Dual averaging works on the log step size and mu = log(10 * epsilon) in
(Hoffman & Gelman, 2014); mu was 10 * epsilon.
---
 zhusuan/hmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zhusuan/hmc.py b/zhusuan/hmc.py
index 1a8a4b1..1292762 100644
--- a/zhusuan/hmc.py
+++ b/zhusuan/hmc.py
@@ -77,7 +77,7 @@ class StepsizeTuner:
                                               name="delta")
             initial_stepsize = tf.convert_to_tensor(
                 initial_stepsize, dtype=tf.float32, name="initial_stepsize")
-            self.mu = tf.multiply(10., initial_stepsize, name="mu")
+            self.mu = tf.log(10. * initial_stepsize, name="mu")
 
             self.step = tf.Variable(0.0, dtype=tf.float32,
                                     name="step", trainable=False)
-- 
2.43.0


From 16c3261a014693889e3bbaabb4c1d17465a7dab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:06 +0000
Subject: [PATCH 17/30] fix: keep the given HMC step size until it is adapted

With adapt_step_size set but False from the first iteration, the step size
became exp(0) = 1 whatever the initial step size.
---
 zhusuan/hmc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zhusuan/hmc.py b/zhusuan/hmc.py
index 1292762..00caaaa 100644
--- a/zhusuan/hmc.py
+++ b/zhusuan/hmc.py
@@ -82,7 +82,8 @@ class StepsizeTuner:
             self.step = tf.Variable(0.0, dtype=tf.float32,
                                     name="step", trainable=False)
             self.log_epsilon_bar = tf.Variable(
-                0.0, dtype=tf.float32, name="log_epsilon_bar", trainable=False)
+                tf.log(initial_stepsize), dtype=tf.float32,
+                name="log_epsilon_bar", trainable=False)
             self.h_bar = tf.Variable(0.0, dtype=tf.float32,
                                      name="h_bar", trainable=False)
 
-- 
2.43.0


From bf993a3b8032195584e8d401738c43e28b0bab76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:06 +0000
Subject: [PATCH 18/30] fix: do not search for an HMC step size while
 adaptation is off

The heuristic search replaced the step size in the first iteration and in
iteration mass_collect_iters even when adapt_step_size was False.
---
 zhusuan/hmc.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/zhusuan/hmc.py b/zhusuan/hmc.py
index 00caaaa..34e3478 100644
--- a/zhusuan/hmc.py
+++ b/zhusuan/hmc.py
@@ -464,8 +464,12 @@ class HMC:
         if self.adapt_step_size is None:
             new_step_size = self.step_size
         else:
-            if_initialize_step_size = tf.logical_or(tf.equal(new_t, 1),
-                tf.equal(tf.cast(new_t, tf.int32), self.mass_collect_iters))
+            if_initialize_step_size = tf.logical_and(
+                self.step_size_tuner.adapt_step_size,
+                tf.logical_or(
+                    tf.equal(new_t, 1),
+                    tf.equal(tf.cast(new_t, tf.int32),
+                             self.mass_collect_iters)))
             def iss():
                 return self._init_step_size(current_q, current_p, mass,
                                             get_gradient, get_log_posterior)
-- 
2.43.0


From a84ad3e5b46646c50e490aa20b3650754b8a6135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:06 +0000
Subject: [PATCH 19/30] fix: use unit mass in HMC while no variance has been
 collected

With adapt_mass set but False from the start (or with a single sample seen) the
estimated variance is zero, so the mass became inf at mass_collect_iters and
the chain never moved again.
---
 zhusuan/hmc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zhusuan/hmc.py b/zhusuan/hmc.py
index 34e3478..12e7d65 100644
--- a/zhusuan/hmc.py
+++ b/zhusuan/hmc.py
@@ -150,7 +150,9 @@ class ExponentialWeightedMovingVariance:
         return update_var
 
     def get_precision(self, var_in):
-        return [(self.one / var) for var in var_in]
+        # Use unit mass where no variance has been observed yet.
+        return [tf.where(tf.greater(var, 0.), self.one / var,
+                         tf.ones_like(var)) for var in var_in]
 
     def get_updated_precision(self, x):
         # Should be called only once
-- 
2.43.0


From 96417f28ce998d9d94d729b5f4fce83c2844a20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:16 +0000
Subject: [PATCH 20/30] fix: stop gradients through samples of Poisson

With a floating dtype, differentiating anything that depends on a Poisson
sample raised LookupError since the random op has no registered gradient.
---
 zhusuan/distributions/univariate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zhusuan/distributions/univariate.py b/zhusuan/distributions/univariate.py
index 4253eb6..03694e9 100644
--- a/zhusuan/distributions/univariate.py
+++ b/zhusuan/distributions/univariate.py
@@ -925,8 +925,8 @@ class Poisson(Distribution):
         return self.rate.get_shape()
 
     def _sample(self, n_samples):
-        samples = tf.random_poisson(self.rate, [n_samples],
-                                    dtype=self.param_dtype)
+        samples = tf.stop_gradient(
+            tf.random_poisson(self.rate, [n_samples], dtype=self.param_dtype))
         if self.param_dtype != self.dtype:
             samples = tf.cast(samples, self.dtype)
         return samples
-- 
2.43.0


From 9b261ffaa1c8beb23985387bbce45f631ee6cdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:25 +0000
Subject: [PATCH 21/30] fix: keep node names unique and the log joint current
 for old-style nodes

Old-style stochastic tensors built inside a BayesianNet context replaced an
existing node of the same name, were registered even when their observation
was rejected, and left an earlier result of log_joint() in place.
---
 zhusuan/framework/bn.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/zhusuan/framework/bn.py b/zhusuan/framework/bn.py
index beaf488..228d9e3 100644
--- a/zhusuan/framework/bn.py
+++ b/zhusuan/framework/bn.py
@@ -66,6 +66,7 @@ class StochasticTensor(TensorArithmeticMixin):
     """
 
     def __init__(self, bn, name, dist, observation=None, **kwargs):
+        context_bn = None
         if bn is None:
             warnings.warn(
                 "The old-style StochasticTensor wrappers will be removed "
@@ -73,11 +74,11 @@ class StochasticTensor(TensorArithmeticMixin):
                 "the suggested way of model construction.",
                 FutureWarning)
             try:
-                bn = BayesianNet.get_context()
+                bn = context_bn = BayesianNet.get_context()
             except RuntimeError:
                 pass
             else:
-                bn.nodes[name] = self
+                context_bn._check_name_unique(name)
 
         self._bn = bn
         self._name = name
@@ -92,6 +93,8 @@ class StochasticTensor(TensorArithmeticMixin):
         else:
             self._observation = None
         super(StochasticTensor, self).__init__()
+        if context_bn is not None:
+            context_bn._add_stochastic_node(self)
 
     def _check_observation(self, observation):
         type_msg = "Incompatible types of {}('{}') and its observation: {}"
@@ -351,6 +354,12 @@ class _BayesianNet(object):
                 "There exists a node with name '{}' in the {}. Names should "
                 "be unique.".format(name, BayesianNet.__name__))
 
+    def _add_stochastic_node(self, node):
+        # invalidate the log joint cache
+        if hasattr(self, "_log_joint_cache"):
+            del self._log_joint_cache
+        self._nodes[node.name] = node
+
     def stochastic(self, name, dist, **kwargs):
         """
         Add a stochastic node in this :class:`BayesianNet`.
@@ -365,12 +374,9 @@ class _BayesianNet(object):
         :return: A :class:`StochasticTensor`.
         """
         self._check_name_unique(name)
-        # invalidate the log joint cache
-        if hasattr(self, "_log_joint_cache"):
-            del self._log_joint_cache
         node = StochasticTensor(
             self, name, dist, observation=self._get_observation(name), **kwargs)
-        self._nodes[name] = node
+        self._add_stochastic_node(node)
         return node
 
     def deterministic(self, name, input_tensor):
-- 
2.43.0


From be180ef03f709d90ca43547f00f9686d5841f9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:30 +0000
Subject: [PATCH 22/30] fix: forward is_continuous of old-style Empirical nodes

---
 zhusuan/legacy/framework/stochastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zhusuan/legacy/framework/stochastic.py b/zhusuan/legacy/framework/stochastic.py
index d6d9bee..78d5006 100644
--- a/zhusuan/legacy/framework/stochastic.py
+++ b/zhusuan/legacy/framework/stochastic.py
@@ -1169,7 +1169,7 @@ class Empirical(StochasticTensor):
             batch_shape,
             value_shape=value_shape,
             group_ndims=group_ndims,
-            is_continous=is_continuous,
+            is_continuous=is_continuous,
             **kwargs
         )
         super(Empirical, self).__init__(
-- 
2.43.0


From 79ba4f42d5e3f7c238258d88e101d66d052804b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:48 +0000
Subject: [PATCH 23/30] fix: probability of values an Implicit distribution
 does not contain

A continuous Implicit gave such values probability -inf, hence log
probability NaN, and log_prob() applied group_ndims twice.
---
 zhusuan/legacy/distributions/special.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zhusuan/legacy/distributions/special.py b/zhusuan/legacy/distributions/special.py
index 066df50..46cd5a9 100644
--- a/zhusuan/legacy/distributions/special.py
+++ b/zhusuan/legacy/distributions/special.py
@@ -159,13 +159,13 @@ class Implicit(Distribution):
         return tf.expand_dims(self.samples, 0)
 
     def _log_prob(self, given):
-        return tf.log(self.prob(given))
+        return tf.log(self._prob(given))
 
     def _prob(self, given):
         prob = tf.equal(given, self.samples)
         if self.is_continuous:
-            prob = tf.cast(prob, self.param_dtype)
-            inf_dtype = tf.cast(inf, self.param_dtype)
-            return (2 * prob - 1) * inf_dtype
+            zeros = tf.zeros(tf.shape(prob), self.param_dtype)
+            return tf.where(prob, zeros + tf.cast(inf, self.param_dtype),
+                            zeros)
         else:
             return tf.cast(prob, tf.float32)
-- 
2.43.0


From 28fb2253883d3fb5bc291caf984cc3310af755fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:46 +0000
Subject: [PATCH 24/30] fix: operators with a numpy array on the left of a
 tensor-like object

Numpy applied the operation to each of its elements and returned an array of
Tensors instead of one Tensor.
---
 zhusuan/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zhusuan/utils.py b/zhusuan/utils.py
index f7102d9..fdbaab1 100644
--- a/zhusuan/utils.py
+++ b/zhusuan/utils.py
@@ -23,6 +23,10 @@ class TensorArithmeticMixin(object):
     inherit from this mixin class.
     """
 
+    # let numpy arrays on the left defer to the reflected operations below,
+    # as they do for Tensors
+    __array_priority__ = 100
+
     # overloading arithmetic operations
     def __abs__(self):
         return tf.abs(self)
-- 
2.43.0


From de1beda5c8e238f19a53a69bb18be4e1d1d517ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:37 +0000
Subject: [PATCH 25/30] fix: reflected operators of tensor-like objects with
 Python numbers

2 * x, 1 - x etc. failed for a float node x because the number on the left
was converted to an int32 Tensor before the type of x was known.
---
 zhusuan/utils.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/zhusuan/utils.py b/zhusuan/utils.py
index fdbaab1..7d2289b 100644
--- a/zhusuan/utils.py
+++ b/zhusuan/utils.py
@@ -38,19 +38,19 @@ class TensorArithmeticMixin(object):
         return tf.add(self, other)
 
     def __radd__(self, other):
-        return tf.add(other, self)
+        return other + tf.convert_to_tensor(self)
 
     def __sub__(self, other):
         return tf.subtract(self, other)
 
     def __rsub__(self, other):
-        return tf.subtract(other, self)
+        return other - tf.convert_to_tensor(self)
 
     def __mul__(self, other):
         return tf.multiply(self, other)
 
     def __rmul__(self, other):
-        return tf.multiply(other, self)
+        return other * tf.convert_to_tensor(self)
 
     def __div__(self, other):
         return tf.divide(self, other)
@@ -62,25 +62,25 @@ class TensorArithmeticMixin(object):
         return tf.truediv(self, other)
 
     def __rtruediv__(self, other):
-        return tf.truediv(other, self)
+        return other / tf.convert_to_tensor(self)
 
     def __floordiv__(self, other):
         return tf.floordiv(self, other)
 
     def __rfloordiv__(self, other):
-        return tf.floordiv(other, self)
+        return other // tf.convert_to_tensor(self)
 
     def __mod__(self, other):
         return tf.mod(self, other)
 
     def __rmod__(self, other):
-        return tf.mod(other, self)
+        return other % tf.convert_to_tensor(self)
 
     def __pow__(self, other):
         return tf.pow(self, other)
 
     def __rpow__(self, other):
-        return tf.pow(other, self)
+        return other ** tf.convert_to_tensor(self)
 
     # logical operations
     def __invert__(self):
-- 
2.43.0


From 2a5c02d4c4993b38dd8abe0af7a92c898ce4164b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:18 +0000
Subject: [PATCH 26/30] fix: let REINFORCE's moving mean have the type of the
 learning signal

---
 zhusuan/variational/exclusive_kl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zhusuan/variational/exclusive_kl.py b/zhusuan/variational/exclusive_kl.py
index adcb78d..ec09e20 100644
--- a/zhusuan/variational/exclusive_kl.py
+++ b/zhusuan/variational/exclusive_kl.py
@@ -210,7 +210,7 @@ class EvidenceLowerBoundObjective(VariationalObjective):
             bc = tf.reduce_mean(l_signal)
             # TODO: fix get variable failure for repeated calls.
             moving_mean = tf.get_variable(
-                'moving_mean', shape=[],
+                'moving_mean', shape=[], dtype=bc.dtype,
                 initializer=tf.constant_initializer(0.),
                 trainable=False)
 
-- 
2.43.0


From 51ac0cbfaf2e4146acddbcfb7f7d22c8e9970d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:46 +0000
Subject: [PATCH 27/30] fix: do not change the HMC step size before the
 iteration has used it

---
 zhusuan/hmc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zhusuan/hmc.py b/zhusuan/hmc.py
index 12e7d65..6d3e577 100644
--- a/zhusuan/hmc.py
+++ b/zhusuan/hmc.py
@@ -379,7 +379,9 @@ class HMC:
         new_step_size = self.step_size_tuner.tune(
             tf.reduce_mean(acceptance_rate),
             tf.cast(if_initialize_step_size, tf.float32))
-        update_step_size = tf.assign(self.step_size, new_step_size)
+        # The step size must not change before this iteration has used it.
+        with tf.control_dependencies([acceptance_rate]):
+            update_step_size = tf.assign(self.step_size, new_step_size)
         return tf.stop_gradient(update_step_size)
 
     def sample(self, meta_bn, observed, latent):
-- 
2.43.0


From d03183692995d9f5e73bc50f14c185ebaa7cb770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:56 +0000
Subject: [PATCH 28/30] fix: do not let rounding errors fail the planar flow's
 invertibility check

---
 zhusuan/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zhusuan/transform.py b/zhusuan/transform.py
index 1354910..0d370a5 100644
--- a/zhusuan/transform.py
+++ b/zhusuan/transform.py
@@ -171,7 +171,8 @@ def planar_normalizing_flow(samples, log_probs, n_iters):
     z = tf.reshape(input_x, [-1, d])
     for iter in range(n_iters):
         scalar = tf.matmul(param_us[iter], param_ws[iter], name='scalar')
-        scalar = tf.reshape(scalar, [])
+        # w'u > -1 by the construction of u, up to rounding errors
+        scalar = tf.maximum(tf.reshape(scalar, []), -1.)
 
         # check invertible
         invertible_check = tf.assert_greater_equal(
-- 
2.43.0


From 6a94408cf8ae87b661cce033ba23066d28bd3cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:48 +0000
Subject: [PATCH 29/30] fix: let the sample axis of VIMCO be counted from the
 end

---
 zhusuan/variational/monte_carlo.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/zhusuan/variational/monte_carlo.py b/zhusuan/variational/monte_carlo.py
index 1d88262..b54c6a8 100644
--- a/zhusuan/variational/monte_carlo.py
+++ b/zhusuan/variational/monte_carlo.py
@@ -186,9 +186,9 @@ class ImportanceWeightedObjective(VariationalObjective):
         # check size along the sample axis
         err_msg = "VIMCO is a multi-sample gradient estimator, size along " \
                   "`axis` in the objective should be larger than 1."
-        if l_signal.get_shape()[self._axis:self._axis + 1].is_fully_defined():
-            if l_signal.get_shape()[self._axis].value < 2:
-                raise ValueError(err_msg)
+        static_size = l_signal.get_shape()[self._axis].value
+        if static_size is not None and static_size < 2:
+            raise ValueError(err_msg)
         _assert_size_along_axis = tf.assert_greater_equal(
             tf.shape(l_signal)[self._axis], 2, message=err_msg)
         with tf.control_dependencies([_assert_size_along_axis]):
@@ -201,9 +201,11 @@ class ImportanceWeightedObjective(VariationalObjective):
         x, sub_x = l_signal, mean_except_signal
 
         n_dim = tf.rank(x)
-        axis_dim_mask = tf.cast(tf.one_hot(self._axis, n_dim), tf.bool)
+        # the sample axis may be counted from the end
+        axis = self._axis % n_dim
+        axis_dim_mask = tf.cast(tf.one_hot(axis, n_dim), tf.bool)
         original_mask = tf.cast(tf.one_hot(n_dim - 1, n_dim), tf.bool)
-        axis_dim = tf.ones([n_dim], tf.int32) * self._axis
+        axis_dim = tf.ones([n_dim], tf.int32) * axis
         originals = tf.ones([n_dim], tf.int32) * (n_dim - 1)
         perm = tf.where(original_mask, axis_dim, tf.range(n_dim))
         perm = tf.where(axis_dim_mask, originals, perm)
-- 
2.43.0


From 90a2c77818c250dd08c0578f7a561f0b5aa3e78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:06 +0000
Subject: [PATCH 30/30] fix: Implicit probabilities are those of whole values

Implicit.prob and log_prob compared the elements of a value one by one and
returned a probability for each of them, although a value of shape
value_shape has one probability: the result must have shape
(... + )batch_shape[:-group_ndims].
---
 zhusuan/legacy/distributions/special.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zhusuan/legacy/distributions/special.py b/zhusuan/legacy/distributions/special.py
index 46cd5a9..6d69897 100644
--- a/zhusuan/legacy/distributions/special.py
+++ b/zhusuan/legacy/distributions/special.py
@@ -163,6 +163,10 @@ class Implicit(Distribution):
 
     def _prob(self, given):
         prob = tf.equal(given, self.samples)
+        value_ndims = self.explicit_value_shape.ndims
+        if value_ndims:
+            # A value has its probability as a whole.
+            prob = tf.reduce_all(prob, axis=list(range(-value_ndims, 0)))
         if self.is_continuous:
             zeros = tf.zeros(tf.shape(prob), self.param_dtype)
             return tf.where(prob, zeros + tf.cast(inf, self.param_dtype),
-- 
2.43.0

