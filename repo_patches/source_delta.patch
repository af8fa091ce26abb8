From bedc464b8357dad2672ef426665e3b4abeac67f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 01/35] fix: vectorize no longer uses np.int, which current
 numpy does not have

---
 pysgmcmc/tensor_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/tensor_utils.py b/pysgmcmc/tensor_utils.py
index b33e6f5..b52d16f 100644
--- a/pysgmcmc/tensor_utils.py
+++ b/pysgmcmc/tensor_utils.py
@@ -86,7 +86,7 @@ def vectorize(tensor):
 
     def vectorized_shape(tensor):
         # Compute vectorized shape
-        n_elements = np.prod(np.asarray(tensor.shape, dtype=np.int))
+        n_elements = np.prod(np.asarray(tensor.shape, dtype=int))
         return (n_elements, 1)
 
     if isinstance(tensor, tf.Variable):
-- 
2.43.0


From 3f372a8d3152c0b9149b688a0e1cf81e3105ab27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 02/35] fix: import logsumexp from scipy.special, scipy.misc no
 longer has it

---
 pysgmcmc/diagnostics/objective_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/diagnostics/objective_functions.py b/pysgmcmc/diagnostics/objective_functions.py
index 742b3c3..d5e937b 100644
--- a/pysgmcmc/diagnostics/objective_functions.py
+++ b/pysgmcmc/diagnostics/objective_functions.py
@@ -1,4 +1,4 @@
-from scipy.misc import logsumexp
+from scipy.special import logsumexp
 import tensorflow as tf
 import numpy as np
 import functools
-- 
2.43.0


From 7243ab9f7a1946c1694db4e79160e084dc33547c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 03/35] fix: SGLDSampler uses the stepsize schedule it is given

---
 pysgmcmc/samplers/sgld.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysgmcmc/samplers/sgld.py b/pysgmcmc/samplers/sgld.py
index 486488e..d3536ec 100644
--- a/pysgmcmc/samplers/sgld.py
+++ b/pysgmcmc/samplers/sgld.py
@@ -95,6 +95,7 @@ class SGLDSampler(BurnInMCMCSampler):
 
         super().__init__(
             params=params, cost_fun=cost_fun, batch_generator=batch_generator,
+            stepsize_schedule=stepsize_schedule,
             burn_in_steps=burn_in_steps, seed=seed,
             session=session, dtype=dtype
         )
-- 
2.43.0


From a94b0487a574bb5a1e003c62da5be0be7e03ba0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 04/35] fix: generate_shuffled_batches no longer shuffles the
 caller's dataset in place

---
 pysgmcmc/data_batches.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysgmcmc/data_batches.py b/pysgmcmc/data_batches.py
index 9b44c09..1ebfd8f 100644
--- a/pysgmcmc/data_batches.py
+++ b/pysgmcmc/data_batches.py
@@ -200,6 +200,8 @@ def generate_shuffled_batches(x, y, x_placeholder, y_placeholder,
     rng_y.seed(seed)
 
     for batch in generate_batches(x, y, x_placeholder, y_placeholder, batch_size, seed):
+        # batches are views of the dataset: shuffle copies, not the data itself
+        batch = {key: np.copy(data) for key, data in batch.items()}
         # shuffles x and y in the same way
         rng_x.shuffle(batch[x_placeholder])
         rng_y.shuffle(batch[y_placeholder])
-- 
2.43.0


From e56f852a5ba24a3ff948611bc9526a6caae01576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 05/35] fix: burn-in samplers keep caller supplied feeds after
 their burn-in phase

---
 pysgmcmc/samplers/base_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index 3367499..45fad79 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -451,6 +451,6 @@ class BurnInMCMCSampler(MCMCSampler):
             assert hasattr(self, "minv")
 
             # feed tuned inverse of mass matrix (minv) during sampling
-            feed_dict = dict(zip(self.minv_t, self.minv))
+            feed_dict.update(zip(self.minv_t, self.minv))
 
         return super().__next__(feed_dict=feed_dict)
-- 
2.43.0


From fad030934d2114747d3a2e30401fbad079d9dc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 06/35] fix: samplers compute cost and all gradients before
 updating any parameter

---
 pysgmcmc/samplers/relativistic_sghmc.py | 4 +++-
 pysgmcmc/samplers/sghmc.py              | 4 +++-
 pysgmcmc/samplers/sgld.py               | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pysgmcmc/samplers/relativistic_sghmc.py b/pysgmcmc/samplers/relativistic_sghmc.py
index e751998..cf3647e 100644
--- a/pysgmcmc/samplers/relativistic_sghmc.py
+++ b/pysgmcmc/samplers/relativistic_sghmc.py
@@ -99,7 +99,9 @@ class RelativisticSGHMCSampler(MCMCSampler):
         # we normally use as costs)
         grads = [
             vectorize(gradient)
-            for gradient in tf.gradients(-self.cost, params)
+            # no parameter may change before cost and all gradients are computed
+            for gradient in tf.tuple(tf.gradients(-self.cost, params),
+                                     control_inputs=[self.cost])
         ]
 
         D = tf.constant(D, dtype=dtype)
diff --git a/pysgmcmc/samplers/sghmc.py b/pysgmcmc/samplers/sghmc.py
index d6b4a7a..ad9fbec 100644
--- a/pysgmcmc/samplers/sghmc.py
+++ b/pysgmcmc/samplers/sghmc.py
@@ -118,8 +118,10 @@ class SGHMCSampler(BurnInMCMCSampler):
 
         #  }}} Initialize graph constants #
 
+        # no parameter may change before cost and all gradients are computed
         grads = [vectorize(gradient) for gradient in
-                 tf.gradients(self.cost, params)]
+                 tf.tuple(tf.gradients(self.cost, params),
+                          control_inputs=[self.cost])]
 
         #  Initialize internal sampler parameters {{{ #
 
diff --git a/pysgmcmc/samplers/sgld.py b/pysgmcmc/samplers/sgld.py
index d3536ec..438d84c 100644
--- a/pysgmcmc/samplers/sgld.py
+++ b/pysgmcmc/samplers/sgld.py
@@ -110,8 +110,10 @@ class SGLDSampler(BurnInMCMCSampler):
 
         #  }}} Initialize graph constants #
 
+        # no parameter may change before cost and all gradients are computed
         grads = [vectorize(gradient) for gradient in
-                 tf.gradients(self.cost, params)]
+                 tf.tuple(tf.gradients(self.cost, params),
+                          control_inputs=[self.cost])]
 
         #  Initialize internal sampler parameters {{{ #
 
-- 
2.43.0


From 734b108ae5473e2120ede0bed4b51339cfd8f686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 07/35] fix: PYSGMCMCTrace.from_sampler keeps only every
 keep_every-th sample

---
 pysgmcmc/diagnostics/sample_chains.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysgmcmc/diagnostics/sample_chains.py b/pysgmcmc/diagnostics/sample_chains.py
index 9dcfba6..dfffcbd 100644
--- a/pysgmcmc/diagnostics/sample_chains.py
+++ b/pysgmcmc/diagnostics/sample_chains.py
@@ -165,7 +165,9 @@ class PYSGMCMCTrace(object):
         """
         from itertools import islice
         samples = [
-            sample for sample, _ in islice(sampler, n_samples)
+            sample for sample, _ in islice(
+                sampler, 0, n_samples * keep_every, keep_every
+            )
         ]
 
         # ensure all sampler target parameters have a name
-- 
2.43.0


From ec98b8d8a9fdb3884bb94fb9585d0e6a74a763d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 08/35] fix: traces of a single vector valued parameter hold
 one variable

---
 pysgmcmc/diagnostics/sample_chains.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pysgmcmc/diagnostics/sample_chains.py b/pysgmcmc/diagnostics/sample_chains.py
index dfffcbd..eee7a00 100644
--- a/pysgmcmc/diagnostics/sample_chains.py
+++ b/pysgmcmc/diagnostics/sample_chains.py
@@ -170,6 +170,13 @@ class PYSGMCMCTrace(object):
             )
         ]
 
+        if len(sampler.params) == 1:
+            # samplers may return the bare value of a single target parameter
+            samples = [
+                sample if isinstance(sample, list) else [sample]
+                for sample in samples
+            ]
+
         # ensure all sampler target parameters have a name
         # => tensorflow names variables automatically, so this assumption
         # is fair
-- 
2.43.0


From 50f048308e3b969f32d98b305426a8a371d6841f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 09/35] fix: pymc3_multitrace keeps the state of an already
 burnt-in sampler

---
 pysgmcmc/diagnostics/sample_chains.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pysgmcmc/diagnostics/sample_chains.py b/pysgmcmc/diagnostics/sample_chains.py
index eee7a00..a4f6581 100644
--- a/pysgmcmc/diagnostics/sample_chains.py
+++ b/pysgmcmc/diagnostics/sample_chains.py
@@ -10,6 +10,8 @@ import numpy as np
 import pymc3
 import logging
 
+from pysgmcmc.tensor_utils import uninitialized_params
+
 
 class PYSGMCMCTrace(object):
     """
@@ -379,7 +381,11 @@ def pymc3_multitrace(get_sampler, n_chains=2, samples_per_chain=100,
         graph = tf.Graph()
         with tf.Session(graph=graph) as session:
             sampler = get_sampler(session=session)
-            session.run(tf.global_variables_initializer())
+            # initialize what is missing, but keep the state of a sampler
+            # that is already burnt-in
+            session.run(tf.variables_initializer(
+                uninitialized_params(tf.global_variables(), session=session)
+            ))
             trace = PYSGMCMCTrace.from_sampler(
                 chain_id=chain_id,
                 sampler=sampler,
-- 
2.43.0


From 8d9a6e6bc42fdc3169020fd78e6f0a6ec39bf3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 10/35] fix: SVGD kernel gradient pushes particles apart, not
 together

---
 pysgmcmc/samplers/svgd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/samplers/svgd.py b/pysgmcmc/samplers/svgd.py
index 536da39..458fe7d 100644
--- a/pysgmcmc/samplers/svgd.py
+++ b/pysgmcmc/samplers/svgd.py
@@ -123,7 +123,7 @@ class SVGDSampler(MCMCSampler):
         kernel_matrix, kernel_gradients = self.svgd_kernel(self.particles)
 
         grad_theta = tf.divide(
-            tf.matmul(kernel_matrix, lnpgrad) + kernel_gradients,
+            tf.matmul(kernel_matrix, lnpgrad) - kernel_gradients,
             self.n_particles
         )
 
-- 
2.43.0


From ab71db22ad6acbf59ce76ec9be57e0180fbf3664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 11/35] fix: SVGD supports particles of dimension one

---
 pysgmcmc/samplers/svgd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/samplers/svgd.py b/pysgmcmc/samplers/svgd.py
index 458fe7d..fd16fa2 100644
--- a/pysgmcmc/samplers/svgd.py
+++ b/pysgmcmc/samplers/svgd.py
@@ -118,7 +118,7 @@ class SVGDSampler(MCMCSampler):
             tf.variables_initializer([historical_grad, self.epsilon])
         )
 
-        lnpgrad = tf.squeeze(tf.gradients(self.cost, self.particles))
+        lnpgrad, = tf.gradients(self.cost, self.particles)
 
         kernel_matrix, kernel_gradients = self.svgd_kernel(self.particles)
 
-- 
2.43.0


From 6c2944b864c36c8b11f32e4ef105abb55560655c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 12/35] fix: more than one SVGD sampler can live in the same
 graph

---
 pysgmcmc/samplers/svgd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pysgmcmc/samplers/svgd.py b/pysgmcmc/samplers/svgd.py
index fd16fa2..62e7b07 100644
--- a/pysgmcmc/samplers/svgd.py
+++ b/pysgmcmc/samplers/svgd.py
@@ -109,9 +109,9 @@ class SVGDSampler(MCMCSampler):
             self.particles.shape[0], self.dtype
         )
 
-        historical_grad = tf.get_variable(
-            "historical_grad", self.particles.shape, dtype=dtype,
-            initializer=tf.zeros_initializer()
+        historical_grad = tf.Variable(
+            tf.zeros(self.particles.shape, dtype=dtype), dtype=dtype,
+            name="historical_grad", trainable=False
         )
 
         self.session.run(
-- 
2.43.0


From 923908bc1d3daa2856ee99832970f67f8b267345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 13/35] fix: samplers fall back to the session that is default
 when they are made

---
 pysgmcmc/samplers/base_classes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index 45fad79..f97b891 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -73,6 +73,9 @@ class MCMCSampler(object):
         assert batch_generator is None or hasattr(batch_generator, "__next__")
         assert seed is None or isinstance(seed, int)
 
+        if session is None:
+            # the default session of the caller, not the one at import time
+            session = tf.get_default_session()
         assert isinstance(session, (tf.Session, tf.InteractiveSession))
         assert isinstance(dtype, tf.DType)
 
-- 
2.43.0


From fb7502221628b5318a4c173785116c2c312a80d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 14/35] fix: default network of the BNN no longer needs
 tf.contrib

---
 pysgmcmc/models/bayesian_neural_network.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pysgmcmc/models/bayesian_neural_network.py b/pysgmcmc/models/bayesian_neural_network.py
index c281f57..b4164af 100644
--- a/pysgmcmc/models/bayesian_neural_network.py
+++ b/pysgmcmc/models/bayesian_neural_network.py
@@ -26,7 +26,15 @@ from pysgmcmc.tensor_utils import safe_divide
 #  Default Network Architecture {{{ #
 
 def get_default_net(inputs, seed=None, dtype=tf.float64):
-    from tensorflow.contrib.layers import variance_scaling_initializer as HeNormal
+    try:
+        from tensorflow.contrib.layers import variance_scaling_initializer as HeNormal
+    except ImportError:
+        # no tf.contrib (tensorflow >= 2): same initializer from the core API
+        def HeNormal(factor, dtype, seed):
+            return tf.variance_scaling_initializer(
+                scale=factor, mode="fan_in", dtype=dtype, seed=seed
+            )
+
     fc_layer_1 = tf.layers.dense(
         inputs, units=50, activation=tf.tanh,
         kernel_initializer=HeNormal(factor=1.0, dtype=dtype, seed=seed),
-- 
2.43.0


From 79b26ca2b3f849d3d4640db4e3696d04ba605556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 15/35] fix: BNN with a single trainable variable predicts with
 its whole value

---
 pysgmcmc/models/bayesian_neural_network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysgmcmc/models/bayesian_neural_network.py b/pysgmcmc/models/bayesian_neural_network.py
index b4164af..eb142ee 100644
--- a/pysgmcmc/models/bayesian_neural_network.py
+++ b/pysgmcmc/models/bayesian_neural_network.py
@@ -532,6 +532,9 @@ class BayesianNeuralNetwork(object):
                 )
 
                 # collect sample
+                if len(self.network_params) == 1 and not isinstance(parameter_values, list):
+                    # samplers may return the bare value of a single parameter
+                    parameter_values = [parameter_values]
                 self.samples.append(parameter_values)
 
                 if len(self.samples) == self.n_nets:
-- 
2.43.0


From e7af9ba937fcd44545c064894ebc200236adc3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 16/35] fix: BNN scales its likelihood by the actual size of
 its minibatches

---
 pysgmcmc/models/bayesian_neural_network.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pysgmcmc/models/bayesian_neural_network.py b/pysgmcmc/models/bayesian_neural_network.py
index eb142ee..62039f0 100644
--- a/pysgmcmc/models/bayesian_neural_network.py
+++ b/pysgmcmc/models/bayesian_neural_network.py
@@ -382,7 +382,10 @@ class BayesianNeuralNetwork(object):
         )
 
         # scale by batch size to make this work nicely with the updaters above
-        log_like = log_like / tf.constant(self.batch_size, dtype=self.dtype)
+        # (a batch never has more datapoints than the whole dataset)
+        log_like = log_like / tf.constant(
+            min(self.batch_size, self.X.shape[0]), dtype=self.dtype
+        )
 
         # scale the priors by the dataset size for the same reason
         n_examples = tf.constant(self.X.shape[0], self.dtype, name="n_examples")
-- 
2.43.0


From 49948606856e01a952ecfcb53610099d710c0355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 17/35] fix: normalization of constant columns no longer yields
 nan

---
 pysgmcmc/models/base_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysgmcmc/models/base_model.py b/pysgmcmc/models/base_model.py
index 72965c6..5f701c3 100644
--- a/pysgmcmc/models/base_model.py
+++ b/pysgmcmc/models/base_model.py
@@ -112,6 +112,8 @@ def zero_one_normalization(X, lower=None, upper=None):
         lower = np.min(X, axis=0)
     if upper is None:
         upper = np.max(X, axis=0)
+        # constant columns have no range to scale by
+        upper = np.where(upper == lower, lower + 1, upper)
 
     X_normalized = np.true_divide((X - lower), (upper - lower))
 
@@ -127,6 +129,8 @@ def zero_mean_unit_var_normalization(X, mean=None, std=None):
         mean = np.mean(X, axis=0)
     if std is None:
         std = np.std(X, axis=0)
+        # constant columns have no deviation to scale by
+        std = np.where(std == 0, 1, std)
 
     X_normalized = (X - mean) / std
 
-- 
2.43.0


From dc85890ff2f5bbb1f1890e5c5884e920b3754664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 18/35] fix: gaussian mixture log likelihood supports float64
 variables and tensors

---
 pysgmcmc/diagnostics/objective_functions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysgmcmc/diagnostics/objective_functions.py b/pysgmcmc/diagnostics/objective_functions.py
index d5e937b..b154290 100644
--- a/pysgmcmc/diagnostics/objective_functions.py
+++ b/pysgmcmc/diagnostics/objective_functions.py
@@ -67,13 +67,13 @@ def gaussian_mixture_model_log_likelihood(x, mu=(-5, 0, 5), var=(1., 1., 1.),
         assert(len(x) == 1)
         x = x[0]
 
-    if isinstance(x, tf.Variable):
+    if isinstance(x, (tf.Variable, tf.Tensor)):
+        # constants are python floats: they adopt the dtype of `x`
         def normldf_tf(x, mu, var):
-            pi = tf.constant(np.pi)
-            return -0.5 * tf.log(2.0 * pi * var) - 0.5 * ((x - mu) ** 2) / var
+            return -0.5 * float(np.log(2.0 * np.pi * var)) - 0.5 * ((x - mu) ** 2) / var
 
         return tf.reduce_logsumexp(
-            [tf.log(weights[i]) + normldf_tf(x, mu[i], var[i]) for i in range(len(mu))]
+            [float(np.log(weights[i])) + normldf_tf(x, mu[i], var[i]) for i in range(len(mu))]
         )
     else:
         def normldf(x, mu, var):
-- 
2.43.0


From 23081f1f96e0b364423652c4c22f2092e5c014e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 19/35] fix: pdist of a single observation keeps the dtype of
 its input

---
 pysgmcmc/tensor_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/tensor_utils.py b/pysgmcmc/tensor_utils.py
index b52d16f..10b1f7e 100644
--- a/pysgmcmc/tensor_utils.py
+++ b/pysgmcmc/tensor_utils.py
@@ -406,7 +406,7 @@ def pdist(tensor, metric="euclidean"):
             for i in range(m):
                 for j in range(i + 1, m):
                     distances.append(euclidean_distance(tensor[i], tensor[j]))
-            return tf.convert_to_tensor(distances)
+            return tf.convert_to_tensor(distances, dtype=tensor.dtype.base_dtype)
 
         metric_function = pairwise_euclidean_distance
     else:
-- 
2.43.0


From d098819ef252bb8986f16bd93508b91e9796d65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 20/35] fix: seeded samplers draw independent noise for each
 parameter

---
 pysgmcmc/samplers/base_classes.py       | 8 +++++++-
 pysgmcmc/samplers/relativistic_sghmc.py | 5 ++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index f97b891..5bc6406 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -3,6 +3,7 @@
 """Abstract base classes for all MCMC methods. Helps unify our sampler interface."""
 # XXX NEXT METHOD NEEDS DOKU FOR FEED_DICT
 import abc
+import random
 import tensorflow as tf
 
 from pysgmcmc.tensor_utils import vectorize, uninitialized_params
@@ -86,6 +87,7 @@ class MCMCSampler(object):
         self.n_iterations = 0
 
         self.seed = seed
+        self._noise_seeds = random.Random(seed)
 
         assert hasattr(stepsize_schedule, "update")
         assert hasattr(stepsize_schedule, "__next__")
@@ -218,8 +220,12 @@ class MCMCSampler(object):
             standard deviation `Sigma`.
 
         """
+        seed = None
+        if self.seed is not None:
+            # a seed of its own for each draw: equal seeds give equal noise
+            seed = self._noise_seeds.randrange(2 ** 31)
         return sigma * tf.random_normal(
-            shape=shape, dtype=self.dtype, seed=self.seed
+            shape=shape, dtype=self.dtype, seed=seed
         )
 
     # Conform to iterator protocol.
diff --git a/pysgmcmc/samplers/relativistic_sghmc.py b/pysgmcmc/samplers/relativistic_sghmc.py
index cf3647e..5ea6e8d 100644
--- a/pysgmcmc/samplers/relativistic_sghmc.py
+++ b/pysgmcmc/samplers/relativistic_sghmc.py
@@ -124,7 +124,10 @@ class RelativisticSGHMCSampler(MCMCSampler):
 
             p_grad = self.epsilon * momentum[i] / (m * tf.sqrt(momentum[i] * momentum[i] / (tf.square(m) * tf.square(c)) + 1))
 
-            n = tf.sqrt(self.epsilon * (2 * D - self.epsilon * b_hat)) * tf.random_normal(shape=vectorized_param.shape, dtype=dtype, seed=seed)
+            n = self._draw_noise_sample(
+                sigma=tf.sqrt(self.epsilon * (2 * D - self.epsilon * b_hat)),
+                shape=vectorized_param.shape
+            )
             momentum_t = tf.assign_add(
                 momentum[i],
                 tf.reshape(self.epsilon * grad + n - D * p_grad, momentum[i].shape)
-- 
2.43.0


From f7c0993ec9c5b305fa9f322b3a0f42f90c4de405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 21/35] fix: relativistic sampler supports parameters with more
 than one element

---
 pysgmcmc/samplers/relativistic_sghmc.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pysgmcmc/samplers/relativistic_sghmc.py b/pysgmcmc/samplers/relativistic_sghmc.py
index 5ea6e8d..d0c2e96 100644
--- a/pysgmcmc/samplers/relativistic_sghmc.py
+++ b/pysgmcmc/samplers/relativistic_sghmc.py
@@ -1,4 +1,5 @@
 # vim:foldmethod=marker
+import numpy as np
 import tensorflow as tf
 from pysgmcmc.samplers.base_classes import MCMCSampler
 from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule
@@ -107,11 +108,16 @@ class RelativisticSGHMCSampler(MCMCSampler):
         D = tf.constant(D, dtype=dtype)
         b_hat = tf.constant(Bhat, dtype=dtype)
 
+        # one momentum for each element of each parameter
+        sizes = [
+            param.shape.num_elements() for param in self.vectorized_params
+        ]
+        momentum_samples = _sample_relativistic_momentum(
+            m=mass, c=speed_of_light, n_params=sum(sizes), seed=self.seed
+        )
         momentum = [
-            tf.Variable(momentum_sample, dtype=dtype)
-            for momentum_sample in _sample_relativistic_momentum(
-                m=mass, c=speed_of_light, n_params=len(self.params), seed=self.seed
-            )
+            tf.Variable(np.reshape(samples, (-1, 1)), dtype=dtype)
+            for samples in np.split(momentum_samples, np.cumsum(sizes)[:-1])
         ]
 
         # In internal implementation, stick to mathematical formulas.
-- 
2.43.0


From 303a3e123a36ae0aa6ee72f830ab87d57f0688ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 22/35] fix: samplers step from the current value of a
 parameter, not from a stale copy

---
 pysgmcmc/samplers/relativistic_sghmc.py | 5 +++--
 pysgmcmc/samplers/sghmc.py              | 5 +++--
 pysgmcmc/samplers/sgld.py               | 3 ++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/pysgmcmc/samplers/relativistic_sghmc.py b/pysgmcmc/samplers/relativistic_sghmc.py
index d0c2e96..4cfa436 100644
--- a/pysgmcmc/samplers/relativistic_sghmc.py
+++ b/pysgmcmc/samplers/relativistic_sghmc.py
@@ -140,9 +140,10 @@ class RelativisticSGHMCSampler(MCMCSampler):
             )
 
             p_grad_new = self.epsilon * momentum_t / (m * tf.sqrt(momentum_t * momentum_t / (tf.square(m) * tf.square(c)) + 1))
-            vectorized_theta_t = tf.assign_add(
+            vectorized_theta_t = tf.assign(
                 vectorized_param,
-                tf.reshape(p_grad_new, vectorized_param.shape)
+                tf.reshape(param, vectorized_param.shape)
+                + tf.reshape(p_grad_new, vectorized_param.shape)
             )
 
             self.theta_t[i] = tf.assign(
diff --git a/pysgmcmc/samplers/sghmc.py b/pysgmcmc/samplers/sghmc.py
index ad9fbec..01a21fc 100644
--- a/pysgmcmc/samplers/sghmc.py
+++ b/pysgmcmc/samplers/sghmc.py
@@ -240,8 +240,9 @@ class SGHMCSampler(BurnInMCMCSampler):
                         )
 
                         # Equation 10: left side
-                        vectorized_Theta_t = tf.assign_add(
-                            vectorized_param, v_t
+                        vectorized_Theta_t = tf.assign(
+                            vectorized_param,
+                            tf.reshape(param, vectorized_param.shape) + v_t
                         )
 
                         self.theta_t[i] = tf.assign(
diff --git a/pysgmcmc/samplers/sgld.py b/pysgmcmc/samplers/sgld.py
index 438d84c..9b23437 100644
--- a/pysgmcmc/samplers/sgld.py
+++ b/pysgmcmc/samplers/sgld.py
@@ -201,8 +201,9 @@ class SGLDSampler(BurnInMCMCSampler):
 
                         #  SGLD Update {{{ #
 
-                        vectorized_theta_t = tf.assign_add(
+                        vectorized_theta_t = tf.assign(
                             vectorized_param,
+                            tf.reshape(param, vectorized_param.shape)
                             - self.epsilon * self.minv_t[i] * A * grad + sample,
                         )
                         self.theta_t[i] = tf.assign(
-- 
2.43.0


From 77cb9762d2d3a79f80be89985c53829f940d22a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:26 +0000
Subject: [PATCH 23/35] fix: default session of samplers is not frozen when
 pysgmcmc is imported

---
 pysgmcmc/samplers/base_classes.py       | 4 ++--
 pysgmcmc/samplers/relativistic_sghmc.py | 2 +-
 pysgmcmc/samplers/sghmc.py              | 2 +-
 pysgmcmc/samplers/sgld.py               | 2 +-
 pysgmcmc/samplers/svgd.py               | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index 5bc6406..11284d8 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -23,7 +23,7 @@ class MCMCSampler(object):
 
     def __init__(self, params, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.01),
-                 session=tf.get_default_session(), dtype=tf.float64, seed=None):
+                 session=None, dtype=tf.float64, seed=None):
         """
         Initialize the sampler base class. Sets up member variables and
         initializes uninitialized target parameters in the current
@@ -331,7 +331,7 @@ class BurnInMCMCSampler(MCMCSampler):
     def __init__(self, params, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.01),
                  burn_in_steps=3000,
-                 session=tf.get_default_session(), dtype=tf.float64, seed=None):
+                 session=None, dtype=tf.float64, seed=None):
         """
         Initializes the corresponding MCMCSampler super object and
         sets member variables.
diff --git a/pysgmcmc/samplers/relativistic_sghmc.py b/pysgmcmc/samplers/relativistic_sghmc.py
index 4cfa436..60a2de5 100644
--- a/pysgmcmc/samplers/relativistic_sghmc.py
+++ b/pysgmcmc/samplers/relativistic_sghmc.py
@@ -25,7 +25,7 @@ class RelativisticSGHMCSampler(MCMCSampler):
     def __init__(self, params, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.001),
                  mass=1.0, speed_of_light=1.0, D=1.0, Bhat=0.0,
-                 session=tf.get_default_session(), dtype=tf.float64, seed=None):
+                 session=None, dtype=tf.float64, seed=None):
         """ Initialize the sampler parameters and set up a tensorflow.Graph
             for later queries.
 
diff --git a/pysgmcmc/samplers/sghmc.py b/pysgmcmc/samplers/sghmc.py
index 01a21fc..32d42c3 100644
--- a/pysgmcmc/samplers/sghmc.py
+++ b/pysgmcmc/samplers/sghmc.py
@@ -31,7 +31,7 @@ class SGHMCSampler(BurnInMCMCSampler):
     def __init__(self, params, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.01),
                  burn_in_steps=3000, mdecay=0.05, scale_grad=1.0,
-                 session=tf.get_default_session(), dtype=tf.float64, seed=None):
+                 session=None, dtype=tf.float64, seed=None):
         """ Initialize the sampler parameters and set up a tensorflow.Graph
             for later queries.
 
diff --git a/pysgmcmc/samplers/sgld.py b/pysgmcmc/samplers/sgld.py
index 9b23437..eaaa990 100644
--- a/pysgmcmc/samplers/sgld.py
+++ b/pysgmcmc/samplers/sgld.py
@@ -32,7 +32,7 @@ class SGLDSampler(BurnInMCMCSampler):
     def __init__(self, params, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.01),
                  burn_in_steps=3000, A=1.0, scale_grad=1.0,
-                 session=tf.get_default_session(), dtype=tf.float64, seed=None):
+                 session=None, dtype=tf.float64, seed=None):
         """ Initialize the sampler parameters and set up a tensorflow.Graph
             for later queries.
 
diff --git a/pysgmcmc/samplers/svgd.py b/pysgmcmc/samplers/svgd.py
index 62e7b07..a511904 100644
--- a/pysgmcmc/samplers/svgd.py
+++ b/pysgmcmc/samplers/svgd.py
@@ -22,7 +22,7 @@ class SVGDSampler(MCMCSampler):
     """
     def __init__(self, particles, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.1),
-                 alpha=0.9, fudge_factor=1e-6, session=tf.get_default_session(),
+                 alpha=0.9, fudge_factor=1e-6, session=None,
                  dtype=tf.float64, seed=None):
         """ Initialize the sampler parameters and set up a tensorflow.Graph
             for later queries.
-- 
2.43.0


From 687f3d4fb5b52662e7b1a37c8fe19368e76463ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:33 +0000
Subject: [PATCH 24/35] fix: uninitialized_params accepts an empty list of
 variables

---
 pysgmcmc/tensor_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/tensor_utils.py b/pysgmcmc/tensor_utils.py
index 10b1f7e..5ee9f2d 100644
--- a/pysgmcmc/tensor_utils.py
+++ b/pysgmcmc/tensor_utils.py
@@ -599,7 +599,7 @@ def uninitialized_params(params, session):
     assert isinstance(session, (tf.Session, tf.InteractiveSession))
 
     init_flag = session.run(
-        tf.stack([tf.is_variable_initialized(v) for v in params])
+        [tf.is_variable_initialized(v) for v in params]
     )
 
     return [param for param, flag in zip(params, init_flag) if not flag]
-- 
2.43.0


From be01a433b99743e33378e8bb994bc37cb1736256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:28 +0000
Subject: [PATCH 25/35] fix: squareform of a scalar raises NotImplementedError

---
 pysgmcmc/tensor_utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pysgmcmc/tensor_utils.py b/pysgmcmc/tensor_utils.py
index 5ee9f2d..fb1c720 100644
--- a/pysgmcmc/tensor_utils.py
+++ b/pysgmcmc/tensor_utils.py
@@ -465,11 +465,10 @@ def squareform(tensor):
 
     assert isinstance(tensor, tf.Tensor), "tensor_utils.squareform: Input must be a `tensorflow.Tensor` instance."
 
-    tensor_shape = tensor.shape.as_list()
-    n_elements = tensor_shape[0]
-
     if _is_vector(tensor):
         # vector to matrix
+        n_elements = tensor.shape.as_list()[0]
+
         if n_elements == 0:
             return tf.zeros((1, 1), dtype=tensor.dtype)
 
-- 
2.43.0


From c591bdfba9ef341c245df7a8a9d9e4de188f8412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 26/35] fix: a step whose cost or gradients fail no longer
 adapts the mass matrix

---
 pysgmcmc/samplers/sghmc.py | 4 +++-
 pysgmcmc/samplers/sgld.py  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pysgmcmc/samplers/sghmc.py b/pysgmcmc/samplers/sghmc.py
index 32d42c3..5e24c92 100644
--- a/pysgmcmc/samplers/sghmc.py
+++ b/pysgmcmc/samplers/sghmc.py
@@ -167,7 +167,9 @@ class SGHMCSampler(BurnInMCMCSampler):
         for i, (param, grad) in enumerate(zip(params, grads)):
             vectorized_param = self.vectorized_params[i]
             #  Burn-in logic {{{ #
-            r_t = tf.assign(r[i], 1. / (tau[i] + 1), name="r_t_{}".format(i))
+            # nothing is adapted in a step whose cost or gradients fail
+            with tf.control_dependencies([grad]):
+                r_t = tf.assign(r[i], 1. / (tau[i] + 1), name="r_t_{}".format(i))
 
             # r_t should always use the old value of tau
             with tf.control_dependencies([r_t]):
diff --git a/pysgmcmc/samplers/sgld.py b/pysgmcmc/samplers/sgld.py
index eaaa990..01cd005 100644
--- a/pysgmcmc/samplers/sgld.py
+++ b/pysgmcmc/samplers/sgld.py
@@ -154,7 +154,9 @@ class SGLDSampler(BurnInMCMCSampler):
             vectorized_param = self.vectorized_params[i]
 
             #  Burn-in logic {{{ #
-            r_t = tf.assign(R[i], 1. / (tau[i] + 1.), name="r_t_{}".format(i))
+            # nothing is adapted in a step whose cost or gradients fail
+            with tf.control_dependencies([grad]):
+                r_t = tf.assign(R[i], 1. / (tau[i] + 1.), name="r_t_{}".format(i))
             # r_t should always use the old value of tau
             with tf.control_dependencies([r_t]):
                 tau_t = tf.assign_add(
-- 
2.43.0


From 4e727c2bb504683399d21436c76f7b75bd0f591c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 27/35] fix: median of large integers no longer overflows

---
 pysgmcmc/tensor_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pysgmcmc/tensor_utils.py b/pysgmcmc/tensor_utils.py
index fb1c720..8de847e 100644
--- a/pysgmcmc/tensor_utils.py
+++ b/pysgmcmc/tensor_utils.py
@@ -205,7 +205,12 @@ def median(tensor):
     if n_elements % 2 == 1:
         return sorted_tensor.values[mid_index]
 
-    return (sorted_tensor.values[mid_index - 1] + sorted_tensor.values[mid_index]) / 2
+    values = sorted_tensor.values
+    if values.dtype.is_integer:
+        # the sum of two large integers may not fit their type
+        values = tf.cast(values, tf.float64)
+
+    return (values[mid_index - 1] + values[mid_index]) / 2
 
 
 def safe_divide(x, y, small_constant=1e-16, name=None):
-- 
2.43.0


From 28d260dae444643c228544525ce73da66809b1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:33 +0000
Subject: [PATCH 28/35] fix: normalising integer data no longer wraps around

---
 pysgmcmc/models/base_model.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pysgmcmc/models/base_model.py b/pysgmcmc/models/base_model.py
index 5f701c3..890d7df 100644
--- a/pysgmcmc/models/base_model.py
+++ b/pysgmcmc/models/base_model.py
@@ -106,8 +106,16 @@ class BaseModel(object):
         return self.X[best_idx], self.y[best_idx]
 
 
+def _as_floats(X):
+    """ Integer data as floats: differences of integers may not fit their type. """
+    X = np.asarray(X)
+    return X.astype(np.float64) if X.dtype.kind in "biu" else X
+
+
 def zero_one_normalization(X, lower=None, upper=None):
 
+    X = _as_floats(X)
+
     if lower is None:
         lower = np.min(X, axis=0)
     if upper is None:
@@ -125,6 +133,8 @@ def zero_one_unnormalization(X_normalized, lower, upper):
 
 
 def zero_mean_unit_var_normalization(X, mean=None, std=None):
+    X = _as_floats(X)
+
     if mean is None:
         mean = np.mean(X, axis=0)
     if std is None:
-- 
2.43.0


From dc50b8e269f52ea909e8ae3fed878145c04c7988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:34 +0000
Subject: [PATCH 29/35] fix: a network samples its own parameters, not every
 trainable variable of the graph

---
 pysgmcmc/models/bayesian_neural_network.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pysgmcmc/models/bayesian_neural_network.py b/pysgmcmc/models/bayesian_neural_network.py
index 62039f0..5befff5 100644
--- a/pysgmcmc/models/bayesian_neural_network.py
+++ b/pysgmcmc/models/bayesian_neural_network.py
@@ -368,8 +368,17 @@ class BayesianNeuralNetwork(object):
 
         """
 
+        existing = {id(variable) for variable in tf.trainable_variables()}
+
         self.net_output = self.get_net(inputs=X, seed=self.seed, dtype=self.dtype)
 
+        # other trainable variables of the graph are not part of our network
+        self.network_params = [
+            variable for variable in tf.trainable_variables()
+            if id(variable) not in existing or
+            tf.gradients(self.net_output, variable) != [None]
+        ]
+
         f_mean = tf.reshape(self.net_output[:, 0], shape=(-1, 1))
         f_log_var = tf.reshape(self.net_output[:, 1], shape=(-1, 1))
 
@@ -394,7 +403,7 @@ class BayesianNeuralNetwork(object):
         log_like += log_variance_prior_log_like(f_log_var, dtype=self.dtype) / n_examples
 
         # prior for the weights
-        log_like += weight_prior_log_like(tf.trainable_variables(), dtype=self.dtype) / n_examples
+        log_like += weight_prior_log_like(self.network_params, dtype=self.dtype) / n_examples
 
         return -log_like, tf.reduce_mean(mse)
 
@@ -440,8 +449,6 @@ class BayesianNeuralNetwork(object):
             X=self.X_Minibatch, Y=self.Y_Minibatch
         )
 
-        self.network_params = tf.trainable_variables()
-
         # remove any leftover samples from previous "train" calls
         self.samples.clear()
 
-- 
2.43.0


From 38ce95a09c471b929497f5c7fe7246221380224a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:27 +0000
Subject: [PATCH 30/35] fix: training a network leaves the values of other
 variables alone

---
 pysgmcmc/models/bayesian_neural_network.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pysgmcmc/models/bayesian_neural_network.py b/pysgmcmc/models/bayesian_neural_network.py
index 5befff5..2299669 100644
--- a/pysgmcmc/models/bayesian_neural_network.py
+++ b/pysgmcmc/models/bayesian_neural_network.py
@@ -18,7 +18,7 @@ from pysgmcmc.sampling import Sampler
 from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule
 
 from pysgmcmc.data_batches import generate_batches
-from pysgmcmc.tensor_utils import safe_divide
+from pysgmcmc.tensor_utils import safe_divide, uninitialized_params
 
 #  }}}  Imports #
 
@@ -444,6 +444,10 @@ class BayesianNeuralNetwork(object):
                                           name="X_Minibatch")
         self.Y_Minibatch = tf.placeholder(dtype=self.dtype, name="Y_Minibatch")
 
+        # initialized variables of others keep their values
+        others = tf.global_variables()
+        uninitialized = uninitialized_params(others, session=self.session)
+
         # set up tensors for negative log likelihood and mean squared error
         Nll, Mse = self.negative_log_likelihood(
             X=self.X_Minibatch, Y=self.Y_Minibatch
@@ -483,7 +487,14 @@ class BayesianNeuralNetwork(object):
             self.sampling_method, **self.sampler_kwargs
         )
 
-        self.session.run(tf.global_variables_initializer())
+        keep = {id(variable) for variable in others} - {
+            id(variable) for variable in uninitialized + self.network_params
+        }
+
+        self.session.run(tf.variables_initializer([
+            variable for variable in tf.global_variables()
+            if id(variable) not in keep
+        ]))
 
         logging.info("Starting sampling")
 
-- 
2.43.0


From 22cc118206704fabe9cdf9b928be6807aea506ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 31/35] fix: the default network can be built more than once
 per graph

---
 pysgmcmc/models/bayesian_neural_network.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pysgmcmc/models/bayesian_neural_network.py b/pysgmcmc/models/bayesian_neural_network.py
index 2299669..162f05b 100644
--- a/pysgmcmc/models/bayesian_neural_network.py
+++ b/pysgmcmc/models/bayesian_neural_network.py
@@ -39,28 +39,24 @@ def get_default_net(inputs, seed=None, dtype=tf.float64):
         inputs, units=50, activation=tf.tanh,
         kernel_initializer=HeNormal(factor=1.0, dtype=dtype, seed=seed),
         bias_initializer=tf.zeros_initializer(dtype=dtype),
-        name="fc_layer_1"
     )
 
     fc_layer_2 = tf.layers.dense(
         fc_layer_1, units=50, activation=tf.tanh,
         kernel_initializer=HeNormal(factor=1.0, dtype=dtype, seed=seed),
         bias_initializer=tf.zeros_initializer(dtype=dtype),
-        name="fc_layer_2"
     )
 
     fc_layer_3 = tf.layers.dense(
         fc_layer_2, units=50, activation=tf.tanh,
         kernel_initializer=HeNormal(factor=1.0, dtype=dtype, seed=seed),
         bias_initializer=tf.zeros_initializer(dtype=dtype),
-        name="fc_layer_3"
     )
 
     layer_4 = tf.layers.dense(
         fc_layer_3, units=1, activation=None,  # linear activation
         kernel_initializer=HeNormal(factor=1.0, dtype=dtype, seed=seed),
         bias_initializer=tf.zeros_initializer(dtype=dtype),
-        name="fc_layer_4"
     )
 
     output_bias = tf.Variable(
-- 
2.43.0


From 06bb1f78696f1474021ee3a43a6667ef16826bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 32/35] fix: no predictions from a training that failed

---
 pysgmcmc/models/bayesian_neural_network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysgmcmc/models/bayesian_neural_network.py b/pysgmcmc/models/bayesian_neural_network.py
index 162f05b..13621e3 100644
--- a/pysgmcmc/models/bayesian_neural_network.py
+++ b/pysgmcmc/models/bayesian_neural_network.py
@@ -424,6 +424,9 @@ class BayesianNeuralNetwork(object):
 
         start_time = time()
 
+        # no predictions until this training is complete
+        self.is_trained = False
+
         self.X, self.y = X, y
 
         if self.normalize_input:
-- 
2.43.0


From 3c4d9de38547a079b5aa1e0c35d26254cccfc465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:21 +0000
Subject: [PATCH 33/35] fix: log the number of collected samples while
 sampling, not in burn-in

---
 pysgmcmc/models/bayesian_neural_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/models/bayesian_neural_network.py b/pysgmcmc/models/bayesian_neural_network.py
index 13621e3..f041f95 100644
--- a/pysgmcmc/models/bayesian_neural_network.py
+++ b/pysgmcmc/models/bayesian_neural_network.py
@@ -520,7 +520,7 @@ class BayesianNeuralNetwork(object):
                 }
             )
             seconds_elapsed = time() - start_time
-            if is_sampling:
+            if not is_sampling:
                 logging.info("Iter {:8d} : NLL = {:.4e} MSE = {:.4e} "
                              "Time = {:5.2f}".format(iteration_index,
                                                      float(total_nll),
-- 
2.43.0


From 2afe512e204f64d389c4deb533c9b642e2462ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:07 +0000
Subject: [PATCH 34/35] fix: a step leaves the caller's feed_dict as it is

---
 pysgmcmc/samplers/base_classes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index 11284d8..116a176 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -299,8 +299,8 @@ class MCMCSampler(object):
         # Ensure self.theta_t and self.cost are defined
         assert hasattr(self, "theta_t") or not hasattr(self, "cost")
 
-        if feed_dict is None:
-            feed_dict = dict()
+        # never add to a dictionary that belongs to the caller
+        feed_dict = dict(feed_dict or ())
 
         feed_dict.update(self._next_batch())
         feed_dict.update(self._next_stepsize())
@@ -435,8 +435,8 @@ class BurnInMCMCSampler(MCMCSampler):
         """
         assert (feed_dict is None or hasattr(feed_dict, "update"))
 
-        if feed_dict is None:
-            feed_dict = dict()
+        # never add to a dictionary that belongs to the caller
+        feed_dict = dict(feed_dict or ())
 
         if self.is_burning_in:
             # feed next batch and stepsize
-- 
2.43.0


From 87ac073783377262b9f2a2935dc2a283171f43a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:04 +0000
Subject: [PATCH 35/35] fix: let SVGD accept cost functions without a name,
 like all other samplers do

---
 pysgmcmc/samplers/svgd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysgmcmc/samplers/svgd.py b/pysgmcmc/samplers/svgd.py
index a511904..cf31727 100644
--- a/pysgmcmc/samplers/svgd.py
+++ b/pysgmcmc/samplers/svgd.py
@@ -87,7 +87,9 @@ class SVGDSampler(MCMCSampler):
         def cost_fun_wrapper(params):
             return tf.map_fn(lambda particle: cost_fun(particle), self.particles)
 
-        cost_fun_wrapper.__name__ = cost_fun.__name__
+        # callables such as `functools.partial` objects have no name
+        if hasattr(cost_fun, "__name__"):
+            cost_fun_wrapper.__name__ = cost_fun.__name__
 
         super().__init__(
             params=particles,
-- 
2.43.0

