From f69c46a9b4193e967d2a0ce23323876d8a7bc13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:48:44 +0000
Subject: [PATCH 01/87] fix: seed the remote problem via manual_seed when
 actors are created

A problem with its own seed could not be parallelized: creating its actors
failed with AttributeError because Problem has no method named seed.
---
 src/evotorch/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index e2b4324..a7f0b57 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -137,7 +137,7 @@ class EvaluationActor:
         np.random.seed(np_global)
         torch.manual_seed(torch_global)
         if self._problem.has_own_generator:
-            self._problem.seed(probseed)
+            self._problem.manual_seed(probseed)
         self._problem._use_pickle_data_from_main(state)
         self._problem.remote_hook(self._problem)
         if isinstance(self._problem._num_gpus_per_actor, str) and (self._problem._num_gpus_per_actor == "all"):
-- 
2.43.0


From 845e896c3da4e6157d49ff8ad72fafc6d0b80284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:06:41 +0000
Subject: [PATCH 02/87] fix: keep track of the best and worst solutions when
 the first fitnesses are infinite

If every fitness of the first evaluated batch was infinitely bad, no best
solution was stored and Problem.evaluate failed with AttributeError.
---
 src/evotorch/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index a7f0b57..b5c8072 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2377,10 +2377,12 @@ class Problem(TensorMakerMixin, Serializable):
             scores = batch.access_evals(i_obj)
             best_score = scores[best_sln_index]
             worst_score = scores[worst_sln_index]
-            if first_is_better(best_score, self._best_evals[i_obj], i_obj):
+            no_best = (self._best[i_obj] is None) or torch.isnan(self._best_evals[i_obj])
+            no_worst = (self._worst[i_obj] is None) or torch.isnan(self._worst_evals[i_obj])
+            if no_best or first_is_better(best_score, self._best_evals[i_obj], i_obj):
                 self._best_evals[i_obj] = best_score
                 self._best[i_obj] = batch[best_sln_index].clone()
-            if first_is_worse(worst_score, self._worst_evals[i_obj], i_obj):
+            if no_worst or first_is_worse(worst_score, self._worst_evals[i_obj], i_obj):
                 self._worst_evals[i_obj] = worst_score
                 self._worst[i_obj] = batch[worst_sln_index].clone()
 
-- 
2.43.0


From 2fc2d42784e44283140ea3a6ab645521ff15728d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:10:03 +0000
Subject: [PATCH 03/87] fix: raise IndexError when a batch is indexed with its
 own length

---
 src/evotorch/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index b5c8072..44040f7 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -4761,7 +4761,7 @@ class Solution(Serializable):
         index = int(index)
         if index < 0:
             index = len(parent) + index
-        if not ((index >= 0) and (index <= len(parent))):
+        if not ((index >= 0) and (index < len(parent))):
             raise IndexError(f"Invalid index: {index}")
         self._batch: SolutionBatch = parent[index : index + 1]
 
-- 
2.43.0


From 97d9ac6cee51ddb0ef3115f9b449c88bcef31e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:14:31 +0000
Subject: [PATCH 04/87] fix: make the nes ranking usable with batched fitnesses

---
 src/evotorch/tools/ranking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/ranking.py b/src/evotorch/tools/ranking.py
index 26534d8..7f5efd6 100644
--- a/src/evotorch/tools/ranking.py
+++ b/src/evotorch/tools/ranking.py
@@ -114,7 +114,7 @@ def nes(fitnesses: torch.Tensor, *, higher_is_better: bool = True) -> torch.Tens
         )
 
         indices = torch.argsort(x, descending=(not higher_is_better))
-        ranks = torch.empty(n, dtype=indices.dtype, device=device)
+        ranks = torch.empty_like(indices)
         ranks[indices] = torch.arange(n, dtype=indices.dtype, device=device)
 
         utils = weights[ranks]
-- 
2.43.0


From 88fc704f8973639187fedaf4236638e2a002ebe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:16:10 +0000
Subject: [PATCH 05/87] fix: compute true crowding ranks, so that the least
 crowded solutions are selected

---
 src/evotorch/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 44040f7..b1d7b29 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -3529,7 +3529,7 @@ def _compute_pareto_ranks(utils: torch.Tensor, crowdsort: bool) -> Tuple[torch.T
         if crowdsort:
             crowdsort_distances = _crowding_distance_assignment(utils[new_non_dominated])
             # Note the descending sort -- we want to maximize distances
-            crowdsort_ranks[new_non_dominated] = torch.argsort(crowdsort_distances, descending=True)
+            crowdsort_ranks[new_non_dominated] = torch.argsort(torch.argsort(crowdsort_distances, descending=True))
 
         # Update the number of dominations for remaining solutions by removing any domination counts introduce by the solutions we just sorted
         n_dominations += -dominated_matrix[:, new_non_dominated].sum(dim=-1)
@@ -3566,7 +3566,7 @@ def _pareto_sort(utils: torch.Tensor, crowdsort: bool) -> Tuple[List[torch.Tenso
         # Sort according to crowdsort_ranks if crowdsort
         if crowdsort:
             front_crowdsort_ranks = crowdsort_ranks[front]
-            front = front[front_crowdsort_ranks]
+            front = front[torch.argsort(front_crowdsort_ranks)]
 
         fronts.append(front)
     return fronts, ranks
-- 
2.43.0


From ccaea64c8bf8941738851b9b3c929852e010c122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:18:58 +0000
Subject: [PATCH 06/87] fix: let make_randint of a problem accept
 use_eval_dtype=True

---
 src/evotorch/tools/tensormaker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/tensormaker.py b/src/evotorch/tools/tensormaker.py
index fcf8d17..cde7a5c 100644
--- a/src/evotorch/tools/tensormaker.py
+++ b/src/evotorch/tools/tensormaker.py
@@ -736,7 +736,7 @@ class TensorMakerMixin:
             distributed values.
         """
 
-        if (dtype is None) and (out is None):
+        if (dtype is None) and (out is None) and (not use_eval_dtype):
             dtype = torch.int64
 
         args, kwargs = self.__get_all_args_for_random_maker(
-- 
2.43.0


From e052d8f99135c9418cc8b2f025400826530c5491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:18:58 +0000
Subject: [PATCH 07/87] fix: accept dtypes given as strings in the random
 tensor makers

---
 src/evotorch/tools/misc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/evotorch/tools/misc.py b/src/evotorch/tools/misc.py
index d219d38..c4afd67 100644
--- a/src/evotorch/tools/misc.py
+++ b/src/evotorch/tools/misc.py
@@ -1280,6 +1280,7 @@ def _out_tensor_for_random_operation(
     device: Optional[Device] = None,
 ) -> torch.Tensor:
     if out is None:
+        dtype = None if dtype is None else to_torch_dtype(dtype)
         out = torch.empty(tuple(), dtype=dtype, device=device).expand(*size)
         out = out + make_batched_false_for_vmap(out.device)
     else:
-- 
2.43.0


From dfa6bdd6a7c7cfd85d1b760bcb186cd8147613d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:18:58 +0000
Subject: [PATCH 08/87] fix: respect the bounds of integer uniform sampling
 with narrow dtypes

---
 src/evotorch/tools/misc.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/evotorch/tools/misc.py b/src/evotorch/tools/misc.py
index c4afd67..b2ff9b1 100644
--- a/src/evotorch/tools/misc.py
+++ b/src/evotorch/tools/misc.py
@@ -1637,10 +1637,18 @@ def make_uniform(
             out %= 2
         elif (lb is not None) and (ub is not None):
             _cast_bounds()
-            diff = (ub - lb) + 1
-            out -= lb
-            out %= diff
-            out += lb
+            if out.dtype == torch.int64:
+                diff = (ub - lb) + 1
+                out -= lb
+                out %= diff
+                out += lb
+            else:
+                # With a narrow dtype, the size of the interval might not be representable by that dtype, and
+                # `random_()` might not cover the interval. Therefore, the sampling is done with int64.
+                lb = lb.to(torch.int64)
+                ub = ub.to(torch.int64)
+                values = torch.empty_like(out, dtype=torch.int64).random_(**gen_kwargs)
+                out[:] = (values % ((ub - lb) + 1)) + lb
         else:
             _invalid_bound_args()
     else:
-- 
2.43.0


From cc2ab563ecfa7d1042e9a3c1f854513dedb154ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:23:28 +0000
Subject: [PATCH 09/87] fix: let the one-point cross-over work with solutions
 of length 1

---
 src/evotorch/operators/real.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/operators/real.py b/src/evotorch/operators/real.py
index f723253..8965674 100644
--- a/src/evotorch/operators/real.py
+++ b/src/evotorch/operators/real.py
@@ -171,7 +171,9 @@ class MultiPointCrossOver(CrossOver):
 
         if num_points == 1:
             # For each pairing, generate a gene index at which the parent solutions will be cut and recombined
-            crossover_point = self.problem.make_randint((num_pairings, 1), n=(solution_length - 1), device=device) + 1
+            # (a solution with a single gene has no inner cutting point, in which case the parents stay uncut)
+            num_choices = max(solution_length - 1, 1)
+            crossover_point = self.problem.make_randint((num_pairings, 1), n=num_choices, device=device) + 1
 
             # Make a mask for crossing over
             # (False: take the value from one parent, True: take the value from the other parent).
-- 
2.43.0


From 1b556407e49cb90d4cdda2a31ef91c77cdd94e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:25:17 +0000
Subject: [PATCH 10/87] fix: keep the variables with equal bounds unchanged in
 the polynomial mutation

---
 src/evotorch/operators/real.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evotorch/operators/real.py b/src/evotorch/operators/real.py
index 8965674..6363269 100644
--- a/src/evotorch/operators/real.py
+++ b/src/evotorch/operators/real.py
@@ -565,6 +565,9 @@ class PolynomialMutation(CopyingOperator):
             # decision variables will be affected by this mutation operation.
             to_mutate = self.problem.make_uniform_shaped_like(data) < self._prob
 
+        # Variables whose lower and upper bounds are equal have no other value to take, so, they are left as they are.
+        to_mutate = to_mutate & (self._lb < self._ub)
+
         # Obtain a flattened (1-dimensional) tensor which addresses only the variables that are subject to mutation
         # (i.e. variables that are not subject to mutation are filtered out).
         selected = data[to_mutate]
-- 
2.43.0


From df37b744c1cd10a493242fc6b9514fd1f28a00db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:25:40 +0000
Subject: [PATCH 11/87] fix: compute the covariance of ExpGaussian as A @ A.T,
 in agreement with its samples

---
 src/evotorch/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/distributions.py b/src/evotorch/distributions.py
index 2636a3e..bb15e4e 100644
--- a/src/evotorch/distributions.py
+++ b/src/evotorch/distributions.py
@@ -884,7 +884,7 @@ class ExpGaussian(Distribution):
     @property
     def cov(self) -> torch.Tensor:
         """The covariance matrix A^T A"""
-        return self.sigma.transpose(0, 1) @ self.sigma
+        return self.sigma @ self.sigma.transpose(0, 1)
 
     @property
     def sigma(self) -> torch.Tensor:
-- 
2.43.0


From 7ab15622f836c49570d6426358cb44922b2750a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:25:40 +0000
Subject: [PATCH 12/87] fix: do not modify the dictionaries given to
 ExpGaussian

---
 src/evotorch/distributions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/distributions.py b/src/evotorch/distributions.py
index bb15e4e..ff129db 100644
--- a/src/evotorch/distributions.py
+++ b/src/evotorch/distributions.py
@@ -829,6 +829,9 @@ class ExpGaussian(Distribution):
     ):
         [mu_length] = parameters["mu"].shape
 
+        # Take a shallow copy, so that the dictionary given by the caller is not modified
+        parameters = copy(parameters)
+
         # Make sigma 2D
         if len(parameters["sigma"].shape) == 1:
             parameters["sigma"] = torch.diag(parameters["sigma"])
@@ -996,9 +999,10 @@ class ExpGaussian(Distribution):
         d_grad = gradients["d"]
         M_grad = gradients["M"]
 
-        if "d" not in learning_rates:
+        learning_rates = {} if learning_rates is None else copy(learning_rates)
+        if ("d" not in learning_rates) and ("mu" in learning_rates):
             learning_rates["d"] = learning_rates["mu"]
-        if "M" not in learning_rates:
+        if ("M" not in learning_rates) and ("sigma" in learning_rates):
             learning_rates["M"] = learning_rates["sigma"]
 
         # Follow gradients for d, and M
-- 
2.43.0


From 9e1a9a5ed7d6ce60344d9677aad312d78cd0b22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:25:57 +0000
Subject: [PATCH 13/87] fix: keep the inverse of sigma up to date when the
 sigma of an ExpGaussian is changed

---
 src/evotorch/distributions.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/evotorch/distributions.py b/src/evotorch/distributions.py
index ff129db..f86954d 100644
--- a/src/evotorch/distributions.py
+++ b/src/evotorch/distributions.py
@@ -925,6 +925,18 @@ class ExpGaussian(Distribution):
             new_sigma (torch.Tensor): The new value of sigma, the square root of the covariance matrix
         """
         self.parameters["sigma"] = torch.as_tensor(new_sigma, dtype=self.dtype, device=self.device)
+        self.parameters["sigma_inv"] = torch.inverse(self.parameters["sigma"])
+
+    def modified_copy(
+        self, *, dtype: Optional[DType] = None, device: Optional[Device] = None, **parameters
+    ) -> "ExpGaussian":
+        if ("sigma" in parameters) and ("sigma_inv" not in parameters):
+            # The inverse stored by this distribution does not belong to the new sigma, so, we compute a new inverse.
+            sigma = parameters["sigma"]
+            if sigma.ndim == 1:
+                sigma = torch.diag(sigma)
+            parameters = {**parameters, "sigma": sigma, "sigma_inv": torch.inverse(sigma)}
+        return super().modified_copy(dtype=dtype, device=device, **parameters)
 
     def to_global_coordinates(self, local_coordinates: torch.Tensor) -> torch.Tensor:
         """Map samples from local coordinate space N(0, I_d) to global coordinate space N(mu, A^T A)
-- 
2.43.0


From da6ca8c9a1d9fe400eff45577b470b327df8dff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:25:57 +0000
Subject: [PATCH 14/87] fix: state the covariance of ExpGaussian correctly in
 the docstrings

---
 src/evotorch/distributions.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/evotorch/distributions.py b/src/evotorch/distributions.py
index f86954d..3d1c765 100644
--- a/src/evotorch/distributions.py
+++ b/src/evotorch/distributions.py
@@ -886,7 +886,7 @@ class ExpGaussian(Distribution):
 
     @property
     def cov(self) -> torch.Tensor:
-        """The covariance matrix A^T A"""
+        """The covariance matrix A A^T"""
         return self.sigma @ self.sigma.transpose(0, 1)
 
     @property
@@ -939,22 +939,22 @@ class ExpGaussian(Distribution):
         return super().modified_copy(dtype=dtype, device=device, **parameters)
 
     def to_global_coordinates(self, local_coordinates: torch.Tensor) -> torch.Tensor:
-        """Map samples from local coordinate space N(0, I_d) to global coordinate space N(mu, A^T A)
+        """Map samples from local coordinate space N(0, I_d) to global coordinate space N(mu, A A^T)
         This function is the inverse of to_local_coordinates
         Args:
             local_coordinates (torch.Tensor): The local coordinates sampled from N(0, I_d)
         Returns:
-            global_coordinates (torch.Tensor): The global coordinates sampled from N(mu, A^T A)
+            global_coordinates (torch.Tensor): The global coordinates sampled from N(mu, A A^T)
         """
         # Global samples are constructed as x = mu + A z where z is local coordinate
         # We use transpose here to simplify the batched application of A
         return self.mu.unsqueeze(0) + (self.A @ local_coordinates.T).T
 
     def to_local_coordinates(self, global_coordinates: torch.Tensor) -> torch.Tensor:
-        """Map samples from global coordinate space N(mu, A^T A) to local coordinate space N(0, I_d)
+        """Map samples from global coordinate space N(mu, A A^T) to local coordinate space N(0, I_d)
         This function is the inverse of to_global_coordinates
         Args:
-            global_coordinates (torch.Tensor): The global coordinates sampled from N(mu, A^T A)
+            global_coordinates (torch.Tensor): The global coordinates sampled from N(mu, A A^T)
         Returns:
             local_coordinates (torch.Tensor): The local coordinates sampled from N(0, I_d)
         """
@@ -963,7 +963,7 @@ class ExpGaussian(Distribution):
         return (self.A_inv @ (global_coordinates - self.mu.unsqueeze(0)).T).T
 
     def _fill(self, out: torch.Tensor, *, generator: Optional[torch.Generator] = None):
-        """Fill a tensor with samples from N(mu, A^T A)
+        """Fill a tensor with samples from N(mu, A A^T)
         Args:
             out (torch.Tensor): The tensor to fill
             generator (Optional[torch.Generator]): A generator to use to generate random values
@@ -976,7 +976,7 @@ class ExpGaussian(Distribution):
     def _compute_gradients(self, samples: torch.Tensor, weights: torch.Tensor, ranking_used: Optional[str]) -> dict:
         """Compute the gradients with respect to a given set of samples and weights
         Args:
-            samples (torch.Tensor): Samples drawn from N(mu, A^T A), ideally using self._fill
+            samples (torch.Tensor): Samples drawn from N(mu, A A^T), ideally using self._fill
             weights (torch.Tensor): Weights e.g. fitnesses or utilities assigned to samples
             ranking_used (optional[str]): The ranking method used to compute weights
         Returns:
-- 
2.43.0


From 85b9c9c7a978e2dda7a26c36dc8fda2f56111d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:42:16 +0000
Subject: [PATCH 15/87] fix: reject invalid hyperparameter values assigned via
 the parameter group of ClipUp

---
 src/evotorch/optimizers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/optimizers.py b/src/evotorch/optimizers.py
index 8f2276c..25f8b0c 100644
--- a/src/evotorch/optimizers.py
+++ b/src/evotorch/optimizers.py
@@ -398,11 +398,11 @@ class ClipUpParameterGroup(Mapping):
     def __setitem__(self, key: str, value: float):
         attrname = ClipUp._param_group_items[key]
         value = float(value)
-        if attrname in ClipUp._param_group_item_lb:
+        if key in ClipUp._param_group_item_lb:
             lb = ClipUp._param_group_item_lb[key]
             if value < lb:
                 raise ValueError(f"Invalid value for {repr(key)}: {value}")
-        if attrname in ClipUp._param_group_item_ub:
+        if key in ClipUp._param_group_item_ub:
             ub = ClipUp._param_group_item_ub[key]
             if value > ub:
                 raise ValueError(f"Invalid value for {repr(key)}: {value}")
-- 
2.43.0


From def7f9b145d731202ec9688b6cddcea7120b43e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:42:16 +0000
Subject: [PATCH 16/87] fix: use the given optimizer in XNES instead of
 silently ignoring it

---
 src/evotorch/distributions.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/evotorch/distributions.py b/src/evotorch/distributions.py
index 3d1c765..160484f 100644
--- a/src/evotorch/distributions.py
+++ b/src/evotorch/distributions.py
@@ -1017,6 +1017,12 @@ class ExpGaussian(Distribution):
         if ("M" not in learning_rates) and ("sigma" in learning_rates):
             learning_rates["M"] = learning_rates["sigma"]
 
+        optimizers = {} if optimizers is None else copy(optimizers)
+        if ("d" not in optimizers) and ("mu" in optimizers):
+            optimizers["d"] = optimizers["mu"]
+        if ("M" not in optimizers) and ("sigma" in optimizers):
+            optimizers["M"] = optimizers["sigma"]
+
         # Follow gradients for d, and M
         update_d = self._follow_gradient("d", d_grad, learning_rates=learning_rates, optimizers=optimizers)
         update_M = self._follow_gradient("M", M_grad, learning_rates=learning_rates, optimizers=optimizers)
-- 
2.43.0


From d30ff63ff07dce71494183a39972ed8154441ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:42:16 +0000
Subject: [PATCH 17/87] fix: allocate the averaged gradients with the right
 shapes in the distributed mode of XNES

---
 src/evotorch/algorithms/distributed/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/distributed/gaussian.py b/src/evotorch/algorithms/distributed/gaussian.py
index bf01a71..b3639dc 100644
--- a/src/evotorch/algorithms/distributed/gaussian.py
+++ b/src/evotorch/algorithms/distributed/gaussian.py
@@ -246,7 +246,7 @@ class GaussianSearchAlgorithm(SearchAlgorithm, SinglePopulationAlgorithmMixin):
         # For each gradient (in most cases among 'mu' and 'sigma'), we allocate a new 0-filled tensor.
         avg_gradients = {}
         for key in grad_keys:
-            avg_gradients[key] = self._distribution.make_zeros(num_solutions=1).reshape(-1)
+            avg_gradients[key] = torch.zeros_like(list_of.gradients[0][key])
 
         # Below, we iterate over all collected results and add their gradients, in a weighted manner, onto the
         # `avg_gradients` we allocated above.
-- 
2.43.0


From 72e4ffa223532b40945f9602dc7ea823f61efb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:42:52 +0000
Subject: [PATCH 18/87] fix: stop extending the population when the requested
 number of interactions is reached

---
 src/evotorch/algorithms/distributed/gaussian.py | 4 ++--
 src/evotorch/core.py                            | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/evotorch/algorithms/distributed/gaussian.py b/src/evotorch/algorithms/distributed/gaussian.py
index b3639dc..3d61b5d 100644
--- a/src/evotorch/algorithms/distributed/gaussian.py
+++ b/src/evotorch/algorithms/distributed/gaussian.py
@@ -341,8 +341,8 @@ class GaussianSearchAlgorithm(SearchAlgorithm, SinglePopulationAlgorithmMixin):
                     # We now compute the number of interactions we have made during this while loop.
                     interactions_made = self.problem.status["total_interaction_count"] - first_num_interactions
 
-                    if interactions_made > self._num_interactions:
-                        # If the number of interactions exceeds our threshold, we leave the loop.
+                    if interactions_made >= self._num_interactions:
+                        # If the number of interactions has reached our threshold, we leave the loop.
                         break
 
                 # Finally, we concatenate all our populations into one.
diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index b1d7b29..24f5ea9 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -3261,7 +3261,7 @@ class Problem(TensorMakerMixin, Serializable):
                 # Increase our total population size by the size of the most recent batch.
                 current_popsize += popsize
 
-                if current_num_interactions() > num_interactions:
+                if current_num_interactions() >= num_interactions:
                     # If the number of interactions has reached or exceeded the `num_interactions` threshold,
                     # we exit the loop.
                     break
-- 
2.43.0


From cbc4d4385eb87388d50ecf89d1b1681e3ef42538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:51:24 +0000
Subject: [PATCH 19/87] fix: let CMAES work on problems with a single decision
 variable

---
 src/evotorch/algorithms/cmaes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/cmaes.py b/src/evotorch/algorithms/cmaes.py
index c7039a8..ce856ca 100644
--- a/src/evotorch/algorithms/cmaes.py
+++ b/src/evotorch/algorithms/cmaes.py
@@ -251,7 +251,7 @@ class CMAES(SearchAlgorithm, SinglePopulationAlgorithmMixin):
             center_init = center_init.values.clone()
 
         # Store the center
-        self.m = self._problem.make_tensor(center_init).squeeze()
+        self.m = torch.atleast_1d(self._problem.make_tensor(center_init).squeeze())
         valid_shaped_m = (self.m.ndim == 1) and (len(self.m) == self._problem.solution_length)
         if not valid_shaped_m:
             raise ValueError(
-- 
2.43.0


From 73dccc6ca913e347e475b67d313b8c7dd4b9cf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:51:24 +0000
Subject: [PATCH 20/87] fix: let CMAES accept c_1 and c_mu as real numbers

---
 src/evotorch/algorithms/cmaes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/cmaes.py b/src/evotorch/algorithms/cmaes.py
index ce856ca..98b992f 100644
--- a/src/evotorch/algorithms/cmaes.py
+++ b/src/evotorch/algorithms/cmaes.py
@@ -380,7 +380,7 @@ class CMAES(SearchAlgorithm, SinglePopulationAlgorithmMixin):
 
         # How often to decompose C
         if limit_C_decomposition:
-            self.decompose_C_freq = max(1, int(np.floor(_safe_divide(1, 10 * d * (self.c_1.cpu() + self.c_mu.cpu())))))
+            self.decompose_C_freq = max(1, int(np.floor(_safe_divide(1, 10 * d * float(self.c_1 + self.c_mu)))))
         else:
             self.decompose_C_freq = 1
 
-- 
2.43.0


From ac96d5896f19206319f8f1e1f6563254520657d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:52:58 +0000
Subject: [PATCH 21/87] fix: keep the covariance of CMAES positive definite
 when limiting standard deviations

---
 src/evotorch/algorithms/cmaes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/algorithms/cmaes.py b/src/evotorch/algorithms/cmaes.py
index 98b992f..e33810c 100644
--- a/src/evotorch/algorithms/cmaes.py
+++ b/src/evotorch/algorithms/cmaes.py
@@ -74,8 +74,9 @@ def _limit_stdev(sigma: torch.Tensor, C: torch.Tensor, stdev_min: Optional[float
         C = unscaled_stdevs.pow(2.0)
     else:
         # Non-separable case
-        C = C.clone()
-        torch.diagonal(C)[:] = unscaled_stdevs.pow(2.0)
+        # Rescale the rows and the columns together, so that the correlations are kept and C stays positive definite
+        scale = unscaled_stdevs / torch.sqrt(torch.diag(C))
+        C = scale.unsqueeze(-1) * C * scale.unsqueeze(0)
 
     return C
 
-- 
2.43.0


From 16e7ae561e56f6a2732582072924d0df926f3f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:53:11 +0000
Subject: [PATCH 22/87] fix: make the separable covariance update of CMAES
 agree with the diagonal of the full one

---
 src/evotorch/algorithms/cmaes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/evotorch/algorithms/cmaes.py b/src/evotorch/algorithms/cmaes.py
index e33810c..ef3b19f 100644
--- a/src/evotorch/algorithms/cmaes.py
+++ b/src/evotorch/algorithms/cmaes.py
@@ -536,10 +536,10 @@ class CMAES(SearchAlgorithm, SinglePopulationAlgorithmMixin):
         weighted_pc = (self.c_1 / (c1a + 1e-23)) ** 0.5
         if self.separable:
             # Rank-1 update
-            r1_update = c1a * (self.p_c.pow(2.0) - self.C)
+            r1_update = c1a * ((weighted_pc * self.p_c).pow(2.0) - self.C)
             # Rank-mu update
-            rmu_update = self.c_mu * torch.sum(
-                assigned_weights.unsqueeze(-1) * (ys.pow(2.0) - self.C.unsqueeze(0)), dim=0
+            rmu_update = self.c_mu * (
+                torch.sum(assigned_weights.unsqueeze(-1) * ys.pow(2.0), dim=0) - torch.sum(self.weights) * self.C
             )
         else:
             # Rank-1 update
-- 
2.43.0


From 2528a5cb10386c033d0f120f7328781cc0140adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:57:31 +0000
Subject: [PATCH 23/87] fix: keep evaluated parents in the non-elitist
 GeneticAlgorithm

---
 src/evotorch/algorithms/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/ga.py b/src/evotorch/algorithms/ga.py
index 701a143..c2d7db0 100644
--- a/src/evotorch/algorithms/ga.py
+++ b/src/evotorch/algorithms/ga.py
@@ -673,7 +673,7 @@ class GeneticAlgorithm(SearchAlgorithm, SinglePopulationAlgorithmMixin, Extended
             if num_children < popsize:
                 # If the number of children is less than the population size, then we keep the best m solutions from
                 # the parents, m being `popsize - num_children`.
-                chosen_parents = self._population.take_best(popsize - num_children)
+                chosen_parents = parents.take_best(popsize - num_children)
 
                 # Combine the children with the chosen parents, and declare them as the new population.
                 self._population = SolutionBatch.cat([chosen_parents, children])
-- 
2.43.0


From e618b3f6891fcc993e8a875b21a630f70fb77bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:01:20 +0000
Subject: [PATCH 24/87] fix: make the MAPElites feature grid with the precision
 of its dtype

---
 src/evotorch/algorithms/mapelites.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/mapelites.py b/src/evotorch/algorithms/mapelites.py
index 7709c20..8e185e1 100644
--- a/src/evotorch/algorithms/mapelites.py
+++ b/src/evotorch/algorithms/mapelites.py
@@ -497,7 +497,7 @@ class MAPElites(SearchAlgorithm, SinglePopulationAlgorithmMixin, ExtendedPopulat
         n_inf = torch.tensor([float("-inf")], dtype=dtype, device=device)
 
         def _make_feature_grid(lb, ub, num_bins):
-            sp = torch.linspace(lb, ub, num_bins - 1, device=device)
+            sp = torch.linspace(lb, ub, num_bins - 1, dtype=dtype, device=device)
             sp = torch.cat((n_inf, sp, p_inf))
             return sp.unfold(dimension=0, size=2, step=1).unsqueeze(1)
 
-- 
2.43.0


From e51ca1246962785606bc199b58b16c31ab3e1e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:04:30 +0000
Subject: [PATCH 25/87] fix: do not change already reported best and worst
 solutions of multi-objective problems

---
 src/evotorch/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 24f5ea9..343e454 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2394,7 +2394,7 @@ class Problem(TensorMakerMixin, Serializable):
                 worst_eval=float(self._worst[0].evals[0]),
             )
         else:
-            return {"best": self._best, "worst": self._worst}
+            return {"best": list(self._best), "worst": list(self._worst)}
 
     def compare_solutions(self, a: "Solution", b: "Solution", obj_index: Optional[int] = None) -> float:
         """
-- 
2.43.0


From 373f3ee0c299e838971c3d85ede1bb727eaa6e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:17:04 +0000
Subject: [PATCH 26/87] fix: reject functional in-place operations and
 attribute assignments on ReadOnlyTensor

---
 src/evotorch/tools/readonlytensor.py | 48 +++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/tools/readonlytensor.py b/src/evotorch/tools/readonlytensor.py
index 253c47e..968c836 100644
--- a/src/evotorch/tools/readonlytensor.py
+++ b/src/evotorch/tools/readonlytensor.py
@@ -24,6 +24,43 @@ from packaging.version import Version
 _torch_older_than_1_12 = Version(torch.__version__) < Version("1.12")
 
 
+# Names of the special methods which modify a tensor in-place
+_in_place_special_methods = {
+    "__setitem__",
+    "__iadd__",
+    "__iand__",
+    "__idiv__",
+    "__ifloordiv__",
+    "__ilshift__",
+    "__imatmul__",
+    "__imod__",
+    "__imul__",
+    "__ior__",
+    "__ipow__",
+    "__irshift__",
+    "__isub__",
+    "__itruediv__",
+    "__ixor__",
+}
+
+
+def _is_in_place_call(func: Callable, kwargs: Mapping) -> bool:
+    """Return True if calling `func` with `kwargs` modifies its first argument in-place."""
+    name = getattr(func, "__name__", "")
+    if name.startswith("__") and name.endswith("__"):
+        return name in _in_place_special_methods
+    else:
+        return name.endswith("_") or bool(kwargs.get("inplace", False))
+
+
+def _has_read_only_tensor(x: Any) -> bool:
+    """Return True if `x` is a ReadOnlyTensor, or a list or a tuple with a ReadOnlyTensor in it."""
+    if isinstance(x, (list, tuple)):
+        return any(_has_read_only_tensor(item) for item in x)
+    else:
+        return isinstance(x, ReadOnlyTensor)
+
+
 class ReadOnlyTensor(torch.Tensor):
     """
     A special type of tensor which is read-only.
@@ -55,6 +92,11 @@ class ReadOnlyTensor(torch.Tensor):
         else:
             return super().__getattribute__(attribute_name)
 
+    def __setattr__(self, attribute_name: str, value: Any):
+        if attribute_name in ("data", "real", "imag"):
+            raise TypeError(f"The attribute {repr(attribute_name)} of a ReadOnlyTensor cannot be set")
+        super().__setattr__(attribute_name, value)
+
     def __cannot_modify(self, *ignore, **ignore_too):
         raise TypeError("The contents of a ReadOnlyTensor cannot be modified")
 
@@ -131,7 +173,7 @@ class ReadOnlyTensor(torch.Tensor):
     @classmethod
     def __torch_function__(cls, func: Callable, types: Iterable, args: tuple = (), kwargs: Optional[Mapping] = None):
         if (kwargs is not None) and ("out" in kwargs):
-            if isinstance(kwargs["out"], ReadOnlyTensor):
+            if _has_read_only_tensor(kwargs["out"]):
                 raise TypeError(
                     f"The `out` keyword argument passed to {func} is a ReadOnlyTensor."
                     f" A ReadOnlyTensor explicitly fails when referenced via the `out` keyword argument of any torch"
@@ -139,6 +181,10 @@ class ReadOnlyTensor(torch.Tensor):
                     f" This restriction is for making sure that the torch operations which could normally do in-place"
                     f" modifications do not operate on ReadOnlyTensor instances."
                 )
+        if _is_in_place_call(func, {} if kwargs is None else kwargs):
+            target = args[0] if len(args) > 0 else (kwargs.get("input", None) if kwargs is not None else None)
+            if _has_read_only_tensor(target):
+                raise TypeError(f"The contents of a ReadOnlyTensor cannot be modified via {func}")
         return super().__torch_function__(func, types, args, kwargs)
 
 
-- 
2.43.0


From 90119b6d394ad91e21f08f6b14fc83565efd79c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:20:41 +0000
Subject: [PATCH 27/87] fix: keep read-only object arrays read-only when
 cloned, and accept object arrays in as_immutable

---
 src/evotorch/tools/immutable.py   | 2 +-
 src/evotorch/tools/objectarray.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/tools/immutable.py b/src/evotorch/tools/immutable.py
index cccf530..11befe2 100644
--- a/src/evotorch/tools/immutable.py
+++ b/src/evotorch/tools/immutable.py
@@ -66,7 +66,7 @@ def as_immutable(x: Any, *, memo: Optional[dict] = None) -> Any:
     elif isinstance(x, torch.Tensor):
         result = x.clone().as_subclass(ReadOnlyTensor)
     elif isinstance(x, ObjectArray):
-        result = x.clone().get_read_only_view()
+        result = x.clone(preserve_read_only=True).get_read_only_view()
     elif isinstance(x, np.ndarray):
         if _numpy_array_stores_objects(x):
             result = ObjectArray(len(x))
diff --git a/src/evotorch/tools/objectarray.py b/src/evotorch/tools/objectarray.py
index b958951..cf6e3d2 100644
--- a/src/evotorch/tools/objectarray.py
+++ b/src/evotorch/tools/objectarray.py
@@ -435,6 +435,8 @@ class ObjectArray(Sequence, RecursivePrintable):
             for i, item in enumerate(self):
                 result[i] = deep_clone(item, otherwise_deepcopy=True, memo=memo)
 
+            result._read_only = self._read_only
+
             return result
 
     def __copy__(self) -> "ObjectArray":
-- 
2.43.0


From 6453cce6afee1643a9477ca590a5b08c95f03a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:21:09 +0000
Subject: [PATCH 28/87] fix: let ImmutableSet be unpickled

---
 src/evotorch/tools/immutable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/immutable.py b/src/evotorch/tools/immutable.py
index 11befe2..d38eb76 100644
--- a/src/evotorch/tools/immutable.py
+++ b/src/evotorch/tools/immutable.py
@@ -137,7 +137,7 @@ class ImmutableContainer(ReadOnlyClonable, RecursivePrintable):
         # Since we are dealing with immutable containers here, we need to forcefully make all numpy arrays read-only.
         if isinstance(self, Mapping):
             all_values = self.values()
-        elif isinstance(self, Sequence):
+        elif isinstance(self, (Sequence, Set)):
             all_values = self
         else:
             raise NotImplementedError
-- 
2.43.0


From f62d678f39df87e83f69f166cb17358b23e91307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:21:37 +0000
Subject: [PATCH 29/87] fix: let ImmutableDict with tuple keys be converted to
 a mutable dict

---
 src/evotorch/tools/immutable.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/evotorch/tools/immutable.py b/src/evotorch/tools/immutable.py
index d38eb76..ea40415 100644
--- a/src/evotorch/tools/immutable.py
+++ b/src/evotorch/tools/immutable.py
@@ -275,7 +275,6 @@ class ImmutableDict(ImmutableContainer, Mapping):
         result = {}
         memo[id(self)] = result
         for k, v in self.items():
-            k = mutable_copy(k, memo=memo)
-            v = mutable_copy(v, memo=memo)
-            result[k] = v
+            # The keys are strings, integers, and/or tuples of them. Being immutable, they do not need to be copied.
+            result[k] = mutable_copy(v, memo=memo)
         return result
-- 
2.43.0


From 97e115b417b47a4aec833626012369a29ccad92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:22:18 +0000
Subject: [PATCH 30/87] fix: accept a plain integer in ObjectArray.repeat, as
 documented

---
 src/evotorch/tools/objectarray.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/evotorch/tools/objectarray.py b/src/evotorch/tools/objectarray.py
index cf6e3d2..a04882f 100644
--- a/src/evotorch/tools/objectarray.py
+++ b/src/evotorch/tools/objectarray.py
@@ -274,10 +274,10 @@ class ObjectArray(Sequence, RecursivePrintable):
                 f" This is because {type_name} supports only 1-dimensional storage."
                 f" The received positional arguments are: {sizes}."
             )
-        if isinstance(sizes, tuple):
-            if len(sizes) == 1:
-                sizes = sizes[0]
-            else:
+        if not is_integer(sizes[0]):
+            # The number of repetitions is not given as a positional integer, so it is expected within a size tuple.
+            sizes = sizes[0]
+            if len(sizes) != 1:
                 type_name = type(self).__name__
                 raise ValueError(
                     f"The `repeat(...)` method of {type_name} can accept a size tuple with only one element."
-- 
2.43.0


From b310bac0e968b7fea681de200fa0755394c552c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:23:21 +0000
Subject: [PATCH 31/87] fix: deep-clone the elements of numpy arrays storing
 objects

---
 src/evotorch/tools/cloning.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/evotorch/tools/cloning.py b/src/evotorch/tools/cloning.py
index 1fe87e6..855347c 100644
--- a/src/evotorch/tools/cloning.py
+++ b/src/evotorch/tools/cloning.py
@@ -145,6 +145,10 @@ def deep_clone(  # noqa: C901
         result = deepcopy(x, memo=memo)
     elif isinstance(x, np.ndarray):
         result = x.copy()
+        if x.dtype == np.dtype(object):
+            memo[x_id] = result
+            for i, item in enumerate(x.flat):
+                result.flat[i] = call_self(item)
         result.flags["WRITEABLE"] = x.flags["WRITEABLE"]
     elif isinstance(x, (ObjectArray, ReadOnlyClonable)):
         result = x.clone(preserve_read_only=True, memo=memo)
-- 
2.43.0


From b1d117533a8f69126d87bc74eeee57bc376941c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:23:49 +0000
Subject: [PATCH 32/87] fix: keep the default factory of a defaultdict when
 deep-cloning

---
 src/evotorch/tools/cloning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/tools/cloning.py b/src/evotorch/tools/cloning.py
index 855347c..3f0d137 100644
--- a/src/evotorch/tools/cloning.py
+++ b/src/evotorch/tools/cloning.py
@@ -13,7 +13,7 @@
 # limitations under the License.
 
 
-from collections import OrderedDict
+from collections import OrderedDict, defaultdict
 from copy import deepcopy
 from numbers import Number
 from typing import Any, Optional
@@ -159,7 +159,7 @@ def deep_clone(  # noqa: C901
     elif isinstance(x, Clonable):
         result = x.clone(memo=memo)
     elif isinstance(x, (dict, OrderedDict)):
-        result = type(x)()
+        result = type(x)(x.default_factory) if isinstance(x, defaultdict) else type(x)()
         memo[x_id] = result
         for k, v in x.items():
             result[call_self(k)] = call_self(v)
-- 
2.43.0


From a94212473259ce9a44f0576f6565630849b8475c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:45:22 +0000
Subject: [PATCH 33/87] fix: assign correctly between overlapping slices of an
 ObjectArray

---
 src/evotorch/tools/objectarray.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/tools/objectarray.py b/src/evotorch/tools/objectarray.py
index a04882f..b3f3abd 100644
--- a/src/evotorch/tools/objectarray.py
+++ b/src/evotorch/tools/objectarray.py
@@ -381,8 +381,9 @@ class ObjectArray(Sequence, RecursivePrintable):
             if slice_refers_to_whole_array:
                 memo[id(x)] = self
 
-            if not hasattr(x, "__len__"):
-                x = list(x)
+            # By listing the given objects before storing any of them, we ensure that the assignment works as expected
+            # even when `x` is another view of this same ObjectArray.
+            x = list(x)
 
             if len(x) != len(indices):
                 raise TypeError(
-- 
2.43.0


From 848a3b6073bbd5b076617140439175823b16e9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:45:22 +0000
Subject: [PATCH 34/87] fix: give separate places to repeated indices, and keep
 read-only state, in ObjectArray(slice_of=...)

---
 src/evotorch/tools/objectarray.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/tools/objectarray.py b/src/evotorch/tools/objectarray.py
index b3f3abd..7f6f2aa 100644
--- a/src/evotorch/tools/objectarray.py
+++ b/src/evotorch/tools/objectarray.py
@@ -195,10 +195,12 @@ class ObjectArray(Sequence, RecursivePrintable):
             self._objects = source._objects
 
             if storage_ptr(self._indices) != storage_ptr(source._indices):
-                self._objects = clone(self._objects)
+                # The slice is not a view. Therefore, we make a storage of its own, with one place for each index.
+                self._objects = [clone(self._objects[int(index)]) for index in self._indices]
+                self._indices = torch.arange(len(self._objects), dtype=torch.int64)
 
         self._device = torch.device("cpu")
-        self._read_only = False
+        self._read_only = (slice_of is not None) and source._read_only
 
     @property
     def shape(self) -> Size:
-- 
2.43.0


From e87be9a89c54ab95dbe31060d811a1c1221c0c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:45:22 +0000
Subject: [PATCH 35/87] fix: multiply instead of adding in CMemory.multiply_
 without a mask

---
 src/evotorch/tools/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 21d81fe..9052ec4 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -656,7 +656,7 @@ class CMemory:
             if self._is_dtype_bool:
                 self._data[address] &= value
             else:
-                self._data[address] += value
+                self._data[address] *= value
         else:
             if self._is_dtype_bool:
                 self._data[address] &= do_where(
-- 
2.43.0


From 6c32955d4bab9d9200a0b4d8556c9a7f4f8ee47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:45:22 +0000
Subject: [PATCH 36/87] fix: make a new CDict empty instead of leaving its key
 table uninitialized

---
 src/evotorch/tools/structures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 9052ec4..3dfdebd 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -1199,6 +1199,7 @@ class CDict(Structure):
             key_offset=key_offset,
             batch_size=batch_size,
             batch_shape=batch_shape,
+            fill_with=False,
             dtype=torch.bool,
             device=device,
             verify=verify,
-- 
2.43.0


From 734373b5d43ea4eda7090c7d052dc903c9e8269e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:45:22 +0000
Subject: [PATCH 37/87] fix: let CDict and CList be cleared with a mask

---
 src/evotorch/tools/structures.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 3dfdebd..3f785fd 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -1363,7 +1363,7 @@ class CDict(Structure):
             self._exist.data[:] = False
         else:
             where = self._get_where(where)
-            all_false = torch.tensor(False, dtype=torch.bool, device=self._exist.device).expand(self._exist.shape)
+            all_false = torch.tensor(False, dtype=torch.bool, device=self._exist.device).expand(self._exist.data.shape)
             self._exist.data[:] = do_where(where, all_false, self._exist.data[:])
 
     @property
@@ -1991,7 +1991,9 @@ class CList(Structure):
             self._end.data[:] = -1
         else:
             where = self._get_where(where)
-            all_minus_ones = torch.tensor(-1, dtype=torch.int64, device=self._begin.device).expand(self._begin.shape)
+            all_minus_ones = torch.tensor(-1, dtype=torch.int64, device=self._begin.device).expand(
+                self._begin.data.shape
+            )
             self._begin.data[:] = do_where(where, all_minus_ones, self._begin.data)
             self._end.data[:] = do_where(where, all_minus_ones, self._end.data)
 
-- 
2.43.0


From 40549c28b911eb6d0a4647b9355b8c1a728e6a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:45:22 +0000
Subject: [PATCH 38/87] fix: let is_batched be queried on CDict, CList and CBag

---
 src/evotorch/tools/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 3f785fd..83d093c 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -833,7 +833,7 @@ class Structure:
         """
         True if this structure is batched; False otherwise.
         """
-        return self._batch_ndim > 0
+        return self.batch_ndim > 0
 
     @property
     def dtype(self) -> torch.dtype:
-- 
2.43.0


From 2bc648dc65e21951d57982bec782a0532c72050b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:45:22 +0000
Subject: [PATCH 39/87] fix: support batch shapes with more than one dimension
 in CMemory

---
 src/evotorch/tools/structures.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 83d093c..e3537ae 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -418,7 +418,9 @@ class CMemory:
 
         self._for_all_batches = tuple(
             (
-                torch.arange(self._batch_shape[i], dtype=torch.int64, device=self._device)
+                torch.arange(self._batch_shape[i], dtype=torch.int64, device=self._device).reshape(
+                    (-1,) + ((1,) * (self._batch_ndim - i - 1))
+                )
                 for i in range(self._batch_ndim)
             )
         )
-- 
2.43.0


From 90cfaf0bb457418896d6324254aff4357515c7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:45:22 +0000
Subject: [PATCH 40/87] fix: ignore the keys which are masked out in the
 modifications of CMemory

---
 src/evotorch/tools/structures.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index e3537ae..c61ccbe 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -455,12 +455,15 @@ class CMemory:
         else:
             raise RuntimeError(f"The key tensor has an incompatible shape: {key.shape}")
         if where is not None:
+            # Where the mask is False, the key is not to be used. There, we put a key which is certainly valid.
             min_key = (
-                torch.tensor(0, dtype=torch.int64, device=self._data.device) if self._min_key is None else self._min_key
+                torch.tensor(0, dtype=torch.int64, device=self._data.device)
+                if self._key_offset is None
+                else self._key_offset
             )
-            key = do_where(where, key, min_key.expand(expected_shape))
+            result = do_where(where, result, min_key.expand(expected_shape))
         if self._verify:
-            self._key_must_be_valid(key)
+            self._key_must_be_valid(result)
 
         return result
 
-- 
2.43.0


From 0ff33168fc6a6462079b0812f33c9c45004092b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:45:22 +0000
Subject: [PATCH 41/87] fix: do not consider an empty CList of maximum length 1
 as full

---
 src/evotorch/tools/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index c61ccbe..c03cb4f 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -1645,7 +1645,7 @@ class CList(Structure):
     def _is_full(self) -> torch.Tensor:
         begin = self._begin[self._all_zeros]
         end = self._end[self._all_zeros]
-        return ((end - begin) % self._max_length) == (self._max_length - 1)
+        return (begin != -1) & (((end - begin) % self._max_length) == (self._max_length - 1))
 
     @staticmethod
     def _considering_where(other_mask: torch.Tensor, where: Optional[torch.Tensor]) -> torch.Tensor:
-- 
2.43.0


From 4c5b8b9af0f30036d3ede749df13959e90579600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:45:22 +0000
Subject: [PATCH 42/87] fix: do not wrap the out-of-range indices of a CList
 around

---
 src/evotorch/tools/structures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index c03cb4f..43f1f32 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -1758,7 +1758,8 @@ class CList(Structure):
         underlying_key = self._mod_underlying_key(underlying_key, verify=verify)
 
         if verify or return_validity:
-            valid = self._is_underlying_key_valid(underlying_key)
+            length = self.length
+            valid = self._is_underlying_key_valid(underlying_key) & (key >= -length) & (key < length)
         else:
             valid = None
 
-- 
2.43.0


From 35d4e6431ddb239d4e635d972560f92c03cda2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:45:22 +0000
Subject: [PATCH 43/87] fix: shuffle a CBag correctly with any batch shape,
 value range and dtype

---
 src/evotorch/tools/structures.py | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 43f1f32..9e62774 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -2387,11 +2387,6 @@ class CBag(Structure):
         self._choice_count = self._high_item - self._low_item
         self._bignum = self._choice_count + 1
 
-        if self._low_item < 1:
-            self._shift = 1 - self._low_item
-        else:
-            self._shift = 0
-
         self._empty = self._low_item - 1
         self._data.data[:] = self._empty
         self._sampling_phase: bool = False
@@ -2411,20 +2406,18 @@ class CBag(Structure):
         self._data.push_(value, where)
 
     def _shuffle(self):
-        dtype = self._data.dtype
-        device = self._data.device
-        nrows, ncols = self._data.data.shape
-
-        try:
-            gaussian_noise = torch.randn(nrows, ncols, dtype=torch.float32, device=device, **(self._gen_kwargs))
-            noise = gaussian_noise.argsort().to(dtype=dtype) * self._bignum
-            self._data.data[:] += torch.where(
-                self._data.data != self._empty, self._shift + noise, torch.tensor(0, dtype=dtype, device=device)
-            )
-            self._data.data[:] = self._data.data.sort(dim=-1, descending=True, stable=False).values
-        finally:
-            self._data.data[:] %= self._bignum
-            self._data.data[:] -= self._shift
+        data = self._data.data
+
+        # Express the items as positive integers, and the empty places as 0.
+        items = data.to(torch.int64) - self._empty
+
+        # To each item, add a random multiple of a number larger than all the items, sort, and then remove what was added.
+        gaussian_noise = torch.randn(data.shape, dtype=torch.float32, device=data.device, **(self._gen_kwargs))
+        noise = gaussian_noise.argsort() * self._bignum
+        items = torch.where(items > 0, items + noise, items)
+        items = items.sort(dim=-1, descending=True, stable=False).values % self._bignum
+
+        data[:] = items + self._empty
 
     def pop_(self, where: Optional[Numbers] = None) -> torch.Tensor:
         """
-- 
2.43.0


From b6c936e834b88439bfb88b4310e8136dee2878d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:52:12 +0000
Subject: [PATCH 44/87] fix: do not consider the unbatched arguments when
 converting scalars in expects_ndim

---
 src/evotorch/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/decorators.py b/src/evotorch/decorators.py
index d8e40c0..9e75f15 100644
--- a/src/evotorch/decorators.py
+++ b/src/evotorch/decorators.py
@@ -712,7 +712,7 @@ def expects_ndim(  # noqa: C901
                         cls.encountered_dtypes = set()
                         cls.encountered_devices = set()
                         for expected_arg_ndim, arg in zip(expected_ndims, args):
-                            if (expected_arg_ndims is not None) and isinstance(arg, torch.Tensor):
+                            if (expected_arg_ndim is not None) and isinstance(arg, torch.Tensor):
                                 # If the argument has a declared expected ndim, and also if it is a PyTorch tensor,
                                 # then we add its dtype and device information to the sets `encountered_dtypes` and
                                 # `encountered_devices`.
-- 
2.43.0


From ad6991fda6fa53ec843e9835699f29156613b1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:58:15 +0000
Subject: [PATCH 45/87] fix: infer the dtype in as_tensor, and move tensors to
 other devices

---
 src/evotorch/tools/misc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/tools/misc.py b/src/evotorch/tools/misc.py
index b2ff9b1..2e28b4d 100644
--- a/src/evotorch/tools/misc.py
+++ b/src/evotorch/tools/misc.py
@@ -1861,7 +1861,9 @@ def as_tensor(x: Any, *, dtype: Optional[DType] = None, device: Optional[Device]
     from .objectarray import ObjectArray
 
     if (dtype is None) and isinstance(x, (torch.Tensor, ObjectArray)):
-        if (device is None) or (str(device) == "cpu"):
+        if isinstance(x, torch.Tensor):
+            return torch.as_tensor(x, device=device)
+        elif (device is None) or (str(device) == "cpu"):
             return x
         else:
             raise ValueError(
@@ -1881,7 +1883,7 @@ def as_tensor(x: Any, *, dtype: Optional[DType] = None, device: Optional[Device]
             result[:] = x
             return result
     else:
-        dtype = to_torch_dtype(dtype)
+        dtype = None if dtype is None else to_torch_dtype(dtype)
         return torch.as_tensor(x, dtype=dtype, device=device)
 
 
-- 
2.43.0


From 0d3c6b7aa632eef71e3dada8ee63697fdc315765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:58:39 +0000
Subject: [PATCH 46/87] fix: return an independent copy from modify_tensor when
 there are no bounds

---
 src/evotorch/tools/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/misc.py b/src/evotorch/tools/misc.py
index 2e28b4d..1c48f25 100644
--- a/src/evotorch/tools/misc.py
+++ b/src/evotorch/tools/misc.py
@@ -753,7 +753,7 @@ def modify_tensor(
             original[:] = target
             return original
         else:
-            return target
+            return target.clone()
     else:
         # If there are some restriction regarding how the tensor
         # should be modified, then we turn to the following
-- 
2.43.0


From 25fa9863da69e4be55de5c545b8cba5e629e3298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:59:04 +0000
Subject: [PATCH 47/87] fix: fill 0-dimensional output tensors

---
 src/evotorch/tools/misc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/evotorch/tools/misc.py b/src/evotorch/tools/misc.py
index 1c48f25..d15be30 100644
--- a/src/evotorch/tools/misc.py
+++ b/src/evotorch/tools/misc.py
@@ -1402,7 +1402,7 @@ def make_ones(
         return _scalar_tensor(1, out=out, dtype=dtype, device=device)
     else:
         out = _out_tensor(*size, out=out, dtype=dtype, device=device)
-        out[:] = 1
+        out.fill_(1)
         return out
 
 
@@ -1450,7 +1450,7 @@ def make_nan(
         return _scalar_tensor(float("nan"), out=out, dtype=dtype, device=device)
     else:
         out = _out_tensor(*size, out=out, dtype=dtype, device=device)
-        out[:] = float("nan")
+        out.fill_(float("nan"))
         return out
 
 
@@ -1648,7 +1648,7 @@ def make_uniform(
                 lb = lb.to(torch.int64)
                 ub = ub.to(torch.int64)
                 values = torch.empty_like(out, dtype=torch.int64).random_(**gen_kwargs)
-                out[:] = (values % ((ub - lb) + 1)) + lb
+                out[...] = (values % ((ub - lb) + 1)) + lb
         else:
             _invalid_bound_args()
     else:
-- 
2.43.0


From e203ea44e253bbf55ff9e2b1fcef0f7db502396f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:59:32 +0000
Subject: [PATCH 48/87] fix: accept an integer shape for an ObjectArray in
 empty_tensor_like

---
 src/evotorch/tools/misc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/evotorch/tools/misc.py b/src/evotorch/tools/misc.py
index d15be30..f3a4df5 100644
--- a/src/evotorch/tools/misc.py
+++ b/src/evotorch/tools/misc.py
@@ -963,6 +963,8 @@ def empty_tensor_like(
                         f" Therefore, this given shape is incompatible: {shape}"
                     )
                 n = int(shape[0])
+            else:
+                n = int(shape)
         elif length is None and shape is None:
             n = len(source)
         else:
-- 
2.43.0


From 033459aef067eacceaade41eb58424ce505352a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:59:58 +0000
Subject: [PATCH 49/87] fix: raise the error about the device of an ObjectArray
 instead of returning it

---
 src/evotorch/tools/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/misc.py b/src/evotorch/tools/misc.py
index f3a4df5..ce94886 100644
--- a/src/evotorch/tools/misc.py
+++ b/src/evotorch/tools/misc.py
@@ -1245,7 +1245,7 @@ def make_empty(
                 size = size[0]
             return ObjectArray(size)
         else:
-            return ValueError(
+            raise ValueError(
                 f"Invalid device for ObjectArray: {repr(device)}. Note: an ObjectArray can only be stored on 'cpu'."
             )
     else:
-- 
2.43.0


From 10743e4c9b486dc25341f2769f97c70f509ad57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:00:27 +0000
Subject: [PATCH 50/87] fix: support torch dtypes in numpy_copy

---
 src/evotorch/tools/misc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/evotorch/tools/misc.py b/src/evotorch/tools/misc.py
index ce94886..3f453bc 100644
--- a/src/evotorch/tools/misc.py
+++ b/src/evotorch/tools/misc.py
@@ -1070,6 +1070,8 @@ def numpy_copy(x: Iterable, dtype: Optional[DType] = None) -> np.ndarray:
     from .objectarray import ObjectArray
 
     needs_casting = dtype is not None
+    if needs_casting:
+        dtype = to_numpy_dtype(dtype)
 
     if isinstance(x, ObjectArray):
         result = x.numpy()
-- 
2.43.0


From bf2859351e0af38ffde7da291d5d021534f3314b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:09:26 +0000
Subject: [PATCH 51/87] fix: return the buffers of a functional module instead
 of their names

---
 src/evotorch/neuroevolution/net/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/net/functional.py b/src/evotorch/neuroevolution/net/functional.py
index 4c912db..5ef88d1 100644
--- a/src/evotorch/neuroevolution/net/functional.py
+++ b/src/evotorch/neuroevolution/net/functional.py
@@ -149,7 +149,7 @@ class ModuleExpectingFlatParameters:
     @property
     def buffers(self) -> tuple:
         """Get the stored buffers"""
-        return tuple(self.__buffer_dict)
+        return tuple(self.__buffer_dict.values())
 
     @property
     def parameter_length(self) -> int:
-- 
2.43.0


From b7ba0e5d8aaeb4036892c0048a61bc37cf3badc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:09:50 +0000
Subject: [PATCH 52/87] fix: accept tuples as indices when resetting or setting
 the parameters of a policy

---
 src/evotorch/neuroevolution/net/vecrl.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/net/vecrl.py b/src/evotorch/neuroevolution/net/vecrl.py
index cfb04cc..8eeffee 100644
--- a/src/evotorch/neuroevolution/net/vecrl.py
+++ b/src/evotorch/neuroevolution/net/vecrl.py
@@ -996,6 +996,10 @@ def reset_tensors(x: Any, indices: MaskOrIndices):
         x: A tensor or a collection of tensors, whose values are subject to resetting.
         indices: A sequence of integers or booleans, specifying which regions of the tensor(s) will be reset.
     """
+    if isinstance(indices, tuple):
+        # Tensors interpret tuples as multi-dimensional indices. To avoid this, we convert the tuple to a list.
+        indices = list(indices)
+
     if isinstance(x, torch.Tensor):
         # If the first argument is a tensor, then we clear it according to the indices we received.
         x[indices] = 0
@@ -1226,7 +1230,7 @@ class Policy:
             if indices is None:
                 self.__parameters = parameters
             else:
-                self.__parameters[indices] = parameters
+                self.__parameters[list(indices) if isinstance(indices, tuple) else indices] = parameters
 
         if reset:
             self.reset(indices)
-- 
2.43.0


From edeccbf073c4353ba515f58c21eb496a4442a0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:10:15 +0000
Subject: [PATCH 53/87] fix: do not write into the given parameter tensor when
 changing some rows of a policy

---
 src/evotorch/neuroevolution/net/vecrl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/evotorch/neuroevolution/net/vecrl.py b/src/evotorch/neuroevolution/net/vecrl.py
index 8eeffee..1dd3920 100644
--- a/src/evotorch/neuroevolution/net/vecrl.py
+++ b/src/evotorch/neuroevolution/net/vecrl.py
@@ -1230,6 +1230,7 @@ class Policy:
             if indices is None:
                 self.__parameters = parameters
             else:
+                self.__parameters = self.__parameters.clone()
                 self.__parameters[list(indices) if isinstance(indices, tuple) else indices] = parameters
 
         if reset:
-- 
2.43.0


From 6fa13332e004f9b653ff41b99322b070cd630b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:10:36 +0000
Subject: [PATCH 54/87] fix: do not share memory between a parameter vector and
 the module made from it

---
 src/evotorch/neuroevolution/net/vecrl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/net/vecrl.py b/src/evotorch/neuroevolution/net/vecrl.py
index 1dd3920..eeb4599 100644
--- a/src/evotorch/neuroevolution/net/vecrl.py
+++ b/src/evotorch/neuroevolution/net/vecrl.py
@@ -1362,7 +1362,7 @@ class Policy:
         """
         with torch.no_grad():
             net = deepcopy(self.__module).to(parameter_vector.device)
-            nnu.vector_to_parameters(parameter_vector, net.parameters())
+            nnu.vector_to_parameters(parameter_vector.clone(), net.parameters())
         return net
 
 
-- 
2.43.0


From 9e8cfc3fe88f2e6777c268298173eca197acacaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:10:59 +0000
Subject: [PATCH 55/87] fix: keep the description of the network so that
 evaluated problems can be cloned

---
 src/evotorch/neuroevolution/neproblem.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/evotorch/neuroevolution/neproblem.py b/src/evotorch/neuroevolution/neproblem.py
index 4f03195..3bd6119 100644
--- a/src/evotorch/neuroevolution/neproblem.py
+++ b/src/evotorch/neuroevolution/neproblem.py
@@ -317,8 +317,6 @@ class NEProblem(BaseNEProblem):
     def _prepare(self) -> None:
         """Instantiate the network on the target device, if not already done"""
         self.instantiated_network = self._instantiate_net(self._original_network)
-        # Clear reference to original network
-        self._original_network = None
 
     def make_net(self, parameters: Iterable) -> nn.Module:
         """
-- 
2.43.0


From 8e6841899c740c6874a09e8e2bfdd6a0a80831cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:11:21 +0000
Subject: [PATCH 56/87] fix: do not serialize the data loader of a SupervisedNE

---
 src/evotorch/neuroevolution/supervisedne.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/evotorch/neuroevolution/supervisedne.py b/src/evotorch/neuroevolution/supervisedne.py
index 9366e3b..8bc9fe1 100644
--- a/src/evotorch/neuroevolution/supervisedne.py
+++ b/src/evotorch/neuroevolution/supervisedne.py
@@ -308,6 +308,10 @@ class SupervisedNE(NEProblem):
     def _prepare(self) -> None:
         self.dataloader = self.make_dataloader()
 
+    @property
+    def _nonserialized_attribs(self) -> List[str]:
+        return super()._nonserialized_attribs + ["dataloader", "dataloader_iterator"]
+
     def get_minibatch(self) -> Any:
         """
         Get the next minibatch from the DataLoader.
-- 
2.43.0


From 4c9ee62106a3b13be2c6592ceb2082c62036f4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:12:29 +0000
Subject: [PATCH 57/87] fix: reset the time of a LocomotorNet when its stateful
 wrapper is reset

---
 src/evotorch/neuroevolution/net/multilayered.py   | 5 +++++
 src/evotorch/neuroevolution/net/statefulmodule.py | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/evotorch/neuroevolution/net/multilayered.py b/src/evotorch/neuroevolution/net/multilayered.py
index 42535f6..1c2fda6 100644
--- a/src/evotorch/neuroevolution/net/multilayered.py
+++ b/src/evotorch/neuroevolution/net/multilayered.py
@@ -61,6 +61,11 @@ class MultiLayered(nn.Module):
         else:
             return x, new_h
 
+    def reset(self):
+        for layer in self._submodules:
+            if hasattr(layer, "reset"):
+                layer.reset()
+
     def __iter__(self):
         return self._submodules.__iter__()
 
diff --git a/src/evotorch/neuroevolution/net/statefulmodule.py b/src/evotorch/neuroevolution/net/statefulmodule.py
index 40eae87..33536de 100644
--- a/src/evotorch/neuroevolution/net/statefulmodule.py
+++ b/src/evotorch/neuroevolution/net/statefulmodule.py
@@ -85,6 +85,10 @@ class StatefulModule(nn.Module):
         """
         self._hidden = None
 
+        # Some modules (e.g. `LocomotorNet`) keep an internal state of their own, to be reset by their `reset()` method.
+        if hasattr(self.wrapped_module, "reset"):
+            self.wrapped_module.reset()
+
 
 def ensure_stateful(net: nn.Module) -> StatefulModule:
     """
-- 
2.43.0


From 11b90ad6db3a541042dbd0a52adc6aa373dcddca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:19:19 +0000
Subject: [PATCH 58/87] fix: do not store the tensor of the caller within
 RunningNorm

---
 src/evotorch/neuroevolution/net/runningnorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/net/runningnorm.py b/src/evotorch/neuroevolution/net/runningnorm.py
index dae84b8..02415db 100644
--- a/src/evotorch/neuroevolution/net/runningnorm.py
+++ b/src/evotorch/neuroevolution/net/runningnorm.py
@@ -322,7 +322,7 @@ class RunningNorm:
                 # the sum of observations extracted from x is x itself,
                 # and the sum of squared observations extracted from x is
                 # the square of x itself.
-                sum_of_x = x
+                sum_of_x = x.clone()
                 sum_of_x_squared = x.square()
                 # We extracted a single observation from x
                 n = 1
-- 
2.43.0


From 00f7aa571acefe5d9c4b910f2f7ece83972e70f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:19:39 +0000
Subject: [PATCH 59/87] fix: ignore updates without observations in RunningNorm

---
 src/evotorch/neuroevolution/net/runningnorm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/net/runningnorm.py b/src/evotorch/neuroevolution/net/runningnorm.py
index 02415db..00fb29d 100644
--- a/src/evotorch/neuroevolution/net/runningnorm.py
+++ b/src/evotorch/neuroevolution/net/runningnorm.py
@@ -388,7 +388,10 @@ class RunningNorm:
             # (sum of all squared observations), and n (number of observations extracted
             # from x).
 
-            if self._has_no_data():
+            if n == 0:
+                # No observation was extracted from x (e.g. because the mask is all False), so there is nothing to do.
+                pass
+            elif self._has_no_data():
                 # If our RunningNorm is empty, the observation data we extracted from x
                 # become our RunningNorm's new data.
                 self._sum = sum_of_x
-- 
2.43.0


From 5b8deddb25000760cafd3c4470cccd397ed20e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:20:01 +0000
Subject: [PATCH 60/87] fix: keep masked NaN and infinite observations out of
 RunningNorm

---
 src/evotorch/neuroevolution/net/runningnorm.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/evotorch/neuroevolution/net/runningnorm.py b/src/evotorch/neuroevolution/net/runningnorm.py
index 00fb29d..2ec6d1b 100644
--- a/src/evotorch/neuroevolution/net/runningnorm.py
+++ b/src/evotorch/neuroevolution/net/runningnorm.py
@@ -358,14 +358,12 @@ class RunningNorm:
                     # This integer gives us how many observations we extract from x.
                     n = int(torch.sum(torch.as_tensor(mask, dtype=torch.int64, device=self._device)))
 
-                    # We now re-cast the mask as the observation dtype (so that True items turn to 1.0
-                    # and False items turn to 0.0), and then increase its number of dimensions so that
-                    # it can operate directly with x.
-                    mask = self._like_its_own(mask).reshape(torch.Size([x.shape[0]] + ([1] * (x.ndim - 1))))
-
-                    # Finally, we multiply x with the mask. This means that the observations with corresponding
-                    # mask values as False are zeroed out.
-                    x = x * mask
+                    # We now increase the number of dimensions of the mask so that it can operate directly with x.
+                    mask = mask.reshape(torch.Size([x.shape[0]] + ([1] * (x.ndim - 1))))
+
+                    # Finally, we apply the mask on x. This means that the observations with corresponding
+                    # mask values as False are zeroed out (even if they are nan or infinite).
+                    x = torch.where(mask, x, torch.zeros_like(x))
                 else:
                     # This is the case where we did not receive a mask.
                     # We can simply say that the number of observations to extract from x
-- 
2.43.0


From 09813317ffcac1d7c09b05fedfd95a5bf11327c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:20:27 +0000
Subject: [PATCH 61/87] fix: raise ValueError for observations of wrong shape
 in RunningNorm

---
 src/evotorch/neuroevolution/net/runningnorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/net/runningnorm.py b/src/evotorch/neuroevolution/net/runningnorm.py
index 2ec6d1b..f145aac 100644
--- a/src/evotorch/neuroevolution/net/runningnorm.py
+++ b/src/evotorch/neuroevolution/net/runningnorm.py
@@ -193,7 +193,7 @@ class RunningNorm:
             if x.shape != self._shape:
                 raise ValueError(
                     f"This RunningNorm instance was initialized with shape: {self._shape}."
-                    f" However, the provided tensor has an incompatible shape: {x._shape}."
+                    f" However, the provided tensor has an incompatible shape: {x.shape}."
                 )
         elif x.ndim == (self._ndim + 1):
             if x.shape[1:] != self._shape:
-- 
2.43.0


From acddffcda83b00a00e252fe863071e3108858eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:20:53 +0000
Subject: [PATCH 62/87] fix: allow moving a RunningNorm which has no data yet

---
 src/evotorch/neuroevolution/net/runningnorm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/neuroevolution/net/runningnorm.py b/src/evotorch/neuroevolution/net/runningnorm.py
index f145aac..1577898 100644
--- a/src/evotorch/neuroevolution/net/runningnorm.py
+++ b/src/evotorch/neuroevolution/net/runningnorm.py
@@ -130,8 +130,8 @@ class RunningNorm:
             new_running_norm = object.__new__(type(self))
 
             already_handled = {"_sum", "_sum_of_squares", "_device"}
-            new_running_norm._sum = self._sum.to(device)
-            new_running_norm._sum_of_squares = self._sum_of_squares.to(device)
+            new_running_norm._sum = None if self._sum is None else self._sum.to(device)
+            new_running_norm._sum_of_squares = None if self._sum_of_squares is None else self._sum_of_squares.to(device)
             new_running_norm._device = device
 
             for k, v in self.__dict__.items():
-- 
2.43.0


From 54f3597d7be2f6cebef4e82079c37e0b373f0888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:24:00 +0000
Subject: [PATCH 63/87] fix: pass num_subbatches of GymNE on to the problem

---
 src/evotorch/neuroevolution/gymne.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/evotorch/neuroevolution/gymne.py b/src/evotorch/neuroevolution/gymne.py
index 74d1ba9..66bf047 100644
--- a/src/evotorch/neuroevolution/gymne.py
+++ b/src/evotorch/neuroevolution/gymne.py
@@ -285,6 +285,7 @@ class GymNE(NEProblem):
             initial_bounds=initial_bounds,
             num_actors=num_actors,
             actor_config=actor_config,
+            num_subbatches=num_subbatches,
             subbatch_size=subbatch_size,
             device="cpu",
         )
-- 
2.43.0


From 34a12cc74812196e10962065b873c79649e9d487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:24:24 +0000
Subject: [PATCH 64/87] fix: sample the action noise of VecGymNE from a
 Gaussian

---
 src/evotorch/neuroevolution/vecgymne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index f46e7c1..765fcea 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -841,7 +841,7 @@ class VecGymNE(BaseNEProblem):
             if self._action_noise_stdev is not None:
                 # If we are to apply action noise, we sample from a Gaussian distribution and add the noise onto
                 # the actions.
-                action_per_env = action_per_env + (torch.rand_like(action_per_env) * self._action_noise_stdev)
+                action_per_env = action_per_env + (torch.randn_like(action_per_env) * self._action_noise_stdev)
 
             # Apply the actions, get the observations, rewards, and the 'done' flags.
             obs_per_env, reward_per_env, done_per_env, _ = env.step(action_per_env)
-- 
2.43.0


From e7ab54414efe821a1eaf913368eda33ff4b6d650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:24:47 +0000
Subject: [PATCH 65/87] fix: accept strings as num_actors in VecGymNE

---
 src/evotorch/neuroevolution/vecgymne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index 765fcea..86f9d43 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -403,7 +403,7 @@ class VecGymNE(BaseNEProblem):
         device_is_cpu = (device is None) or (str(device) == "cpu")
         actors_use_gpu = (
             (num_actors is not None)
-            and (num_actors > 1)
+            and (isinstance(num_actors, str) or (num_actors > 1))
             and (num_gpus_per_actor is not None)
             and (num_gpus_per_actor > 0)
         )
-- 
2.43.0


From 81da53970c566b329f72a4482e42d8425645ab13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:25:09 +0000
Subject: [PATCH 66/87] fix: raise ValueError for alive bonus schedules of
 wrong length

---
 src/evotorch/neuroevolution/vecgymne.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index 86f9d43..a2ba410 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -389,8 +389,8 @@ class VecGymNE(BaseNEProblem):
                 # `alive_bonus_schedule` sequences with unrecognized lengths trigger an error.
                 raise ValueError(
                     f"Received invalid number elements as the alive bonus schedule."
-                    f" Expected 2 or 3 items, but got these: {self._alive_bonus_schedule}"
-                    f" (having a length of {len(self._alive_bonus_schedule)})."
+                    f" Expected 2 or 3 items, but got these: {alive_bonus_schedule}"
+                    f" (having a length of {alive_bonus_schedule_length})."
                 )
 
         # If `action_noise_stdev` is specified, store it.
-- 
2.43.0


From 007f1d3d35afccd1791e4cea65fd69cbd123b6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:25:37 +0000
Subject: [PATCH 67/87] fix: handle actors of VecGymNE which did not collect
 observation stats

---
 src/evotorch/neuroevolution/vecgymne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index a2ba410..17d0585 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -708,7 +708,7 @@ class VecGymNE(BaseNEProblem):
             data: dict
             total_episode_count += data["episode_count"]
             total_interaction_count += data["interaction_count"]
-            if self.observation_normalization:
+            if self.observation_normalization and (data["obs_stats_delta"] is not None):
                 self.update_observation_stats(data["obs_stats_delta"])
 
         self.set_episode_count(total_episode_count)
-- 
2.43.0


From d67284bdea92eabef60da6e17a754bec60ed2c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:26:00 +0000
Subject: [PATCH 68/87] fix: let VecGymNE have its own copy of the given
 observation stats

---
 src/evotorch/neuroevolution/vecgymne.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index 17d0585..c4fdccf 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -15,6 +15,7 @@
 import pickle
 import random
 from collections.abc import Mapping
+from copy import copy
 from datetime import datetime
 from pathlib import Path
 from typing import Any, Callable, Iterable, Optional, Union
@@ -667,7 +668,7 @@ class VecGymNE(BaseNEProblem):
     def set_observation_stats(self, rn: RunningNorm):
         """Set the observation stats"""
         self._ensure_obsnorm()
-        self._obs_stats = rn
+        self._obs_stats = copy(rn)
 
     def _use_sync_data_from_main(self, received: dict):
         for k, v in received.items():
@@ -696,7 +697,7 @@ class VecGymNE(BaseNEProblem):
         """Update the observation stats via another RunningNorm instance"""
         self._ensure_obsnorm()
         if self._obs_stats is None:
-            self._obs_stats = rn
+            self._obs_stats = copy(rn)
         else:
             self._obs_stats.update(rn)
 
-- 
2.43.0


From 49262801859cd25ca605660756f7d87d202c86c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:26:24 +0000
Subject: [PATCH 69/87] fix: allow saving a GymNE solution before any
 observation was made

---
 src/evotorch/neuroevolution/gymne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/gymne.py b/src/evotorch/neuroevolution/gymne.py
index 66bf047..8308e02 100644
--- a/src/evotorch/neuroevolution/gymne.py
+++ b/src/evotorch/neuroevolution/gymne.py
@@ -705,7 +705,7 @@ class GymNE(NEProblem):
         }
 
         # If available, store the observation stats.
-        if self.observation_normalization and (self._obs_stats is not None):
+        if self.observation_normalization and (self._obs_stats.count > 0):
             result["obs_mean"] = torch.as_tensor(self._obs_stats.mean)
             result["obs_stdev"] = torch.as_tensor(self._obs_stats.stdev)
             result["obs_sum"] = torch.as_tensor(self._obs_stats.sum)
-- 
2.43.0


From 0eacf67e6021700cffabdab3c53f91d1b8fd8b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:26:48 +0000
Subject: [PATCH 70/87] fix: compare the action shapes of the environments of a
 SyncVectorEnv

---
 src/evotorch/neuroevolution/net/vecrl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/net/vecrl.py b/src/evotorch/neuroevolution/net/vecrl.py
index eeb4599..1ac2b01 100644
--- a/src/evotorch/neuroevolution/net/vecrl.py
+++ b/src/evotorch/neuroevolution/net/vecrl.py
@@ -1635,7 +1635,7 @@ class SyncVectorEnv(BaseVectorEnv):
                 elif isinstance(env.action_space, Box):
                     if not isinstance(single_action_space, Box):
                         raise TypeError("The action space types of the sub-environments do not match")
-                    if env.observation_space.shape != single_observation_space.shape:
+                    if env.action_space.shape != single_action_space.shape:
                         raise ValueError("The action space shapes of the sub-environments do not match")
                 else:
                     assert False, "Code execution should not have reached here. This is most probably a bug."
-- 
2.43.0


From 6b56cca70cb18a0915efca4e66e9b8895df6a628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:34:16 +0000
Subject: [PATCH 71/87] fix: let VecGymNE evaluate fewer solutions than there
 are actors

---
 src/evotorch/neuroevolution/vecgymne.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index c4fdccf..3afd6d4 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -746,6 +746,10 @@ class VecGymNE(BaseNEProblem):
         # Get the number of solutions and the solution batch from the shape of the batch.
         num_solutions, solution_length = batch.values_shape
 
+        if num_solutions == 0:
+            # There is nothing to evaluate (e.g. because there are more actors than solutions).
+            return
+
         # Get (possibly after (re)building) the environment object.
         env = self._get_env(num_solutions)
 
-- 
2.43.0


From a903d248ce96ef1abac4745680377ed79a81d12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:38:51 +0000
Subject: [PATCH 72/87] fix: allow max_num_envs together with actors in
 VecGymNE

---
 src/evotorch/neuroevolution/vecgymne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index 3afd6d4..8a4b449 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -448,7 +448,7 @@ class VecGymNE(BaseNEProblem):
                     if self._max_num_envs is not None:
                         max_num_envs_per_actor = split_workload(self._max_num_envs, len(self._actors))
                         for i_actor, actor in enumerate(self._actors):
-                            actor.call.remote("_set_actor_max_num_envs", max_num_envs_per_actor[i_actor])
+                            actor.call.remote("_set_actor_max_num_envs", [max_num_envs_per_actor[i_actor]], {})
                 self._actor_max_num_envs_ready = True
 
     def _set_actor_max_num_envs(self, n: int):
-- 
2.43.0


From adcea5f226e8bf3a657d28c93e3a38d748547ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:49:53 +0000
Subject: [PATCH 73/87] fix: let the status of IPOP be read right after a
 restart

---
 src/evotorch/algorithms/restarter/modify_restart.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/restarter/modify_restart.py b/src/evotorch/algorithms/restarter/modify_restart.py
index 47c6599..1898eb7 100644
--- a/src/evotorch/algorithms/restarter/modify_restart.py
+++ b/src/evotorch/algorithms/restarter/modify_restart.py
@@ -59,7 +59,8 @@ class IPOP(ModifyingRestart):
 
     def _search_algorithm_terminated(self) -> bool:
         # Additional check on standard deviation of fitnesses of population
-        if self.search_algorithm.population.evals.std() < self.min_fitness_stdev:
+        population = self.search_algorithm.population
+        if (population is not None) and (population.evals.std() < self.min_fitness_stdev):
             return True
         return super()._search_algorithm_terminated()
 
-- 
2.43.0


From 12a89a9fb24e7dd6afc0d18668fd606bc79024ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:50:24 +0000
Subject: [PATCH 74/87] fix: leave evaluation data out of the fitness deviation
 of IPOP

---
 src/evotorch/algorithms/restarter/modify_restart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/restarter/modify_restart.py b/src/evotorch/algorithms/restarter/modify_restart.py
index 1898eb7..09b7362 100644
--- a/src/evotorch/algorithms/restarter/modify_restart.py
+++ b/src/evotorch/algorithms/restarter/modify_restart.py
@@ -60,7 +60,7 @@ class IPOP(ModifyingRestart):
     def _search_algorithm_terminated(self) -> bool:
         # Additional check on standard deviation of fitnesses of population
         population = self.search_algorithm.population
-        if (population is not None) and (population.evals.std() < self.min_fitness_stdev):
+        if (population is not None) and (population.evals[:, : len(self.problem.senses)].std() < self.min_fitness_stdev):
             return True
         return super()._search_algorithm_terminated()
 
-- 
2.43.0


From 7ca997d6213012066bcb695b3673b14bbd94dec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:57:24 +0000
Subject: [PATCH 75/87] fix: keep the operators of IPOP on the problem being
 solved

---
 src/evotorch/algorithms/restarter/modify_restart.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/evotorch/algorithms/restarter/modify_restart.py b/src/evotorch/algorithms/restarter/modify_restart.py
index 09b7362..8f7c40a 100644
--- a/src/evotorch/algorithms/restarter/modify_restart.py
+++ b/src/evotorch/algorithms/restarter/modify_restart.py
@@ -12,7 +12,6 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-from copy import deepcopy
 from typing import Type
 
 from .restart import Restart
@@ -67,7 +66,7 @@ class IPOP(ModifyingRestart):
     def _modify_algorithm_args(self) -> None:
         # Only modify arguments if this isn't the first restart
         if self.num_restarts >= 1:
-            new_args = deepcopy(self._algorithm_args)
+            new_args = dict(self._algorithm_args)
             # Multiply population size
             new_args["popsize"] = int(self.popsize_multiplier * len(self.search_algorithm.population))
             self._algorithm_args = new_args
-- 
2.43.0


From 5e1086175a0a77268650ffe4b0ee79cdc56b942e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 14:19:09 +0000
Subject: [PATCH 76/87] fix: accept initial standard deviations as vectors in
 PyCMAES

---
 src/evotorch/algorithms/pycmaes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/evotorch/algorithms/pycmaes.py b/src/evotorch/algorithms/pycmaes.py
index ab583ee..2f1466b 100644
--- a/src/evotorch/algorithms/pycmaes.py
+++ b/src/evotorch/algorithms/pycmaes.py
@@ -222,6 +222,11 @@ class PyCMAES(SearchAlgorithm, SinglePopulationAlgorithmMixin):
         if separable:
             store_opt("CMA_diagonal", "separable", separable, bool)
 
+        # The cma solver expects a scalar sigma0. Different initial standard deviations are given as "CMA_stds".
+        if sigma0.ndim > 0:
+            store_opt("CMA_stds", "stdev_init", sigma0, np.asarray)
+            sigma0 = 1.0
+
         # If the problem defines lower and upper bounds, pass these into the options dict.
         def process_bounds(bounds: RealOrVector) -> np.ndarray:
             if bounds is None:
-- 
2.43.0


From 47c918b718daf45489ecd3dacddb6a33be053f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 14:19:45 +0000
Subject: [PATCH 77/87] fix: compare integers and scalars properly in
 assert_eachclose

---
 src/evotorch/testing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/testing.py b/src/evotorch/testing.py
index b41e926..6d3fda9 100644
--- a/src/evotorch/testing.py
+++ b/src/evotorch/testing.py
@@ -267,7 +267,9 @@ def assert_eachclose(x: Iterable, value: Any, *, rtol: Optional[float] = None, a
         value = float(value)
 
     x = _to_numpy(x)
-    desired = np.empty_like(x)
-    desired[:] = value
+    if x.dtype.kind in "biu":
+        # Do not truncate `value` while comparing it with integers
+        x = x.astype("float64")
+    desired = np.full_like(x, value)
 
     assert_allclose(x, desired, rtol=rtol, atol=atol)
-- 
2.43.0


From 5d314cbb50e9e82be4937ab5cd881f8f949c110f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 14:20:17 +0000
Subject: [PATCH 78/87] fix: fill solution batches made like another batch

---
 src/evotorch/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 343e454..c55bac2 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -3697,7 +3697,7 @@ class SolutionBatch(Serializable):
             self._num_objs = like._num_objs
 
             if not _opt_bool(empty, default=False):
-                self._fill_via_problem(problem)
+                self._data[:] = problem.generate_values(len(self._data))
         elif merging_of is not None:
             expect_none(
                 "While making a new SolutionBatch via merging",
-- 
2.43.0


From 87d08c240ff473fc3c2d732163d066db6d299a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 14:20:59 +0000
Subject: [PATCH 79/87] fix: validate objective senses given as strings

---
 src/evotorch/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index c55bac2..b5af5f4 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -1166,6 +1166,7 @@ class Problem(TensorMakerMixin, Serializable):
 
         if not is_sequence(objective_sense):
             # If the provided objective sense is not a sequence, then convert it to a single-element list
+            validate_sense(objective_sense)
             senses = [objective_sense]
             num_senses = 1
         else:
-- 
2.43.0


From 59bea2e566113db97db70949ebc32f7af438360f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 14:21:35 +0000
Subject: [PATCH 80/87] fix: allow kill_actors on problems without actors

---
 src/evotorch/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index b5af5f4..35985c6 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2123,8 +2123,9 @@ class Problem(TensorMakerMixin, Serializable):
                 " Problem instance."
                 " However, this Problem instance is on a remote actor."
             )
-        for actor in self._actors:
-            ray.kill(actor)
+        if self._actors is not None:
+            for actor in self._actors:
+                ray.kill(actor)
         self._actors = None
         self._actor_pool = None
 
-- 
2.43.0


From 79ede35f4d6b1ef1aacb6672c4ada60b1b1715fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 14:29:33 +0000
Subject: [PATCH 81/87] fix: allow num_actors="num_devices" on a problem whose
 device is not the CPU

---
 src/evotorch/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 35985c6..e513073 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -1395,8 +1395,8 @@ class Problem(TensorMakerMixin, Serializable):
                     # If the main device is not CPU, then the user most probably wishes to put all the
                     # computations (both evaluations and the population) on the GPU, without allocating
                     # any actor.
-                    # So, we set `_num_actors` as None, and overwrite `num_gpus_per_actor` with None.
-                    self._num_actors = None
+                    # So, we set `_num_actors` as 0, and overwrite `num_gpus_per_actor` with None.
+                    self._num_actors = 0
                     num_gpus_per_actor = None
                 else:
                     # If the device argument is "cpu" or left as None, then we assume that actor allocations
-- 
2.43.0


From 629c7b80838216901fcb9cbbf839075ae091e11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 15:25:09 +0000
Subject: [PATCH 82/87] fix: respect obj_index, with_stats and dtype when
 computing gradients remotely

---
 src/evotorch/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index e513073..474be14 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2961,13 +2961,15 @@ class Problem(TensorMakerMixin, Serializable):
                 self._actor_pool.map_unordered(
                     (
                         lambda a, v: a.call.remote(
-                            "_sample_and_compute_gradients",
+                            "_gradient_computation_helper",
                             [dist_on_cpu, v[0]],
                             {
                                 "obj_index": obj_index,
                                 "num_interactions": v[1],
                                 "popsize_max": v[2],
                                 "ranking_method": ranking_method,
+                                "with_stats": with_stats,
+                                "move_results_to_device": "cpu",
                             },
                         )
                     ),
-- 
2.43.0


From ca4b904a7fbfa63b05990c11be37376ccfebf1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 15:25:46 +0000
Subject: [PATCH 83/87] fix: raise an error for odd popsizes when an even
 popsize is to be ensured

---
 src/evotorch/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 474be14..a0ba80c 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -3056,6 +3056,9 @@ class Problem(TensorMakerMixin, Serializable):
             #     self._sync_after()
         else:
             # If the problem is not parallelized, then we request this instance itself to compute the gradients.
+            if ensure_even_popsize and ((popsize % 2) != 0):
+                raise ValueError(f"`popsize` was expected as an even number. However, it was found as {popsize}.")
+
             result = self._gradient_computation_helper(
                 distribution,
                 popsize,
-- 
2.43.0


From 4bf0b79a24992b9eafc18a6f5d25066d26ba3d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 15:29:45 +0000
Subject: [PATCH 84/87] fix: check the objective index before requesting
 gradients from actors

---
 src/evotorch/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index a0ba80c..ebae1fe 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2883,6 +2883,9 @@ class Problem(TensorMakerMixin, Serializable):
                 f" However, `popsize_max` was found as {popsize_max}."
             )
 
+        # Make sure that the objective index is valid before any request is sent to the actors.
+        obj_index = self.normalize_obj_index(obj_index)
+
         # The problem instance in the main process should trigger the `before_grad_hook`.
         if self.is_main:
             self._before_grad_hook()
-- 
2.43.0


From 084a640d9e5db2129f1a9bbeea9b59e1de5f24f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:38:08 +0000
Subject: [PATCH 85/87] fix: bound the default c_mu of separable CMA-ES by 1 -
 c_1

---
 src/evotorch/algorithms/cmaes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/cmaes.py b/src/evotorch/algorithms/cmaes.py
index ef3b19f..de510a0 100644
--- a/src/evotorch/algorithms/cmaes.py
+++ b/src/evotorch/algorithms/cmaes.py
@@ -328,7 +328,10 @@ class CMAES(SearchAlgorithm, SinglePopulationAlgorithmMixin):
         if c_mu is None:
             # Branches on separability
             if separable:
-                c_mu = (0.25 + self.mu_eff + (1.0 / self.mu_eff) - 2) / (d + 4 * np.sqrt(d) + (self.mu_eff / 2.0))
+                c_mu = min(
+                    1 - self.c_1,
+                    (0.25 + self.mu_eff + (1.0 / self.mu_eff) - 2) / (d + 4 * np.sqrt(d) + (self.mu_eff / 2.0)),
+                )
             else:
                 c_mu = min(
                     1 - self.c_1, 2 * ((0.25 + self.mu_eff - 2 + (1 / self.mu_eff)) / ((d + 2) ** 2.0 + self.mu_eff))
-- 
2.43.0


From a8b412793fb17df6a6e463996581cd57c509b054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:29:54 +0000
Subject: [PATCH 86/87] fix: keep the crowding order when taking the best of
 many fronts

---
 src/evotorch/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index ebae1fe..c85e30a 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -4420,7 +4420,7 @@ class SolutionBatch(Serializable):
         if obj_index is None and self._num_objs >= 2:
             ranks, crowdsort_ranks = self.compute_pareto_ranks(crowdsort=True)
             # Combine the ranks, such that solutions with a better crowdsort rank are weighted above solutions with the same pareto rank **only**
-            combined_ranks = ranks.to(torch.float) + 0.1 * crowdsort_ranks.to(torch.float) / len(self)
+            combined_ranks = (ranks * len(self)) + crowdsort_ranks
             indices = torch.argsort(combined_ranks)[:n]
         else:
             indices = self.argsort(obj_index)[:n]
-- 
2.43.0


From 30604f9a2b6f43e02d960c7eabe413d9b8a45a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:30:21 +0000
Subject: [PATCH 87/87] fix: refuse an objective index equal to the number of
 objectives

---
 src/evotorch/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index c85e30a..6321504 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -3802,7 +3802,7 @@ class SolutionBatch(Serializable):
         if i < 0:
             i = self._num_objs + i
 
-        if (i < 0) or (i > (self._num_objs)):
+        if (i < 0) or (i > (self._num_objs - 1)):
             raise IndexError(f"Invalid objective index: {org_i}")
 
         return i
-- 
2.43.0

