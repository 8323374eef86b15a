From 078364b20630b4e6e2fb4fb7422e7ee953bdabcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:04:29 +0000
Subject: [PATCH 01/29] fix: ExpGaussian no longer modifies the dictionaries
 given by the caller

The constructor wrote the two-dimensional sigma and its inverse into the
given parameter dictionary. The parameter update wrote additional entries
into the given learning rate dictionary. Both now work on shallow copies.
---
 src/evotorch/distributions.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/evotorch/distributions.py b/src/evotorch/distributions.py
index 2636a3e..fcdf9f5 100644
--- a/src/evotorch/distributions.py
+++ b/src/evotorch/distributions.py
@@ -829,6 +829,9 @@ class ExpGaussian(Distribution):
     ):
         [mu_length] = parameters["mu"].shape
 
+        # Work on a shallow copy, so that the dictionary given by the caller is not modified
+        parameters = copy(parameters)
+
         # Make sigma 2D
         if len(parameters["sigma"].shape) == 1:
             parameters["sigma"] = torch.diag(parameters["sigma"])
@@ -996,6 +999,9 @@ class ExpGaussian(Distribution):
         d_grad = gradients["d"]
         M_grad = gradients["M"]
 
+        # Work on a shallow copy, so that the dictionary given by the caller is not modified
+        learning_rates = copy(learning_rates)
+
         if "d" not in learning_rates:
             learning_rates["d"] = learning_rates["mu"]
         if "M" not in learning_rates:
-- 
2.43.0


From b19ddffb81eb31fc085395ea57af85c5be5b07ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:23:06 +0000
Subject: [PATCH 02/29] fix: clones of an evaluated NEProblem can be evaluated
 again

Preparing the problem discarded the network specification. A clone or an
unpickled copy made afterwards does not carry the instantiated network, so it
had nothing left from which to rebuild it.
---
 src/evotorch/neuroevolution/neproblem.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/evotorch/neuroevolution/neproblem.py b/src/evotorch/neuroevolution/neproblem.py
index 4f03195..3bd6119 100644
--- a/src/evotorch/neuroevolution/neproblem.py
+++ b/src/evotorch/neuroevolution/neproblem.py
@@ -317,8 +317,6 @@ class NEProblem(BaseNEProblem):
     def _prepare(self) -> None:
         """Instantiate the network on the target device, if not already done"""
         self.instantiated_network = self._instantiate_net(self._original_network)
-        # Clear reference to original network
-        self._original_network = None
 
     def make_net(self, parameters: Iterable) -> nn.Module:
         """
-- 
2.43.0


From 12d499cd8b62d83b824af7d7398f9f1e9cf044d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:44:02 +0000
Subject: [PATCH 03/29] fix: read-only tensors refuse out= tuples and
 functional in-place calls

---
 src/evotorch/tools/readonlytensor.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/tools/readonlytensor.py b/src/evotorch/tools/readonlytensor.py
index 253c47e..356829c 100644
--- a/src/evotorch/tools/readonlytensor.py
+++ b/src/evotorch/tools/readonlytensor.py
@@ -131,7 +131,10 @@ class ReadOnlyTensor(torch.Tensor):
     @classmethod
     def __torch_function__(cls, func: Callable, types: Iterable, args: tuple = (), kwargs: Optional[Mapping] = None):
         if (kwargs is not None) and ("out" in kwargs):
-            if isinstance(kwargs["out"], ReadOnlyTensor):
+            out = kwargs["out"]
+            if isinstance(out, ReadOnlyTensor) or (
+                isinstance(out, (tuple, list)) and any(isinstance(x, ReadOnlyTensor) for x in out)
+            ):
                 raise TypeError(
                     f"The `out` keyword argument passed to {func} is a ReadOnlyTensor."
                     f" A ReadOnlyTensor explicitly fails when referenced via the `out` keyword argument of any torch"
@@ -139,6 +142,11 @@ class ReadOnlyTensor(torch.Tensor):
                     f" This restriction is for making sure that the torch operations which could normally do in-place"
                     f" modifications do not operate on ReadOnlyTensor instances."
                 )
+        if (len(args) > 0) and isinstance(args[0], ReadOnlyTensor):
+            func_name = getattr(func, "__name__", "")
+            in_place = func_name.endswith("_") and (not func_name.endswith("__"))
+            if in_place or ((kwargs is not None) and kwargs.get("inplace", False)):
+                raise TypeError(f"The in-place function {func} cannot be used on a ReadOnlyTensor.")
         return super().__torch_function__(func, types, args, kwargs)
 
 
-- 
2.43.0


From 6ddd1a783950efedc5ee5fddddaa4e1050371738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:44:02 +0000
Subject: [PATCH 04/29] fix: slices and read-only clones of a read-only
 ObjectArray stay read-only; repeat(int) works

---
 src/evotorch/tools/objectarray.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/tools/objectarray.py b/src/evotorch/tools/objectarray.py
index b958951..6d5d196 100644
--- a/src/evotorch/tools/objectarray.py
+++ b/src/evotorch/tools/objectarray.py
@@ -198,7 +198,7 @@ class ObjectArray(Sequence, RecursivePrintable):
                 self._objects = clone(self._objects)
 
         self._device = torch.device("cpu")
-        self._read_only = False
+        self._read_only = (slice_of is not None) and source._read_only
 
     @property
     def shape(self) -> Size:
@@ -284,7 +284,7 @@ class ObjectArray(Sequence, RecursivePrintable):
                     f" This is because {type_name} supports only 1-dimensional storage."
                     f" The received size tuple is: {sizes}."
                 )
-        num_repetitions = int(sizes[0])
+        num_repetitions = int(sizes[0]) if is_sequence(sizes) else int(sizes)
         self_length = len(self)
         result = ObjectArray(num_repetitions * self_length)
 
@@ -435,6 +435,7 @@ class ObjectArray(Sequence, RecursivePrintable):
             for i, item in enumerate(self):
                 result[i] = deep_clone(item, otherwise_deepcopy=True, memo=memo)
 
+            result._read_only = self._read_only
             return result
 
     def __copy__(self) -> "ObjectArray":
-- 
2.43.0


From cd619f4047468697f748469c1d218aa470f39f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:44:02 +0000
Subject: [PATCH 05/29] fix: as_immutable accepts ObjectArray, immutable sets
 can be unpickled, mutable_copy handles tuples

---
 src/evotorch/tools/immutable.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/tools/immutable.py b/src/evotorch/tools/immutable.py
index cccf530..b444933 100644
--- a/src/evotorch/tools/immutable.py
+++ b/src/evotorch/tools/immutable.py
@@ -66,7 +66,7 @@ def as_immutable(x: Any, *, memo: Optional[dict] = None) -> Any:
     elif isinstance(x, torch.Tensor):
         result = x.clone().as_subclass(ReadOnlyTensor)
     elif isinstance(x, ObjectArray):
-        result = x.clone().get_read_only_view()
+        result = x.clone(preserve_read_only=True).get_read_only_view()
     elif isinstance(x, np.ndarray):
         if _numpy_array_stores_objects(x):
             result = ObjectArray(len(x))
@@ -115,6 +115,9 @@ def mutable_copy(x: Any, *, memo: Optional[dict] = None) -> Any:
         result = x.copy()
     elif isinstance(x, torch.Tensor):
         result = x.clone()
+    elif isinstance(x, tuple):
+        # Keys of an immutable dictionary can be tuples
+        result = tuple([mutable_copy(item, memo=memo) for item in x])
     elif isinstance(x, ImmutableContainer):
         result = x.clone(memo=memo, preserve_read_only=False)
     else:
@@ -137,7 +140,7 @@ class ImmutableContainer(ReadOnlyClonable, RecursivePrintable):
         # Since we are dealing with immutable containers here, we need to forcefully make all numpy arrays read-only.
         if isinstance(self, Mapping):
             all_values = self.values()
-        elif isinstance(self, Sequence):
+        elif isinstance(self, (Sequence, Set)):
             all_values = self
         else:
             raise NotImplementedError
-- 
2.43.0


From e07f844455a9e5d6aa01dc0995e50e574161efc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:15:10 +0000
Subject: [PATCH 06/29] fix: seed the problem of an evaluation actor with
 manual_seed

Problem has no method named seed, so creating actors for a seeded problem
failed with an AttributeError.
---
 src/evotorch/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index e2b4324..a7f0b57 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -137,7 +137,7 @@ class EvaluationActor:
         np.random.seed(np_global)
         torch.manual_seed(torch_global)
         if self._problem.has_own_generator:
-            self._problem.seed(probseed)
+            self._problem.manual_seed(probseed)
         self._problem._use_pickle_data_from_main(state)
         self._problem.remote_hook(self._problem)
         if isinstance(self._problem._num_gpus_per_actor, str) and (self._problem._num_gpus_per_actor == "all"):
-- 
2.43.0


From 9ebaa2775c23fd201739804969966936a2c21d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:15:10 +0000
Subject: [PATCH 07/29] fix: draw the action noise of VecGymNE from the
 generator of the problem

The noise was uniform and non-negative instead of Gaussian, and it was taken
from the global generator of PyTorch.
---
 src/evotorch/neuroevolution/vecgymne.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index f46e7c1..54ea4a1 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -841,7 +841,9 @@ class VecGymNE(BaseNEProblem):
             if self._action_noise_stdev is not None:
                 # If we are to apply action noise, we sample from a Gaussian distribution and add the noise onto
                 # the actions.
-                action_per_env = action_per_env + (torch.rand_like(action_per_env) * self._action_noise_stdev)
+                noise = self.make_gaussian(action_per_env.shape, dtype=action_per_env.dtype)
+                noise = noise.to(action_per_env.device) * self._action_noise_stdev
+                action_per_env = action_per_env + noise
 
             # Apply the actions, get the observations, rewards, and the 'done' flags.
             obs_per_env, reward_per_env, done_per_env, _ = env.step(action_per_env)
-- 
2.43.0


From b83fc3b90e8464068079f61bbce019ae2b29a798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:15:10 +0000
Subject: [PATCH 08/29] fix: seed the environment of VecGymNE from the
 generator of the problem

The seed was taken from the global random module of Python, so that a seeded
problem did not have reproducible environments.
---
 src/evotorch/neuroevolution/vecgymne.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index 54ea4a1..52bc5aa 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -13,7 +13,6 @@
 # limitations under the License.
 
 import pickle
-import random
 from collections.abc import Mapping
 from datetime import datetime
 from pathlib import Path
@@ -559,7 +558,7 @@ class VecGymNE(BaseNEProblem):
                 # If possible, use the `seed(...)` method to explicitly randomize the environment.
                 # Although the new gym API removed the seed method, some environments define their own `seed(...)`
                 # method for randomization.
-                new_seed = random.randint(0, (2**32) - 1)
+                new_seed = int(self.make_randint(1, n=2**32, dtype=torch.int64))
                 self._env.seed(new_seed)
             except Exception:
                 # Our attempt at manually seeding the environment has failed.
-- 
2.43.0


From ae2a7542b94cbd337eb51a375bca58b7fc74e9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:44:46 +0000
Subject: [PATCH 09/29] fix: turn crowding distances into ranks in take_best of
 multi-objective batches

---
 src/evotorch/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index a7f0b57..916f440 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -3527,7 +3527,7 @@ def _compute_pareto_ranks(utils: torch.Tensor, crowdsort: bool) -> Tuple[torch.T
         if crowdsort:
             crowdsort_distances = _crowding_distance_assignment(utils[new_non_dominated])
             # Note the descending sort -- we want to maximize distances
-            crowdsort_ranks[new_non_dominated] = torch.argsort(crowdsort_distances, descending=True)
+            crowdsort_ranks[new_non_dominated] = torch.argsort(torch.argsort(crowdsort_distances, descending=True))
 
         # Update the number of dominations for remaining solutions by removing any domination counts introduce by the solutions we just sorted
         n_dominations += -dominated_matrix[:, new_non_dominated].sum(dim=-1)
@@ -3564,7 +3564,7 @@ def _pareto_sort(utils: torch.Tensor, crowdsort: bool) -> Tuple[List[torch.Tenso
         # Sort according to crowdsort_ranks if crowdsort
         if crowdsort:
             front_crowdsort_ranks = crowdsort_ranks[front]
-            front = front[front_crowdsort_ranks]
+            front = front[torch.argsort(front_crowdsort_ranks)]
 
         fronts.append(front)
     return fronts, ranks
-- 
2.43.0


From 70a7407d4d9b02b85f499e2f5a5b11e1296ab29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 14:50:28 +0000
Subject: [PATCH 10/29] fix: fill a batch made with like=... via the problem's
 value generator

---
 src/evotorch/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 916f440..28e4f87 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -3695,7 +3695,7 @@ class SolutionBatch(Serializable):
             self._num_objs = like._num_objs
 
             if not _opt_bool(empty, default=False):
-                self._fill_via_problem(problem)
+                self._data[:] = problem.generate_values(len(self._data))
         elif merging_of is not None:
             expect_none(
                 "While making a new SolutionBatch via merging",
-- 
2.43.0


From 343f3733134bf29a54af2c67da8f349c31e47746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 14:50:28 +0000
Subject: [PATCH 11/29] fix: make is_batched of the batched structures work

---
 src/evotorch/tools/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 21d81fe..3038aad 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -833,7 +833,7 @@ class Structure:
         """
         True if this structure is batched; False otherwise.
         """
-        return self._batch_ndim > 0
+        return self.batch_ndim > 0
 
     @property
     def dtype(self) -> torch.dtype:
-- 
2.43.0


From 372597447e5b15cd7fe0cb20a0e4a5c486c93e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 14:50:46 +0000
Subject: [PATCH 12/29] fix: make CDict.clear work with a mask

---
 src/evotorch/tools/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 3038aad..1f72cde 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -1362,7 +1362,7 @@ class CDict(Structure):
             self._exist.data[:] = False
         else:
             where = self._get_where(where)
-            all_false = torch.tensor(False, dtype=torch.bool, device=self._exist.device).expand(self._exist.shape)
+            all_false = torch.tensor(False, dtype=torch.bool, device=self._exist.device).expand(self._exist.data.shape)
             self._exist.data[:] = do_where(where, all_false, self._exist.data[:])
 
     @property
-- 
2.43.0


From 79231ba1bdfcb089b81337c9f6f65cb5e01a82fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 14:50:46 +0000
Subject: [PATCH 13/29] fix: pass the per-actor environment limit in the form
 remote calls expect

---
 src/evotorch/neuroevolution/vecgymne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index 52bc5aa..a507ab5 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -446,7 +446,7 @@ class VecGymNE(BaseNEProblem):
                     if self._max_num_envs is not None:
                         max_num_envs_per_actor = split_workload(self._max_num_envs, len(self._actors))
                         for i_actor, actor in enumerate(self._actors):
-                            actor.call.remote("_set_actor_max_num_envs", max_num_envs_per_actor[i_actor])
+                            actor.call.remote("_set_actor_max_num_envs", [max_num_envs_per_actor[i_actor]], {})
                 self._actor_max_num_envs_ready = True
 
     def _set_actor_max_num_envs(self, n: int):
-- 
2.43.0


From 25a5b9484079c0a41c41f6e5d8f749b4ca7c4093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 14:51:00 +0000
Subject: [PATCH 14/29] fix: let a new CDict start without any existing key

---
 src/evotorch/tools/structures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 1f72cde..83cd55c 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -1199,6 +1199,7 @@ class CDict(Structure):
             key_offset=key_offset,
             batch_size=batch_size,
             batch_shape=batch_shape,
+            fill_with=False,
             dtype=torch.bool,
             device=device,
             verify=verify,
-- 
2.43.0


From 62074de4a610cd5c96729aad6eaa031220bc305e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:21:29 +0000
Subject: [PATCH 15/29] fix: complete a non-elitist population with evaluated
 parents

When fewer children than the population size are produced and everything
is evaluated in one go, the parents were taken from the batch before that
evaluation, so they had missing or outdated results.
---
 src/evotorch/algorithms/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/ga.py b/src/evotorch/algorithms/ga.py
index 701a143..c2d7db0 100644
--- a/src/evotorch/algorithms/ga.py
+++ b/src/evotorch/algorithms/ga.py
@@ -673,7 +673,7 @@ class GeneticAlgorithm(SearchAlgorithm, SinglePopulationAlgorithmMixin, Extended
             if num_children < popsize:
                 # If the number of children is less than the population size, then we keep the best m solutions from
                 # the parents, m being `popsize - num_children`.
-                chosen_parents = self._population.take_best(popsize - num_children)
+                chosen_parents = parents.take_best(popsize - num_children)
 
                 # Combine the children with the chosen parents, and declare them as the new population.
                 self._population = SolutionBatch.cat([chosen_parents, children])
-- 
2.43.0


From 5b21e5afe40e1bd46d1ae92e4962588f0626b428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:30:31 +0000
Subject: [PATCH 16/29] fix: address each item of a batch with several
 dimensions

With a batch shape of two or more dimensions, the indices of the batch
items were not spread over their own dimensions, so operations failed, or
changed the items on the diagonal only.
---
 src/evotorch/tools/structures.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 83cd55c..4165d04 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -418,7 +418,9 @@ class CMemory:
 
         self._for_all_batches = tuple(
             (
-                torch.arange(self._batch_shape[i], dtype=torch.int64, device=self._device)
+                torch.arange(self._batch_shape[i], dtype=torch.int64, device=self._device).reshape(
+                    (-1,) + (1,) * (self._batch_ndim - i - 1)
+                )
                 for i in range(self._batch_ndim)
             )
         )
-- 
2.43.0


From 6abcea36e1e53b1d33fcd2067a0c91024196d44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:30:31 +0000
Subject: [PATCH 17/29] fix: let masked memory operations take one key for all
 batch items

A key made of several integers, given once for the whole batch, made
every masked operation fail.
---
 src/evotorch/tools/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 4165d04..54521e1 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -458,7 +458,7 @@ class CMemory:
             min_key = (
                 torch.tensor(0, dtype=torch.int64, device=self._data.device) if self._min_key is None else self._min_key
             )
-            key = do_where(where, key, min_key.expand(expected_shape))
+            key = do_where(where, result, min_key.expand(expected_shape))
         if self._verify:
             self._key_must_be_valid(key)
 
-- 
2.43.0


From 7cee8c097ff0110ebf7464ba5b5e4e38429f9730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:30:31 +0000
Subject: [PATCH 18/29] fix: multiply instead of adding when no mask is given

CMemory.multiply_ and divide_ added the value to the stored one unless a
mask was given.
---
 src/evotorch/tools/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 54521e1..e65d86e 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -658,7 +658,7 @@ class CMemory:
             if self._is_dtype_bool:
                 self._data[address] &= value
             else:
-                self._data[address] += value
+                self._data[address] *= value
         else:
             if self._is_dtype_bool:
                 self._data[address] &= do_where(
-- 
2.43.0


From ac542b2b969e5771e9473ecd6771cb2a0f8aa3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:30:31 +0000
Subject: [PATCH 19/29] fix: make CList.clear work with a mask

---
 src/evotorch/tools/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index e65d86e..64b25a0 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -1993,7 +1993,7 @@ class CList(Structure):
             self._end.data[:] = -1
         else:
             where = self._get_where(where)
-            all_minus_ones = torch.tensor(-1, dtype=torch.int64, device=self._begin.device).expand(self._begin.shape)
+            all_minus_ones = torch.tensor(-1, dtype=torch.int64, device=self._begin.device).expand(self._begin.data.shape)
             self._begin.data[:] = do_where(where, all_minus_ones, self._begin.data)
             self._end.data[:] = do_where(where, all_minus_ones, self._end.data)
 
-- 
2.43.0


From 762a45e36550716dae5ce71be38994643f3446a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:30:31 +0000
Subject: [PATCH 20/29] fix: do not take an empty list of maximum length 1 for
 a full one

---
 src/evotorch/tools/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 64b25a0..fa3e639 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -1642,7 +1642,7 @@ class CList(Structure):
     def _is_full(self) -> torch.Tensor:
         begin = self._begin[self._all_zeros]
         end = self._end[self._all_zeros]
-        return ((end - begin) % self._max_length) == (self._max_length - 1)
+        return (((end - begin) % self._max_length) == (self._max_length - 1)) & (begin >= 0)
 
     @staticmethod
     def _considering_where(other_mask: torch.Tensor, where: Optional[torch.Tensor]) -> torch.Tensor:
-- 
2.43.0


From 78d9592c4c4dbb81f3f2c3f7318151da55fe3e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:30:47 +0000
Subject: [PATCH 21/29] fix: let CBag shuffle bags of any batch shape

Bags without a batch dimension, or with several of them, failed at the
first pop.
---
 src/evotorch/tools/structures.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index fa3e639..57c518d 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -2407,10 +2407,9 @@ class CBag(Structure):
     def _shuffle(self):
         dtype = self._data.dtype
         device = self._data.device
-        nrows, ncols = self._data.data.shape
 
         try:
-            gaussian_noise = torch.randn(nrows, ncols, dtype=torch.float32, device=device, **(self._gen_kwargs))
+            gaussian_noise = torch.randn(self._data.data.shape, dtype=torch.float32, device=device, **(self._gen_kwargs))
             noise = gaussian_noise.argsort().to(dtype=dtype) * self._bignum
             self._data.data[:] += torch.where(
                 self._data.data != self._empty, self._shift + noise, torch.tensor(0, dtype=dtype, device=device)
-- 
2.43.0


From 1881d5ce1ca5251716b09c69450af6d53c30af2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:30:47 +0000
Subject: [PATCH 22/29] fix: let CBag return what was put into it for every
 range of values

With a range that starts above 0, shuffling changed the stored values and
could put empty places before stored ones.
---
 src/evotorch/tools/structures.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 57c518d..d034fca 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -2381,10 +2381,7 @@ class CBag(Structure):
         self._choice_count = self._high_item - self._low_item
         self._bignum = self._choice_count + 1
 
-        if self._low_item < 1:
-            self._shift = 1 - self._low_item
-        else:
-            self._shift = 0
+        self._shift = 1 - self._low_item
 
         self._empty = self._low_item - 1
         self._data.data[:] = self._empty
@@ -2412,7 +2409,9 @@ class CBag(Structure):
             gaussian_noise = torch.randn(self._data.data.shape, dtype=torch.float32, device=device, **(self._gen_kwargs))
             noise = gaussian_noise.argsort().to(dtype=dtype) * self._bignum
             self._data.data[:] += torch.where(
-                self._data.data != self._empty, self._shift + noise, torch.tensor(0, dtype=dtype, device=device)
+                self._data.data != self._empty,
+                self._shift + noise,
+                torch.tensor(self._shift, dtype=dtype, device=device),
             )
             self._data.data[:] = self._data.data.sort(dim=-1, descending=True, stable=False).values
         finally:
-- 
2.43.0


From 2cee87834350f17334187ea510bc60b27cf6ba6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:51 +0000
Subject: [PATCH 23/29] fix: report indices beyond the capacity of a CList as
 out of range

With a full list, index len(list) wrapped around to the first element
and index -len(list)-1 to the last one, instead of yielding the default
or an IndexError.
---
 src/evotorch/tools/structures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index d034fca..2e5389e 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -1755,7 +1755,8 @@ class CList(Structure):
         underlying_key = self._mod_underlying_key(underlying_key, verify=verify)
 
         if verify or return_validity:
-            valid = self._is_underlying_key_valid(underlying_key)
+            within_capacity = (key >= -self._max_length) & (key < self._max_length)
+            valid = within_capacity & self._is_underlying_key_valid(underlying_key)
         else:
             valid = None
 
-- 
2.43.0


From 13f94588646f9337bcb5ff1bb81e99b5ddc43b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:15:53 +0000
Subject: [PATCH 24/29] fix: keep the first observation given to RunningNorm
 unchanged by later updates

---
 src/evotorch/neuroevolution/net/runningnorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/net/runningnorm.py b/src/evotorch/neuroevolution/net/runningnorm.py
index dae84b8..02415db 100644
--- a/src/evotorch/neuroevolution/net/runningnorm.py
+++ b/src/evotorch/neuroevolution/net/runningnorm.py
@@ -322,7 +322,7 @@ class RunningNorm:
                 # the sum of observations extracted from x is x itself,
                 # and the sum of squared observations extracted from x is
                 # the square of x itself.
-                sum_of_x = x
+                sum_of_x = x.clone()
                 sum_of_x_squared = x.square()
                 # We extracted a single observation from x
                 n = 1
-- 
2.43.0


From 946d381d22a0661f64e6e2e83bebb59563141522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:15:53 +0000
Subject: [PATCH 25/29] fix: let RunningNorm go on after an update whose mask
 selects nothing

---
 src/evotorch/neuroevolution/net/runningnorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/net/runningnorm.py b/src/evotorch/neuroevolution/net/runningnorm.py
index 02415db..9c2d9de 100644
--- a/src/evotorch/neuroevolution/net/runningnorm.py
+++ b/src/evotorch/neuroevolution/net/runningnorm.py
@@ -215,7 +215,7 @@ class RunningNorm:
         return (self._sum is None) and (self._sum_of_squares is None) and (self._count == 0)
 
     def _has_data(self) -> bool:
-        return (self._sum is not None) and (self._sum_of_squares is not None) and (self._count > 0)
+        return (self._sum is not None) and (self._sum_of_squares is not None)
 
     def reset(self):
         """
-- 
2.43.0


From ebc25e33e67732f4415318048bef25c8ec89f188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:15:53 +0000
Subject: [PATCH 26/29] fix: do not write into the parameters given earlier
 when Policy replaces some rows

---
 src/evotorch/neuroevolution/net/vecrl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/evotorch/neuroevolution/net/vecrl.py b/src/evotorch/neuroevolution/net/vecrl.py
index cfb04cc..3ad1047 100644
--- a/src/evotorch/neuroevolution/net/vecrl.py
+++ b/src/evotorch/neuroevolution/net/vecrl.py
@@ -1226,6 +1226,7 @@ class Policy:
             if indices is None:
                 self.__parameters = parameters
             else:
+                self.__parameters = self.__parameters.clone()
                 self.__parameters[indices] = parameters
 
         if reset:
-- 
2.43.0


From 8b6820eedc16ebb4dd1d0ace83a5c182784e4de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:16:26 +0000
Subject: [PATCH 27/29] fix: give the standard deviation made from a radius the
 data type and device of the center

---
 src/evotorch/algorithms/functional/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/functional/misc.py b/src/evotorch/algorithms/functional/misc.py
index b0683fa..e25303c 100644
--- a/src/evotorch/algorithms/functional/misc.py
+++ b/src/evotorch/algorithms/functional/misc.py
@@ -154,7 +154,7 @@ def _get_stdev_init(
         # the vector(s) is/are equal to the given radius value(s).
         radius_init = torch.as_tensor(radius_init, dtype=dtype, device=device)
         stdev_element = torch.sqrt((radius_init**2) / solution_length)
-        final_stdev = stdev_element[..., None] * torch.ones(solution_length)
+        final_stdev = stdev_element[..., None] * torch.ones(solution_length, dtype=dtype, device=device)
         return final_stdev
     else:
         raise ValueError(
-- 
2.43.0


From d161a86b037f5fbaec815a5fe21328b90817a4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:20:54 +0000
Subject: [PATCH 28/29] fix: build the grid of MAPElites in the requested data
 type

---
 src/evotorch/algorithms/mapelites.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/mapelites.py b/src/evotorch/algorithms/mapelites.py
index 7709c20..8e185e1 100644
--- a/src/evotorch/algorithms/mapelites.py
+++ b/src/evotorch/algorithms/mapelites.py
@@ -497,7 +497,7 @@ class MAPElites(SearchAlgorithm, SinglePopulationAlgorithmMixin, ExtendedPopulat
         n_inf = torch.tensor([float("-inf")], dtype=dtype, device=device)
 
         def _make_feature_grid(lb, ub, num_bins):
-            sp = torch.linspace(lb, ub, num_bins - 1, device=device)
+            sp = torch.linspace(lb, ub, num_bins - 1, dtype=dtype, device=device)
             sp = torch.cat((n_inf, sp, p_inf))
             return sp.unfold(dimension=0, size=2, step=1).unsqueeze(1)
 
-- 
2.43.0


From de8ceb7ae540b0fde81a8fba59596f949254523a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:00:34 +0000
Subject: [PATCH 29/29] fix: compute the raw weights of CMAES in the data type
 of the problem

---
 src/evotorch/algorithms/cmaes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/cmaes.py b/src/evotorch/algorithms/cmaes.py
index c7039a8..cea2e81 100644
--- a/src/evotorch/algorithms/cmaes.py
+++ b/src/evotorch/algorithms/cmaes.py
@@ -276,7 +276,8 @@ class CMAES(SearchAlgorithm, SinglePopulationAlgorithmMixin):
         # Conditioned on popsize
 
         # w_i = log((lambda + 1) / 2) - log(i) for i = 1 ... lambda
-        raw_weights = self.problem.make_tensor(np.log((popsize + 1) / 2) - torch.log(torch.arange(popsize) + 1))
+        indices = torch.arange(popsize, dtype=problem.dtype, device=problem.device)
+        raw_weights = self.problem.make_tensor(np.log((popsize + 1) / 2) - torch.log(indices + 1))
         # positive valued weights are the first mu
         positive_weights = raw_weights[: self.mu]
         negative_weights = raw_weights[self.mu :]
-- 
2.43.0

