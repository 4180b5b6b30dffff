From 921c7ff47c72586fb5f26f06fa695029f56f906b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 01/34] fix: serve data for unexpected tokens when calls are
 not verified

A re-used (old) cache state only triggers a warning if verify_calls is False,
but the response was never assigned, such that an UnboundLocalError was raised.
---
 jax_sgmc/data/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index a478fc9..86f35b3 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -447,9 +447,9 @@ class _Requests:
                       f"{chain_id}. This might be due to using a pmap in a "
                       f"jitted function. If the preservation ")
 
-      # The request is valid and the first request, so the results have to be
+      # The request is the first request, so the data has to be loaded and
       # stored in the cache
-      else:
+      if old_request is None:
         # Issue a new token and request data
         new_token = JaxUUID()
         callback_response = self._host_data_loaders[callback_uuid.as_uuid].get_batches(chain_id)
-- 
2.43.0


From 04d133126a30dcfd0ba46518234e7e5a81a2be7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 02/34] fix: use the batch size instead of the cache size to
 map device data

full_reference_data passed cached_batches_count as batch size to the device
data loader implementation and ignored mb_size.
---
 jax_sgmc/data/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index 86f35b3..7f54577 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -550,7 +550,7 @@ def full_reference_data(data_loader: DataLoader,
       data_loader, cached_batches_count, mb_size)
   elif isinstance(data_loader, DeviceDataLoader):
     init_fn, (_batch_fn, mb_information), cleanup = _full_reference_data_device(
-      data_loader, cached_batches_count)
+      data_loader, mb_size)
   else:
     raise TypeError("The DataLoader must inherit from HostDataLoader or "
                     "DeviceDataLoader")
-- 
2.43.0


From a588a1f770609ab50129c21c910dbc0ee5952c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 03/34] fix: start each mapping over device data at the same
 observation

If the batch size does not divide the observation count, the fillers of the
last batch shifted the start of the next mapping, such that the results of
repeated mappings were returned in a different order.
---
 jax_sgmc/data/core.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index 7f54577..8d5a9ff 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -934,7 +934,8 @@ def _full_reference_data_device(data_loader: DeviceDataLoader,
                        f"observation count. Given {offset} and "
                        f"{total_observations}.")
 
-    init_state = CacheState(current_line=offset)
+    # The offset marks the first observation of each mapping over the dataset
+    init_state = CacheState(current_line=offset, state=offset)
     return init_state
 
   def batch_fn(data_state: CacheState,
@@ -944,9 +945,16 @@ def _full_reference_data_device(data_loader: DeviceDataLoader,
     indices = jnp.mod(jnp.arange(mb_size) + data_state.current_line,
                       total_observations)
 
-    # Update the offset, where to start slicing in the next iteration.
+    # Update the line, where to start slicing in the next iteration. Start again
+    # at the offset if all observations have been returned.
+    returned = jnp.mod(data_state.current_line - data_state.state,
+                       total_observations) + mb_size
     new_state = CacheState(
-      current_line=jnp.mod(indices[-1] + 1, total_observations))
+      current_line=jnp.where(
+        returned >= total_observations,
+        data_state.state,
+        jnp.mod(indices[-1] + 1, total_observations)),
+      state=data_state.state)
 
     selected_data = tree_index(reference_data, indices)
 
-- 
2.43.0


From 89b3cc35451af5e88b21918a6c169654c252ef53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 04/34] fix: leave the checkpoint of the data loader unchanged
 by load_state

The checkpoint was emptied by popitem and shared the shuffled indices with the
restored chain, so it could be restored only once.
---
 jax_sgmc/data/numpy_loader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jax_sgmc/data/numpy_loader.py b/jax_sgmc/data/numpy_loader.py
index 02b84eb..120f446 100644
--- a/jax_sgmc/data/numpy_loader.py
+++ b/jax_sgmc/data/numpy_loader.py
@@ -217,12 +217,13 @@ class NumpyDataLoader(NumpyBase, HostDataLoader):
     """
     # Restore the state by setting the random number generators to the
     # checkpointed state
-    type, value = data.popitem()
+    (type, value), = data.items()
     if type == 'random':
       rng_state, chain_data = value
       self._chains[chain_id]['rng'].bit_generator.state = rng_state
+      # The checkpoint must not be changed by the restored chain
       for key, value in chain_data.items():
-        self._chains[chain_id][key] = value
+        self._chains[chain_id][key] = deepcopy(value)
     elif type == 'ordered':
       self._chains[chain_id]['idx_offset'] = value
     else:
-- 
2.43.0


From de7cbe858ef71f7473ed4cbe7a208de1baee9608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 05/34] fix: support device data loaders in full_data_mapper

The device cache state contained a python integer, for which no shape and dtype
could be determined by full_data_mapper.
---
 jax_sgmc/data/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index 8d5a9ff..615083d 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -935,6 +935,7 @@ def _full_reference_data_device(data_loader: DeviceDataLoader,
                        f"{total_observations}.")
 
     # The offset marks the first observation of each mapping over the dataset
+    offset = jnp.array(offset)
     init_state = CacheState(current_line=offset, state=offset)
     return init_state
 
-- 
2.43.0


From 32c7569e425bea76e7faf6909e7ac3df4763fb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 06/34] fix: mark fillers in the batch information of mapped
 device data

---
 jax_sgmc/data/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index 615083d..6486a9d 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -959,8 +959,14 @@ def _full_reference_data_device(data_loader: DeviceDataLoader,
 
     selected_data = tree_index(reference_data, indices)
 
+    # Mark observations returned twice in a single mapping
+    info = MiniBatchInformation(
+      observation_count=mb_info.observation_count,
+      batch_size=mb_info.batch_size,
+      mask=(jnp.arange(mb_size) + returned - mb_size) < total_observations)
+
     if information:
-      return new_state, (selected_data, mb_info)
+      return new_state, (selected_data, info)
     else:
       return new_state, selected_data
 
-- 
2.43.0


From 2172d455839d2e5220e14a8ab62428a31dde5f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 07/34] fix: allow a carry when mapping an unbatched function
 over the dataset

take_along_axis does not accept scalar indices.
---
 jax_sgmc/data/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index 6486a9d..fdd4005 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -1113,7 +1113,7 @@ def full_data_mapper(data_loader: DataLoader = None,
             state = None
           else:
             state = tree_util.tree_map(
-              partial(jnp.take_along_axis, indices=0, axis=0),
+              partial(jnp.take, indices=0, axis=0),
               states)
           return results, state
 
-- 
2.43.0


From bc868ce8d7f1c04abe24e08215d1a29db9f35860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 08/34] fix: return pytree dict keys in the order of the leaves

For namedtuples and lists with more than ten elements, the order of the leaves
of the tree differs from the order of the leaves of the dict. Therefore, leaves
were saved under the name of another leaf and restored at the wrong position.
---
 jax_sgmc/io.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index bc07d97..e85f2f8 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -170,9 +170,11 @@ def pytree_dict_keys(tree: PyTree):
       [('a', 'list_element_0'), ('a', 'list_element_1'), ('b',)]
 
   """
-  node = pytree_to_dict(tree)
-  leaves, treedef = tree_util.tree_flatten(node)
-  idx_tree = tree_util.tree_unflatten(treedef, list(range(len(leaves))))
+  # The index of the leaf must be determined for the original tree, as the keys
+  # of the dict are sorted differently than the fields of namedtuples and lists.
+  leaves, treedef = tree_util.tree_flatten(tree)
+  idx_tree = pytree_to_dict(
+    tree_util.tree_unflatten(treedef, list(range(len(leaves)))))
   key_list = [None] * len(leaves)
   def _recurse(node, path):
     if node is None:
-- 
2.43.0


From 20587156ba50f2df97286ba24d5a97b7919da409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 09/34] fix: skip empty lists and tuples when collecting the
 pytree dict keys

---
 jax_sgmc/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index e85f2f8..7b94e48 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -177,7 +177,7 @@ def pytree_dict_keys(tree: PyTree):
     tree_util.tree_unflatten(treedef, list(range(len(leaves)))))
   key_list = [None] * len(leaves)
   def _recurse(node, path):
-    if node is None:
+    if len(tree_util.tree_leaves(node)) == 0:
       return
     elif isinstance(node, int):
       key_list[node] = path
-- 
2.43.0


From 8850acae98f9f0fa318629723d22c2ecab709d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 10/34] fix: wait until all samples have been written to the
 hdf5 file

With asynchronous host callbacks (e.g. via outfeed), finished returned before
the samples were saved.
---
 jax_sgmc/io.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index 7b94e48..9ad27fa 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -412,7 +412,7 @@ class HDF5Collector(DataCollector):
 
   def __init__(self, file: HDF5File):
     assert h5py is not None, "h5py must be installed to use this DataCollector."
-    # Barrier to wait until all data has been processed
+    # Locks to wait until all data has been processed
     self._finished = []
     self._sample_count = []
     self._leaf_names = []
@@ -457,7 +457,8 @@ class HDF5Collector(DataCollector):
         dtype=leaf.dtype)
     self._sample_count.append(0)
     self._leaf_names.append(leaf_names)
-    self._finished.append(threading.Barrier(2))
+    self._finished.append(threading.Lock())
+    self._finished[chain_id].acquire()
     return chain_id
 
   def save(self, chain_id: int, values):
@@ -480,7 +481,7 @@ class HDF5Collector(DataCollector):
 
     """
     # Is called after all host callback calls have been processed
-    # self._finished[chain_id].wait()
+    self._finished[chain_id].release()
 
   def checkpoint(self, chain_id: int, state):
     """Called every nth step. """
@@ -499,7 +500,8 @@ class HDF5Collector(DataCollector):
       chain_id: ID of chain requesting continuation of normal program flow.
 
     """
-    # self._finished[chain_id].wait()
+    self._finished[chain_id].acquire()
+    self._finished[chain_id].release()
 
 class MemoryCollector(DataCollector):
   """Stores samples entirely in RAM (numpy arrays).
-- 
2.43.0


From 3d4663e51ba074ab895deb87163df39eebbf9309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 11/34] fix: write the npz file before the samples are marked
 as finished

---
 jax_sgmc/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index 9ad27fa..33fbbf5 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -585,7 +585,6 @@ class MemoryCollector(DataCollector):
 
     """
     # Is called after all host callback calls have been processed
-    self._finished[chain_id].release()
     if self._dir:
       output_dir = Path(self._dir)
       output_file = output_dir / f"chain_{chain_id}.npz"
@@ -593,6 +592,7 @@ class MemoryCollector(DataCollector):
       onp.savez(
         output_file,
         **dict(zip(self._leafnames[chain_id], self._samples[chain_id])))
+    self._finished[chain_id].release()
 
   def finished(self, chain_id):
     """Returns samples after all data has been processed.
-- 
2.43.0


From a035f0db575aa142e348ed3b9a1b4c2fe4f2d7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 12/34] fix: reverse the momentum of SGGMC if the proposal is
 rejected

The momentum is only partially refreshed, so the rejected proposals must reverse
the momentum to leave the posterior invariant (as already done for AMAGOLD).
---
 jax_sgmc/solver.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jax_sgmc/solver.py b/jax_sgmc/solver.py
index d1db1d3..a133472 100644
--- a/jax_sgmc/solver.py
+++ b/jax_sgmc/solver.py
@@ -528,17 +528,17 @@ def sggmc(integrator_fn,
     slice = random.uniform(split)
 
     # If true, the step is accepted
-    mh_integrator_state, new_potential, mh_model_state = lax.cond(
+    mh_integrator_state, new_potential, direction, mh_model_state = lax.cond(
       jnp.log(slice) < log_alpha,
       lambda new_old: new_old[0],
       lambda new_old: new_old[1],
-      ((proposal, new_potential, new_model_state),
-       (state.integrator_state, state.potential,
+      ((proposal, new_potential, 1.0, new_model_state),
+       (state.integrator_state, state.potential, -1.0,
         state.integrator_state.model_state)))
 
     new_integrator_state = integrator.ObaboState(
       positions=mh_integrator_state.positions,
-      momentum=mh_integrator_state.momentum,
+      momentum=util.tree_scale(direction, mh_integrator_state.momentum),
       model_state=mh_model_state,
       potential=mh_integrator_state.potential,
       # These parameters must be provided from the updated state, otherwise
-- 
2.43.0


From cf94573766fff10f377c4ca17f49d7208106064b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 13/34] fix: scale the SGHMC noise by the square root of the
 friction

The variance of the injected noise must be 2 * friction * step_size.
---
 jax_sgmc/integrator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/integrator.py b/jax_sgmc/integrator.py
index 09df0a3..b9a13e0 100644
--- a/jax_sgmc/integrator.py
+++ b/jax_sgmc/integrator.py
@@ -651,7 +651,8 @@ def friction_leapfrog(potential_fn: StochasticPotential,
     else:
       noise_state = None
       scaled_noise = tree_scale(jnp.sqrt(2 * parameters.step_size), noise)
-      scaled_noise = tree_multiply(friction, scaled_noise)
+      scaled_noise = tree_multiply(
+        tree_util.tree_map(jnp.sqrt, friction), scaled_noise)
     new_momentum = tree_add(new_momentum, scaled_noise)
 
     new_state = LeapfrogState(
-- 
2.43.0


From 6d4ae2c2258e1fdb2e46c368d3b0fd8a36eb983d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 14/34] fix: compute the square root of the dense mass matrix

The mass is the inverse of the covariance (as for the diagonal matrix) and the
eigenvectors are the columns of the matrix returned by eigh.
---
 jax_sgmc/adaption.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index 8576e17..1e1471a 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -315,7 +315,7 @@ def mass_matrix(diagonal=True, burn_in=1000):
       inv = ssq / iteration
       eigw, eigv = jnp.linalg.eigh(ssq / iteration)
       # Todo: More effective computation
-      sqrt = jnp.matmul(jnp.transpose(eigv), jnp.matmul(jnp.diag(jnp.sqrt(eigw)), eigv))
+      sqrt = jnp.matmul(eigv, jnp.matmul(jnp.diag(1 / jnp.sqrt(eigw)), jnp.transpose(eigv)))
     return inv, sqrt
 
   def init(sample: Array, init_cov: Array):
-- 
2.43.0


From 5668972b227742b14a1321230b18fcfab702278c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 15/34] fix: use the default mass matrix if no initial mass is
 provided

None was raveled to an empty array, which is an invalid covariance.
---
 jax_sgmc/adaption.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index 1e1471a..fe25b10 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -134,7 +134,8 @@ def _adaption(adaption_fn: Callable, quantity: namedtuple = tuple):
       unravel_fn = get_unravel_fn(x0)
 
       x0_flat = ravel_fn(x0)
-      init_flat = map(ravel_fn, init_args)
+      # Keep optional arguments which have not been provided
+      init_flat = (None if arg is None else ravel_fn(arg) for arg in init_args)
       state = init(x0_flat, *init_flat, **init_kwargs)
 
       # Wrap the potential in a flatten function if potential is provided as
-- 
2.43.0


From 5e2abb87602cd63778076c7f86b0d35ddb4bbb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 16/34] fix: return a constant step size if first and last step
 size are equal

The default arguments and runs with a single iteration resulted in step sizes
of nan or a failed assertion.
---
 jax_sgmc/scheduler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jax_sgmc/scheduler.py b/jax_sgmc/scheduler.py
index e36ac60..e394f67 100644
--- a/jax_sgmc/scheduler.py
+++ b/jax_sgmc/scheduler.py
@@ -527,6 +527,9 @@ def polynomial_step_size_first_last(first: [float, Array] = 1.0,
     assert gamma > 0, f"Gamma must be bigger than 0, is {gamma}"
     assert first >= last, f"The first step size must be larger than the last:" \
                          f" {first} !>= {last}"
+    # The step size is constant, so the polynomial has no finite coefficients
+    if first == last or iterations == 1:
+      return jnp.full(iterations, first, dtype=jnp.float_)
     a, b = find_ab(iterations, gamma, first, last)
     init_fn, _, _ = polynomial_step_size(a=a, b=b, gamma=gamma)
     return init_fn(iterations)
-- 
2.43.0


From 3166c4edec42aca1de35993f8379fbd6e7f3cbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 17/34] fix: use the target acceptance rate passed to init of
 the scheduler

A target acceptance rate for a single chain was ignored.
---
 jax_sgmc/scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_sgmc/scheduler.py b/jax_sgmc/scheduler.py
index e394f67..6025adf 100644
--- a/jax_sgmc/scheduler.py
+++ b/jax_sgmc/scheduler.py
@@ -422,7 +422,7 @@ def adaptive_step_size(burn_in = 0,
     m = iteration + 1
 
     h_bar *= (1 - 1/(m + t0))
-    h_bar += 1/(m + t0) * (target_acceptance_rate - acceptance_ratio)
+    h_bar += 1/(m + t0) * (alpha - acceptance_ratio)
 
     x = mu - jnp.sqrt(m) / gamma * h_bar
 
-- 
2.43.0


From 2153444ce10936a7aec226f3316a9ec70a8acd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 18/34] fix: accept arrays as constant mass

The truth value of an array with more than one element is ambiguous.
---
 jax_sgmc/integrator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jax_sgmc/integrator.py b/jax_sgmc/integrator.py
index b9a13e0..f84172b 100644
--- a/jax_sgmc/integrator.py
+++ b/jax_sgmc/integrator.py
@@ -166,7 +166,7 @@ def obabo(potential_fn: StochasticPotential,
   stochastic_gradient = value_and_grad(potential_fn, argnums=0, has_aux=True)
 
   # Calculate the inverse and the square root
-  if const_mass:
+  if const_mass is not None:
     const_mass = init_mass(const_mass)
   else:
     const_mass = None
@@ -375,7 +375,7 @@ def reversible_leapfrog(potential_fn: StochasticPotential,
   stochastic_gradient = grad(potential_fn, has_aux=True)
 
   # Calculate the inverse and the square root
-  if const_mass:
+  if const_mass is not None:
     const_mass = init_mass(const_mass)
   else:
     const_mass = None
@@ -595,7 +595,7 @@ def friction_leapfrog(potential_fn: StochasticPotential,
     init_noise_model, update_noise_model, get_noise_model = noise_model
 
   # Calculate the inverse and the square root
-  if const_mass:
+  if const_mass is not None:
     const_mass = init_mass(const_mass)
   else:
     const_mass = None
-- 
2.43.0


From af3f0c3bca00119287b7369d583a7949bb3105b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 19/34] fix: center the likelihood gradients in the fisher
 information

The gradient of the potential has the opposite sign of the gradients of the
log-likelihood and includes the prior, so it is not the mean gradient.
---
 jax_sgmc/adaption.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index fe25b10..ec59b47 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -402,15 +402,11 @@ def fisher_information(minibatch_potential: Callable = None,
           step_size: Any = jnp.array(1.0),
           model_state: PyTree = None,
           **kwargs: Any):
-    del state, args, kwargs
+    del state, sample_grad, args, kwargs
 
     _, mb_information = mini_batch
-    N = mb_information.observation_count
     n = mb_information.batch_size
 
-    # Unscale the gradient to get mean
-    sample_grad /= N
-
     def potential_at_obs(smp, obs_idx):
       _, (likelihoods, _) = flat_potential(
         smp, mini_batch, likelihoods=True, state=model_state)
@@ -418,15 +414,19 @@ def fisher_information(minibatch_potential: Callable = None,
 
     grad_diff_idx = grad(potential_at_obs, argnums=0)
 
+    obs_grads = vmap(grad_diff_idx, in_axes=(None, 0))(
+      sample, jnp.arange(mb_information.batch_size))
+    mean_grad = jnp.mean(obs_grads, axis=0)
+
     @functools.partial(vmap, out_axes=0)
-    def sqd(idx):
+    def sqd(obs_grad):
       if diagonal:
-        return jnp.square(grad_diff_idx(sample, idx) - sample_grad)
+        return jnp.square(obs_grad - mean_grad)
       else:
-        diff = grad_diff_idx(sample, idx) - sample_grad
+        diff = obs_grad - mean_grad
         return jnp.outer(diff, diff)
 
-    ssq = jnp.sum(sqd(jnp.arange(mb_information.batch_size)), axis=0)
+    ssq = jnp.sum(sqd(obs_grads), axis=0)
 
     if diagonal:
       v = 1 / (n - 1) * ssq
-- 
2.43.0


From 524cc7cbbb5b64352b1ec8000f96fd00b890e61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 20/34] fix: return the square root of the dense fisher
 information as a matrix

---
 jax_sgmc/adaption.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index ec59b47..6335549 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -450,8 +450,8 @@ def fisher_information(minibatch_potential: Callable = None,
       u_cb, s_cb, _ = jnp.linalg.svd(jnp.diag(friction) - b)
       u, s, _ = jnp.linalg.svd(b)
 
-      noise_scale = jnp.dot(u_cb, jnp.sqrt(s_cb))
-      scale = jnp.dot(u, jnp.sqrt(s))
+      noise_scale = jnp.matmul(u_cb, jnp.diag(jnp.sqrt(s_cb)))
+      scale = jnp.matmul(u, jnp.diag(jnp.sqrt(s)))
 
     return noise_scale, scale
 
-- 
2.43.0


From 78de79bb6167b9f80f29e10858342998ad82c124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:18 +0000
Subject: [PATCH 21/34] fix: support collecting no samples on the device

---
 jax_sgmc/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index 33fbbf5..513b5cf 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -840,6 +840,9 @@ def no_save() -> Saving:
     return saving_state(chain_id=0, saved_samples=0, data=init_data)
 
   def _update_data_leaf(idx, data_leaf, new_slice):
+    # There is nothing to update if no samples are collected
+    if data_leaf.shape[0] == 0:
+      return data_leaf
     return data_leaf.at[idx].set(new_slice)
 
   def _save_sample(args):
-- 
2.43.0


From 57e4d5dbb445d6938ee8b41aea9a6b4fd6b73427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:34 +0000
Subject: [PATCH 22/34] fix: announce no samples if the burn-in exceeds the
 number of iterations

---
 jax_sgmc/scheduler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/scheduler.py b/jax_sgmc/scheduler.py
index 6025adf..8c57e65 100644
--- a/jax_sgmc/scheduler.py
+++ b/jax_sgmc/scheduler.py
@@ -579,7 +579,8 @@ def initial_burn_in(n: Array = 0) -> specific_scheduler:
   """
 
   def init_fn(iterations: int, n: Array = n) -> Tuple[Array, Array]:
-    return n, iterations - n
+    # No samples are left if the burn in is longer than the run
+    return n, max(iterations - n, 0)
 
   def update_fn(state: Array, iteration: int, **kwargs) -> Array:
     del iteration, kwargs
-- 
2.43.0


From d82e4647a56e672db9d5af07e713667ad3db6bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:54 +0000
Subject: [PATCH 23/34] fix: accept integer coefficients of the polynomial step
 size

---
 jax_sgmc/scheduler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/scheduler.py b/jax_sgmc/scheduler.py
index 8c57e65..39a4157 100644
--- a/jax_sgmc/scheduler.py
+++ b/jax_sgmc/scheduler.py
@@ -475,7 +475,8 @@ def polynomial_step_size(a: Array = 1.0,
     assert a > 0, f"a must be positive: a = {a}"
     assert b > 0, f"b must be greater than zero: b = {b}"
 
-    n = jnp.arange(iterations)
+    # Integers cannot be raised to negative powers
+    n = jnp.arange(iterations, dtype=jnp.float_)
     unscaled = jnp.power(b + n, -gamma)
     scaled = jnp.multiply(a, unscaled)
     return scaled
-- 
2.43.0


From 3c788a73461795f14a634c80b93242225ca35045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:54 +0000
Subject: [PATCH 24/34] fix: avoid overflow of the polynomial defined by first
 and last step size

---
 jax_sgmc/scheduler.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/jax_sgmc/scheduler.py b/jax_sgmc/scheduler.py
index 39a4157..fed861e 100644
--- a/jax_sgmc/scheduler.py
+++ b/jax_sgmc/scheduler.py
@@ -509,16 +509,6 @@ def polynomial_step_size_first_last(first: [float, Array] = 1.0,
 
   """
 
-  # Calculates the required coefficients of the polynomial
-  def find_ab(its, gamma, first, last):
-    ginv = jnp.power(gamma, -1.0)
-    fpow = jnp.power(first, -ginv) # pylint: disable=E1130
-    lpow = jnp.power(last, -ginv) # pylint: disable=E1130
-    apow = jnp.divide(lpow - fpow, its - 1)
-    a = jnp.power(apow, -gamma)
-    b = jnp.power(jnp.divide(first, a), -ginv) # pylint: disable=E1130
-    return a, b
-
   def init_fn(iterations: int,
               first: [float, Array] = first,
               last: [float, Array] = last,
@@ -531,9 +521,13 @@ def polynomial_step_size_first_last(first: [float, Array] = 1.0,
     # The step size is constant, so the polynomial has no finite coefficients
     if first == last or iterations == 1:
       return jnp.full(iterations, first, dtype=jnp.float_)
-    a, b = find_ab(iterations, gamma, first, last)
-    init_fn, _, _ = polynomial_step_size(a=a, b=b, gamma=gamma)
-    return init_fn(iterations)
+    # The polynomial a(b + n)^-gamma interpolates linearly between the first and
+    # last step size to the power of -1/gamma. The powers are evaluated in log
+    # space to prevent an overflow for small step sizes or a small gamma.
+    ratio = jnp.divide(jnp.log(jnp.divide(first, last)), gamma)
+    progress = jnp.linspace(0.0, 1.0, iterations)
+    return jnp.multiply(first, jnp.exp(-gamma * jnp.logaddexp(
+      jnp.log1p(-progress), jnp.log(progress) + ratio)))
 
   def update_fn(state: Array, iteration: int, **kwargs) -> Array:
     del iteration, kwargs
-- 
2.43.0


From d4263c20f293123870d351bf99cea22da19282c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:25 +0000
Subject: [PATCH 25/34] fix: support the progress bar for solvers with helper
 schedulers

---
 jax_sgmc/solver.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/jax_sgmc/solver.py b/jax_sgmc/solver.py
index a133472..66e203b 100644
--- a/jax_sgmc/solver.py
+++ b/jax_sgmc/solver.py
@@ -98,7 +98,7 @@ def mcmc(solver,
       schedule = scheduler_get(scheduler_states[0])
       schedules = [schedule]
     else:
-      schedules = util.list_vmap(scheduler_get)(*scheduler_states)
+      schedules = [scheduler_get(state) for state in scheduler_states]
     new_state, stats = solver_update(solver_state, *schedules)
     # Kepp the sample if it is not subject to burn in or thinning.
     keep = jnp.logical_and(schedules[0].burn_in, schedules[0].accept)
@@ -119,7 +119,7 @@ def mcmc(solver,
       scheduler_state = next_fn(scheduler_states[0])
       scheduler_states = [scheduler_state]
     else:
-      scheduler_states = util.list_vmap(next_fn)(*scheduler_states)
+      scheduler_states = [next_fn(state) for state in scheduler_states]
     return (new_state, scheduler_states, saving_state), saved
 
   # Scan over the update function. Postprocessing the samples is required if
@@ -132,8 +132,10 @@ def mcmc(solver,
     # Some solvers might require additional schedulers, such as parallel
     # tempering.
     if schedulers is not None:
-      helper_schedulers = [scheduler_init(iterations, **kwargs)[0]
-                           for kwargs in schedulers]
+      # Only the main scheduler prints the progress.
+      helper_schedulers = [
+        scheduler_init(iterations, **{"enabled": False, **kwargs})[0]
+        for kwargs in schedulers]
       scheduler_states = [main_scheduler] + helper_schedulers
     else:
       scheduler_states = [main_scheduler]
-- 
2.43.0


From 335406076ecac21caee1d66db6cf92f3e80d1fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 26/34] fix: support the progress bar for vectorized chains

---
 jax_sgmc/scheduler.py | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/jax_sgmc/scheduler.py b/jax_sgmc/scheduler.py
index fed861e..e9ab905 100644
--- a/jax_sgmc/scheduler.py
+++ b/jax_sgmc/scheduler.py
@@ -25,6 +25,8 @@ schedulers.
 from collections import namedtuple
 from typing import Callable, Tuple
 
+import numpy as onp
+
 import jax.numpy as jnp
 from jax import lax
 from jax import random
@@ -309,16 +311,21 @@ def _progress_bar(burn_in: specific_scheduler,
   """
 
   def _print_fn(info, _):
-    percentage = round(
-      int(info['current_iteration']) / int(info['total_iterations']) * 100)
-    total_samples = int(info["total_samples"])
-    collected_samples = int(info["collected_samples"])
-    current_iteration = int(info["current_iteration"])
-    total_iterations = int(info["total_iterations"])
-
-    print(f"[Step {current_iteration}/{total_iterations}]"
-          f"({percentage}%) Collected {collected_samples} of "
-          f"{total_samples} samples...")
+    # The arguments are batched for vectorized chains, for which the callback is
+    # called in every iteration.
+    names = ["print", "current_iteration", "total_iterations",
+             "collected_samples", "total_samples"]
+    chains = onp.broadcast_arrays(*[onp.ravel(info[name]) for name in names])
+    for show, *values in zip(*chains):
+      if not show:
+        continue
+      current_iteration, total_iterations = int(values[0]), int(values[1])
+      collected_samples, total_samples = int(values[2]), int(values[3])
+      percentage = round(current_iteration / total_iterations * 100)
+
+      print(f"[Step {current_iteration}/{total_iterations}]"
+            f"({percentage}%) Collected {collected_samples} of "
+            f"{total_samples} samples...")
 
   def init_fn(iterations: Array,
               num_samples: Array,
@@ -343,7 +350,12 @@ def _progress_bar(burn_in: specific_scheduler,
     saved = sample_burn_in * sample_accepted
     collected_samples += saved
 
+    # Calculate number of steps until the progress should be printed out
+    num_its = jnp.int_(jnp.floor(iterations / steps))
+    show = jnp.logical_and(jnp.mod(iteration, num_its) == 0, enabled)
+
     info = {
+      "print": show,
       "total_iterations": iterations,
       "current_iteration": iteration,
       "total_samples": tot_samples,
@@ -351,12 +363,9 @@ def _progress_bar(burn_in: specific_scheduler,
       "kwargs": kwargs
     }
 
-    # Calculate number of steps until the progress should be printed out
-    num_its = jnp.int_(jnp.floor(iterations / steps))
-
     # Return the number of collected samples as result of id_tap
     collected_samples = lax.cond(
-      jnp.logical_and(jnp.mod(iteration, num_its) == 0, enabled),
+      show,
       lambda arg: hcb.id_tap(_print_fn, arg, result=collected_samples),
       lambda arg: info["collected_samples"],
       info
-- 
2.43.0


From 7035271829f3972c2fcb6652e4636fed0b4a1336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:37 +0000
Subject: [PATCH 27/34] fix: only save the kept samples of vectorized chains

---
 jax_sgmc/io.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index 513b5cf..78314a5 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -688,22 +688,26 @@ def save(data_collector: DataCollector = None,
   # Helper functions for host_callback
 
   def _save(data, *unused_args):
-    chain_ids, data = data
+    keep, chain_ids, data = data
 
     # id_tap sends batched arguments to the host
     if chain_ids.ndim == 0:
       data_collector.save(chain_ids, data)
     else:
+      # Under vmap, cond is replaced by select and this function is also called
+      # for samples which should not be kept.
+      keep = onp.broadcast_to(keep, chain_ids.shape)
       for idx, chain_id in enumerate(chain_ids):
-        data_collector.save(chain_id, [leaf[idx] for leaf in data])
+        if keep[idx]:
+          data_collector.save(chain_id, [leaf[idx] for leaf in data])
 
   def _save_wrapper(args) -> int:
     # Use the result to count the number of saved samples. The result must be
     # used to avoid losing the call to Jax's optimizations.
     # Only return the leaves, as tree structure is redundant and requires
     # flattening on the host.
-    chain_id, data = args
-    flat_args = (chain_id, tree_util.tree_leaves(data))
+    keep, chain_id, data = args
+    flat_args = (keep, chain_id, tree_util.tree_leaves(data))
     counter = host_callback.id_tap(_save, flat_args, result=1)
     return counter
 
@@ -736,7 +740,7 @@ def save(data_collector: DataCollector = None,
     return lax.cond(keep,
                     _save_wrapper,
                     lambda *args: 0,
-                    (state.chain_id, sample))
+                    (keep, state.chain_id, sample))
 
   # Todo: Generalize the saving by contracting the scheduler state and the
   #       solver state to a single checkpointing state.
-- 
2.43.0


From 35bac9c2eafc73773db5b7c9808062ba4865751c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:45 +0000
Subject: [PATCH 28/34] fix: support batched likelihoods for batches of a
 single observation

---
 jax_sgmc/potential.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jax_sgmc/potential.py b/jax_sgmc/potential.py
index 2215471..d82e19f 100644
--- a/jax_sgmc/potential.py
+++ b/jax_sgmc/potential.py
@@ -168,6 +168,8 @@ def minibatch_potential(prior: Prior,
 
     batch_likelihoods, new_states = batched_likelihood(
       state, sample, batch_data)
+    # A batch might consist of a single observation
+    batch_likelihoods = jnp.atleast_1d(batch_likelihoods)
     if is_batched:
       # Batched evaluation returns single state
       new_state = new_states
-- 
2.43.0


From df486f895365f4fff0daf51272998bcd70e2fef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:24 +0000
Subject: [PATCH 29/34] fix: pass on the model state of stateless likelihoods

---
 jax_sgmc/potential.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/potential.py b/jax_sgmc/potential.py
index d82e19f..3f23360 100644
--- a/jax_sgmc/potential.py
+++ b/jax_sgmc/potential.py
@@ -170,7 +170,10 @@ def minibatch_potential(prior: Prior,
       state, sample, batch_data)
     # A batch might consist of a single observation
     batch_likelihoods = jnp.atleast_1d(batch_likelihoods)
-    if is_batched:
+    if not has_state:
+      # The model does not change the state
+      new_state = state
+    elif is_batched:
       # Batched evaluation returns single state
       new_state = new_states
     elif state is not None:
-- 
2.43.0


From e6f0b25475535a97e4d966aed5307bb4447cc972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:04 +0000
Subject: [PATCH 30/34] fix: accept python scalars in the initial state of the
 chains

---
 jax_sgmc/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_sgmc/solver.py b/jax_sgmc/solver.py
index 66e203b..df062ac 100644
--- a/jax_sgmc/solver.py
+++ b/jax_sgmc/solver.py
@@ -17,7 +17,7 @@
 from functools import partial
 from typing import Callable, Any, Tuple, NamedTuple, Dict, Union
 
-from jax import lax, jit, random, named_call
+from jax import lax, jit, random, named_call, tree_util
 import jax.numpy as jnp
 from jax_sgmc import io, util, data, integrator, potential
 
@@ -142,7 +142,7 @@ def mcmc(solver,
     if loading is None:
       # Define what the saving module is expected to save
       saving_state = init_saving(
-        solver_get(init_state),
+        tree_util.tree_map(jnp.asarray, solver_get(init_state)),
         (init_state, scheduler_states),
         static_information)
     else:
-- 
2.43.0


From 060ac3c57e188befd7439afe131393867111acf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:50 +0000
Subject: [PATCH 31/34] fix: support tensorflow datasets without named features

---
 jax_sgmc/data/tensorflow_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_sgmc/data/tensorflow_loader.py b/jax_sgmc/data/tensorflow_loader.py
index 5bc2dcd..0e8c83d 100644
--- a/jax_sgmc/data/tensorflow_loader.py
+++ b/jax_sgmc/data/tensorflow_loader.py
@@ -161,7 +161,7 @@ class TensorflowDataLoader(HostDataLoader):
   @property
   def _format(self):
     data_spec = self._pipeline.element_spec
-    if self._exclude_keys is not None:
+    if self._exclude_keys:
       not_excluded_elements = {id: elem for id, elem in data_spec.items()
                                if id not in self._exclude_keys}
     else:
-- 
2.43.0


From 408a9375537b09deaced491ff8d0af752974ba13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:51 +0000
Subject: [PATCH 32/34] fix: use different random numbers for the chains of the
 ready-made solvers

---
 jax_sgmc/alias.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/jax_sgmc/alias.py b/jax_sgmc/alias.py
index 46da60b..3b50b4c 100644
--- a/jax_sgmc/alias.py
+++ b/jax_sgmc/alias.py
@@ -23,10 +23,17 @@ import warnings
 from functools import partial
 from typing import Any, Union
 
+from jax import random
+
 from jax_sgmc import data, potential, adaption, integrator, scheduler, solver, io
 
 Pytree = Any
 
+def _init_chains(init_fn, *init_samples):
+  # The chains must not share the same random numbers
+  return [init_fn(*samples, key=random.PRNGKey(idx))
+          for idx, samples in enumerate(zip(*init_samples))]
+
 def sgld(potential_fn: potential.minibatch_potential,
          data_loader: data.DataLoader,
          cache_size: int = 512,
@@ -115,7 +122,7 @@ def sgld(potential_fn: potential.minibatch_potential,
         'lmbd': lmbd,
       },
       init_model_state=init_model_state)
-    states = map(init_with_adaption_kwargs, init_samples)
+    states = _init_chains(init_with_adaption_kwargs, init_samples)
     return mcmc(*states, iterations=iterations)
   return run_fn
 
@@ -201,7 +208,7 @@ def re_sgld(potential_fn: potential.minibatch_potential,
     init_resgld_fn = partial(
       resgld_solver[0],
       init_model_state=init_model_state)
-    states = map(init_resgld_fn, *zip(*init_samples))
+    states = _init_chains(init_resgld_fn, *zip(*init_samples))
     return mcmc(*states,
                 iterations=iterations,
                 schedulers=[{'temperature': {'tau': temperature}}])
@@ -323,7 +330,7 @@ def amagold(stochastic_potential_fn: potential.StochasticPotential,
     init_amagold_fn = partial(
       amagold_solver[0],
       init_model_state = init_model_state)
-    states = map(init_amagold_fn, init_samples)
+    states = _init_chains(init_amagold_fn, init_samples)
     return mcmc(*states, iterations=iterations)
   return run_fn
 
@@ -444,7 +451,7 @@ def sggmc(stochastic_potential_fn: potential.StochasticPotential,
 
   def run_fn(*init_samples, init_model_state: Pytree = None, iterations=1000):
     init_sggmc_fn = partial(sggmc_solver[0], init_model_state=init_model_state)
-    states = map(init_sggmc_fn, init_samples)
+    states = _init_chains(init_sggmc_fn, init_samples)
     return mcmc(*states, iterations=iterations)
   return run_fn
 
@@ -535,7 +542,7 @@ def sghmc(potential_fn: potential.minibatch_potential,
 
   def run_fn(*init_samples, init_model_state: Pytree = None, iterations = 1000):
     init_sghmc_fn = partial(sghmc_solver[0], init_model_state=init_model_state)
-    states = map(init_sghmc_fn, init_samples)
+    states = _init_chains(init_sghmc_fn, init_samples)
     return mcmc(*states, iterations=iterations)
   return run_fn
 
@@ -614,6 +621,6 @@ def obabo(potential_fn: potential.minibatch_potential,
 
   def run_fn(*init_samples, init_model_state: Pytree = None, iterations = 1000):
     init_sghmc_fn = partial(sghmc_solver[0], init_model_state=init_model_state)
-    states = map(init_sghmc_fn, init_samples)
+    states = _init_chains(init_sghmc_fn, init_samples)
     return mcmc(*states, iterations=iterations)
   return run_fn
-- 
2.43.0


From 61abd565c3f277494135236d1b5a6d79aff7c084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:30 +0000
Subject: [PATCH 33/34] fix: reject HDF5 datasets with unequal observation
 counts

---
 jax_sgmc/data/hdf5_loader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jax_sgmc/data/hdf5_loader.py b/jax_sgmc/data/hdf5_loader.py
index 4278d95..a51ba4a 100644
--- a/jax_sgmc/data/hdf5_loader.py
+++ b/jax_sgmc/data/hdf5_loader.py
@@ -60,6 +60,9 @@ class HDF5Loader(NumpyDataLoader):
 
     observations_counts = [len(self._dataset[leaf_name])
                            for leaf_name in self._reference_data]
+    if any(count != observations_counts[0] for count in observations_counts):
+      raise ValueError("All datasets must have the same length in the first "
+                       "dimension.")
     self._observation_count = observations_counts[0]
 
   def get_batches(self, chain_id: int) -> PyTree:
-- 
2.43.0


From b74ebae952db5b40c8a256bdbe71fe45680b836d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:31 +0000
Subject: [PATCH 34/34] fix: states of chains with adaption have equal tree
 structures (parallel tempering with adaption crashed)

---
 jax_sgmc/adaption.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index 6335549..3219e2f 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -100,8 +100,15 @@ def get_unravel_fn(tree: PyTree):
     valid argument.
 
   """
+  # Functions returned for similar trees are equal, such that the states of
+  # several chains have the same tree structure.
   _, unravel_fn = flatten_util.ravel_pytree(tree)
-  return tree_util.Partial(jit(unravel_fn))
+  return tree_util.Partial(unravel_fn)
+
+
+@jit
+def _ravel(tree: PyTree):
+  return flatten_util.ravel_pytree(tree)[0]
 
 
 def adaption(quantity: namedtuple = tuple):
@@ -129,8 +136,7 @@ def _adaption(adaption_fn: Callable, quantity: namedtuple = tuple):
                  *init_args,
                  **init_kwargs) -> AdaptionState:
       # Calculate the flattened state and the ravel and unravel fun
-      ravel_fn = tree_util.Partial(
-        jit(lambda tree: flatten_util.ravel_pytree(tree)[0]))
+      ravel_fn = tree_util.Partial(_ravel)
       unravel_fn = get_unravel_fn(x0)
 
       x0_flat = ravel_fn(x0)
-- 
2.43.0

