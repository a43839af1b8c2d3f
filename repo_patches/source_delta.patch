From f12f35ba51571eeac5565e9b89a0fbacd07ea256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:22 +0000
Subject: [PATCH 01/23] fix: crystal router dropped all data on a single-device
 axis

With one device there are no stages, so max_size stayed 0 and the result was
truncated to length 0 while n was still reported as the input count.
---
 swirl_fem/communication/crystal_router.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/communication/crystal_router.py b/swirl_fem/communication/crystal_router.py
index e4f8ad1..52458ff 100644
--- a/swirl_fem/communication/crystal_router.py
+++ b/swirl_fem/communication/crystal_router.py
@@ -367,7 +367,8 @@ def _crystal_router_loop(
                     lambda: (crystal_data.resize(buffer_size), max_size, i),
                     lambda: loop(next_data, max_size, i + 1, n, base_lo))
 
-  max_size = jnp.zeros((), dtype=crystal_data.n.dtype)
+  # `max_size` of the input, in case there are no stages (a single device).
+  max_size = lax.pmax(crystal_data.n, axis_name=axis_name)
   return loop(crystal_data, max_size, 0, n, base_lo)
 
 
-- 
2.43.0


From a4dee961f2b2c57ef728100b5cac554c5f334027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:22 +0000
Subject: [PATCH 02/23] fix: crystal router failed for data with trailing
 dimensions

Leaves may have different shapes as long as the second axis agrees, but
__add__ passed one start index whatever the rank of the leaf.
---
 swirl_fem/communication/crystal_router.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swirl_fem/communication/crystal_router.py b/swirl_fem/communication/crystal_router.py
index 52458ff..ad207e3 100644
--- a/swirl_fem/communication/crystal_router.py
+++ b/swirl_fem/communication/crystal_router.py
@@ -170,7 +170,7 @@ class CrystalData(struct.PyTreeNode):
     """
     return CrystalData(
         data=[
-            lax.dynamic_update_slice(a, b, start_indices=(self.n,))
+            lax.dynamic_update_slice_in_dim(a, b, self.n, axis=0)
             for (a, b) in zip(self.data, other.data)
         ],
         n=self.n + other.n,
-- 
2.43.0


From 2bfb4b32d80b2764024b4c900dd324bf558b519d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:22 +0000
Subject: [PATCH 03/23] fix: identity of max/min in pscan for floating point is
 -inf/inf

The finite extremes are not identities: scanning maxima of -inf gave the most
negative finite value instead of -inf.
---
 swirl_fem/communication/pscan.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/swirl_fem/communication/pscan.py b/swirl_fem/communication/pscan.py
index d2902e8..3e2a1c9 100644
--- a/swirl_fem/communication/pscan.py
+++ b/swirl_fem/communication/pscan.py
@@ -32,10 +32,9 @@ def _dtype_range(dtype: jnp.dtype):
 
   if issubclass(dtype.type, numbers.Integral):
     info = jnp.iinfo(dtype)
-  else:
-    info = jnp.finfo(dtype)
+    return (info.min, info.max)
 
-  return (info.min, info.max)
+  return (-jnp.inf, jnp.inf)
 
 
 # Mapping to monoid unit (given dtype) of supported ops
-- 
2.43.0


From 988a6e3c4cf32e54d8c7d880ce68c0591da8b303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:22 +0000
Subject: [PATCH 04/23] fix: node coordinates of partitioned periodic meshes

The coordinates were looked up after deduplicating node indices by
periodicity, so nodes on the far side of a periodic domain were given the
coordinates of their partners and elements were distorted.
---
 swirl_fem/core/premesh.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/core/premesh.py b/swirl_fem/core/premesh.py
index f3b8810..a71670a 100644
--- a/swirl_fem/core/premesh.py
+++ b/swirl_fem/core/premesh.py
@@ -191,6 +191,10 @@ class Premesh:
     node_indices, local_elements = (
         gather_scatter.get_local_elements(elements))
 
+    # Node coordinates are those of the original nodes: nodes identified by
+    # periodicity are distinct points in space.
+    node_coords = self.node_coords[node_indices]
+
     # Use periodic links to dedup the node indices
     node_indices = gather_scatter.get_unique_node_indices(
         node_indices, periodic_links=self.periodic_links)
@@ -214,7 +218,7 @@ class Premesh:
 
     # create and place the resulting `Mesh` on the available devices
     return jax.pmap(create_fn)(
-        node_coords=self.node_coords[node_indices],
+        node_coords=node_coords,
         elements=local_elements,
         node_indices=node_indices,
         physical_masks=physical_masks,
-- 
2.43.0


From 2418f62c8d3657aa90caf172e7b979818ab7d0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:22 +0000
Subject: [PATCH 05/23] fix: jax.tree_map no longer exists

The training step, the metrics and the input pipeline raised AttributeError
with the supported versions of JAX.
---
 swirl_fem/niles/input_pipeline.py | 2 +-
 swirl_fem/niles/train.py          | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/swirl_fem/niles/input_pipeline.py b/swirl_fem/niles/input_pipeline.py
index 347ae66..c02574f 100644
--- a/swirl_fem/niles/input_pipeline.py
+++ b/swirl_fem/niles/input_pipeline.py
@@ -85,7 +85,7 @@ def _read_and_parse(
       windows.append(arr[i:i + window_size:window_step])
     return np.stack(windows)
 
-  return jax.tree_map(_windowed, snapshots)  # pytype: disable=module-attr
+  return jax.tree_util.tree_map(_windowed, snapshots)  # pytype: disable=module-attr
 
 
 def create_split(
diff --git a/swirl_fem/niles/train.py b/swirl_fem/niles/train.py
index 3de5126..e8f7a92 100644
--- a/swirl_fem/niles/train.py
+++ b/swirl_fem/niles/train.py
@@ -294,7 +294,7 @@ def compute_mse_loss(batch, params, model_apply_fn: Callable[..., Any],
   aux = carry[-1]
   kl_path = aux['kl_path']
   kl_q0 = aux['kl_q0']
-  logging.info('aux: %s', jax.tree_map(jnp.shape, aux))  # pytype: disable=module-attr
+  logging.info('aux: %s', jax.tree_util.tree_map(jnp.shape, aux))  # pytype: disable=module-attr
   preds = jnp.moveaxis(preds, source=0, destination=1)
   logging.info('preds.shape: %s', preds.shape)
 
@@ -345,7 +345,7 @@ def compute_mse_loss(batch, params, model_apply_fn: Callable[..., Any],
       'z1_stds': jnp.abs(aux['z1_stds']).mean(axis=0),
       'tke_err': tke_error.mean(axis=0),
   }
-  logging.info('aux: %s', jax.tree_map(jnp.shape, aux))  # pytype: disable=module-attr
+  logging.info('aux: %s', jax.tree_util.tree_map(jnp.shape, aux))  # pytype: disable=module-attr
   return loss, aux
 
 
@@ -370,7 +370,7 @@ def compute_metrics(loss, aux, train: bool):
     metrics['mse@64'] = aux['mse'][64 - 1]
     metrics['mse@128'] = aux['mse'][128 - 1]
 
-  logging.info('metrics: %s', jax.tree_map(jnp.shape, metrics))  # pytype: disable=module-attr
+  logging.info('metrics: %s', jax.tree_util.tree_map(jnp.shape, metrics))  # pytype: disable=module-attr
   metrics = lax.pmean(metrics, axis_name='batch')
   return metrics
 
-- 
2.43.0


From 02dcef6585822c3ee21fd9608f02e360ab760051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:22 +0000
Subject: [PATCH 06/23] fix: data generation could not run

The solver object is not a pytree and cannot be an argument of a jitted
function, and the Stokes step returns three values.
---
 swirl_fem/niles/datagen/datagen.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/swirl_fem/niles/datagen/datagen.py b/swirl_fem/niles/datagen/datagen.py
index ac1f5f8..bc9f712 100644
--- a/swirl_fem/niles/datagen/datagen.py
+++ b/swirl_fem/niles/datagen/datagen.py
@@ -14,6 +14,7 @@
 
 """Binary for generating a Kolmogorov flow dataset."""
 
+from functools import partial
 import io
 import os
 import time
@@ -87,7 +88,6 @@ def compute_dx(mesh):
   return dx
 
 
-@jax.jit
 def _solve_one_step(sem, us, ps, Cus):
   """Solve one step of the Navier-Stokes system."""
   # Extrapolate advection term
@@ -97,8 +97,8 @@ def _solve_one_step(sem, us, ps, Cus):
   # Solve the stokes system with extrapolated advection term
   f = jax.vmap(forcing)(sem.velocity.mesh.node_coords, us[-1])
   f = -Cu + sem.B(f)
-  u, p = sem.stokes_one_step(us, ps, f, mu=1 / REYNOLDS_NUMBER, dt=DT,
-                             time_order=TIME_ORDER, tol=1e-5, atol=1e-4)
+  u, p, _ = sem.stokes_one_step(us, ps, f, mu=1 / REYNOLDS_NUMBER, dt=DT,
+                                time_order=TIME_ORDER, tol=1e-5, atol=1e-4)
   return u, p, sem.C(u)
 
 
@@ -131,10 +131,11 @@ def one_cycle(sem: navier_stokes.StokesSEM,
   }
 
   start_time = time.time()
+  solve_one_step = jax.jit(partial(_solve_one_step, sem))
   Cus = tuple(map(sem.C, us))
   for step_idx in range(1, num_steps + 1):
     t += DT
-    u, p, Cu = _solve_one_step(sem, us, ps, Cus)
+    u, p, Cu = solve_one_step(us, ps, Cus)
     us = us[1:] + (u,)
     ps = ps[1:] + (p,)
     Cus = Cus[1:] + (Cu,)
-- 
2.43.0


From b6fa165519612b2a18a928d0c9fb289f30ebcaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:55 +0000
Subject: [PATCH 07/23] fix: crystal router lost received data when the count
 is unsigned

Under vmap an unsigned start index makes dynamic_update_slice drop the whole
update, so with unsigned n everything received was replaced by fill values.
---
 swirl_fem/communication/crystal_router.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/communication/crystal_router.py b/swirl_fem/communication/crystal_router.py
index ad207e3..adb9249 100644
--- a/swirl_fem/communication/crystal_router.py
+++ b/swirl_fem/communication/crystal_router.py
@@ -170,7 +170,10 @@ class CrystalData(struct.PyTreeNode):
     """
     return CrystalData(
         data=[
-            lax.dynamic_update_slice_in_dim(a, b, self.n, axis=0)
+            # signed, as `vmap` drops updates whose start index is unsigned
+            lax.dynamic_update_slice_in_dim(
+                a, b, self.n.astype(jnp.int32), axis=0
+            )
             for (a, b) in zip(self.data, other.data)
         ],
         n=self.n + other.n,
-- 
2.43.0


From 28f9233ab4c1693e65e43076c6837f98f49f26b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 08/23] fix: jit_distributed failed for sharded arguments after
 a static one or keyword-only

shard_map only accepts positional arguments, so sharded arguments that are
bound by keyword (keyword-only parameters that are not static, or parameters
that follow a static one) raised a TypeError.
---
 swirl_fem/communication/jit_distributed.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/communication/jit_distributed.py b/swirl_fem/communication/jit_distributed.py
index a87314c..b0695af 100644
--- a/swirl_fem/communication/jit_distributed.py
+++ b/swirl_fem/communication/jit_distributed.py
@@ -85,7 +85,11 @@ def jit_distributed(
     sharded = bind(sharded_args, *args, **kwargs)
     if sharded.args or sharded.kwargs:
       g = functools.partial(f, *nonsharded.args, **nonsharded.kwargs)
-      return shmap(jax.vmap(g, in_axes=0))(*sharded.args, **sharded.kwargs)
+      # shard_map only accepts positional arguments.
+      vg = jax.vmap(g, in_axes=0)
+      return shmap(lambda args, kwargs: vg(*args, **kwargs))(
+          sharded.args, sharded.kwargs
+      )
     else:
       # vmap requires at least one input. Use a (local) array of length 1,
       # which should be eliminated by DCE during compilation.
-- 
2.43.0


From a4ed42641a5ac97e1867309f94ee8b19c32def05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 09/23] fix: integrals over partitioned meshes with padding
 elements were not finite

When the partitions have different numbers of elements, the smaller ones are
padded. The jacobians of padding elements are singular, so an integral of
gradients (or of a function singular at the origin) evaluated to NaN.
---
 swirl_fem/core/fespace.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/swirl_fem/core/fespace.py b/swirl_fem/core/fespace.py
index 3355aa2..9506bcf 100644
--- a/swirl_fem/core/fespace.py
+++ b/swirl_fem/core/fespace.py
@@ -23,6 +23,7 @@ from jax import vmap
 import jax.numpy as jnp
 from jax.custom_batching import custom_vmap
 
+from swirl_fem.core.gather_scatter import SENTINEL
 from swirl_fem.core.interpolation import BarycentricInterpolator
 from swirl_fem.core.interpolation import Quadrature1D
 from swirl_fem.core.mesh import Mesh
@@ -398,6 +399,10 @@ class FiniteElementSpace:
       raise ValueError(
           'Expecting an array of shape (num elements, num quadrature points), '
           f'that is ({expected_shape}) but got: {w.shape}')
+    # Elements added for padding (in a partitioned mesh) have singular jacobians
+    # and the function may not be finite there.
+    is_padding = jnp.all(self.mesh.elements == SENTINEL, axis=-1)
+    w = jnp.where(is_padding[:, jnp.newaxis], 0, w)
     quad_weights = self.quadrature.weights_nd(self.interpolator.ndim)
     return jnp.einsum('mq,mq,q->', w, self.jacdets, quad_weights,
                       precision=lax.Precision.HIGHEST)
-- 
2.43.0


From d1f89201cd7ba6167a4a87573c8b71a4f7346768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 10/23] fix: padding nodes with non-finite values leaked into
 exchanged values

The exchange multiplied whatever the last node slot holds by zero to mask
absent nodes; if that slot is padding holding inf or nan, every shared node
became nan. Select instead of multiplying.
---
 swirl_fem/core/gather_scatter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/swirl_fem/core/gather_scatter.py b/swirl_fem/core/gather_scatter.py
index 3da2f2e..aa37d78 100644
--- a/swirl_fem/core/gather_scatter.py
+++ b/swirl_fem/core/gather_scatter.py
@@ -130,7 +130,8 @@ def gather(u, indices, fill_value=SENTINEL):
 def scatter(u: jax.Array, indices: jax.Array, num_nodes: int) -> jax.Array:
   assert u.shape == indices.shape, f'Got: {u.shape} v/s {indices.shape}'
   mask = indices != SENTINEL
-  return jnp.zeros(num_nodes, dtype=u.dtype).at[indices].add(mask * u)
+  return jnp.zeros(num_nodes, dtype=u.dtype).at[indices].add(
+      jnp.where(mask, u, 0))
 
 
 def get_unique_node_indices(
@@ -229,7 +230,7 @@ def exchange(
   # unique index of each gathered index.
   mask = gather_indices != SENTINEL
   # Indexing with the sentinel value gets masked out and set to zeros.
-  initial_values = mask * u[gather_indices]
+  initial_values = jnp.where(mask, u[gather_indices], 0)
 
   # If unique indices are set, further consolidate into a smaller set of
   # indices.
@@ -258,7 +259,8 @@ def exchange(
   # corresponding values being added are zero; for instance, `gather_indices[i]`
   # has a sentinel if the current partition doesn't have the ith global dof.
   # The mask zeros out these positions as `updates[i]` is generally not zero.
-  return u.at[gather_indices].add(mask * (updates - initial_values))
+  return u.at[gather_indices].add(
+      jnp.where(mask, updates - initial_values, 0))
 
 
 def _get_periodic_mapping(periodic_links: np.ndarray | None) -> dict[int, int]:
-- 
2.43.0


From 0444529547a2413fa38fee8f117a230c9591acc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:17 +0000
Subject: [PATCH 11/23] fix: evaluation called a mesh method that does not
 exist

---
 swirl_fem/niles/train.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/swirl_fem/niles/train.py b/swirl_fem/niles/train.py
index e8f7a92..70eaf6a 100644
--- a/swirl_fem/niles/train.py
+++ b/swirl_fem/niles/train.py
@@ -39,6 +39,7 @@ import numpy as np
 import optax
 import scipy.spatial
 from swirl_fem.common import premesh_commons
+from swirl_fem.core.interpolation import BarycentricInterpolator
 from swirl_fem.core.interpolation import Nodes1D
 from swirl_fem.core.interpolation import NodeType
 from swirl_fem.core.mesh_refiner import refine_premesh
@@ -59,11 +60,22 @@ def transfer_perm(source_mesh, target_mesh):
   return np.array(perm, dtype=np.int32)
 
 
+def interpolate(u, source_mesh, target_mesh):
+  """Interpolates nodal values to a mesh with other nodes in the same elements."""
+  interpolator = BarycentricInterpolator(
+      ndim=source_mesh.ndim, gridpoints_1d=source_mesh.gridpoints_1d,
+      evalpoints_1d=target_mesh.gridpoints_1d)
+  u_local = vmap(interpolator.interpolate)(source_mesh.gather(u))
+  # `u` is continuous, so all elements agree on the values of shared nodes.
+  return jnp.zeros(target_mesh.num_nodes, dtype=u.dtype).at[
+      target_mesh.elements].set(u_local)
+
+
 def get_tke(u, sem, uniform_mesh, first_order_perm, config):
   """Computes the turbulent kinetic energy (TKE) of a velocity field."""
   n = int(math.sqrt(config.num_nodes))
-  u_flat = jax.vmap(partial(uniform_mesh.interpolate,  # pytype: disable=attribute-error
-                            source_mesh=sem.velocity.mesh),
+  u_flat = jax.vmap(partial(interpolate, source_mesh=sem.velocity.mesh,
+                            target_mesh=uniform_mesh),
                     in_axes=-1, out_axes=-1)(u)
   u_flat = u_flat[first_order_perm]
   u_flat = u_flat.reshape((n, n, 2))
-- 
2.43.0


From 7eddf3220e24a406b77f53af60c6bd043282337f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:20 +0000
Subject: [PATCH 12/23] fix: training stopped when the clock was set back to
 the last report

---
 swirl_fem/niles/train.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/swirl_fem/niles/train.py b/swirl_fem/niles/train.py
index 70eaf6a..12e89af 100644
--- a/swirl_fem/niles/train.py
+++ b/swirl_fem/niles/train.py
@@ -671,8 +671,10 @@ def train_and_evaluate(config: ml_collections.FrozenConfigDict,
                 lambda x: x.mean(), train_metrics
             ).items()
         }
-        summary['steps_per_second'] = config.log_every_steps / (
-            time.time() - train_metrics_last_t)
+        # The clock may have been set back since the last report.
+        elapsed = time.time() - train_metrics_last_t
+        summary['steps_per_second'] = (
+            config.log_every_steps / elapsed if elapsed > 0 else np.nan)
         writer.write_scalars(step + 1, summary)
         train_metrics = []
         train_metrics_last_t = time.time()
-- 
2.43.0


From 677269bf4c705743f6065e0c1127e0ac822722d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:22 +0000
Subject: [PATCH 13/23] fix: evaluation on the whole validation set divided by
 the batch size twice

---
 swirl_fem/niles/train.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/swirl_fem/niles/train.py b/swirl_fem/niles/train.py
index 12e89af..449d5f1 100644
--- a/swirl_fem/niles/train.py
+++ b/swirl_fem/niles/train.py
@@ -583,9 +583,9 @@ def train_and_evaluate(config: ml_collections.FrozenConfigDict,
     num_steps = config.num_train_steps
 
   if config.steps_per_eval == -1:
-    num_validation_examples = (
-        input_pipeline.NUM_SPLIT_EXAMPLES[tfds.Split.VALIDATION]  # pyrefly: ignore[missing-attribute]
-        // config.batch_size
+    num_validation_examples = input_pipeline.get_num_examples(
+        tfds.Split.VALIDATION, window_size=config.eval_window_size,  # pyrefly: ignore[missing-attribute]
+        window_stride=config.eval_window_stride, debug=config.debug
     )
     steps_per_eval = num_validation_examples // config.batch_size
   else:
-- 
2.43.0


From 2a96818ed6480835108134ff8871dfeb90f7912a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:36 +0000
Subject: [PATCH 14/23] fix: pair periodic facets within one periodic entity
 when reading a mesh

A node on an edge where two periodic surfaces meet has a target in each of
them; merging all targets into one dictionary paired such facets with a mix
of nodes of two different surfaces.
---
 swirl_fem/common/mesh_reader.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/swirl_fem/common/mesh_reader.py b/swirl_fem/common/mesh_reader.py
index 3d48426..84afc73 100644
--- a/swirl_fem/common/mesh_reader.py
+++ b/swirl_fem/common/mesh_reader.py
@@ -55,22 +55,24 @@ def _get_periodic_links(mesh: meshio.Mesh, ndim: int) -> np.ndarray:
     An array with a list of pairs of facets which share a periodic connection.
     See documentation of `Premesh` for the detailed specification.
   """
-  # Create the mapping from source nodes to target nodes for every periodic
-  # connection in the mesh among entities of dimension `ndim - 1`.
-  src_tgt_mapping = dict()
+  # Create the mappings from source nodes to target nodes, one for every periodic
+  # connection in the mesh among entities of dimension `ndim - 1`. These are kept
+  # apart since a node where two periodic entities meet has a target in each.
+  src_tgt_mappings = []
   for entity_dim, _, _, node_pairs in mesh.gmsh_periodic:  # pyrefly: ignore[not-iterable]
     if entity_dim != ndim - 1:
       continue
-    src_tgt_mapping.update(dict(node_pairs.tolist()))
+    src_tgt_mappings.append(dict(node_pairs.tolist()))
 
   # For each `ndim - 1`-dimensional facet in the mesh, check if it is a periodic
   # facet. If so, save it as a periodic link.
   facet_elem_type = {1: 'line', 2: 'quad'}[ndim - 1]
   periodic_links = []
   for facet_elem in mesh.cells_dict[facet_elem_type]:
-    if all(x in src_tgt_mapping for x in facet_elem):
-      target_elem = list(map(lambda x: src_tgt_mapping[x], facet_elem))
-      periodic_links.append(np.stack([facet_elem, target_elem]))
+    for src_tgt_mapping in src_tgt_mappings:
+      if all(x in src_tgt_mapping for x in facet_elem):
+        target_elem = list(map(lambda x: src_tgt_mapping[x], facet_elem))
+        periodic_links.append(np.stack([facet_elem, target_elem]))
 
   return np.stack(periodic_links, dtype=np.int32)
 
-- 
2.43.0


From 071aff194a9e2dd4566da7f5f105b7e7bd07306e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:37 +0000
Subject: [PATCH 15/23] fix: order periodic facets read from a mesh
 lexicographically

The rest of the library expects the nodes of a facet in lexicographic order;
with Gmsh's cyclic order no 3d periodic mesh read from a file could be refined.
---
 swirl_fem/common/mesh_reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/common/mesh_reader.py b/swirl_fem/common/mesh_reader.py
index 84afc73..cd5c304 100644
--- a/swirl_fem/common/mesh_reader.py
+++ b/swirl_fem/common/mesh_reader.py
@@ -74,7 +74,9 @@ def _get_periodic_links(mesh: meshio.Mesh, ndim: int) -> np.ndarray:
         target_elem = list(map(lambda x: src_tgt_mapping[x], facet_elem))
         periodic_links.append(np.stack([facet_elem, target_elem]))
 
-  return np.stack(periodic_links, dtype=np.int32)
+  # Like elements, facets follow the lexicographic ordering.
+  return np.stack(periodic_links, dtype=np.int32)[
+      ..., _NODE_ORDERING_PERMUTATIONS[ndim - 1]]
 
 
 def read(path: epath.PathLike, ndim: int) -> Premesh:
-- 
2.43.0


From eecd1ef4c09550a3b411abb8c2aad7fe93963997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:01 +0000
Subject: [PATCH 16/23] fix: shared-node exchange keeps the element type of the
 exchanged values

On an unpartitioned periodic mesh the values were summed in the default
floating point type, so that integers lost digits (also at nodes that are not
shared) and complex values lost their imaginary part.
---
 swirl_fem/core/gather_scatter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/core/gather_scatter.py b/swirl_fem/core/gather_scatter.py
index aa37d78..e927c23 100644
--- a/swirl_fem/core/gather_scatter.py
+++ b/swirl_fem/core/gather_scatter.py
@@ -240,7 +240,8 @@ def exchange(
     # TODO(anudhyan): Add `num_unique` to the ExchangeInfo struct as metadata
     # to make this static computation more transparent.
     num_unique_nodes = 1 + unique_indices.max()
-    updates = jnp.zeros(num_unique_nodes).at[unique_indices].add(initial_values)
+    updates = jnp.zeros(num_unique_nodes, dtype=u.dtype)
+    updates = updates.at[unique_indices].add(initial_values)
   else:
     updates = initial_values
 
-- 
2.43.0


From 3356097c1d7f8e71db54c6598f58aa4bd5486f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:00 +0000
Subject: [PATCH 17/23] fix: a mesh partitioned by mesh_partitioner could not
 be finalized

pymetis returns an array.array or a list, which group_by_partitions cannot
use. Property C22.
---
 swirl_fem/common/mesh_partitioner.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/common/mesh_partitioner.py b/swirl_fem/common/mesh_partitioner.py
index 15838c2..400ee09 100644
--- a/swirl_fem/common/mesh_partitioner.py
+++ b/swirl_fem/common/mesh_partitioner.py
@@ -15,6 +15,7 @@
 """Partitions a mesh using metis for distributed computations."""
 
 import networkx as nx
+import numpy as np
 import pymetis
 from swirl_fem.core.premesh import Premesh
 
@@ -50,4 +51,5 @@ def partition(premesh: Premesh, num_partitions: int) -> Premesh:
   # Partition the graph into `num_partitions` parts
   _, partitions = pymetis.part_graph(num_partitions, adjacency=adjlist)
 
-  return premesh.replace(partitions=partitions)  # pyrefly: ignore[missing-attribute]
+  # pymetis returns a sequence that is not a numpy array.
+  return premesh.replace(partitions=np.array(partitions, dtype=np.int32))  # pyrefly: ignore[missing-attribute]
-- 
2.43.0


From aa6d2faad5ff0e60e9438fbf5ddf04642ae12a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:24 +0000
Subject: [PATCH 18/23] fix: refinement to order 3 and above misplaced nodes of
 rotated 3d faces

The permutation between two orders of the corners of a shared face was
inverted; for a quarter turn the inverse is another permutation. Property C22.
---
 swirl_fem/core/mesh_refiner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swirl_fem/core/mesh_refiner.py b/swirl_fem/core/mesh_refiner.py
index 4b16a46..3a558ec 100644
--- a/swirl_fem/core/mesh_refiner.py
+++ b/swirl_fem/core/mesh_refiner.py
@@ -212,7 +212,7 @@ class _MeshRefiner:
         else:  # Existing facet.
           facet_orientation, target_nodes = facet_value
           orientation_key = tuple(
-              facet.index(k) for k in facet_orientation)
+              facet_orientation.index(k) for k in facet)
           facet_perms.append(
               self._dim_to_orderings_mapping[facet_dim][orientation_key])
           target_facets.append(target_nodes)
-- 
2.43.0


From f29070c9636767e768deaeb4eed33993b78205fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:05 +0000
Subject: [PATCH 19/23] fix: refuse data files whose fields have different
 numbers of snapshots

---
 swirl_fem/niles/input_pipeline.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/swirl_fem/niles/input_pipeline.py b/swirl_fem/niles/input_pipeline.py
index c02574f..16259c8 100644
--- a/swirl_fem/niles/input_pipeline.py
+++ b/swirl_fem/niles/input_pipeline.py
@@ -76,6 +76,12 @@ def _read_and_parse(
 ):
   """Reads in snapshots from the filepath and windows them."""
   snapshots = read_snapshots_file(file_path)
+  # The windows of the fields are matched by position, so that a field with
+  # missing snapshots would shift all the windows which follow.
+  num_snapshots = {key: len(snapshots[key]) for key in ['u', 'p', 't']}
+  if len(set(num_snapshots.values())) != 1:
+    raise ValueError(f'Fields in {file_path} have different numbers of '
+                     f'snapshots: {num_snapshots}.')
 
   def _windowed(arr):
     windows = []
-- 
2.43.0


From fd594ccf82a19f2af6faefec09c0b8e64cf2ffa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:13 +0000
Subject: [PATCH 20/23] fix: keep boundary cotangents out of the transposed
 Helmholtz solve

The Helmholtz operator is symmetric on the interior nodes only, so with
Dirichlet boundaries the gradient of a Stokes step was garbage.
---
 swirl_fem/navier_stokes/navier_stokes.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/swirl_fem/navier_stokes/navier_stokes.py b/swirl_fem/navier_stokes/navier_stokes.py
index 8553fd7..58254d5 100644
--- a/swirl_fem/navier_stokes/navier_stokes.py
+++ b/swirl_fem/navier_stokes/navier_stokes.py
@@ -433,9 +433,14 @@ class StokesSEM:
     if u_boundary is not None:
       f = f - H_(u_boundary)
 
+    # H is symmetric on the interior nodes only: keep the cotangents of the
+    # boundary nodes out of the (transposed) solve.
+    def _solve(matvec, b):
+      return cg(matvec, self.velocity.interior_mask * b,
+                M=self.velocity.exchange, tol=tol, atol=atol)
+
     u_star, info = lax.custom_linear_solve(
-        H_, f, solve=partial(cg, M=self.velocity.exchange, tol=tol, atol=atol),
-        symmetric=True, has_aux=True)
+        H_, f, solve=_solve, symmetric=True, has_aux=True)
     if u_boundary is not None:
       u_star = u_star + u_boundary
 
-- 
2.43.0


From bca928d92521854ba913c6d94c1188d1d0db5740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:13 +0000
Subject: [PATCH 21/23] fix: sign of the vorticity

grad[i, j] is the i-th derivative of the j-th component, so the vorticity
returned was minus the curl.
---
 swirl_fem/navier_stokes/navier_stokes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swirl_fem/navier_stokes/navier_stokes.py b/swirl_fem/navier_stokes/navier_stokes.py
index 58254d5..0fd8490 100644
--- a/swirl_fem/navier_stokes/navier_stokes.py
+++ b/swirl_fem/navier_stokes/navier_stokes.py
@@ -492,7 +492,7 @@ class StokesSEM:
 
     def _vorticity(x: jax.Array):
       grad_ux = grad(u)(x)
-      return grad_ux[1, 0] - grad_ux[0, 1]
+      return grad_ux[0, 1] - grad_ux[1, 0]
 
     vort_local = self.velocity.vspace._evaluate(_vorticity)  # pylint: disable=protected-access
     vmesh = self.velocity.vspace.mesh
-- 
2.43.0


From 3d491ff5f52804d86bcf36eabf6f3293d4cdb32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:13 +0000
Subject: [PATCH 22/23] fix: give all copies of a node the very same value in
 exchange

Adding the difference to every copy left them different by rounding, which
put a floor under CG residuals and made it diverge on periodic meshes.
---
 swirl_fem/core/gather_scatter.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/swirl_fem/core/gather_scatter.py b/swirl_fem/core/gather_scatter.py
index e927c23..b6a9487 100644
--- a/swirl_fem/core/gather_scatter.py
+++ b/swirl_fem/core/gather_scatter.py
@@ -253,15 +253,13 @@ def exchange(
   if unique_indices is not None:
     updates = updates[unique_indices]
 
-  # Add the updates back to the exchange indices.
-  # This is essentially `u.at[gather_indices].set(updates)`, but since
-  # `gather_indices` could contain sentinel values, use `add` instead; as
-  # otherwise the last index would get overwritten. Also, make sure the
-  # corresponding values being added are zero; for instance, `gather_indices[i]`
-  # has a sentinel if the current partition doesn't have the ith global dof.
-  # The mask zeros out these positions as `updates[i]` is generally not zero.
-  return u.at[gather_indices].add(
-      jnp.where(mask, updates - initial_values, 0))
+  # Set the updates at the exchange indices, so that every copy of a node gets
+  # the very same value. Since `gather_indices` could contain sentinel values
+  # (`gather_indices[i]` is a sentinel if the current partition doesn't have the
+  # ith global dof), move these out of bounds and drop them.
+  out_of_bounds = len(u) + jnp.arange(len(gather_indices))
+  return u.at[jnp.where(mask, gather_indices, out_of_bounds)].set(
+      updates, mode='drop', unique_indices=True)
 
 
 def _get_periodic_mapping(periodic_links: np.ndarray | None) -> dict[int, int]:
-- 
2.43.0


From f064630bde66d45e1a8c105109bff004eda17f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:13 +0000
Subject: [PATCH 23/23] fix: groups that list only one copy of a periodic node

The node lost its membership when the copy listed was not the representative
of the identified nodes.
---
 swirl_fem/core/premesh.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/swirl_fem/core/premesh.py b/swirl_fem/core/premesh.py
index a71670a..1253044 100644
--- a/swirl_fem/core/premesh.py
+++ b/swirl_fem/core/premesh.py
@@ -28,9 +28,13 @@ from swirl_fem.core.interpolation import NodeType
 from swirl_fem.core.mesh import Mesh
 
 
-def _mask(facets, node_indices: np.ndarray) -> np.ndarray:
+def _mask(facets, node_indices: np.ndarray,
+          periodic_links: np.ndarray | None) -> np.ndarray:
   """Returns a boolean mask of which `node_indices` are contained in facets."""
   indices = np.array(list(set(facets.flatten().tolist())), dtype=np.int32)
+  # As in `node_indices`, periodic nodes go by the index of one of them.
+  if indices.size:
+    indices = gather_scatter.get_unique_node_indices(indices, periodic_links)
   return np.isin(node_indices, indices)
 
 
@@ -154,7 +158,9 @@ class Premesh:
           node_indices=np.arange(self.num_nodes, dtype=np.int32),
           periodic_links=self.periodic_links)
       physical_masks = tree_map(
-          partial(_mask, node_indices=node_indices), self.physical_groups)
+          partial(_mask, node_indices=node_indices,
+                  periodic_links=self.periodic_links),
+          self.physical_groups)
       exchange_gather_indices, exchange_unique_indices = (
           gather_scatter.get_exchange_indices(node_indices))
       return Mesh.create(
@@ -207,7 +213,9 @@ class Premesh:
     # Create boolean masks over the node indices for the specified physical
     # groups.
     physical_masks = tree_map(
-        partial(_mask, node_indices=node_indices), self.physical_groups)
+        partial(_mask, node_indices=node_indices,
+                periodic_links=self.periodic_links),
+        self.physical_groups)
 
     # bind the static arrays which are not pmapped when placing on devices
     create_fn = partial(
-- 
2.43.0

