From 5909b21ff71cc0bcda94e5b41dbcf3faa7673acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:08 +0000
Subject: [PATCH 01/25] fix: mark every observer as ego of its own observation

observation_from_state built is_ego as diag(arange(n)) == 1, which is
true for object 1 only.
---
 waymax/datatypes/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/datatypes/observation.py b/waymax/datatypes/observation.py
index 8836305..55309a8 100644
--- a/waymax/datatypes/observation.py
+++ b/waymax/datatypes/observation.py
@@ -568,7 +568,7 @@ def observation_from_state(
   # state.shape + (num_obj, num_obj)
   target_shape = state.shape + (num_obj, num_obj)
   is_ego = jax.lax.broadcast_in_dim(
-      jnp.diag(jnp.arange(num_obj)) == 1,
+      jnp.eye(num_obj, dtype=jnp.bool_),
       shape=target_shape,
       broadcast_dimensions=(len(target_shape) - 2, len(target_shape) - 1),
   )
-- 
2.43.0


From 5b2d77649011e8a45e3659e04ca712d186d7aa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:08 +0000
Subject: [PATCH 02/25] fix: slice the observer axis in Observation.for_obj

num_observations is the last axis of the common prefix; the old axis was
the batch axis (or, without batch, the last axis of each leaf).
---
 waymax/datatypes/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/datatypes/observation.py b/waymax/datatypes/observation.py
index 55309a8..3981400 100644
--- a/waymax/datatypes/observation.py
+++ b/waymax/datatypes/observation.py
@@ -254,7 +254,7 @@ class Observation:
     Returns:
       A Observation with shape (..., 1).
     """
-    axis = len(self.shape) - 2
+    axis = len(self.shape) - 1
     return operations.dynamic_slice(
         inputs=self, start_index=idx, slice_size=1, axis=axis
     )
-- 
2.43.0


From 2781456229b3562831fde48f6667aa2c8278d671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:08 +0000
Subject: [PATCH 03/25] fix: let make_sdc_dm_environment build configured sim
 agents

PlanningAgentEnvironment requires one params entry per sim agent, so any
config with sim_agents raised ValueError.
---
 waymax/env/wrappers/dm_env_wrapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/waymax/env/wrappers/dm_env_wrapper.py b/waymax/env/wrappers/dm_env_wrapper.py
index 6c89bc1..fa39ea9 100644
--- a/waymax/env/wrappers/dm_env_wrapper.py
+++ b/waymax/env/wrappers/dm_env_wrapper.py
@@ -218,5 +218,7 @@ def make_sdc_dm_environment(
       dynamics_model=dynamics_model,
       config=env_config,
       sim_agent_actors=sim_agent_actors,
+      # Actors built from configs have no parameters.
+      sim_agent_params=[{}] * len(sim_agent_actors),
   )
   return DMEnvWrapper(dataset_iterator, single_env)
-- 
2.43.0


From 9377e0258968981c37dc867559ad383b3d6f72d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:08 +0000
Subject: [PATCH 04/25] fix: do not start an episode when a dm_env reset fails

A reset refused because the scenario has no steps left still marked the
adapter as initialized, so step() moved past the end of the log.
---
 waymax/env/wrappers/dm_env_wrapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/waymax/env/wrappers/dm_env_wrapper.py b/waymax/env/wrappers/dm_env_wrapper.py
index fa39ea9..f74bd96 100644
--- a/waymax/env/wrappers/dm_env_wrapper.py
+++ b/waymax/env/wrappers/dm_env_wrapper.py
@@ -86,10 +86,12 @@ class DMEnvWrapper(dm_env.Environment):
 
   def reset(self) -> dm_env.TimeStep:
     """Resets the environment and returns the initial TimeStep."""
+    # Any episode in progress is over, also if no new one can be started.
+    self._initialized = False
     self._cur_state = self.stateless_env.reset(next(self._data_generator))
-    self._initialized = True
     if self._cur_state.is_done:
       raise errors.SimulationNotInitializedError()
+    self._initialized = True
     self._done = False
     return dm_env.restart(observation=self.observe(self._cur_state))
 
-- 
2.43.0


From 6283d36cb36612305664911e0c5bd732fd9bfc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:58 +0000
Subject: [PATCH 05/25] fix: ignore absent objects when looking for initial
 overlaps

Objects missing at the first log step all carry the same placeholder box,
so any two of them counted as overlapping and sim agents could never
control them, even long after they had appeared.
---
 waymax/env/planning_agent_environment.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/waymax/env/planning_agent_environment.py b/waymax/env/planning_agent_environment.py
index d547a30..e9408e3 100644
--- a/waymax/env/planning_agent_environment.py
+++ b/waymax/env/planning_agent_environment.py
@@ -385,7 +385,9 @@ class PlanningAgentEnvironment(abstract_environment.AbstractEnvironment):
     merged_controlled = planning_agent_controlled
     # Do not control objects which are initialized in a overlap
     # (likely an articulated bus).
-    is_controllable = ~_initialized_overlap(state.log_trajectory)
+    is_controllable = ~_initialized_overlap(
+        state.log_trajectory, valid=state.log_trajectory.valid[..., 0]
+    )
 
     if len(self._sim_agent_actors) != len(state.sim_agent_actor_states):
       raise ValueError(
@@ -446,7 +448,9 @@ class PlanningAgentEnvironment(abstract_environment.AbstractEnvironment):
     raise NotImplementedError()
 
 
-def _initialized_overlap(log_trajectory: datatypes.Trajectory) -> jax.Array:
+def _initialized_overlap(
+    log_trajectory: datatypes.Trajectory, valid: jax.Array | None = None
+) -> jax.Array:
   """Return a mask for objects initialized in a overlap state.
 
   This function returns a boolean mask indicating if an object is in a
@@ -456,6 +460,8 @@ def _initialized_overlap(log_trajectory: datatypes.Trajectory) -> jax.Array:
 
   Args:
     log_trajectory: A trajectory of shape (..., num_objects, num_timesteps).
+    valid: Optional mask of shape (..., num_objects) of the objects to consider;
+      the boxes of other objects are placeholders and overlap nothing.
 
   Returns:
     A [..., objects] boolean tensor of overlap masks.
@@ -466,5 +472,7 @@ def _initialized_overlap(log_trajectory: datatypes.Trajectory) -> jax.Array:
   # Shape: (..., num_objects, num_objects).
   traj_5dof = trajectory.stack_fields(['x', 'y', 'length', 'width', 'yaw'])
   pairwise_overlaps = geometry.compute_pairwise_overlaps(traj_5dof)
+  if valid is not None:
+    pairwise_overlaps &= valid[..., jnp.newaxis, :] & valid[..., jnp.newaxis]
   # Shape: (..., num_objects).
   return jnp.any(pairwise_overlaps, axis=-1)
-- 
2.43.0


From ea8842991a59cdde4721a1b8661a24e549114992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:58 +0000
Subject: [PATCH 06/25] fix: make PlanningAgentDynamics.forward usable as a
 DynamicsModel

It named its parameters differently from DynamicsModel.forward, tiled the
valid flags into a shape that validation rejects, and dropped the object
injection flag.
---
 waymax/env/planning_agent_environment.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/waymax/env/planning_agent_environment.py b/waymax/env/planning_agent_environment.py
index e9408e3..872e84c 100644
--- a/waymax/env/planning_agent_environment.py
+++ b/waymax/env/planning_agent_environment.py
@@ -64,10 +64,10 @@ class PlanningAgentDynamics(_dynamics.DynamicsModel):
       self,
       action: datatypes.Action,
       trajectory: datatypes.Trajectory,
-      log_trajectory: datatypes.Trajectory,
+      reference_trajectory: datatypes.Trajectory,
       is_controlled: jax.Array,
       timestep: int,
-      allow_new_objects: bool = True,
+      allow_object_injection: bool = False,
   ) -> datatypes.Trajectory:
     """Updates a simulated trajectory to the next timestep given an update.
 
@@ -81,13 +81,13 @@ class PlanningAgentDynamics(_dynamics.DynamicsModel):
         trajectory will be updated by this function updated with the trajectory
         update. It is expected that this trajectory will have been updated up to
         `timestep`. This is of shape: (..., num_objects, num_timesteps).
-      log_trajectory: Logged trajectory for all objects over the entire run
-        segment. Certain fields such as valid are optionally taken from this
+      reference_trajectory: Logged trajectory for all objects over the entire
+        run segment. Certain fields such as valid are optionally taken from this
         trajectory. This is of shape: (..., num_objects, num_timesteps).
       is_controlled: Boolean array specifying which objects are to be controlled
         by the trajectory update of shape (..., num_objects).
       timestep: Timestep of the current simulation.
-      allow_new_objects: Whether to allow new objects to enter the secene. If
+      allow_object_injection: Whether to allow new objects to enter the secene. If
         this is set to False, all objects that are not valid at the current
         timestep will not be valid at the next timestep and visa versa.
 
@@ -100,16 +100,17 @@ class PlanningAgentDynamics(_dynamics.DynamicsModel):
         action.data[..., jnp.newaxis, :], trajectory.num_objects, axis=-2
     )
     tiled_valid = jnp.repeat(
-        action.valid[..., jnp.newaxis], trajectory.num_objects, axis=-1
+        action.valid[..., jnp.newaxis, :], trajectory.num_objects, axis=-2
     )
     tiled_action = datatypes.Action(data=tiled_action_data, valid=tiled_valid)
     tiled_action.validate()
     return self.wrapped_dynamics.forward(
         tiled_action,
         trajectory,
-        log_trajectory,
+        reference_trajectory,
         is_controlled,
         timestep,
+        allow_object_injection,
     )
 
   def inverse(
-- 
2.43.0


From 357f7923cfe18242e8eed9f9c81c4b55c13adf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:58 +0000
Subject: [PATCH 07/25] fix: keep values that are not selected out of
 select_by_onehot

Multiplying by the one-hot mask turned a NaN or infinity of any object
into NaN for the selected one.
---
 waymax/datatypes/operations.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/waymax/datatypes/operations.py b/waymax/datatypes/operations.py
index dc57cd7..507200a 100644
--- a/waymax/datatypes/operations.py
+++ b/waymax/datatypes/operations.py
@@ -238,8 +238,12 @@ def select_by_onehot(
     else:
       reshaped_selection = selection
     # Since reshaped_selection is one-hot, use sum to perform the selection.
+    # Masking instead of multiplying keeps non-finite values of elements that
+    # are not selected out of the result.
     return jnp.sum(
-        x * reshaped_selection, axis=(selection.ndim - 1), keepdims=keepdims
+        jnp.where(reshaped_selection.astype(jnp.bool_), x, 0),
+        axis=(selection.ndim - 1),
+        keepdims=keepdims,
     ).astype(x.dtype)
 
   return jax.tree_util.tree_map(_select, data)
-- 
2.43.0


From 655c17255e0e3f57027d5047eb876e3038963a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:59 +0000
Subject: [PATCH 08/25] fix: give StateDynamics action bounds one entry per
 dimension

BaseEnvironment.action_spec() tiles the bounds along the last axis and
raised IndexError on the scalar bounds of StateDynamics.
---
 waymax/dynamics/state_dynamics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/waymax/dynamics/state_dynamics.py b/waymax/dynamics/state_dynamics.py
index b399691..774801f 100644
--- a/waymax/dynamics/state_dynamics.py
+++ b/waymax/dynamics/state_dynamics.py
@@ -32,8 +32,8 @@ class StateDynamics(abstract_dynamics.DynamicsModel):
     return specs.BoundedArray(
         shape=(len(abstract_dynamics.CONTROLLABLE_FIELDS),),
         dtype=np.float32,
-        minimum=-float('inf'),
-        maximum=float('inf'),
+        minimum=np.full(len(abstract_dynamics.CONTROLLABLE_FIELDS), -np.inf),
+        maximum=np.full(len(abstract_dynamics.CONTROLLABLE_FIELDS), np.inf),
     )
 
   def compute_update(
-- 
2.43.0


From e36875c6185cd3343fe1585f789d199378f15c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:27 +0000
Subject: [PATCH 09/25] fix: read rendered images through buffer_rgba

FigureCanvasAgg.tostring_argb was removed in matplotlib 3.10, so every
plotting function raised AttributeError.
---
 waymax/visualization/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/waymax/visualization/utils.py b/waymax/visualization/utils.py
index c3c3636..4595aaf 100644
--- a/waymax/visualization/utils.py
+++ b/waymax/visualization/utils.py
@@ -80,14 +80,13 @@ def center_at_xy(
 
 
 def img_from_fig(fig: matplotlib.figure.Figure) -> np.ndarray:
-  """Returns a [H, W, 3] uint8 np image from fig.canvas.tostring_argb()."""
+  """Returns a [H, W, 3] uint8 np image from fig.canvas.buffer_rgba()."""
   # Just enough margin in the figure to display xticks and yticks.
   fig.subplots_adjust(
       left=0.08, bottom=0.08, right=0.98, top=0.98, wspace=0.0, hspace=0.0
   )
   fig.canvas.draw()
-  data = np.frombuffer(fig.canvas.tostring_argb(), dtype=np.uint8)
-  img = data.reshape(fig.canvas.get_width_height()[::-1] + (4,))[:, :, 1:]
+  img = np.array(fig.canvas.buffer_rgba(), dtype=np.uint8)[:, :, :3]
   plt.close(fig)
   return img
 
-- 
2.43.0


From db58c79b2a974eda8b3e69a23e45fb73d160def3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:27 +0000
Subject: [PATCH 10/25] fix: allow centering a plot on an agent other than the
 SDC

The position of the chosen agent had one dimension fewer than the code
below expects, so any center_agent_idx raised IndexError.
---
 waymax/visualization/viz.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/waymax/visualization/viz.py b/waymax/visualization/viz.py
index e94e3c7..caf7179 100644
--- a/waymax/visualization/viz.py
+++ b/waymax/visualization/viz.py
@@ -299,7 +299,7 @@ def plot_simulator_state(
   if viz_config.center_agent_idx == -1:
     xy = current_xy[state.object_metadata.is_sdc]
   else:
-    xy = current_xy[viz_config.center_agent_idx]
+    xy = current_xy[viz_config.center_agent_idx][np.newaxis]
   origin_x, origin_y = xy[0, :2]
   ax.axis((
       origin_x - viz_config.back_x,
@@ -374,7 +374,7 @@ def plot_observation(
   if viz_config.center_agent_idx == -1:
     xy = current_xy[obs.metadata.is_sdc]
   else:
-    xy = current_xy[viz_config.center_agent_idx]
+    xy = current_xy[viz_config.center_agent_idx][np.newaxis]
   origin_x, origin_y = xy[0, :2]
   ax.axis((
       origin_x - viz_config.back_x,
@@ -450,7 +450,7 @@ def plot_single_agent_brax_timestep(
   if viz_config.center_agent_idx == -1:
     xy = current_xy[state.object_metadata.is_sdc]
   else:
-    xy = current_xy[viz_config.center_agent_idx]
+    xy = current_xy[viz_config.center_agent_idx][np.newaxis]
   origin_x, origin_y = xy[0, :2]
   ax.axis((
       origin_x - viz_config.back_x,
-- 
2.43.0


From 43a1c3a4e9328fb5fe215e73c37e62da9a5ee683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:55 +0000
Subject: [PATCH 11/25] fix: broadcast scenario-level metrics over objects in
 the reward

Metrics without an object dimension (sdc_wrongway, sdc_progression,
sdc_off_route) were multiplied with the (batch, object) mask as if their
batch dimension were the object dimension: an error, or with equal sizes
the reward of a scenario computed from other scenarios' metrics.
---
 waymax/rewards/linear_combination_reward.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/waymax/rewards/linear_combination_reward.py b/waymax/rewards/linear_combination_reward.py
index 2bf1d7e..f1d94aa 100644
--- a/waymax/rewards/linear_combination_reward.py
+++ b/waymax/rewards/linear_combination_reward.py
@@ -55,6 +55,10 @@ class LinearCombinationReward(abstract_reward_function.AbstractRewardFunction):
     reward = jnp.zeros_like(agent_mask)
     for reward_metric_name, reward_weight in self._config.rewards.items():
       metric_all_agents = all_metrics[reward_metric_name].masked_value()
+      if metric_all_agents.ndim < agent_mask.ndim:
+        # Scenario-level metrics (sdc_*) have no object dimension, so that with
+        # batch dimensions they would be broadcast against the wrong axes.
+        metric_all_agents = metric_all_agents[..., jnp.newaxis]
       metric = metric_all_agents * agent_mask
       reward += metric * reward_weight
 
-- 
2.43.0


From fa2b2d5d13b78230f4efabcd274f1a272bbde4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:03 +0000
Subject: [PATCH 12/25] fix: keep integer fields exact when filtering roadgraph
 points

The fields went through a float32 stack, which rounds ids above 2**24.
---
 waymax/datatypes/roadgraph.py | 31 ++++---------------------------
 1 file changed, 4 insertions(+), 27 deletions(-)

diff --git a/waymax/datatypes/roadgraph.py b/waymax/datatypes/roadgraph.py
index 5a24223..4c5a2f1 100644
--- a/waymax/datatypes/roadgraph.py
+++ b/waymax/datatypes/roadgraph.py
@@ -201,33 +201,10 @@ def filter_topk_roadgraph_points(
     valid_distances = jnp.where(roadgraph.valid, distances, float('inf'))
     _, top_idx = jax.lax.top_k(-valid_distances, topk)
 
-    stacked = jnp.stack(
-        [
-            roadgraph.x,
-            roadgraph.y,
-            roadgraph.z,
-            roadgraph.dir_x,
-            roadgraph.dir_y,
-            roadgraph.dir_z,
-            roadgraph.types,
-            roadgraph.ids,
-            roadgraph.valid,
-        ],
-        axis=-1,
-        dtype=jnp.float32,
-    )
-    filtered = jnp.take_along_axis(stacked, top_idx[..., None], axis=-2)
-
-    return RoadgraphPoints(
-        x=filtered[..., 0],
-        y=filtered[..., 1],
-        z=filtered[..., 2],
-        dir_x=filtered[..., 3],
-        dir_y=filtered[..., 4],
-        dir_z=filtered[..., 5],
-        types=filtered[..., 6].astype(jnp.int32),
-        ids=filtered[..., 7].astype(jnp.int32),
-        valid=filtered[..., 8].astype(jnp.bool_),
+    # Select in each field's own dtype: ids above 2**24 are not representable in
+    # float32.
+    return jax.tree_util.tree_map(
+        lambda x: jnp.take_along_axis(x, top_idx, axis=-1), roadgraph
     )
   else:
     return roadgraph
-- 
2.43.0


From d13e53aa1369bdc9cae91644ce05b65d95a5bdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 13/25] fix: search the best discrete action for every object,
 not only the SDC

---
 waymax/dynamics/discretizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/waymax/dynamics/discretizer.py b/waymax/dynamics/discretizer.py
index b7e7add..7d97948 100644
--- a/waymax/dynamics/discretizer.py
+++ b/waymax/dynamics/discretizer.py
@@ -19,7 +19,6 @@ from dm_env import specs
 import jax
 import jax.numpy as jnp
 
-from waymax import config as _config
 from waymax import datatypes
 from waymax.dynamics import abstract_dynamics
 
@@ -252,7 +251,8 @@ def inverse_action_by_search(
     An Action that converts traj[timestep] to traj[timestep+1] of shape
       (..., num_objects, dim=2).
   """
-  is_controlled = datatypes.get_control_mask(metadata, _config.ObjectType.SDC)
+  del metadata  # Not used: every object gets its own best fit.
+  is_controlled = jnp.ones(traj.shape[:-1], dtype=jnp.bool_)
   valids = jax.lax.dynamic_slice_in_dim(
       traj.valid, start_index=timestep, slice_size=2, axis=-1
   )
-- 
2.43.0


From 981713ca3fe5aad5d303cad91278c3518d2f8273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:38 +0000
Subject: [PATCH 14/25] fix: let Discretizer.discretize run inside jit and scan

---
 waymax/dynamics/discretizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/waymax/dynamics/discretizer.py b/waymax/dynamics/discretizer.py
index 7d97948..4da4385 100644
--- a/waymax/dynamics/discretizer.py
+++ b/waymax/dynamics/discretizer.py
@@ -18,6 +18,7 @@ import functools
 from dm_env import specs
 import jax
 import jax.numpy as jnp
+import numpy as np
 
 from waymax import datatypes
 from waymax.dynamics import abstract_dynamics
@@ -74,7 +75,8 @@ class Discretizer:
     ).astype(jnp.int32)
     indices_1d = jnp.ravel_multi_index(  # pytype: disable=wrong-arg-types  # jnp-type
         jnp.split(indices_nd, self._bins.shape[0], -1),
-        self._bins + 1,
+        # The dims must be concrete, also when traced inside a jit or scan.
+        tuple(int(n) + 1 for n in np.asarray(self._bins)),
         mode='clip',
     )
     return indices_1d
-- 
2.43.0


From a6c77b9ea687b350d844ff25f986d7861920cd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:24 +0000
Subject: [PATCH 15/25] fix: ignore invalid prior points in the offroad metric

---
 waymax/metrics/roadgraph.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/waymax/metrics/roadgraph.py b/waymax/metrics/roadgraph.py
index ea8a44c..ffb851e 100644
--- a/waymax/metrics/roadgraph.py
+++ b/waymax/metrics/roadgraph.py
@@ -212,10 +212,15 @@ def compute_signed_distance_to_nearest_road_edge_point(
   # Get the signed distance to the half-plane boundary with a cross product.
   cross_product = jnp.cross(points_to_edge, nearest_vector_xys)
   cross_product_prior = jnp.cross(points_to_edge, prior_vector_xys)
-  # If the prior point is contiguous, consider both half-plane distances.
+  # If the prior point is contiguous, consider both half-plane distances. An
+  # invalid prior point has no direction.
   # Shape: (..., num_query_points).
-  prior_point_in_same_curve = jnp.equal(
-      roadgraph_points.ids[nearest_indices], roadgraph_points.ids[prior_indices]
+  prior_point_in_same_curve = (
+      jnp.equal(
+          roadgraph_points.ids[nearest_indices],
+          roadgraph_points.ids[prior_indices],
+      )
+      & roadgraph_points.valid[prior_indices]
   )
   # Shape: (..., num_query_points).
   offroad_sign = jnp.sign(
-- 
2.43.0


From 5579dc4edd42bc28044839cc355823559f684c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:28 +0000
Subject: [PATCH 16/25] fix: pad observation history before the first step

---
 waymax/datatypes/observation.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/waymax/datatypes/observation.py b/waymax/datatypes/observation.py
index 3981400..b3e8462 100644
--- a/waymax/datatypes/observation.py
+++ b/waymax/datatypes/observation.py
@@ -474,8 +474,18 @@ def global_observation_from_state(
   """
 
   def slice_by_time(x: operations.PyTree) -> operations.PyTree:
+    # Steps before the first one are invalid. Without the padding the slice
+    # would wrap around and return the last steps of the log instead.
+    def pad_before_start(x: jax.Array) -> jax.Array:
+      fill = False if x.dtype == jnp.bool_ else -1
+      pad_width = [(0, 0)] * (x.ndim - 1) + [(obs_num_steps - 1, 0)]
+      return jnp.pad(x, pad_width, constant_values=fill)
+
     return operations.dynamic_slice(
-        x, state.timestep - obs_num_steps + 1, obs_num_steps, axis=-1
+        jax.tree_util.tree_map(pad_before_start, x),
+        state.timestep,
+        obs_num_steps,
+        axis=-1,
     )
 
   # Shape: (..., num_obj, num_timesteps) -> (..., num_obj, num_timesteps=obs_T).
-- 
2.43.0


From 397f66b32539050751ee7a1486b7be2717aa296d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:41 +0000
Subject: [PATCH 17/25] fix: read all shards when repeating the dataset
 indefinitely

---
 waymax/dataloader/dataloader_utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/waymax/dataloader/dataloader_utils.py b/waymax/dataloader/dataloader_utils.py
index 6ef2c80..b19eaca 100644
--- a/waymax/dataloader/dataloader_utils.py
+++ b/waymax/dataloader/dataloader_utils.py
@@ -161,8 +161,14 @@ def tf_examples_dataset(
       _make_dataset, num_shards=num_shards, local_files=files
   )
   indices = tf.data.Dataset.range(num_shards)
+  # All shards have to be in the cycle: by default its length depends on the
+  # number of CPUs, and shards outside of it would never be read if repeating
+  # indefinitely.
   dataset = indices.interleave(
-      make_dataset_fn, num_parallel_calls=AUTOTUNE, deterministic=deterministic
+      make_dataset_fn,
+      num_parallel_calls=AUTOTUNE,
+      cycle_length=num_shards,
+      deterministic=deterministic,
   )
 
   if tf_data_service_address is not None:
-- 
2.43.0


From c5ab7311291dd97fc0b4e9db53aa74762e136af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:41 +0000
Subject: [PATCH 18/25] fix: allow '@' in the directory of a sharded path

---
 waymax/dataloader/dataloader_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/dataloader/dataloader_utils.py b/waymax/dataloader/dataloader_utils.py
index b19eaca..930ae09 100644
--- a/waymax/dataloader/dataloader_utils.py
+++ b/waymax/dataloader/dataloader_utils.py
@@ -53,7 +53,7 @@ def generate_sharded_filenames(path: str) -> Sequence[str]:
     An iterator through the complete set of filenames that the path refers to,
     with each filename having the format `filename-XXXXX-of-YYYYY`
   """
-  base_name, num_shards = path.split('@')
+  base_name, num_shards = path.rsplit('@', maxsplit=1)
   num_shards = int(num_shards)
   shard_width = max(5, int(math.log10(num_shards) + 1))
   format_str = base_name + '-%0' + str(shard_width) + 'd-of-%05d'
-- 
2.43.0


From c1591e2d6808c80e92e5a8f2f1be8ca191bf4df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:27 +0000
Subject: [PATCH 19/25] fix: make deterministic loading order independent of
 the CPU count

---
 waymax/dataloader/dataloader_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/waymax/dataloader/dataloader_utils.py b/waymax/dataloader/dataloader_utils.py
index 930ae09..17ca066 100644
--- a/waymax/dataloader/dataloader_utils.py
+++ b/waymax/dataloader/dataloader_utils.py
@@ -28,6 +28,9 @@ from waymax import config as _config
 
 T = TypeVar('T')
 AUTOTUNE = tf.data.AUTOTUNE
+# Number of files read concurrently by deterministic loading. An autotuned value
+# depends on the number of CPUs, and so would the order of the examples.
+_DETERMINISTIC_CYCLE_LENGTH = 16
 
 
 def generate_sharded_filenames(path: str) -> Sequence[str]:
@@ -130,7 +133,9 @@ def tf_examples_dataset(
     ds = local_files.interleave(
         dataset_fn,
         num_parallel_calls=AUTOTUNE,
-        cycle_length=AUTOTUNE,
+        cycle_length=(
+            _DETERMINISTIC_CYCLE_LENGTH if deterministic else AUTOTUNE
+        ),
         deterministic=deterministic,
     )
 
-- 
2.43.0


From 36b321350b9052829872f89f9de3fb2bf3d03e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:50 +0000
Subject: [PATCH 20/25] fix: treat padded steps of a motion record as absent

---
 waymax/dataloader/womd_factories.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/waymax/dataloader/womd_factories.py b/waymax/dataloader/womd_factories.py
index 24c05e6..daf7761 100644
--- a/waymax/dataloader/womd_factories.py
+++ b/waymax/dataloader/womd_factories.py
@@ -223,7 +223,8 @@ def trajectory_from_womd_dict(
   """
   prefix = f'state/{time_key}'
 
-  valid = jnp.asarray(example[f'{prefix}/valid'], jnp.bool_)
+  # Absent data can be padded with -1, as in exported simulator states.
+  valid = jnp.asarray(example[f'{prefix}/valid'] == 1, jnp.bool_)
   length = jnp.asarray(example[f'{prefix}/length'], jnp.float32)
   length = operations.masked_mean(length, valid=valid, axis=-1)
   width = jnp.asarray(example[f'{prefix}/width'], jnp.float32)
@@ -282,7 +283,8 @@ def traffic_lights_from_womd_dict(
 
   state = jnp.asarray(example[f'{prefix_time_key}/state'], dtype=jnp.int32)
   lane_ids = jnp.asarray(example[f'{prefix_time_key}/id'], dtype=jnp.int32)
-  valid = jnp.asarray(example[f'{prefix_time_key}/valid'], dtype=jnp.bool_)
+  # Absent data can be padded with -1, as in exported simulator states.
+  valid = jnp.asarray(example[f'{prefix_time_key}/valid'] == 1, dtype=jnp.bool_)
 
   origin = traffic_lights.TrafficLights(
       x=x, y=y, z=z, state=state, lane_ids=lane_ids, valid=valid
-- 
2.43.0


From 803d3d27e8dec354a467a31c110eadb692e38857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:30 +0000
Subject: [PATCH 21/25] fix: let planning states be compared

The dataclass decorator gave PlanningAgentSimulatorState an equality of
its own, which raised ValueError on arrays, in place of the one of
SimulatorState.
---
 waymax/env/planning_agent_environment.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/waymax/env/planning_agent_environment.py b/waymax/env/planning_agent_environment.py
index 872e84c..6677786 100644
--- a/waymax/env/planning_agent_environment.py
+++ b/waymax/env/planning_agent_environment.py
@@ -14,7 +14,7 @@
 
 """Waymax environment for tasks relating to Planning for the ADV."""
 
-from typing import Sequence
+from typing import Any, Sequence
 
 import chex
 from dm_env import specs
@@ -159,6 +159,9 @@ class PlanningAgentSimulatorState(datatypes.SimulatorState):
 
   sim_agent_actor_states: Sequence[actor_core.ActorState] = ()
 
+  def __eq__(self, other: Any) -> bool:
+    return datatypes.compare_all_leaf_nodes(self, other)
+
 
 class PlanningAgentEnvironment(abstract_environment.AbstractEnvironment):
   """An environment wrapper allowing for controlling a single agent.
-- 
2.43.0


From b04d26e4907fb892af911198c0d1d44aecb4bac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:03 +0000
Subject: [PATCH 22/25] Revert "fix: read rendered images through buffer_rgba"

tostring_argb still exists in current matplotlib (tostring_rgb is the one that
was removed), so there was nothing to repair.
---
 waymax/visualization/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/waymax/visualization/utils.py b/waymax/visualization/utils.py
index 4595aaf..c3c3636 100644
--- a/waymax/visualization/utils.py
+++ b/waymax/visualization/utils.py
@@ -80,13 +80,14 @@ def center_at_xy(
 
 
 def img_from_fig(fig: matplotlib.figure.Figure) -> np.ndarray:
-  """Returns a [H, W, 3] uint8 np image from fig.canvas.buffer_rgba()."""
+  """Returns a [H, W, 3] uint8 np image from fig.canvas.tostring_argb()."""
   # Just enough margin in the figure to display xticks and yticks.
   fig.subplots_adjust(
       left=0.08, bottom=0.08, right=0.98, top=0.98, wspace=0.0, hspace=0.0
   )
   fig.canvas.draw()
-  img = np.array(fig.canvas.buffer_rgba(), dtype=np.uint8)[:, :, :3]
+  data = np.frombuffer(fig.canvas.tostring_argb(), dtype=np.uint8)
+  img = data.reshape(fig.canvas.get_width_height()[::-1] + (4,))[:, :, 1:]
   plt.close(fig)
   return img
 
-- 
2.43.0


From d0768f816761a0a6b7e5aa05b98a61c44488648b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:46 +0000
Subject: [PATCH 23/25] fix: refuse discretizer bins that do not match the
 bounds

---
 waymax/dynamics/discretizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/dynamics/discretizer.py b/waymax/dynamics/discretizer.py
index 4da4385..678b5ab 100644
--- a/waymax/dynamics/discretizer.py
+++ b/waymax/dynamics/discretizer.py
@@ -47,7 +47,7 @@ class Discretizer:
       bins: Number of bins for the different vector elements to discretize of
         shape (num_vector_elements,).
     """
-    if min_value.shape != max_value.shape and min_value.shape != bins.shape:
+    if min_value.shape != max_value.shape or min_value.shape != bins.shape:
       raise ValueError('Shapes do not match.')
     self._mins = min_value
     self._maxs = max_value
-- 
2.43.0


From e158cf182b0070588e12e0107f6313f96a82e506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:33 +0000
Subject: [PATCH 24/25] fix: limit inferred heading changes to the displacement
 bounds

---
 waymax/dynamics/delta.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/waymax/dynamics/delta.py b/waymax/dynamics/delta.py
index b70a80b..533d657 100644
--- a/waymax/dynamics/delta.py
+++ b/waymax/dynamics/delta.py
@@ -114,7 +114,11 @@ class DeltaGlobal(abstract_dynamics.DynamicsModel):
         self.action_spec().minimum[1],
         self.action_spec().maximum[1],
     )
-    yaw = geometry.wrap_yaws(action[..., 2])
+    yaw = jnp.clip(
+        geometry.wrap_yaws(action[..., 2]),
+        self.action_spec().minimum[2],
+        self.action_spec().maximum[2],
+    )
     return jnp.stack([x, y, yaw], axis=-1)
 
   def inverse(
-- 
2.43.0


From 354089e12fd2bd6a76fa452c70fbb11c6c78c61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:33 +0000
Subject: [PATCH 25/25] fix: apply local displacement bounds in the local frame
 only

---
 waymax/dynamics/delta.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/waymax/dynamics/delta.py b/waymax/dynamics/delta.py
index 533d657..1bbeae7 100644
--- a/waymax/dynamics/delta.py
+++ b/waymax/dynamics/delta.py
@@ -139,6 +139,15 @@ class DeltaGlobal(abstract_dynamics.DynamicsModel):
       An Action that converts traj[timestep] to traj[timestep+1] of shape
         (..., num_objects, dim=2).
     """
+    actions = self._unclipped_inverse(trajectory, timestep)
+    return datatypes.Action(
+        data=self._clip_values(actions.data), valid=actions.valid
+    )
+
+  def _unclipped_inverse(
+      self, trajectory: datatypes.Trajectory, timestep: int
+  ) -> datatypes.Action:
+    """Infers global displacements without limiting them to the action spec."""
     # Form a tensor of shape (..., num_objects, num_timesteps, 3)
     xy_yaw_ = jnp.stack([trajectory.x, trajectory.y, trajectory.yaw], axis=-1)
     # Sliced before/after values of shape (..., num_objects, num_timesteps=2, 3)
@@ -154,7 +163,6 @@ class DeltaGlobal(abstract_dynamics.DynamicsModel):
 
     # Defaults to 0s for invalid actions.
     action_array = jnp.where(valid, raw_action_array, 0.0)
-    action_array = self._clip_values(action_array)
 
     return datatypes.Action(data=action_array, valid=valid)
 
@@ -204,7 +212,10 @@ class DeltaLocal(DeltaGlobal):
       metadata: datatypes.ObjectMetadata,
       timestep: int,
   ) -> datatypes.Action:
-    """Calls DeltaGlobal's inverse and converts to local coordinates.
+    """Infers global displacements and converts to local coordinates.
+
+    The limits of the action spec are local ones, hence they only apply after
+    the conversion.
 
     Args:
       trajectory: A Trajectory used to infer actions of shape (..., num_objects,
@@ -216,7 +227,7 @@ class DeltaLocal(DeltaGlobal):
       An Action that converts traj[timestep] to traj[timestep+1] of shape
         (..., num_objects, dim=2).
     """
-    global_actions = super().inverse(trajectory, metadata, timestep)
+    global_actions = self._unclipped_inverse(trajectory, timestep)
 
     # Yaw in global coordinates.
     current_yaw = jax.lax.dynamic_slice_in_dim(
-- 
2.43.0

