From df9e4b265813d5f2e2c80878bc4be8a5f38447e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:57 +0000
Subject: [PATCH 01/35] fix: reach every split when building the blocking
 hierarchy

The binary search for the split position halved the step size rounding
down, so some splits were unreachable and for six or more blocking
primitives some of them were missing from (or duplicated in) the tree.
---
 artist/raytracing/blocking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/artist/raytracing/blocking.py b/artist/raytracing/blocking.py
index aee2a39..a1f88bd 100644
--- a/artist/raytracing/blocking.py
+++ b/artist/raytracing/blocking.py
@@ -637,6 +637,7 @@ def build_linear_bounding_volume_hierarchies(
     )
     split = torch.zeros(number_of_blocking_primitives, dtype=torch.int32, device=device)
 
+    # The step sizes are ceil(l / 2), ceil(l / 4), ..., 1. Rounding down would make some splits unreachable.
     t = (l_ + 1) // 2
     while t.max() >= 1:
         candidates_lcp = longest_common_prefix(
@@ -647,7 +648,7 @@ def build_linear_bounding_volume_hierarchies(
         )
         mask = candidates_lcp > delta_node
         split = torch.where(mask, split + t, split)
-        t = t // 2
+        t = torch.where(t > 1, (t + 1) // 2, 0)
 
     gamma = (
         blocker_ids
-- 
2.43.0


From 8e964da680965916b6ea9e1bd7ba7cedb1aafbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:35 +0000
Subject: [PATCH 02/35] fix: break ties between identical Morton codes in the
 blocking hierarchy

Three or more blocking primitives with the same Morton code produced a
cyclic hierarchy, whose traversal did not terminate.
---
 artist/raytracing/blocking.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/artist/raytracing/blocking.py b/artist/raytracing/blocking.py
index a1f88bd..4b729de 100644
--- a/artist/raytracing/blocking.py
+++ b/artist/raytracing/blocking.py
@@ -477,7 +477,8 @@ def longest_common_prefix(
     Returns
     -------
     torch.Tensor
-        The longest common prefixes in the range from 0 to ``total_bits``.
+        The longest common prefixes in the range from 0 to ``total_bits``. For identical codes the longest
+        common prefix of the indices is added on top.
         Shape is ``[number_of_blocking_planes]``.
     """
     device = get_device(device=device)
@@ -487,6 +488,11 @@ def longest_common_prefix(
     if valid.any():
         differing_bits = torch.zeros_like(i, device=device)
         differing_bits[valid] = codes[i[valid]] ^ codes[j[valid]]
+        # Break ties between identical codes with the indices, so that all keys are unique.
+        identical_codes = valid & (differing_bits == 0)
+        differing_bits[identical_codes] = (i[identical_codes] ^ j[identical_codes]).to(
+            differing_bits.dtype
+        )
 
         nonzero_mask = differing_bits != 0
         msb = torch.full_like(i, -1, device=device)
@@ -505,7 +511,7 @@ def longest_common_prefix(
 
             msb[nonzero_mask] = 31 - leading_zeros
 
-        lcp[valid] = torch.where(differing_bits[valid] == 0, 30, (30 - 1) - msb[valid])
+        lcp[valid] = (30 - 1) - msb[valid] + 30 * identical_codes[valid].to(lcp.dtype)
 
     return lcp
 
-- 
2.43.0


From 6108e5c5e71923ce55e631b715f999a134bcb261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:13 +0000
Subject: [PATCH 03/35] fix: exclude the ray's own heliostat from blocking in
 every heliostat group

The blocking planes of all groups are concatenated, but the mapping from
rays to planes used indices local to the traced group. In any group but
the first, another heliostat's plane was skipped instead of the own one.
---
 artist/raytracing/heliostat_ray_tracer.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/artist/raytracing/heliostat_ray_tracer.py b/artist/raytracing/heliostat_ray_tracer.py
index 273eb55..e748ecb 100644
--- a/artist/raytracing/heliostat_ray_tracer.py
+++ b/artist/raytracing/heliostat_ray_tracer.py
@@ -181,6 +181,12 @@ class HeliostatRayTracer:
             self.blocking_heliostat_surfaces_active = torch.cat(
                 blocking_heliostat_surfaces_active_list
             )
+            # The blocking planes of all groups are concatenated, the heliostats of this group start at this index.
+            self.blocking_index_offset = 0
+            for group in self.scenario.heliostat_field.heliostat_groups:
+                if group is self.heliostat_group:
+                    break
+                self.blocking_index_offset += group.number_of_heliostats
 
         if dni is not None:
             # Calculate surface area per heliostat.
@@ -443,7 +449,10 @@ class HeliostatRayTracer:
                 device=device,
             )
             if self.blocking_active:
-                batch_global_indices = global_active_indices[batch_mask_indices]
+                batch_global_indices = (
+                    global_active_indices[batch_mask_indices]
+                    + self.blocking_index_offset
+                )
                 ray_to_heliostat_mapping = batch_global_indices.repeat_interleave(
                     number_of_rays_per_heliostat
                 )
-- 
2.43.0


From e7511f6bef73b45cb0e84e89f1515e4ea4ba0113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:30 +0000
Subject: [PATCH 04/35] fix: restore actuator parameters after an empty
 activation

Activating no heliostat of a group emptied the active optimizable actuator
parameters, and the emptiness check looked at these instead of the base
parameters, so every later activation of the group kept them empty.
---
 artist/field/heliostat_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artist/field/heliostat_group.py b/artist/field/heliostat_group.py
index fb078ff..d2b7e25 100644
--- a/artist/field/heliostat_group.py
+++ b/artist/field/heliostat_group.py
@@ -303,7 +303,7 @@ class HeliostatGroup:
                 active_heliostats_mask, dim=0
             )
         )
-        if self.kinematics.actuators.active_optimizable_parameters.numel() > 0:
+        if self.kinematics.actuators.optimizable_parameters.numel() > 0:
             self.kinematics.actuators.active_optimizable_parameters = (
                 self.kinematics.actuators.optimizable_parameters.repeat_interleave(
                     active_heliostats_mask, dim=0
-- 
2.43.0


From 632e2516acad33714eb6aba688d42e4052eecb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:56 +0000
Subject: [PATCH 05/35] fix: measure the angle on cylindrical targets from the
 target's normal

The intersection angle is computed in the local frame of the cylinder, but
the angle of the normal was taken from its world coordinates. For normals
that do not point north the bitmap was rotated around the cylinder, and
hits across the branch cut of the arc tangent were dropped.
---
 artist/raytracing/geometry.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/artist/raytracing/geometry.py b/artist/raytracing/geometry.py
index 20c7b5a..c483c8d 100644
--- a/artist/raytracing/geometry.py
+++ b/artist/raytracing/geometry.py
@@ -395,13 +395,12 @@ def line_cylinder_intersections(
     # z-values range from negative half cylinder height to positive half the cylinder height, therefore we add half the cylinder height
     # to all z-values.
     z = z + heights.view(-1, 1, 1) / 2
-    # Initially angles are defined 0° towards positive east axis, we want to define 0° as where the normal vector points towards.
-    angles = torch.atan2(y, x) - (
-        torch.atan2(
-            cylinder_normals[:, indices.cylinder_local_y].view(-1, 1, 1),
-            cylinder_normals[:, indices.cylinder_local_x].view(-1, 1, 1),
-        )
-        - (opening_angles.view(-1, 1, 1) / 2)
+    # Initially angles are defined 0° towards the local x-axis, the normal vector is the local y-axis. We want the angles to be centered
+    # around the normal vector, i.e., the normal vector points towards half the opening angle.
+    angles = (
+        torch.remainder(torch.atan2(y, x) + torch.pi / 2, 2 * torch.pi)
+        - torch.pi
+        + opening_angles.view(-1, 1, 1) / 2
     )
 
     intersections_on_target = (
-- 
2.43.0


From cdb13fd4c4a25392ae69c0fe72bf7f2e37bd559c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:14 +0000
Subject: [PATCH 06/35] fix: ignore targets behind the ray origin in plane
 intersections

A ray travelling away from a target plane, whose backward extension hits
the front side of the plane, was counted as a hit.
---
 artist/raytracing/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/artist/raytracing/geometry.py b/artist/raytracing/geometry.py
index c483c8d..8b089ea 100644
--- a/artist/raytracing/geometry.py
+++ b/artist/raytracing/geometry.py
@@ -175,12 +175,14 @@ def line_plane_intersections(
 
     # Filter out rays that are out of bounds of the target plane dimensions. Previously an infinite plane was considered.
     # Also filter out rays that hit the backside of the target or rays that are parallel to the target.
+    # Also filter out rays whose intersection lies behind their origin, they travel away from the target.
     valid_mask = (
         (0 <= bitmap_intersections_e)
         & (bitmap_intersections_e <= bitmap_resolution[indices.unbatched_bitmap_e] - 1)
         & (0 <= bitmap_intersections_u)
         & (bitmap_intersections_u <= bitmap_resolution[indices.unbatched_bitmap_u] - 1)
         & front_facing_mask
+        & (intersection_distances > 0)
     )
 
     bitmap_intersections_e = bitmap_intersections_e * valid_mask
-- 
2.43.0


From addc0387f1ff09c0d2690d1382a0c707b7a768ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:46 +0000
Subject: [PATCH 07/35] fix: optimize aim points with losses other than the KL
 divergence

The total loss was only set for the KL divergence, for all other losses it
stayed the initial constant, whose backward pass raises.
---
 artist/optim/aim_point_optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/artist/optim/aim_point_optimizer.py b/artist/optim/aim_point_optimizer.py
index 7f9ad7a..0f7b653 100644
--- a/artist/optim/aim_point_optimizer.py
+++ b/artist/optim/aim_point_optimizer.py
@@ -876,6 +876,7 @@ class AimPointOptimizer:
                 device=device,
             )
 
+            loss = flux_loss
             if isinstance(loss_definition, KLDivergenceLoss):
                 (
                     loss,
-- 
2.43.0


From f9242e22e02df95bd97440cad4966472326e0eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:47 +0000
Subject: [PATCH 08/35] fix: return only the traced samples from distributed
 ray tracing

With more than one rank per heliostat group the rows of samples assigned to
other ranks contained uninitialized memory, and all callers combine the
result with tensors indexed by the samples of the local rank.
---
 artist/optim/surface_reconstructor.py     |  7 +++++--
 artist/raytracing/heliostat_ray_tracer.py | 19 ++++++++++++++-----
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/artist/optim/surface_reconstructor.py b/artist/optim/surface_reconstructor.py
index 75b1e2c..7e20666 100644
--- a/artist/optim/surface_reconstructor.py
+++ b/artist/optim/surface_reconstructor.py
@@ -574,15 +574,18 @@ class SurfaceReconstructor:
             device=device,
         )
 
+        sample_indices_for_local_rank = ray_tracer.get_sampler_indices()
+
         # Crop predictions around center before comparing to measurements.
         cropped_flux_predictions = bitmap.crop_flux_distributions_around_center(
             flux_distributions=flux_prediction_train,
             solar_tower=self.scenario.solar_tower,
-            target_area_indices=data_split.target_area_indices_train,
+            target_area_indices=data_split.target_area_indices_train[
+                sample_indices_for_local_rank
+            ],
             device=device,
         )
 
-        sample_indices_for_local_rank = ray_tracer.get_sampler_indices()
         local_indices = (
             sample_indices_for_local_rank[:: data_split.number_of_train_samples]
             // data_split.number_of_train_samples
diff --git a/artist/raytracing/heliostat_ray_tracer.py b/artist/raytracing/heliostat_ray_tracer.py
index e748ecb..e832d92 100644
--- a/artist/raytracing/heliostat_ray_tracer.py
+++ b/artist/raytracing/heliostat_ray_tracer.py
@@ -220,6 +220,7 @@ class HeliostatRayTracer:
         """
         return torch.tensor(
             self.distortions_sampler.rank_indices,
+            dtype=torch.long,
             device=self.distortions_dataset.distortions_u.device,
         )
 
@@ -271,16 +272,16 @@ class HeliostatRayTracer:
         -------
         torch.Tensor
             The resulting bitmaps per heliostat.
-            Shape is ``[number_of_active_heliostats, bitmap_resolution_e, bitmap_resolution_u]``.
+            Shape is ``[number_of_samples_assigned_to_current_rank, bitmap_resolution_e, bitmap_resolution_u]``.
         torch.Tensor
             The fraction of rays hitting the target, neglecting blocking effects.
-            Shape is ``[number_of_active_heliostats]``.
+            Shape is ``[number_of_samples_assigned_to_current_rank]``.
         torch.Tensor
             The fraction of rays not being blocked.
-            Shape is ``[number_of_active_heliostats]``.
+            Shape is ``[number_of_samples_assigned_to_current_rank]``.
         torch.Tensor
             The fraction of rays actually hitting the target, taking into account blocking effects.
-            Shape is ``[number_of_active_heliostats]``.
+            Shape is ``[number_of_samples_assigned_to_current_rank]``.
         """
         device = get_device(device=device)
 
@@ -514,7 +515,15 @@ class HeliostatRayTracer:
                 (1, 2)
             ) / number_of_rays_per_heliostat
 
-        return flux_distributions, intercept_factor, on_target_factor, blocking_factor
+        # Only the samples assigned to this rank have been traced.
+        local_indices = self.get_sampler_indices().to(device)
+
+        return (
+            flux_distributions[local_indices],
+            intercept_factor[local_indices],
+            on_target_factor[local_indices],
+            blocking_factor[local_indices],
+        )
 
     def scatter_rays(
         self,
-- 
2.43.0


From 814f7ab71c0ef719c4328d7eefd3a6e00d4583cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:53 +0000
Subject: [PATCH 09/35] fix: assign every sample to a rank

If the heliostats of a group are activated with different multiplicities,
the remainder of the samples was assigned to no rank and never traced, its
bitmaps contained uninitialized memory.
---
 artist/raytracing/sampling.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/artist/raytracing/sampling.py b/artist/raytracing/sampling.py
index c165ef3..c650ea5 100644
--- a/artist/raytracing/sampling.py
+++ b/artist/raytracing/sampling.py
@@ -130,15 +130,13 @@ class RestrictedDistributedSampler(Sampler):
         self.rank_indices = []
 
         if rank < number_of_active_ranks:
-            number_of_samples_per_heliostat = (
-                number_of_samples // number_of_active_heliostats
-            )
             indices: list[int] = []
 
             for index in range(number_of_active_heliostats):
                 if index % number_of_active_ranks == rank:
-                    start = index * number_of_samples_per_heliostat
-                    end = start + number_of_samples_per_heliostat
+                    # All samples are assigned, even if they cannot be divided evenly among the heliostats.
+                    start = index * number_of_samples // number_of_active_heliostats
+                    end = (index + 1) * number_of_samples // number_of_active_heliostats
                     indices.extend(range(start, end))
 
             self.rank_indices = indices
-- 
2.43.0


From e8b2c5191ed88b1fae511d318adb65d8c65e6958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:22 +0000
Subject: [PATCH 10/35] fix: load heliostats with individual actuators and
 prototype kinematics

The number of actuators was only set for heliostats with an individual
kinematics, so loading raised an unbound local error for the first such
heliostat.
---
 artist/field/heliostat_field.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/artist/field/heliostat_field.py b/artist/field/heliostat_field.py
index 321a054..5ccbc95 100644
--- a/artist/field/heliostat_field.py
+++ b/artist/field/heliostat_field.py
@@ -203,6 +203,7 @@ class HeliostatField:
                 rotation_deviations = prototype_kinematics[
                     constants.rotation_deviations
                 ]
+                number_of_actuators = constants.rigid_body_number_of_actuators
 
             if constants.heliostat_actuator_key in single_heliostat_config.keys():
                 actuator_keys = list(
-- 
2.43.0


From 2222ba882645a30def400885ae097cd6b391dc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:40 +0000
Subject: [PATCH 11/35] fix: keep the NURBS degrees of each heliostat group

All groups of a loaded field got the degrees of the heliostat loaded last.
---
 artist/field/heliostat_field.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/artist/field/heliostat_field.py b/artist/field/heliostat_field.py
index 5ccbc95..7d5f7b5 100644
--- a/artist/field/heliostat_field.py
+++ b/artist/field/heliostat_field.py
@@ -138,6 +138,7 @@ class HeliostatField:
         grouped_field_data: defaultdict[
             str, defaultdict[str, list[str | torch.Tensor]]
         ] = defaultdict(lambda: defaultdict(list))
+        nurbs_degrees_per_group: dict[str, torch.Tensor] = {}
 
         for heliostat_name in config_file[constants.heliostat_key].keys():
             single_heliostat_config = config_file[constants.heliostat_key][
@@ -309,6 +310,7 @@ class HeliostatField:
                 )
 
             heliostat_group_key = f"{kinematics_type}_{actuator_type}"
+            nurbs_degrees_per_group[heliostat_group_key] = degrees
 
             grouped_field_data[heliostat_group_key][constants.names].append(
                 heliostat_name
@@ -409,7 +411,7 @@ class HeliostatField:
                     nurbs_control_points=grouped_field_data[heliostat_group_name][
                         constants.facet_control_points
                     ],
-                    nurbs_degrees=degrees,
+                    nurbs_degrees=nurbs_degrees_per_group[heliostat_group_name],
                     initial_orientations=grouped_field_data[heliostat_group_name][
                         constants.initial_orientations
                     ],
-- 
2.43.0


From 3252d47ab61330a1ac3c2bfd2a4fcfd24cff6310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:00 +0000
Subject: [PATCH 12/35] fix: block rays only by other mirrors in front of their
 target

---
 artist/raytracing/blocking.py             | 17 +++++++++++++++++
 artist/raytracing/heliostat_ray_tracer.py | 11 ++++++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/artist/raytracing/blocking.py b/artist/raytracing/blocking.py
index 4b729de..c3bddbe 100644
--- a/artist/raytracing/blocking.py
+++ b/artist/raytracing/blocking.py
@@ -219,6 +219,8 @@ def soft_ray_blocking_mask(
     softness: float = 1000.0,
     alpha: float = 100.0,
     ray_origin_offset: float = 0.05,
+    intersection_distances_target: torch.Tensor | None = None,
+    own_blocking_primitives: torch.Tensor | None = None,
 ) -> torch.Tensor:
     r"""
     Compute a mask indicating which rays are blocked, using a soft differentiable approach.
@@ -278,6 +280,14 @@ def soft_ray_blocking_mask(
         Shift the ray origins a slight distance away from the heliostat planes to avoid self intersections
         (default is 0.05). The distance is measured in meters, so the default offset pushes the ray origins
         5 cm along the ray direction.
+    intersection_distances_target : torch.Tensor | None
+        Distances from the ray origins to the target, only primitives in front of the target block a ray (default is None).
+        If None, primitives block rays at any distance.
+        Shape is ``[number_of_heliostats, number_of_rays, number_of_combined_surface_points_all_facets]``.
+    own_blocking_primitives : torch.Tensor | None
+        A mask indicating which blocking primitive belongs to the heliostat reflecting the rays, heliostats do not block
+        their own rays (default is None). If None, all primitives block all rays.
+        Shape is ``[number_of_heliostats, number_of_blocking_primitives]``.
 
     Returns
     -------
@@ -345,6 +355,13 @@ def soft_ray_blocking_mask(
     inside_plane = inside_u * inside_v
 
     sigma = inside_plane * blocking_planes_in_front_of_heliostats
+    if intersection_distances_target is not None:
+        sigma = sigma * torch.sigmoid(
+            softness
+            * (intersection_distances_target[..., None] - distances_to_blocking_planes)
+        )
+    if own_blocking_primitives is not None:
+        sigma = sigma * (~own_blocking_primitives)[:, None, None, :]
     sigma = sigma.clamp(0.0, 1.0)
 
     optical_depth = alpha * torch.sum(sigma, dim=-1)
diff --git a/artist/raytracing/heliostat_ray_tracer.py b/artist/raytracing/heliostat_ray_tracer.py
index e832d92..90b23a3 100644
--- a/artist/raytracing/heliostat_ray_tracer.py
+++ b/artist/raytracing/heliostat_ray_tracer.py
@@ -457,6 +457,12 @@ class HeliostatRayTracer:
                 ray_to_heliostat_mapping = batch_global_indices.repeat_interleave(
                     number_of_rays_per_heliostat
                 )
+                # Rays that miss the target may be blocked anywhere on their way.
+                blocking_distances = torch.where(
+                    intersection_distances_target > 0,
+                    intersection_distances_target,
+                    torch.inf,
+                )
 
                 # Filter out the blocking primitives that are relevant for blocking.
                 filtered_blocking_primitive_indices = blocking.lbvh_filter_blocking_planes(
@@ -466,7 +472,7 @@ class HeliostatRayTracer:
                     ray_directions=rays.ray_directions,
                     blocking_primitives_corners=blocking_primitives_corners,
                     ray_to_heliostat_mapping=ray_to_heliostat_mapping,
-                    intersection_distances_target=intersection_distances_target,
+                    intersection_distances_target=blocking_distances,
                     device=device,
                 )
                 # Create the blocked ray mask based on the relevant blocking primitive indices.
@@ -487,6 +493,9 @@ class HeliostatRayTracer:
                         ],
                         epsilon=1e-12,
                         softness=1000.0,
+                        intersection_distances_target=blocking_distances,
+                        own_blocking_primitives=batch_global_indices[:, None]
+                        == filtered_blocking_primitive_indices[None, :],
                     )
 
             intensities = (
-- 
2.43.0


From 5599128545ee7688ff78f9e2f4d34a82054e30e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:18 +0000
Subject: [PATCH 13/35] fix: reject negative single target area indices in
 index_mapping

---
 artist/scenario/scenario.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artist/scenario/scenario.py b/artist/scenario/scenario.py
index d493f60..6632f30 100644
--- a/artist/scenario/scenario.py
+++ b/artist/scenario/scenario.py
@@ -332,7 +332,7 @@ class Scenario:
                 raise ValueError(
                     "The specified single incident ray direction is invalid. Please provide a normalized 4D tensor with last element 0.0."
                 )
-            if single_target_area_index >= total_number_of_target_areas:
+            if not 0 <= single_target_area_index < total_number_of_target_areas:
                 raise ValueError(
                     f"The specified single target area index is invalid. Only {total_number_of_target_areas} target areas exist in this scenario."
                 )
-- 
2.43.0


From ce2104ffe2b85e0e3e4b701d956961fe30db034b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:48 +0000
Subject: [PATCH 14/35] fix: keep an own copy of the activation mask

---
 artist/field/heliostat_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artist/field/heliostat_group.py b/artist/field/heliostat_group.py
index d2b7e25..b484b72 100644
--- a/artist/field/heliostat_group.py
+++ b/artist/field/heliostat_group.py
@@ -254,7 +254,7 @@ class HeliostatGroup:
             )
 
         self.number_of_active_heliostats = active_heliostats_mask.sum().item()
-        self.active_heliostats_mask = active_heliostats_mask
+        self.active_heliostats_mask = active_heliostats_mask.clone()
         self.active_surface_points = self.surface_points.repeat_interleave(
             active_heliostats_mask, dim=0
         )
-- 
2.43.0


From 5554fe9becaebc60ee2ee8eb690f5c3d85943cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:02 +0000
Subject: [PATCH 15/35] fix: return the orientations that belong to the stored
 motor positions if the alignment iteration did not converge

---
 artist/field/kinematics_rigid_body.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/artist/field/kinematics_rigid_body.py b/artist/field/kinematics_rigid_body.py
index e14361d..3e6f8e5 100644
--- a/artist/field/kinematics_rigid_body.py
+++ b/artist/field/kinematics_rigid_body.py
@@ -628,6 +628,12 @@ class RigidBody(Kinematics):
             motor_positions = self._compute_motor_positions_from_normal(
                 normals=desired_concentrator_normals, device=device
             )
+        else:
+            # Without convergence the orientations still belong to the previous motor positions.
+            orientations = self._compute_orientations_from_motor_positions(
+                motor_positions=motor_positions,
+                device=device,
+            )
 
         self.active_motor_positions = motor_positions
 
-- 
2.43.0


From a668ea718ac9f594e06fda208ab7035a615a5843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:45 +0000
Subject: [PATCH 16/35] fix: choose joint angles that the linear actuators can
 actually reach

---
 artist/field/kinematics_rigid_body.py | 69 +++++++++++++++++++++++++--
 1 file changed, 66 insertions(+), 3 deletions(-)

diff --git a/artist/field/kinematics_rigid_body.py b/artist/field/kinematics_rigid_body.py
index 3e6f8e5..f5dcb95 100644
--- a/artist/field/kinematics_rigid_body.py
+++ b/artist/field/kinematics_rigid_body.py
@@ -467,12 +467,18 @@ class RigidBody(Kinematics):
         )
 
         # Determine possible motor positions.
+        joint_angles_1 = torch.stack(
+            [first_joint_angle_1, second_joint_angle_1], dim=-1
+        )
+        joint_angles_2 = torch.stack(
+            [first_joint_angle_2, second_joint_angle_2], dim=-1
+        )
         motor_positions_1 = self.actuators.angles_to_motor_positions(
-            angles=torch.stack([first_joint_angle_1, second_joint_angle_1], dim=-1),
+            angles=joint_angles_1,
             device=device,
         )
         motor_positions_2 = self.actuators.angles_to_motor_positions(
-            angles=torch.stack([first_joint_angle_2, second_joint_angle_2], dim=-1),
+            angles=joint_angles_2,
             device=device,
         )
 
@@ -486,6 +492,20 @@ class RigidBody(Kinematics):
         valid_1 = (motor_positions_1 >= min_pos) & (motor_positions_1 <= max_pos)
         valid_2 = (motor_positions_2 >= min_pos) & (motor_positions_2 <= max_pos)
 
+        # Joint angles beyond the mechanical range of an actuator are mapped to motor positions that may lie
+        # within the limits but produce different joint angles.
+        within_limits_1 = valid_1.all(dim=1)
+        valid_1 = valid_1 & self._motor_positions_produce_joint_angles(
+            motor_positions=motor_positions_1,
+            joint_angles=joint_angles_1,
+            device=device,
+        )
+        valid_2 = valid_2 & self._motor_positions_produce_joint_angles(
+            motor_positions=motor_positions_2,
+            joint_angles=joint_angles_2,
+            device=device,
+        )
+
         solution_1_valid = valid_1.all(dim=1)
         solution_2_valid = valid_2.all(dim=1)
 
@@ -500,13 +520,56 @@ class RigidBody(Kinematics):
             )
 
         motor_positions = torch.where(
-            solution_1_valid[:, None],
+            (solution_1_valid | (within_limits_1 & ~solution_2_valid))[:, None],
             motor_positions_1,
             motor_positions_2,
         )
 
         return motor_positions
 
+    def _motor_positions_produce_joint_angles(
+        self,
+        motor_positions: torch.Tensor,
+        joint_angles: torch.Tensor,
+        tolerance: float = 1e-2,
+        device: torch.device | None = None,
+    ) -> torch.Tensor:
+        """
+        Check whether the actuators reach the joint angles with the motor positions computed for them.
+
+        Parameters
+        ----------
+        motor_positions : torch.Tensor
+            The motor positions.
+            Shape is ``[number_of_active_heliostats, 2]``.
+        joint_angles : torch.Tensor
+            The requested joint angles.
+            Shape is ``[number_of_active_heliostats, 2]``.
+        tolerance : float
+            Allowed deviation of the joint angles in radians (default is 1e-2).
+        device : torch.device | None
+            The device on which to perform computations or load tensors and models (default is None).
+            If None, ``ARTIST`` will automatically select the most appropriate
+            device (CUDA or CPU) based on availability and OS.
+
+        Returns
+        -------
+        torch.Tensor
+            Indicator of the actuators that reach the requested joint angle.
+            Shape is ``[number_of_active_heliostats, 2]``.
+        """
+        with torch.no_grad():
+            deviations = (
+                self.actuators.motor_positions_to_angles(
+                    motor_positions=motor_positions, device=device
+                )
+                - joint_angles
+            )
+            return (
+                torch.atan2(torch.sin(deviations), torch.cos(deviations)).abs()
+                <= tolerance
+            )
+
     def motor_positions_to_orientations(
         self, motor_positions: torch.Tensor, device: torch.device | None = None
     ) -> torch.Tensor:
-- 
2.43.0


From aa834f09503cad83999cd3cd9d92d080b6497ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:20 +0000
Subject: [PATCH 17/35] fix: span search of non-uniform NURBS for several
 surfaces and facets

---
 artist/nurbs/surfaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artist/nurbs/surfaces.py b/artist/nurbs/surfaces.py
index f238c88..61005d1 100644
--- a/artist/nurbs/surfaces.py
+++ b/artist/nurbs/surfaces.py
@@ -233,7 +233,7 @@ class NURBSSurfaces(torch.nn.Module):
             )
             is_last_knot = torch.isclose(
                 evaluation_points,
-                knot_vectors[:, :, number_of_knots],
+                knot_vectors[:, :, number_of_knots : number_of_knots + 1],
                 atol=1e-5,
                 rtol=1e-5,
             )
-- 
2.43.0


From 4542565d196b645197b214a16910d57686125010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:37 +0000
Subject: [PATCH 18/35] fix: select measured fluxes and calibration data of the
 same samples

A heliostat that is listed several times kept only the images of its last entry,
and a sample limit of zero was treated as no limit.
---
 artist/io/calibration_parser.py       | 15 ++++++---------
 artist/io/paint_calibration_parser.py |  7 +++++--
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/artist/io/calibration_parser.py b/artist/io/calibration_parser.py
index 405576e..d33be6f 100644
--- a/artist/io/calibration_parser.py
+++ b/artist/io/calibration_parser.py
@@ -1,5 +1,6 @@
 import logging
 import pathlib
+from collections import defaultdict
 
 import numpy as np
 import torch
@@ -158,13 +159,12 @@ class CalibrationDataParser:
         )
 
         width, height = resolution.to(device).tolist()
-        path_mapping_dict = dict(heliostat_flux_path_mapping)
+        paths_per_heliostat: defaultdict[str, list[pathlib.Path]] = defaultdict(list)
+        for heliostat_name, flux_paths in heliostat_flux_path_mapping:
+            paths_per_heliostat[heliostat_name].extend(flux_paths)
 
         total_number_of_measurements = sum(
-            min(
-                len(path_mapping_dict.get(name, [])),
-                self.sample_limit or len(path_mapping_dict.get(name, [])),
-            )
+            len(paths_per_heliostat[name][: self.sample_limit])
             for name in heliostat_names
         )
 
@@ -180,10 +180,7 @@ class CalibrationDataParser:
 
         index = 0
         for heliostat_name in heliostat_names:
-            paths = path_mapping_dict.get(heliostat_name, [])
-            number_of_measurements = min(len(paths), self.sample_limit or len(paths))
-
-            for path in paths[:number_of_measurements]:
+            for path in paths_per_heliostat[heliostat_name][: self.sample_limit]:
                 bitmap_tensor = (
                     torchvision.io.decode_image(
                         str(path), mode=torchvision.io.ImageReadMode.GRAY
diff --git a/artist/io/paint_calibration_parser.py b/artist/io/paint_calibration_parser.py
index 9c1f390..8cb720e 100644
--- a/artist/io/paint_calibration_parser.py
+++ b/artist/io/paint_calibration_parser.py
@@ -222,9 +222,12 @@ class PaintCalibrationDataParser(CalibrationDataParser):
         replication_counter: Counter[str] = Counter()
         calibration_data_per_heliostat = defaultdict(list)
 
+        paths_per_heliostat: defaultdict[str, list[pathlib.Path]] = defaultdict(list)
         for heliostat_name, paths in heliostat_calibration_mapping:
-            number_of_measurements = min(len(paths), self.sample_limit or len(paths))
-            for path in paths[:number_of_measurements]:
+            paths_per_heliostat[heliostat_name].extend(paths)
+
+        for heliostat_name, paths in paths_per_heliostat.items():
+            for path in paths[: self.sample_limit]:
                 with open(path, "r") as f:
                     calibration_data_dict = json.load(f)
                 replication_counter[heliostat_name] += 1
-- 
2.43.0


From a2f9ae7a8125c5e20fbb9e24d7904bfe2dffca9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:37 +0000
Subject: [PATCH 19/35] fix: shuffle measurements independently of the file
 system's order

---
 artist/io/paint_scenario_parser.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/artist/io/paint_scenario_parser.py b/artist/io/paint_scenario_parser.py
index e89904c..7e5885f 100644
--- a/artist/io/paint_scenario_parser.py
+++ b/artist/io/paint_scenario_parser.py
@@ -1102,14 +1102,12 @@ def build_heliostat_data_mapping(
             log.warning(f"Calibration directory for {name} not found.")
             continue
 
-        property_files = list(
+        property_files = sorted(
             calibration_dir.glob(f"*{paint_mappings.CALIBRATION_PROPERTIES_IDENTIFIER}")
         )
 
         if randomize:
             random.Random(seed).shuffle(property_files)
-        else:
-            property_files.sort()
 
         properties, images = [], []
 
-- 
2.43.0


From 5289f92bdb7ab53882a70f8d75e346ebee005418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:35 +0000
Subject: [PATCH 20/35] fix: keep scenarios with only planar or only
 cylindrical target areas loadable

---
 artist/scenario/h5_scenario_generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/artist/scenario/h5_scenario_generator.py b/artist/scenario/h5_scenario_generator.py
index fc02de2..96dbf9c 100644
--- a/artist/scenario/h5_scenario_generator.py
+++ b/artist/scenario/h5_scenario_generator.py
@@ -212,6 +212,8 @@ class H5ScenarioGenerator:
         parameters : dict[str, Any]
             The parameters to be included into the HDF5 file.
         """
+        # The group must also exist if there is nothing to include, e.g., for a tower without cylindrical target areas.
+        file.require_group(prefix)
         for key, value in parameters.items():
             if torch.is_tensor(value):
                 value = value.cpu()
-- 
2.43.0


From 9d080191106d0ebd783e8628f1f44e76d78c8bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:10 +0000
Subject: [PATCH 21/35] fix: reject scenario descriptions with ambiguous names

---
 artist/field/solar_tower.py |  4 ++++
 artist/util/config.py       | 12 ++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/artist/field/solar_tower.py b/artist/field/solar_tower.py
index 585896a..ca8eac9 100644
--- a/artist/field/solar_tower.py
+++ b/artist/field/solar_tower.py
@@ -83,6 +83,10 @@ class SolarTower:
             for name in target_area_type.names:
                 self.target_name_to_index[name] = idx
                 idx += 1
+        if len(self.target_name_to_index) != idx:
+            raise ValueError(
+                "The names of the planar and cylindrical target areas must be unique."
+            )
 
         self.index_to_target_area = []
         for target_area_type in self.target_areas:
diff --git a/artist/util/config.py b/artist/util/config.py
index fee9962..28f677d 100644
--- a/artist/util/config.py
+++ b/artist/util/config.py
@@ -156,6 +156,9 @@ class TargetAreaPlanarListConfig:
         dict[str, Any]
             A dictionary containing the configuration parameters for the list of planar target areas.
         """
+        names = [target_area.target_area_key for target_area in self.target_area_list]
+        if len(set(names)) != len(names):
+            raise ValueError("The keys of the target areas must be unique.")
         return {
             target_area.target_area_key: target_area.create_target_area_dict()
             for target_area in self.target_area_list
@@ -283,6 +286,9 @@ class TargetAreaCylindricalListConfig:
         dict[str, Any]
             A dictionary containing the configuration parameters for the list of cylindrical target areas.
         """
+        names = [target_area.target_area_key for target_area in self.target_area_list]
+        if len(set(names)) != len(names):
+            raise ValueError("The keys of the target areas must be unique.")
         return {
             target_area.target_area_key: target_area.create_target_area_dict()
             for target_area in self.target_area_list
@@ -415,6 +421,9 @@ class LightSourceListConfig:
         dict[str, Any]
             A dictionary containing the configuration parameters for the light source list.
         """
+        names = [ls.light_source_key for ls in self.light_source_list]
+        if len(set(names)) != len(names):
+            raise ValueError("The keys of the light sources must be unique.")
         return {
             ls.light_source_key: ls.create_light_source_dict()
             for ls in self.light_source_list
@@ -1233,6 +1242,9 @@ class HeliostatListConfig:
         dict[str, Any]
             A dictionary containing the heliostat list configuration parameters.
         """
+        names = [heliostat.name for heliostat in self.heliostat_list]
+        if len(set(names)) != len(names):
+            raise ValueError("The names of the heliostats must be unique.")
         return {
             heliostat.name: heliostat.create_heliostat_config_dict()
             for heliostat in self.heliostat_list
-- 
2.43.0


From 7a866b47f8d006faf2e437fbe1fba6cc28f4a356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:45 +0000
Subject: [PATCH 22/35] fix: update surfaces at the same sample positions as
 they are loaded

The update of the surfaces assumed as many points in the east as in the north
direction of a facet, so rectangular samplings were replaced by another number of
points or failed.
---
 artist/field/heliostat_field.py | 40 ++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/artist/field/heliostat_field.py b/artist/field/heliostat_field.py
index 7d5f7b5..1d0f946 100644
--- a/artist/field/heliostat_field.py
+++ b/artist/field/heliostat_field.py
@@ -53,6 +53,7 @@ class HeliostatField:
     def __init__(
         self,
         heliostat_groups: Sequence[HeliostatGroup],
+        number_of_surface_points_per_facet: torch.Tensor | None = None,
         device: torch.device | None = None,
     ) -> None:
         """
@@ -62,12 +63,17 @@ class HeliostatField:
         ----------
         heliostat_groups : Sequence[HeliostatGroup]
             A list containing all heliostat groups.
+        number_of_surface_points_per_facet : torch.Tensor | None
+            The number of surface points per facet in the east and north direction (default is None).
+            If None, all facets are assumed to be sampled equally in both directions.
+            Shape is ``[2]``.
         device : torch.device | None
             The device on which to perform computations or load tensors and models (default is None).
             If None, ``ARTIST`` will automatically select the most appropriate
             device (CUDA or CPU) based on availability and OS.
         """
         self.heliostat_groups = heliostat_groups
+        self.number_of_surface_points_per_facet = number_of_surface_points_per_facet
         self.number_of_heliostat_groups = len(self.heliostat_groups)
         self.number_of_heliostats_per_group = torch.tensor(
             [
@@ -435,7 +441,11 @@ class HeliostatField:
                     f"Added a heliostat group with kinematics type: {grouped_field_data[heliostat_group_name][constants.heliostat_group_type][indices.kinematics_type_index]}, and actuator type: {grouped_field_data[heliostat_group_name][constants.heliostat_group_type][indices.actuator_type_index]}, to the heliostat field."
                 )
 
-        return cls(heliostat_groups=heliostat_groups, device=device)
+        return cls(
+            heliostat_groups=heliostat_groups,
+            number_of_surface_points_per_facet=number_of_surface_points_per_facet,
+            device=device,
+        )
 
     def update_surfaces(
         self,
@@ -454,21 +464,25 @@ class HeliostatField:
         device = get_device(device=device)
 
         for heliostat_group in self.heliostat_groups:
-            number_of_surface_points_per_facet = int(
-                math.sqrt(
-                    heliostat_group.surface_points.shape[1]
-                    / heliostat_group.number_of_facets_per_heliostat
+            if self.number_of_surface_points_per_facet is None:
+                number_of_surface_points_per_direction = int(
+                    math.sqrt(
+                        heliostat_group.surface_points.shape[1]
+                        / heliostat_group.number_of_facets_per_heliostat
+                    )
                 )
-            )
+                number_of_evaluation_points = torch.tensor(
+                    [
+                        number_of_surface_points_per_direction,
+                        number_of_surface_points_per_direction,
+                    ],
+                    device=device,
+                )
+            else:
+                number_of_evaluation_points = self.number_of_surface_points_per_facet
             evaluation_points = (
                 create_nurbs_evaluation_grid(
-                    number_of_evaluation_points=torch.tensor(
-                        [
-                            number_of_surface_points_per_facet,
-                            number_of_surface_points_per_facet,
-                        ],
-                        device=device,
-                    ),
+                    number_of_evaluation_points=number_of_evaluation_points,
                     device=device,
                 )
                 .unsqueeze(indices.heliostat_dimension)
-- 
2.43.0


From f1f160d1732639fb465fa90d3fcbb1626d6ef295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:51 +0000
Subject: [PATCH 23/35] fix: store fitted control points in the coordinates of
 the facets

Fitted control points include the canting and the translation of the facets, but
canting and translation were applied to them again whenever surfaces were updated
or reconstructed, so the loaded surfaces of such heliostats changed by any update.
---
 artist/field/heliostat_field.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/artist/field/heliostat_field.py b/artist/field/heliostat_field.py
index 1d0f946..0c7bf4b 100644
--- a/artist/field/heliostat_field.py
+++ b/artist/field/heliostat_field.py
@@ -10,6 +10,8 @@ from typing_extensions import Self
 
 from artist.field.heliostat_group import HeliostatGroup
 from artist.field.surface import Surface
+from artist.geometry.coordinates import convert_3d_directions_to_4d_format
+from artist.geometry.transforms import perform_canting
 from artist.io import h5_scenario_parser
 from artist.nurbs.surfaces import NURBSSurfaces
 from artist.nurbs.utils import (
@@ -314,6 +316,20 @@ class HeliostatField:
                     canting=canting,
                     device=device,
                 )
+            elif torch.any(control_points[..., indices.u] != 0):
+                # Fitted control points already include the canting and the translation of each facet.
+                # They are stored in the coordinates of the facets, like the control points of ideal
+                # surfaces, since canting and translation are applied when surfaces are evaluated.
+                centered_control_points = (
+                    convert_3d_directions_to_4d_format(control_points, device=device)
+                    - facet_translation_vectors[:, None, None, :]
+                )
+                control_points = perform_canting(
+                    canting_angles=canting.unsqueeze(indices.heliostat_dimension),
+                    data=centered_control_points.reshape(1, number_of_facets, -1, 4),
+                    inverse=True,
+                    device=device,
+                )[..., : indices.slice_fourth_dimension].reshape(control_points.shape)
 
             heliostat_group_key = f"{kinematics_type}_{actuator_type}"
             nurbs_degrees_per_group[heliostat_group_key] = degrees
-- 
2.43.0


From 0ab6f898adcdd5f403ba2d3b459eda2c789e5c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:07 +0000
Subject: [PATCH 24/35] fix: keep optimized motor positions within the motor
 limits

The reparametrization scaled the change of the motor positions by at least 1,
so that motors closer than that to a limit, e.g. all motors of ideal actuators
(in radians), could be moved beyond their limits.
---
 artist/optim/aim_point_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artist/optim/aim_point_optimizer.py b/artist/optim/aim_point_optimizer.py
index 0f7b653..88f8d76 100644
--- a/artist/optim/aim_point_optimizer.py
+++ b/artist/optim/aim_point_optimizer.py
@@ -238,7 +238,7 @@ class AimPointOptimizer:
             lower_margin = initial_motor_positions - motor_positions_minimum
             upper_margin = motor_positions_maximum - initial_motor_positions
             scales_all_groups.append(
-                torch.minimum(lower_margin, upper_margin).clamp(min=1.0)
+                torch.minimum(lower_margin, upper_margin).clamp(min=0.0)
             )
 
             optimizable_parameters_all_groups.append(
-- 
2.43.0


From f50294e5e60bb79f9a4def3f4d979438e6127729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:10 +0000
Subject: [PATCH 25/35] fix: synchronize alignment-driven kinematics
 reconstruction across ranks

The other ranks did not receive the parameters, losses and histories of
groups they did not reconstruct themselves.
---
 artist/optim/kinematics_reconstructor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/artist/optim/kinematics_reconstructor.py b/artist/optim/kinematics_reconstructor.py
index b47d555..0d0117d 100644
--- a/artist/optim/kinematics_reconstructor.py
+++ b/artist/optim/kinematics_reconstructor.py
@@ -876,12 +876,17 @@ class KinematicsReconstructor:
 
                 log.info(f"Rank: {rank}, Kinematics reconstructed.")
 
+        final_loss_history_all_groups = self._synchronize_reconstruction_across_ranks(
+            final_loss_per_heliostat=final_loss_per_heliostat,
+            loss_history=loss_history,
+        )
+
         for heliostat_group in self.scenario.heliostat_field.heliostat_groups:
             heliostat_group.kinematics.rotation_deviation_parameters = (
                 heliostat_group.kinematics.rotation_deviation_parameters.detach()
             )
 
-        return final_loss_per_heliostat.detach().cpu(), [loss_history]
+        return final_loss_per_heliostat.detach().cpu(), final_loss_history_all_groups
 
     def _reconstruct_kinematics_flux_driven(
         self,
-- 
2.43.0


From fa1501d01367074e32986f3a76170b484fa1b883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:59 +0000
Subject: [PATCH 26/35] fix: let ranks that share a heliostat group agree on
 losses and gradients

Ranks decided from the losses of their own heliostats when to end, so that
collective operations did not match; ranks without heliostats failed.
---
 artist/flux/bitmap.py                    |  4 ++
 artist/optim/kinematics_reconstructor.py | 20 ++++++----
 artist/optim/surface_reconstructor.py    | 47 ++++++++++++++++--------
 artist/optim/training.py                 | 45 ++++++++++++++++++++++-
 4 files changed, 92 insertions(+), 24 deletions(-)

diff --git a/artist/flux/bitmap.py b/artist/flux/bitmap.py
index ce24ca9..a4acdc6 100644
--- a/artist/flux/bitmap.py
+++ b/artist/flux/bitmap.py
@@ -165,6 +165,10 @@ def crop_flux_distributions_around_center(
 
     number_of_flux_distributions, image_height, image_width = flux_distributions.shape
 
+    # Ranks without heliostats have nothing to crop.
+    if number_of_flux_distributions == 0:
+        return flux_distributions
+
     # Compute center of mass in normalized image coordinates [-1, 1].
     normalized_mass_map = flux_distributions / (
         flux_distributions.sum(
diff --git a/artist/optim/kinematics_reconstructor.py b/artist/optim/kinematics_reconstructor.py
index 0d0117d..fabea1c 100644
--- a/artist/optim/kinematics_reconstructor.py
+++ b/artist/optim/kinematics_reconstructor.py
@@ -617,7 +617,9 @@ class KinematicsReconstructor:
             reduction=partial(torch.median, dim=1),
         )
 
-        loss = torch.mean(loss_per_heliostat)
+        loss = training.mean_over_heliostats(
+            values_per_heliostat=loss_per_heliostat, ddp_setup=self.ddp_setup
+        )
 
         return loss, loss_per_heliostat, sample_indices_for_local_rank
 
@@ -639,13 +641,15 @@ class KinematicsReconstructor:
             # Reduce gradients within each heliostat group.
             for param_group in optimizer.param_groups:
                 for param in param_group["params"]:
-                    if param.grad is not None:
-                        param.grad = torch.distributed.nn.functional.all_reduce(
-                            param.grad,
-                            op=torch.distributed.ReduceOp.SUM,
-                            group=self.ddp_setup["process_subgroup"],
-                        )
-                        param.grad /= self.ddp_setup["heliostat_group_world_size"]
+                    # Ranks without heliostats have to take part, too.
+                    if param.grad is None:
+                        param.grad = torch.zeros_like(param)
+                    param.grad = torch.distributed.nn.functional.all_reduce(
+                        param.grad,
+                        op=torch.distributed.ReduceOp.SUM,
+                        group=self.ddp_setup["process_subgroup"],
+                    )
+                    param.grad /= self.ddp_setup["heliostat_group_world_size"]
 
     def _synchronize_reconstruction_across_ranks(
         self,
diff --git a/artist/optim/surface_reconstructor.py b/artist/optim/surface_reconstructor.py
index 7e20666..8b81413 100644
--- a/artist/optim/surface_reconstructor.py
+++ b/artist/optim/surface_reconstructor.py
@@ -254,15 +254,17 @@ class SurfaceReconstructor:
             device=device,
         )
 
+        indices_for_local_rank = ray_tracer.get_sampler_indices()
+
         cropped_flux_distributions = bitmap.crop_flux_distributions_around_center(
             flux_distributions=flux_prediction,
             solar_tower=self.scenario.solar_tower,
-            target_area_indices=data_split.target_area_indices_test,
+            target_area_indices=data_split.target_area_indices_test[
+                indices_for_local_rank
+            ],
             device=device,
         )
 
-        indices_for_local_rank = ray_tracer.get_sampler_indices()
-
         loss_pixel_per_sample = self.validation_loss_pixel(
             prediction=cropped_flux_distributions,
             ground_truth=data_split.flux_measured_test[indices_for_local_rank],
@@ -732,15 +734,25 @@ class SurfaceReconstructor:
                 device=device,
             )
         # Dynamic balancing of regularization magnitudes relative to data term.
+        mean_flux_loss, mean_smoothness_loss, mean_ideal_surface_loss = (
+            training.mean_over_heliostats(
+                values_per_heliostat=values, ddp_setup=self.ddp_setup
+            )
+            for values in (
+                flux_loss_per_heliostat,
+                smoothness_loss_per_heliostat,
+                ideal_surface_loss_per_heliostat,
+            )
+        )
         alpha = (
             weight_smoothness
-            * flux_loss_per_heliostat.mean()
-            / (smoothness_loss_per_heliostat.mean() + torch.tensor(self.epsilon))
+            * mean_flux_loss
+            / (mean_smoothness_loss + torch.tensor(self.epsilon))
         )
         beta = (
             weight_ideal_surface
-            * flux_loss_per_heliostat.mean()
-            / (ideal_surface_loss_per_heliostat.mean() + torch.tensor(self.epsilon))
+            * mean_flux_loss
+            / (mean_ideal_surface_loss + torch.tensor(self.epsilon))
         )
         return (
             alpha,
@@ -771,13 +783,15 @@ class SurfaceReconstructor:
             # Reduce gradients within each heliostat group.
             for param_group in optimizer.param_groups:
                 for param in param_group["params"]:
-                    if param.grad is not None:
-                        torch.distributed.all_reduce(
-                            param.grad,
-                            op=torch.distributed.ReduceOp.SUM,
-                            group=self.ddp_setup["process_subgroup"],
-                        )
-                        param.grad /= self.ddp_setup["heliostat_group_world_size"]
+                    # Ranks without heliostats have to take part, too.
+                    if param.grad is None:
+                        param.grad = torch.zeros_like(param)
+                    torch.distributed.all_reduce(
+                        param.grad,
+                        op=torch.distributed.ReduceOp.SUM,
+                        group=self.ddp_setup["process_subgroup"],
+                    )
+                    param.grad /= self.ddp_setup["heliostat_group_world_size"]
 
         # Geometry-preserving constraint: Keep the surfaces in their original geometric shape by locking
         # the control points on the outer edges, i.e., zero/fix gradient on outer-edge control points.
@@ -1052,7 +1066,10 @@ class SurfaceReconstructor:
                         + beta * ideal_surface_loss_per_heliostat
                     )
 
-                    total_loss = torch.mean(total_loss_per_heliostat)
+                    total_loss = training.mean_over_heliostats(
+                        values_per_heliostat=total_loss_per_heliostat,
+                        ddp_setup=self.ddp_setup,
+                    )
 
                     total_loss.backward()
 
diff --git a/artist/optim/training.py b/artist/optim/training.py
index a44402e..0f3bfca 100644
--- a/artist/optim/training.py
+++ b/artist/optim/training.py
@@ -7,7 +7,7 @@ from torch.optim import Optimizer
 from torch.optim.lr_scheduler import LRScheduler
 
 from artist.util import constants
-from artist.util.env import get_device
+from artist.util.env import DdpSetup, get_device
 
 
 def exponential(
@@ -185,6 +185,49 @@ class EarlyStopping:
         return self.counter >= self.patience
 
 
+def mean_over_heliostats(
+    values_per_heliostat: torch.Tensor, ddp_setup: DdpSetup
+) -> torch.Tensor:
+    """
+    Compute the mean over all heliostats that are reconstructed together.
+
+    In nested distributed data parallel mode the heliostats of a group are distributed among
+    the ranks of a subgroup. All ranks of the subgroup have to call this function, even those
+    without any heliostats, and all of them receive the same mean. As every rank of the subgroup
+    uses the mean, its gradients have to be averaged over the ranks.
+
+    Parameters
+    ----------
+    values_per_heliostat : torch.Tensor
+        The values of the heliostats on this rank.
+        Shape is ``[number_of_heliostats_on_this_rank]``.
+    ddp_setup : DdpSetup
+        Information about the distributed environment.
+
+    Returns
+    -------
+    torch.Tensor
+        The mean over all heliostats on all ranks of the subgroup.
+    """
+    if not ddp_setup["is_nested"]:
+        return torch.mean(values_per_heliostat)
+
+    device = values_per_heliostat.device
+    # Adding a leaf makes ranks without heliostats take part in the backward pass, too.
+    total_and_number = torch.stack(
+        [
+            values_per_heliostat.sum(),
+            torch.tensor(float(values_per_heliostat.numel()), device=device),
+        ]
+    ) + torch.zeros(2, device=device, requires_grad=torch.is_grad_enabled())
+    total_and_number = torch.distributed.nn.functional.all_reduce(
+        total_and_number,
+        op=torch.distributed.ReduceOp.SUM,
+        group=ddp_setup["process_subgroup"],
+    )
+    return total_and_number[0] / total_and_number[1]
+
+
 @dataclass
 class TrainTestSplit:
     """
-- 
2.43.0


From 8cfaabcf16e82d8ddcccf417eee46cef380b68da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:59 +0000
Subject: [PATCH 27/35] fix: let all ranks of an aim point optimization agree

Ranks reduced the gradients of different parameters with each other, computed
different losses as they only knew their own intercept factors, and neglected
that the heliostats of other ranks move. Ranks without heliostats failed.
---
 artist/optim/aim_point_optimizer.py | 31 ++++++++++++++++-------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/artist/optim/aim_point_optimizer.py b/artist/optim/aim_point_optimizer.py
index 88f8d76..59c10a6 100644
--- a/artist/optim/aim_point_optimizer.py
+++ b/artist/optim/aim_point_optimizer.py
@@ -356,9 +356,10 @@ class AimPointOptimizer:
         device: torch.device,
     ) -> None:
         """
-        Align all heliostat groups on this rank from the reparameterized motor positions.
+        Align all heliostat groups from the reparameterized motor positions.
 
         The true motor positions are reconstructed from the ``tanh``-reparameterized parameters.
+        All ranks align all groups, as the heliostats block rays of those of other groups.
 
         Parameters
         ----------
@@ -373,13 +374,9 @@ class AimPointOptimizer:
         device : torch.device
             The device on which to perform computations or load tensors and models.
         """
-        rank = self.ddp_setup["rank"]
-
-        for heliostat_group_index in self.ddp_setup["groups_to_ranks_mapping"][rank]:
-            heliostat_alignment_group: HeliostatGroup = (
-                self.scenario.heliostat_field.heliostat_groups[heliostat_group_index]
-            )
-
+        for heliostat_group_index, heliostat_alignment_group in enumerate(
+            self.scenario.heliostat_field.heliostat_groups
+        ):
             # Reconstruct true motor positions from reparameterized version.
             motor_positions_normalized = torch.tanh(
                 optimizer.param_groups[indices.optimizer_param_group_0]["params"][
@@ -449,6 +446,8 @@ class AimPointOptimizer:
                 int(self.bitmap_resolution[indices.unbatched_bitmap_u]),
                 int(self.bitmap_resolution[indices.unbatched_bitmap_e]),
             ),
+            # Ranks without heliostats have to take part in the backward pass, too.
+            requires_grad=self.ddp_setup["is_distributed"],
             device=device,
         )
         intercept_factors = torch.zeros(
@@ -517,6 +516,8 @@ class AimPointOptimizer:
                 total_flux,
                 op=torch.distributed.ReduceOp.SUM,
             )
+            for factors in (intercept_factors, on_target_factors, blocking_factors):
+                torch.distributed.all_reduce(factors, op=torch.distributed.ReduceOp.SUM)
 
         return total_flux, intercept_factors, on_target_factors, blocking_factors
 
@@ -694,12 +695,14 @@ class AimPointOptimizer:
         if self.ddp_setup[constants.is_distributed]:  # type: ignore
             for param_group in optimizer.param_groups:
                 for param in param_group["params"]:
-                    if param.grad is not None:
-                        torch.distributed.all_reduce(
-                            param.grad, op=torch.distributed.ReduceOp.SUM
-                        )
-                        # Average the gradients.
-                        param.grad /= self.ddp_setup[constants.world_size]  # type: ignore
+                    # All ranks have to take part, even if they do not handle this group.
+                    if param.grad is None:
+                        param.grad = torch.zeros_like(param)
+                    torch.distributed.all_reduce(
+                        param.grad, op=torch.distributed.ReduceOp.SUM
+                    )
+                    # Average the gradients.
+                    param.grad /= self.ddp_setup[constants.world_size]  # type: ignore
 
     def _broadcast_motor_positions(self) -> None:
         """
-- 
2.43.0


From 8a25250a3358cc8867e56e3626f08e35af265e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:29 +0000
Subject: [PATCH 28/35] fix: optimize for zero epochs without logging

---
 artist/optim/aim_point_optimizer.py      | 2 +-
 artist/optim/kinematics_reconstructor.py | 4 ++--
 artist/optim/surface_reconstructor.py    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/artist/optim/aim_point_optimizer.py b/artist/optim/aim_point_optimizer.py
index 59c10a6..de3a518 100644
--- a/artist/optim/aim_point_optimizer.py
+++ b/artist/optim/aim_point_optimizer.py
@@ -835,7 +835,7 @@ class AimPointOptimizer:
         loss = torch.tensor(torch.inf)
         epoch = 0
         log_step = (
-            self.optimizer_dict[constants.max_epoch]
+            max(1, self.optimizer_dict[constants.max_epoch])
             if self.optimizer_dict[constants.log_step] == 0
             else self.optimizer_dict[constants.log_step]
         )
diff --git a/artist/optim/kinematics_reconstructor.py b/artist/optim/kinematics_reconstructor.py
index fabea1c..0b261cd 100644
--- a/artist/optim/kinematics_reconstructor.py
+++ b/artist/optim/kinematics_reconstructor.py
@@ -803,7 +803,7 @@ class KinematicsReconstructor:
                 loss = torch.inf
                 epoch = 0
                 log_step = (
-                    self.optimizer_dict[constants.max_epoch]
+                    max(1, self.optimizer_dict[constants.max_epoch])
                     if self.optimizer_dict[constants.log_step] == 0
                     else self.optimizer_dict[constants.log_step]
                 )
@@ -978,7 +978,7 @@ class KinematicsReconstructor:
                 loss = torch.inf
                 epoch = 0
                 log_step = (
-                    self.optimizer_dict[constants.max_epoch]
+                    max(1, self.optimizer_dict[constants.max_epoch])
                     if self.optimizer_dict[constants.log_step] == 0
                     else self.optimizer_dict[constants.log_step]
                 )
diff --git a/artist/optim/surface_reconstructor.py b/artist/optim/surface_reconstructor.py
index 8b81413..2e3bcd8 100644
--- a/artist/optim/surface_reconstructor.py
+++ b/artist/optim/surface_reconstructor.py
@@ -977,7 +977,7 @@ class SurfaceReconstructor:
                 total_loss = torch.inf
                 epoch = 0
                 log_step = (
-                    self.optimizer_dict[constants.max_epoch]
+                    max(1, self.optimizer_dict[constants.max_epoch])
                     if self.optimizer_dict[constants.log_step] == 0
                     else self.optimizer_dict[constants.log_step]
                 )
-- 
2.43.0


From 2a79add17db3d912f2548860f903714aa9f10d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:15 +0000
Subject: [PATCH 29/35] fix: read tower measurements independent of the order
 of their entries

---
 artist/io/paint_scenario_parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/artist/io/paint_scenario_parser.py b/artist/io/paint_scenario_parser.py
index 7e5885f..98e67ba 100644
--- a/artist/io/paint_scenario_parser.py
+++ b/artist/io/paint_scenario_parser.py
@@ -81,7 +81,11 @@ def extract_paint_tower_measurements(
     target_area_planar_configs: list[TargetAreaPlanarConfig] = []
     target_area_cylindrical_configs: list[TargetAreaCylindricalConfig] = []
 
-    for target_area in list(tower_dict.keys())[1:]:
+    for target_area in tower_dict.keys():
+        # The power plant properties are not a target area.
+        if target_area == paint_mappings.POWER_PLANT_KEY:
+            continue
+
         if tower_dict[target_area][paint_mappings.TOWER_TYPE_KEY] == "planar":
             target_area_corners = [
                 paint_mappings.UPPER_LEFT,
-- 
2.43.0


From 662afa0ba06c678822df7288ed270cf213217660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:15 +0000
Subject: [PATCH 30/35] fix: accept integer normal vectors of cylindrical
 target areas

---
 artist/io/paint_scenario_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/artist/io/paint_scenario_parser.py b/artist/io/paint_scenario_parser.py
index 98e67ba..1415955 100644
--- a/artist/io/paint_scenario_parser.py
+++ b/artist/io/paint_scenario_parser.py
@@ -185,7 +185,9 @@ def extract_paint_tower_measurements(
                 torch.tensor(tower_dict[target_area]["opening_angle"], device=device)
             )
             normal = torch.tensor(
-                tower_dict[target_area]["normal_vector"], device=device
+                tower_dict[target_area]["normal_vector"],
+                dtype=torch.float,
+                device=device,
             )
             ortho_radius = torch.cross(
                 normal, torch.tensor([0.0, 0.0, 1.0], device=device), dim=-1
-- 
2.43.0


From 074af57a5c9dfc4b40d32b30c3235fdbf9ef8f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:15 +0000
Subject: [PATCH 31/35] fix: locate the center of cylindrical target areas of a
 half circle and wider

---
 artist/io/paint_scenario_parser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/artist/io/paint_scenario_parser.py b/artist/io/paint_scenario_parser.py
index 1415955..9df1daa 100644
--- a/artist/io/paint_scenario_parser.py
+++ b/artist/io/paint_scenario_parser.py
@@ -203,11 +203,13 @@ def extract_paint_tower_measurements(
             chord_lower = lower_right - lower_left
             chord_upper = upper_right - upper_left
 
-            distance_to_center_lower = torch.sqrt(
-                radius**2 - (torch.norm(chord_lower) / 2) ** 2
+            # The chords of arches wider than a half circle lie behind the center.
+            chord_side = torch.sign(torch.cos(opening_angle / 2))
+            distance_to_center_lower = chord_side * torch.sqrt(
+                torch.clamp(radius**2 - (torch.norm(chord_lower) / 2) ** 2, min=0.0)
             )
-            distance_to_center_upper = torch.sqrt(
-                radius**2 - (torch.norm(chord_upper) / 2) ** 2
+            distance_to_center_upper = chord_side * torch.sqrt(
+                torch.clamp(radius**2 - (torch.norm(chord_upper) / 2) ** 2, min=0.0)
             )
 
             center_lower = midpoint_lower - normal * distance_to_center_lower
-- 
2.43.0


From 67749b4598d88907e450852bc2463f851e119f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:46 +0000
Subject: [PATCH 32/35] fix: extract mixed surfaces if all heliostats are ideal
 or all are fitted

---
 artist/io/paint_scenario_parser.py | 61 +++++++++++++++++-------------
 1 file changed, 35 insertions(+), 26 deletions(-)

diff --git a/artist/io/paint_scenario_parser.py b/artist/io/paint_scenario_parser.py
index 9df1daa..cf69710 100644
--- a/artist/io/paint_scenario_parser.py
+++ b/artist/io/paint_scenario_parser.py
@@ -971,7 +971,7 @@ def extract_paint_heliostats_mixed_surface(
     HeliostatListConfig
         The configuration of all heliostats in the scenario.
     PrototypeConfig
-        The configuration for a heliostat prototype. This is always based on an ideal surface.
+        The configuration for a heliostat prototype. This is based on an ideal surface, unless all surfaces are fitted.
     """
     device = get_device(device=device)
 
@@ -985,39 +985,48 @@ def extract_paint_heliostats_mixed_surface(
         else:
             ideal_paths.append(path_tuple)
 
+    combined_heliostat_list: list[HeliostatConfig] = []
+    prototype_configs: list[PrototypeConfig] = []
+
     # Process ideal heliostats.
-    ideal_heliostats_config, prototype_config = _process_heliostats_from_paths(
-        paths=ideal_paths,
-        power_plant_position=power_plant_position,
-        number_of_nurbs_control_points=number_of_nurbs_control_points,
-        surface_config_generator=_ideal_surface_generator,
-        device=device,
-    )
+    if ideal_paths:
+        ideal_heliostats_config, ideal_prototype_config = (
+            _process_heliostats_from_paths(
+                paths=ideal_paths,
+                power_plant_position=power_plant_position,
+                number_of_nurbs_control_points=number_of_nurbs_control_points,
+                surface_config_generator=_ideal_surface_generator,
+                device=device,
+            )
+        )
+        combined_heliostat_list.extend(ideal_heliostats_config.heliostat_list)
+        prototype_configs.append(ideal_prototype_config)
 
     # Process fitted heliostats.
-    fitted_heliostats_config, _ = _process_heliostats_from_paths(
-        paths=fitted_paths,
-        power_plant_position=power_plant_position,
-        number_of_nurbs_control_points=number_of_nurbs_control_points,
-        surface_config_generator=_fitted_surface_generator,
-        device=device,
-        nurbs_fit_optimizer=nurbs_fit_optimizer,
-        nurbs_fit_scheduler=nurbs_fit_scheduler,
-        deflectometry_step_size=deflectometry_step_size,
-        nurbs_fit_method=nurbs_fit_method,
-        nurbs_fit_tolerance=nurbs_fit_tolerance,
-        nurbs_fit_max_epoch=nurbs_fit_max_epoch,
-    )
+    if fitted_paths:
+        fitted_heliostats_config, fitted_prototype_config = (
+            _process_heliostats_from_paths(
+                paths=fitted_paths,
+                power_plant_position=power_plant_position,
+                number_of_nurbs_control_points=number_of_nurbs_control_points,
+                surface_config_generator=_fitted_surface_generator,
+                device=device,
+                nurbs_fit_optimizer=nurbs_fit_optimizer,
+                nurbs_fit_scheduler=nurbs_fit_scheduler,
+                deflectometry_step_size=deflectometry_step_size,
+                nurbs_fit_method=nurbs_fit_method,
+                nurbs_fit_tolerance=nurbs_fit_tolerance,
+                nurbs_fit_max_epoch=nurbs_fit_max_epoch,
+            )
+        )
+        combined_heliostat_list.extend(fitted_heliostats_config.heliostat_list)
+        prototype_configs.append(fitted_prototype_config)
 
-    # Combine the lists.
-    combined_heliostat_list = (
-        ideal_heliostats_config.heliostat_list + fitted_heliostats_config.heliostat_list
-    )
     combined_heliostat_list_config = HeliostatListConfig(
         heliostat_list=combined_heliostat_list
     )
 
-    return combined_heliostat_list_config, prototype_config
+    return combined_heliostat_list_config, prototype_configs[0]
 
 
 def corner_points_to_plane(
-- 
2.43.0


From 9fd0582f18b748be276c1c9059dc6b020cd2060e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:46 +0000
Subject: [PATCH 33/35] fix: give the heliostats of mixed surfaces unique ids

---
 artist/io/paint_scenario_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/artist/io/paint_scenario_parser.py b/artist/io/paint_scenario_parser.py
index cf69710..db04504 100644
--- a/artist/io/paint_scenario_parser.py
+++ b/artist/io/paint_scenario_parser.py
@@ -1022,6 +1022,10 @@ def extract_paint_heliostats_mixed_surface(
         combined_heliostat_list.extend(fitted_heliostats_config.heliostat_list)
         prototype_configs.append(fitted_prototype_config)
 
+    # Both lists are numbered from zero, the heliostats need to be numbered across the lists.
+    for heliostat_index, heliostat_config in enumerate(combined_heliostat_list):
+        heliostat_config.heliostat_id = heliostat_index
+
     combined_heliostat_list_config = HeliostatListConfig(
         heliostat_list=combined_heliostat_list
     )
-- 
2.43.0


From 26858b133bcaa84b87637454d14f476e0085b301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:46 +0000
Subject: [PATCH 34/35] fix: fit each surface independently of the surfaces
 fitted before

---
 artist/scenario/surface_generator.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/artist/scenario/surface_generator.py b/artist/scenario/surface_generator.py
index 3351328..d6e4bd0 100644
--- a/artist/scenario/surface_generator.py
+++ b/artist/scenario/surface_generator.py
@@ -1,3 +1,4 @@
+import copy
 import logging
 
 import torch
@@ -191,6 +192,10 @@ class SurfaceGenerator:
             {"params": nurbs_surface.control_points.requires_grad_()}
         )
 
+        # Remember the state of the scheduler, the next surface to be fitted must start from the same state.
+        if scheduler:
+            initial_scheduler_state = copy.deepcopy(scheduler.state_dict())
+
         loss = torch.inf
         epoch = 0
         while loss > tolerance and epoch <= max_epoch:
@@ -220,6 +225,9 @@ class SurfaceGenerator:
                 )
             epoch += 1
 
+        if scheduler:
+            scheduler.load_state_dict(initial_scheduler_state)
+
         return nurbs_surface
 
     def generate_fitted_surface_config(
-- 
2.43.0


From 8933c1a8303b46cb77e96762fb7a663192901e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:06 +0000
Subject: [PATCH 35/35] fix: convert coordinates on both sides of the
 antimeridian

---
 artist/geometry/coordinates.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/artist/geometry/coordinates.py b/artist/geometry/coordinates.py
index dfa622b..1f08c79 100644
--- a/artist/geometry/coordinates.py
+++ b/artist/geometry/coordinates.py
@@ -378,6 +378,12 @@ def convert_wgs84_coordinates_to_local_enu(
     # Calculate delta latitude and delta longitude in radians.
     dlat_rad = latitude_reference_point - latitudes
     dlon_rad = longitude_reference_point - longitudes
+    # Longitudes start anew at the antimeridian.
+    dlon_rad = torch.where(
+        dlon_rad.abs() > torch.pi,
+        dlon_rad - 2 * torch.pi * torch.sign(dlon_rad),
+        dlon_rad,
+    )
 
     # Calculate north and east offsets in meters.
     transformed_coordinates[:, indices.e] = -(dlon_rad * rn1 * torch.cos(latitudes))
-- 
2.43.0

