#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list. A property is claimed when harness/<id>.py exists."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = "artist/"


def P(id, title, statement, over, quant, why, files, mech, note, observe=(), state=(), na=None):
    return dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=[A + f for f in files],
                mech=[dict(name=n, where=A + w) for n, w in mech], note=note, observe=list(observe),
                state=[dict(name=n, meaning=m, where=A + w) for n, m, w in state], na=na)


PROPS = [
    P("C01", "Heliostat groups are dealt to the processes completely and consistently",
      "For every number of processes and of heliostat groups, groups are dealt round-robin: every group is served by at least one process, "
      "by exactly one if there are no more processes than groups, and otherwise every process serves exactly one group. "
      "All processes derive the same assignment in both directions (process to groups and group to processes) and create the same subgroups in the same order. "
      "With more processes than groups, each process knows its position in and the size of its group's subgroup, and a collective over that subgroup reaches exactly the processes of that group.",
      ["configurations"], "all process counts and group counts; every process of each",
      "the tests try a handful of world sizes with the process group mocked; nothing relates the views of different processes",
      ["util/env.py"],
      [("round-robin dealing", "util/env.py:distribute_groups_among_ranks"), ("subgroups", "util/env.py:create_subgroups_for_nested_ddp"),
       ("set-up and tear-down", "util/env.py:setup_distributed_environment")],
      "TLC checks the dealing algorithm against the declarative assignment for all small sizes; the code's assignment is recorded for process counts up to 24 (40) x 9 (12) groups, per-process set-up and real gloo collectives, and validated event by event."),
    P("C02", "Every sample of a heliostat group is handled by exactly one process",
      "For every number of processes, active heliostats and samples, the samples assigned to the processes of a group are disjoint, together contain every sample, and come in ascending order. "
      "When every heliostat has equally many samples, all samples of a heliostat stay on one process and heliostats are dealt round-robin; processes beyond the number of active heliostats stay idle. "
      "Each process works through exactly its samples, in order, in batches of the requested size (only the last one may be smaller).",
      ["configurations", "inputs"], "all process counts, activation masks, sample counts and batch sizes",
      "tests sample a few divisible configurations of the sampler and never combine it with the batches the tracer draws",
      ["raytracing/sampling.py", "raytracing/heliostat_ray_tracer.py"],
      [("block assignment", "raytracing/sampling.py:RestrictedDistributedSampler"), ("batches", "raytracing/heliostat_ray_tracer.py:HeliostatRayTracer.__init__"),
       ("indices of the process", "raytracing/heliostat_ray_tracer.py:get_sampler_indices")],
      "TLC checks the block assignment for all small sizes; the sampler and the tracer's real batches are recorded and validated for all process counts up to 7 (11) and up to 8 (16) heliostats."),
    P("C03", "Ray tracing does not depend on batch size or number of processes",
      "For every field, activation, target assignment and random seed, the flux bitmap and the ray fractions of each sample are the same (up to floating-point summation order) for every batch size. "
      "Tracing with several processes gives each sample to exactly one process, which returns it in ascending sample order with the values a single process computes for it. "
      "A sample's result depends only on its own heliostat, incident direction, target and scattering, plus the blocking by other heliostats when blocking is enabled, and repeating a trace gives the same result.",
      ["inputs", "configurations"], "all scenes, masks, targets (planar and cylindrical mixed), batch sizes, process counts, with and without blocking",
      "tests trace a few fixed scenes with the default batch size in one process",
      ["raytracing/heliostat_ray_tracer.py", "raytracing/sampling.py"],
      [("batch loop with scatter into result rows", "raytracing/heliostat_ray_tracer.py:trace_rays"), ("planar/cylindrical selection", "raytracing/heliostat_ray_tracer.py:trace_rays")],
      "A TLA+ state machine of the batch loop is checked for all small configurations (every row written exactly once with its own data); the code's results for many batchings are recorded and compared row by row by the trace specification."),
    P("C04", "Ray energy is accounted for: no flux is created, lost or double counted",
      "For every scene, the energy in a sample's flux bitmap equals the sum over the rays hitting the interior of its target of magnitude times cosine of incidence times reflectivity times one minus extinction, and blocked rays contribute nothing; each hit is shared bilinearly between the four pixels around it and nothing else. "
      "With direct normal irradiance given, the magnitudes of all rays of a heliostat add up to irradiance times mirror area; flux is proportional to irradiance, reflectivity and one minus extinction. "
      "The reported ray fractions (hitting the target, not blocked, arriving) lie between zero and one and equal the counted rays, and combining bitmaps per target sums exactly the bitmaps of the samples assigned to that target.",
      ["inputs"], "all ray positions and intensities, bitmap resolutions, reflectivities, extinctions, irradiances, target assignments",
      "integration tests compare a few bitmaps with stored ones (missing at this commit) and cannot see small leaks",
      ["raytracing/heliostat_ray_tracer.py", "raytracing/geometry.py"],
      [("bilinear splatting", "raytracing/heliostat_ray_tracer.py:bilinear_splatting"), ("intensities", "raytracing/heliostat_ray_tracer.py:trace_rays"),
       ("sum per target", "raytracing/heliostat_ray_tracer.py:get_bitmaps_per_target"), ("ray magnitude", "raytracing/heliostat_ray_tracer.py:__init__")],
      "The specification contains the splatting and a complete ray-by-ray model of a small trace in fixed-point arithmetic; recorded bitmaps, fractions and sums are compared pixel by pixel."),
    P("C05", "Rays light a planar target where they geometrically hit it",
      "For every planar target and ray, the ray contributes exactly if it travels towards the front of the target and meets the target's rectangle in front of its origin, with intensity proportional to the cosine of incidence, and the reported distance is the distance to the hit. "
      "The bitmap position is linear in the hit position: seen from the field, up on the target is up in the bitmap and the eastern edge of a south-facing target is the left edge of the bitmap. "
      "Converting a bitmap position to a position on the target inverts this to within half a pixel, so the centre of mass of the flux of a focused heliostat lies where its rays hit.",
      ["inputs"], "all ray origins and directions, target positions and sizes (south- or north-facing vertical planes), bitmap resolutions",
      "tests use a few symmetric rays; flips, off-by-one scalings and front/back mistakes survive them",
      ["raytracing/geometry.py", "geometry/coordinates.py", "raytracing/heliostat_ray_tracer.py"],
      [("intersection and bitmap coordinates", "raytracing/geometry.py:line_plane_intersections"), ("inverse mapping", "geometry/coordinates.py:bitmap_coordinates_to_target_coordinates")],
      "The intersection is specified in fixed-point arithmetic and evaluated by TLC for every recorded ray; exact lattice rays enumerate all sides, edges and directions."),
    P("C06", "Rays light a cylindrical target where they geometrically hit it",
      "For every cylindrical target (any axis, normal, radius, height, opening angle), a ray contributes exactly if its first intersection in front of its origin with the cylinder lies within the height and the opening angle measured symmetrically about the target's normal, with intensity proportional to the cosine of incidence on the outer side. "
      "The bitmap position is linear in the angle about the axis and in the height, the middle column facing along the normal and the middle row at the centre. "
      "Converting a bitmap position to a position on the cylinder inverts this to within half a pixel, and rotating the whole scene does not change the bitmap positions.",
      ["inputs"], "all rays, cylinder orientations, sizes, opening angles up to a full turn, bitmap resolutions",
      "tests use one upright south-facing cylinder",
      ["raytracing/geometry.py", "geometry/coordinates.py"],
      [("intersection and bitmap coordinates", "raytracing/geometry.py:line_cylinder_intersections"), ("inverse mapping", "geometry/coordinates.py:bitmap_coordinates_to_target_coordinates")],
      "The quadratic intersection, sector test and unrolling are specified in fixed-point arithmetic and evaluated by TLC for every recorded ray."),
    P("C07", "Blocking removes exactly the rays that another heliostat's mirror intercepts",
      "For every field layout, a ray is removed exactly if another heliostat's mirror rectangle lies on its way to the target; a heliostat never blocks its own rays, in whichever heliostat group it is, and heliostats that are not active block as horizontal mirrors. "
      "The search structure over the mirrors is a complete binary tree for every number and placement of mirrors (also coinciding ones), its boxes enclose everything below them, and the search terminates. "
      "Restricting the blocking test to the mirrors found by the search never changes a ray's result.",
      ["inputs", "configurations"], "all layouts with up to dozens of mirrors incl. coinciding and collinear ones, several groups, all ray bundles",
      "tests use a few hand-made layouts; tree construction depends on all bit patterns of the Morton codes",
      ["raytracing/blocking.py", "raytracing/heliostat_ray_tracer.py"],
      [("hierarchy construction", "raytracing/blocking.py:build_linear_bounding_volume_hierarchies"), ("filter", "raytracing/blocking.py:lbvh_filter_blocking_planes"),
       ("ray/mirror test", "raytracing/blocking.py:soft_ray_blocking_mask"), ("own heliostat", "raytracing/heliostat_ray_tracer.py:trace_rays")],
      "The Morton-code tree construction is specified as a state machine and checked for all small code multisets (TLC); real trees, filters, blocking masks and traced fields are recorded and validated against the geometric definition."),
    P("C08", "Activation gives each sample its own heliostat data, whatever came before",
      "After any history of activations, alignments and traces, activating with a mask yields, for every heliostat in order and repeated as often as the mask says, that heliostat's own position, surface, normals, canting, control points, deviations, actuator parameters and motor positions. "
      "Activating and aligning again with the same inputs gives the same aligned surfaces as in a fresh scenario, and a group's activation never changes another group or any stored heliostat data. "
      "Aligning or tracing with a mask other than the activated one is rejected.",
      ["histories"], "all sequences of activate, align, align-by-motor and trace with all small masks over several groups",
      "tests activate once per scenario; order effects between groups and after empty activations are never seen",
      ["field/heliostat_group.py", "field/heliostat_group_rigid_body.py", "raytracing/heliostat_ray_tracer.py"],
      [("activation", "field/heliostat_group.py:activate_heliostats"), ("mask check", "field/heliostat_group_rigid_body.py:align_surfaces_with_incident_ray_directions"),
       ("mask check when tracing", "raytracing/heliostat_ray_tracer.py:trace_rays")],
      "A TLA+ state machine of groups, masks and operations is explored exhaustively; its behaviours are replayed on the real objects and every resulting state is validated.",
      state=[("active mask", "which heliostats are selected, how often", "field/heliostat_group.py"), ("active parameters", "per-sample copies", "field/heliostat_group.py")]),
    P("C09", "Aligned heliostats reflect the sun onto their aim points, as rigid bodies",
      "For every heliostat position, kinematic deviation, incident direction and aim point within the motors' reach, the aligned concentrator reflects the incident direction at its centre towards the aim point, and the mirror surface is moved rigidly: distances are kept and the normals turn with it. "
      "The aligned orientation is the position's translation times first joint (tilts, offset, rotation) times second joint (tilts, offset, rotation) times concentrator offset times the fixed turn of the flat surface from facing up to facing south. "
      "Aligning by the motor positions that an alignment stored reproduces that alignment, and of the two possible joint solutions one within the motor limits is chosen whenever there is one (joint angles between minus and plus pi).",
      ["inputs"], "all positions, deviations, sun directions, aim points, actuator types",
      "tests compare a few alignments with stored numbers",
      ["field/kinematics_rigid_body.py", "field/heliostat_group_rigid_body.py", "geometry/transforms.py"],
      [("forward kinematics", "field/kinematics_rigid_body.py:_compute_orientations_from_motor_positions"), ("inverse kinematics", "field/kinematics_rigid_body.py:_compute_motor_positions_from_normal"),
       ("fixed-point iteration", "field/kinematics_rigid_body.py:incident_ray_directions_to_orientations")],
      "Forward kinematics and the law of reflection are specified in fixed-point arithmetic; every recorded alignment is checked by TLC."),
    P("C10", "Motor positions and joint angles are inverse within the motor range",
      "For every linear actuator geometry, turning direction, initial angle and initial stroke, the angle for a motor position follows the law of cosines of offset, pivot radius and stroke length relative to the angle at motor position zero; angles and motor positions are strictly monotonic and inverse to each other within the mechanical range. "
      "The turning direction only mirrors the angle change about the initial angle, and beyond the mechanical range angles saturate and stay finite. "
      "Ideal actuators identify angles with motor positions, and each heliostat and each of its two actuators uses its own parameters.",
      ["inputs"], "all actuator parameters and motor positions",
      "tests check a few positions of one geometry",
      ["field/actuators_linear.py", "field/actuators_ideal.py"],
      [("motor to angle", "field/actuators_linear.py:motor_positions_to_angles"), ("angle to motor", "field/actuators_linear.py:angles_to_motor_positions")],
      "The law of cosines is specified in fixed-point arithmetic, monotonicity and inversion checked by TLC on the specification's own grid and on every recorded conversion."),
    P("C11", "Heliostat, target and sun assignments reach the right heliostat in order",
      "For every list of (heliostat, target, incident direction) triples, each group receives exactly its own heliostats' entries: the activation mask counts the entries of each heliostat, and targets and directions are listed in heliostat order, keeping the list's order for each heliostat. "
      "Without a list, every heliostat of the group is assigned once to the default target and direction. "
      "An unknown target, a target number out of range, or a direction that is not a normalized direction is rejected; heliostats of other groups are ignored.",
      ["inputs"], "all lists over all heliostats and targets, incl. repeated and interleaved entries",
      "tests use a few short lists",
      ["scenario/scenario.py", "field/solar_tower.py"],
      [("mapping", "scenario/scenario.py:index_mapping"), ("target numbering", "field/solar_tower.py:SolarTower")],
      "The mapping is specified as a fold over the list and as a declarative relation; TLC proves them equal for all small lists and validates the code's results for exhaustive and random lists."),
    P("C12", "Training and test samples partition the calibration data per heliostat",
      "For every mask that gives all selected heliostats equally many samples (as the reconstructions require), each heliostat with more than one sample gives a quarter of its samples (rounded down, at least one) to the test set and the others to the training set; together they contain every sample exactly once. "
      "The split never mixes heliostats: training and test data keep the order of heliostats and samples, and all kinds of measured data of a sample go to the same side. "
      "The masks returned for both sets count exactly the samples of each heliostat in them.",
      ["inputs"], "all masks with equally many samples per selected heliostat, all sample counts and test fractions", "tests split one fixed mask",
      ["optim/training.py", "optim/kinematics_reconstructor.py", "optim/surface_reconstructor.py"],
      [("split", "optim/training.py:train_test_split")],
      "The split is specified in TLA+, its partition invariants are checked for all small masks and the code is validated on all of them."),
    P("C13", "Early stopping and learning-rate schedules follow their definition",
      "For every sequence of losses, training stops exactly when the relative improvement over the sliding window has not exceeded the minimum improvement for the given number of consecutive checks, counted from the last sufficient improvement, and never before the window is full. "
      "For every configuration, the exponential schedule multiplies the learning rate by its factor at every epoch, the cyclic one stays within its bounds and follows its triangular course, and the plateau one is lowered by its factor after its patience is exhausted and never below its minimum.",
      ["histories", "configurations"], "all loss sequences and configurations", "tests run one or two loss sequences",
      ["optim/training.py"],
      [("early stopping", "optim/training.py:EarlyStopping"), ("schedulers", "optim/training.py")],
      "The stopping rule is a TLA+ state machine explored over all short loss sequences; each behaviour is replayed step by step on the real object; schedulers are specified in fixed-point and validated epoch by epoch.",
      state=[("counter", "checks without sufficient improvement", "optim/training.py")]),
    P("C14", "Reconstruction changes only what it should and reports what it did",
      "For every set of calibration data, reconstructing kinematics or surfaces changes only the parameters it is asked to learn and only for heliostats with calibration data; everything else in the field stays bitwise the same. "
      "It ends after the maximum number of epochs, when the loss falls to the tolerance or when early stopping says so, and the loss history has one finite entry per group and completed epoch. "
      "The final loss per heliostat is reported for heliostats with data and is infinite for the others, and running with the same data again from the same state gives the same result.",
      ["inputs", "histories", "configurations"], "all activation patterns of calibration data, loss functions and stopping conditions",
      "tests run one configuration of each and compare with stored numbers",
      ["optim/kinematics_reconstructor.py", "optim/surface_reconstructor.py"],
      [("epoch loop", "optim/kinematics_reconstructor.py"), ("epoch loop", "optim/surface_reconstructor.py")],
      "The epoch loop with its stopping conditions is a TLA+ state machine; recorded epoch histories and before/after field states of real reconstructions are validated against it."),
    P("C15", "Learned surfaces keep their edges and reach the field's surfaces unchanged",
      "For every heliostat, facet and control-point grid, gradients of the horizontal positions of control points on the outer edges are zero and all other gradients are untouched, so an optimization can never move the outline of a facet sideways. "
      "Updating the field's surfaces evaluates the current control points of every heliostat of every group at the same sample positions as loading does, and changes no other group data. "
      "Repeating the update without changing control points changes nothing.",
      ["inputs", "histories"], "all control-point grids and field compositions", "tests use one grid",
      ["optim/surface_reconstructor.py", "field/heliostat_field.py", "field/surface.py", "nurbs/surfaces.py"],
      [("edge lock", "optim/surface_reconstructor.py:lock_control_points_on_outer_edges"), ("surface update", "field/heliostat_field.py:update_surfaces")],
      "Edge membership is specified in TLA+ and validated for all small grids; updated surfaces are validated against the NURBS specification."),
    P("C16", "Distributed optimization terminates and leaves all processes in agreement",
      "For every number of processes and every distribution of heliostats over them, distributed reconstruction and aim-point optimization terminate: processes that belong together take part in the same sequence of collective operations, whatever their local losses are and even if they have no heliostat to work on. "
      "Afterwards all processes of a group hold the same learned parameters, and after the final synchronization all processes hold every group's result. "
      "The result agrees with that of a single process up to floating-point summation order.",
      ["schedules", "configurations"], "all process counts, heliostats per process (incl. none), early stopping at different epochs",
      "tests run in a single process only",
      ["optim/kinematics_reconstructor.py", "optim/surface_reconstructor.py", "optim/aim_point_optimizer.py", "util/env.py"],
      [("gradient reduction", "optim/surface_reconstructor.py"), ("synchronization", "optim/kinematics_reconstructor.py"), ("synchronization", "optim/aim_point_optimizer.py")],
      "The collectives are a TLA+ state machine with deadlock and liveness checking over all interleavings; real multi-process runs record every collective call per process and TLC validates that the recorded calls match and that the final states agree."),
    P("C17", "Calibration files are matched to the right heliostats and targets",
      "For every mapping of heliostats to calibration files and every sample limit, each heliostat of a group contributes its first files up to the limit, in field order, and mask, motor positions, focal spots, incident directions, targets (and measured bitmaps) refer to the same samples in the same order. "
      "Focal spots are the files' geographic positions converted to the local frame, incident directions point from the sun given by azimuth and elevation, and target names resolve to the field's target numbering. "
      "Heliostats of other groups and unknown heliostats contribute nothing. "
      "Collecting the files from a directory yields, for the wanted heliostats, only complete pairs of properties and image with the same measurement, each measurement once, and with a seeded shuffle a selection that does not depend on the file system's order.",
      ["inputs"], "all file mappings, limits and directory contents", "tests load one mapping",
      ["io/paint_calibration_parser.py", "io/calibration_parser.py", "io/paint_scenario_parser.py"],
      [("parsing", "io/paint_calibration_parser.py"), ("mapping", "io/calibration_parser.py")],
      "The selection and ordering is specified in TLA+; synthetic calibration files for generated mappings are parsed by the code and validated entry by entry."),
    P("C18", "A scenario file reproduces the described field",
      "For every scenario description, saving and loading yields the same power plant, tower targets, light source, and for each heliostat (with its own or the prototype's surface, kinematics and actuators) the same name, position, surface, deviations and actuator parameters. "
      "Heliostats are grouped by kinematics and actuator type, every heliostat is in exactly one group, and within a group all per-heliostat data are in the same order. "
      "Contradictory or unknown descriptions are rejected instead of loaded wrongly.",
      ["configurations", "inputs"], "all combinations of individual and prototype parts, actuator types, target kinds and surface degrees",
      "tests load a few committed files",
      ["scenario/h5_scenario_generator.py", "scenario/scenario.py", "io/h5_scenario_parser.py", "field/heliostat_field.py", "field/solar_tower.py", "scene/sun.py"],
      [("writer", "scenario/h5_scenario_generator.py"), ("reader", "scenario/scenario.py:load_scenario_from_hdf5"), ("grouping", "field/heliostat_field.py:from_hdf5")],
      "TLC enumerates the combinations of individual/prototype parts and actuator types; each is written, loaded and validated against the description and the grouping relation."),
    P("C19", "Coordinate systems, rotations and canting are consistent",
      "For every input, azimuth and elevation, geographic and local coordinates, and points and directions convert as defined: azimuth runs from south towards west, local east/north/up offsets follow the ellipsoid, and homogeneous points and directions end in one and zero. "
      "Rotations about the east, north and up axes and translations are proper rigid motions composed in the documented order, decomposing the rotation between two vectors yields angles that map one onto the other, and the scattering rotation is orthogonal. "
      "Canting turns a facet's flat surface onto its canting vectors, keeps lengths, and canting followed by decanting is the identity.",
      ["inputs"], "all angles, vectors, positions", "tests check a few quadrants",
      ["geometry/coordinates.py", "geometry/rotations.py", "geometry/transforms.py"],
      [("coordinates", "geometry/coordinates.py"), ("rotations", "geometry/rotations.py"), ("transforms", "geometry/transforms.py")],
      "All conversions are specified in fixed-point arithmetic (own trigonometry) and evaluated by TLC for lattice and random inputs in all quadrants."),
    P("C20", "NURBS surfaces follow their definition for every degree and grid",
      "For every degree, control-point grid and evaluation position, basis functions are non-negative, sum to one and match the recursive definition on clamped uniform knots, so that surface points lie in the convex hull of their control points, corners interpolate the corner control points, and planar control points give planar surfaces. "
      "Normals are normalized and perpendicular to both tangents, pointing up for upward surfaces. "
      "Each heliostat and facet is evaluated with its own control points, canting and translation only.",
      ["inputs"], "all degrees, grids, evaluation positions (for uniform knots at the documented distance of 1e-7 from the ends; for non-uniform ones including the ends and knots), batches of heliostats and facets",
      "tests evaluate one surface",
      ["nurbs/surfaces.py", "nurbs/utils.py"],
      [("knots, spans, basis, evaluation", "nurbs/surfaces.py"), ("evaluation grid", "nurbs/utils.py")],
      "Cox-de Boor recursion and tensor-product evaluation are specified in fixed-point arithmetic; recorded points and normals are validated by TLC."),
    P("C21", "Losses and regularizers compute their definition per sample",
      "For every prediction and ground truth, each loss function yields its mathematical definition separately for each sample (squared vector distance, focal-spot distance, relative pixel error, Kullback-Leibler divergence of normalized bitmaps, angle), is non-negative and is zero for a perfect prediction. "
      "A sample's loss does not depend on the other samples, scaling a bitmap does not change its divergence, and the regularizers vanish for flat unchanged surfaces and grow with the deviation. "
      "Losses per heliostat are combined from exactly the samples of that heliostat.",
      ["inputs"], "all predictions, ground truths (bitmaps with flux for the relative pixel error and the divergence), batch compositions", "tests check a few values",
      ["optim/loss.py", "optim/regularizers.py"],
      [("losses", "optim/loss.py"), ("regularizers", "optim/regularizers.py")],
      "The definitions are specified in fixed-point arithmetic (own logarithm and square root) and evaluated by TLC on recorded calls."),
    P("C22", "Flux bitmap analysis locates and crops flux correctly",
      "For every bitmap, the centre of mass is the intensity-weighted mean pixel position (zero for an empty bitmap), independent of intensity scale and of other bitmaps, and shifting the bitmap shifts it equally. "
      "Cropping around the centre of mass keeps the physical scale: the centre of mass of fully contained flux moves to the middle, and the crop shows the region of the requested size, with nothing from outside the bitmap. "
      "A trapezoid profile is symmetric, between zero and one, one on its plateau, falls linearly over its slope and is zero beyond.",
      ["inputs"], "all bitmaps, target sizes (planar and cylindrical), crop sizes, profile parameters", "tests check a few bitmaps",
      ["flux/bitmap.py"], [("centre of mass, trapezoid, crop", "flux/bitmap.py")],
      "Definitions in exact integer/fixed-point arithmetic in TLA+, validated on exhaustive tiny bitmaps and random larger ones."),
    P("C23", "Sun scattering is reproducible and statistically right",
      "For every seed, number of heliostats, points and rays, the scattering angles are the same in every run and process, independent of how the samples are later distributed or batched. "
      "Their distribution has the configured mean and variance in both directions without correlation between directions or samples. "
      "Each scattered ray deviates from the ideal reflection by exactly its two angles and keeps its length, and the number of rays is the configured number.",
      ["inputs", "configurations"], "all seeds, sizes and distribution parameters", "tests compare stored numbers for one seed",
      ["scene/sun.py", "raytracing/sampling.py", "raytracing/heliostat_ray_tracer.py", "geometry/transforms.py"],
      [("sampling", "scene/sun.py:get_distortions"), ("dataset", "raytracing/sampling.py:DistortionsDataset"), ("scatter", "raytracing/heliostat_ray_tracer.py:scatter_rays")],
      "Determinism, shapes and moments of recorded samples are checked by the trace specification; the scattering rotation is specified in fixed-point and validated ray by ray."),
    P("C24", "Aim-point optimization respects its limits and reports its history",
      "For every field, target, loss function and constraint configuration, optimization moves motor positions only and never outside each actuator's limits; with zero epochs or no effective step the motor positions stay as they were aligned. "
      "It terminates by tolerance, maximum epochs or early stopping with a finite loss history of one entry per completed epoch. "
      "The total flux it evaluates is the sum over all groups and heliostats on the target, and it works for every offered loss function.",
      ["inputs", "configurations", "histories"], "all fields, loss functions, constraints and stopping conditions",
      "the tests run one configuration with one loss function",
      ["optim/aim_point_optimizer.py"],
      [("optimization loop", "optim/aim_point_optimizer.py")],
      "The loop is a TLA+ state machine shared with C14; recorded epochs, motor positions and totals of real optimizations are validated against it."),
    P("C25", "Plant data files become the plant they describe",
      "For every tower file (whatever the order of its entries), each planar and cylindrical target area appears once with the centre, normal, extents, radius, height, axis and opening angle of the geometry its geographic corner points describe. "
      "For every list of heliostats, each one appears exactly once with a number of its own and its own position, facets, canting, kinematic deviations, initial orientation and actuators (order, type, limits, turning direction, parameters); its surface is fitted exactly if deflectometry is given, otherwise ideal, and the prototype is one of them. "
      "Deflectometry and STRAL files yield their points and normals in order. A fitted facet depends only on its own measurement, its sampling step and the configured optimizer and scheduler, not on what was fitted before, and ends closer to the measurement than a flat facet.",
      ["inputs", "configurations", "histories"], "all tower files, heliostat lists with any mix of surfaces, facet geometries, point clouds and fit settings",
      "the tests read two sample files and compare a few numbers of one heliostat",
      ["io/paint_scenario_parser.py", "io/stral_scenario_parser.py", "scenario/surface_generator.py", "nurbs/utils.py"],
      [("tower", "io/paint_scenario_parser.py:extract_paint_tower_measurements"), ("heliostats", "io/paint_scenario_parser.py:extract_paint_heliostats_mixed_surface"),
       ("STRAL", "io/stral_scenario_parser.py:extract_stral_deflectometry_data"), ("fit", "scenario/surface_generator.py:SurfaceGenerator.fit_nurbs")],
      "TLC checks reading and fitting with a shared scheduler for all small mixes of heliostats and loss sequences; every mix is replayed on the real reader, and random towers, plants, surface files and fits are written to disk, read and validated."),
    P("C26", "Gradients are the derivatives of what is computed",
      "For every group, activation, target, kind of actuator and way of alignment, automatic differentiation gives the derivatives of what is computed: of the aligned surfaces, the flux distribution, its centre of mass and intensity, the cropped flux and the losses with respect to rotation and translation deviations, actuator parameters, motor positions, aim points and control points (through the NURBS surfaces). "
      "At every stage between parameters and loss, gradients paired with changes give the same rate, which is the one that values at neighbouring parameters show wherever the computation is smooth. "
      "Losses, regularizers and surfaces do so on their own, too; their gradients are finite even for perfect or empty predictions. What the optimizers of kinematics, surfaces and aim points step along is the derivative of the total loss they report.",
      ["inputs", "configurations", "histories"], "all fields, parameters, directions of change, losses and constraint states of optimizations",
      "tests compare values after some epochs with stored numbers and never look at a gradient, so a stage that stops passing gradients on goes unnoticed",
      ["field/kinematics_rigid_body.py", "field/actuators_linear.py", "field/heliostat_group.py", "raytracing/heliostat_ray_tracer.py", "raytracing/geometry.py", "flux/bitmap.py", "nurbs/surfaces.py", "optim/loss.py",
       "optim/regularizers.py", "optim/surface_reconstructor.py", "optim/kinematics_reconstructor.py", "optim/aim_point_optimizer.py"],
      [("forward computation", "raytracing/heliostat_ray_tracer.py:HeliostatRayTracer.trace_rays"), ("alignment", "field/heliostat_group.py"), ("losses", "optim/loss.py")],
      "TLC proves the pairing of adjoints with changes invariant for all small computations; pairings at every stage of the real computation and at the optimizers' steps are recorded and validated against it."),
]


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            anchors = {"files": p["files"], "mechanism": p["mech"], "hook_needed": None}
            if p["state"]:
                anchors["state"] = p["state"]
            if p["observe"]:
                anchors["observe_at"] = p["observe"]
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                "anchors": anchors}) + "\n")
    checks, na = [], []
    for p in PROPS:
        if os.path.exists(os.path.join(HERE, "harness", p["id"].lower() + ".py")):
            checks.append({
                "property": p["id"], "quick_cmd": f"./check.py {p['id']}",
                "thorough_cmd": f"./check.py {p['id']} --tier thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": "TLA+ specification model-checked with TLC; recorded executions of the real code validated against it by TLC",
                "level": "model_checking", "level_note": p["note"] +
                " Assurance is exhaustive for the specification within the stated bounds and covers the code on the executions recorded; trusted: TLC, java/Fix.java (64-bit evaluation of four fixed-point operators), the Python recorder."})
        else:
            na.append({"property": p["id"], "reason": p["na"] or "no check registered yet: the specification for this part is still being written"})
    m = {"version": 1, "setup_cmd": "./setup.sh",
         "hooks": {"guard": "none", "enable": "no hooks are needed: the public interface exposes the abstract state", "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "See DESIGN.md. Checks run the code in /repo's working tree directly (pure Python), nothing is built there."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "claimed", len(na), "not claimed")


main()
