"""Small synthetic scenes built directly from the public classes."""

import math

import torch
import artist.io  # noqa: F401
from artist.field.heliostat_field import HeliostatField
from artist.field.heliostat_group_rigid_body import HeliostatGroupRigidBody
from artist.field.solar_tower import SolarTower
from artist.field.tower_target_areas_cylindrical import TowerTargetAreasCylindrical
from artist.field.tower_target_areas_planar import TowerTargetAreasPlanar
from artist.scenario.scenario import Scenario
from artist.scene.light_source_array import LightSourceArray
from artist.scene.sun import Sun

CPU = torch.device("cpu")
T = torch.tensor


def t4(rows, w):
    """3-vectors as homogeneous float tensor."""
    return T([[*r, float(w)] for r in rows], dtype=torch.float32) if rows else torch.zeros((0, 4))


def facet_points(side, size, spacing=0.1, facets=4, aspect=1.0):
    """A square heliostat made of four square facets (upper left, upper right, lower left, lower right), each with
    side x side surface points, in the order in which the package samples them (u outer, v inner). The aspect stretches it
    to the north."""
    pts = []
    centers = [(-1, 1), (1, 1), (-1, -1), (1, -1)][:facets] if facets > 1 else [(0, 0)]
    off = size / 2 + spacing / 2 if facets > 1 else 0.0
    for cx, cy in centers:
        for i in range(side):
            for j in range(side):
                a = (i / (side - 1) - 0.5) * size if side > 1 else 0.0
                b = (j / (side - 1) - 0.5) * size if side > 1 else 0.0
                pts.append([cx * off + a, (cy * off + b) * aspect, 0.0, 1.0])
    return T(pts, dtype=torch.float32)


def group(names, positions, kind="ideal", side=2, size=1.0, facets=4, normals=None, points=None, translations=None,
          rotations=None, linear=None, motor_limits=(-10.0, 10.0), control_points=None, degrees=(1, 1), aspect=1.0):
    n = len(names)
    pts = points if points is not None else facet_points(side, size, facets=facets, aspect=aspect).expand(n, -1, -1).clone()
    nrm = normals
    if nrm is None:
        nrm = torch.zeros_like(pts)
        nrm[..., 2] = 1.0
    if kind == "ideal":
        non_opt = torch.zeros((n, 4, 2))
        non_opt[:, 0] = 1.0
        non_opt[:, 2] = motor_limits[0]
        non_opt[:, 3] = motor_limits[1]
        opt = torch.tensor([])
    else:
        d = dict(clockwise=(0.0, 1.0), mins=0.0, maxs=80000.0, increment=(154166.666, 154166.666),
                 offset=(0.34, 0.34), radius=(0.338, 0.338), angle=(0.005843, 0.939954), stroke=(0.075, 0.0756))
        d.update(linear or {})
        non_opt = torch.zeros((n, 7, 2))
        non_opt[:, 0] = 0.0
        for row, key in ((1, "clockwise"), (2, "mins"), (3, "maxs"), (4, "increment"), (5, "offset"), (6, "radius")):
            non_opt[:, row] = T(d[key], dtype=torch.float32)
        opt = torch.zeros((n, 2, 2))
        opt[:, 0] = T(d["angle"], dtype=torch.float32)
        opt[:, 1] = T(d["stroke"], dtype=torch.float32)
    canting = torch.zeros((n, facets, 2, 4))
    canting[:, :, 0, 0] = size / 2
    canting[:, :, 1, 1] = size / 2 * aspect
    tr = torch.zeros((n, facets, 4))
    cps = control_points if control_points is not None else torch.zeros((n, facets, 2, 2, 3))
    return HeliostatGroupRigidBody(
        names=list(names), positions=t4(positions, 1.0), surface_points=pts, surface_normals=nrm, canting=canting,
        facet_translations=tr, initial_orientations=t4([[0.0, -1.0, 0.0]] * n, 0.0), nurbs_control_points=cps,
        nurbs_degrees=T(list(degrees)),
        kinematics_translation_deviation_parameters=torch.zeros((n, 9)) if translations is None else translations,
        kinematics_rotation_deviation_parameters=torch.zeros((n, 4)) if rotations is None else rotations,
        actuator_parameters_non_optimizable=non_opt, actuator_parameters_optimizable=opt, device=CPU)


def tower(planar, cylinders=()):
    """planar: (name, center, normal, (w, h)); cylinders: (name, center, normal, axis, radius, height, opening)."""
    p = TowerTargetAreasPlanar(
        names=[x[0] for x in planar], centers=t4([x[1] for x in planar], 1.0), normals=t4([x[2] for x in planar], 0.0),
        dimensions=T([list(x[3]) for x in planar], dtype=torch.float32) if planar else torch.zeros((0, 2)))
    c = TowerTargetAreasCylindrical(
        names=[x[0] for x in cylinders], centers=t4([x[1] for x in cylinders], 1.0),
        normals=t4([x[2] for x in cylinders], 0.0), axes=t4([x[3] for x in cylinders], 0.0),
        radii=T([float(x[4]) for x in cylinders], dtype=torch.float32),
        heights=T([float(x[5]) for x in cylinders], dtype=torch.float32),
        opening_angles=T([float(x[6]) for x in cylinders], dtype=torch.float32))
    return SolarTower(target_areas=[p, c], device=CPU)


def scenario(groups, tw, rays=2, covariance=4.3681e-06, mean=0.0):
    sun = Sun(number_of_rays=rays, distribution_parameters=dict(
        distribution_type="normal", mean=mean, covariance=covariance), device=CPU)
    return Scenario(
        power_plant_position=T([50.9, 6.3, 87.0], dtype=torch.float64), solar_tower=tw,
        light_sources=LightSourceArray(light_source_list=[sun]),
        heliostat_field=HeliostatField(heliostat_groups=list(groups), device=CPU))


DEFAULT_PLANAR = [("alpha", [0.0, 0.0, 6.0], [0.0, -1.0, 0.0], (3.0, 3.0)),
                  ("beta", [1.0, 0.0, 4.0], [0.0, -1.0, 0.0], (2.0, 1.5))]
DEFAULT_CYL = [("gamma", [0.0, 1.0, 7.0], [0.0, -1.0, 0.0], [0.0, 0.0, 1.0], 1.5, 3.0, math.pi)]


def unit(v):
    n = math.sqrt(sum(x * x for x in v))
    return [x / n for x in v]


def prepare(sc, grp, mask, targets, incident, aim=None):
    """Activate and align a group the way the tutorials do. Returns the tensors to hand to trace_rays."""
    mask = T(mask, dtype=torch.int32)
    targets = T(targets, dtype=torch.int64)
    inc = t4(incident, 0.0)
    grp.activate_heliostats(active_heliostats_mask=mask, device=CPU)
    aims = sc.solar_tower.get_centers_of_target_areas(targets, device=CPU) if aim is None else t4(aim, 1.0)
    grp.align_surfaces_with_incident_ray_directions(
        aim_points=aims, incident_ray_directions=inc, active_heliostats_mask=mask, device=CPU)
    return mask, targets, inc
