"""Random small heliostat fields and complete traces of them, recorded for the scene specification."""

import math

import torch
from artist.raytracing.heliostat_ray_tracer import HeliostatRayTracer

from . import rays as R
from . import scene
from .core import fx, ints

S = 1_000_000


def random_field(rng, blocking=False, groups=None, max_heliostats=3, side=None, spacing=2.2):
    """Description of a field: everything by number, in plain lists, so that it can be stored in a case."""
    nplanar = rng.randint(1, 2)
    ncyl = rng.randint(0, 1) if not blocking else rng.choice([0, 0, 1])
    z = rng.uniform(5, 8) if not blocking else rng.uniform(1.2, 4.0)
    targets = []
    for k in range(nplanar):
        targets.append({"kind": "p", "c": R.q([rng.uniform(-1, 1), rng.uniform(-.5, .5), z + rng.uniform(-.4, .4)]),
                        "n": R.q([0.0, -1.0, 0.0]), "w": R.q(rng.uniform(1.5, 4)), "h": R.q(rng.uniform(1.5, 4))})
    for k in range(ncyl):
        targets.append({"kind": "c", "c": R.q([rng.uniform(-1, 1), rng.uniform(.5, 1.5), z]), "n": R.q([0.0, -1.0, 0.0]),
                        "a": R.q([0.0, 0.0, 1.0]), "r": R.q(rng.uniform(0.8, 2)), "h": R.q(rng.uniform(2, 4)),
                        "open": R.q(rng.choice([math.pi, 2 * math.pi, 2.0]))})
    ngroups = groups or rng.choice([1, 1, 2])
    spots = [[x * spacing * rng.uniform(0.9, 1.1), -4.0 - spacing * y * rng.uniform(0.9, 1.1), rng.uniform(-.1, .1)]
             for x in range(-2, 3) for y in range(4)]
    rng.shuffle(spots)
    gs = []
    for g in range(ngroups):
        n = rng.randint(1, max_heliostats)
        pos = [spots.pop() for _ in range(n)]
        mask = [rng.choice([0, 1, 1]) if blocking else rng.choice([0, 1, 1, 2]) for _ in range(n)]
        if sum(mask) == 0:
            mask[rng.randrange(n)] = 1
        gs.append({"pos": R.q(pos), "mask": mask,
                   "tgt": [rng.randrange(len(targets)) for _ in range(sum(mask))],
                   "inc": R.q([R.unit([rng.uniform(-.7, .7), rng.uniform(.3, 1), rng.uniform(-1, -.3)]) for _ in range(sum(mask))])})
    return {"targets": targets, "groups": gs, "side": side or rng.choice([1, 2]) if not blocking else 2, "size": R.q(rng.uniform(0.6, 1.1)),
            "aspect": rng.choice([S, R.q(rng.uniform(.6, 1.4))]),
            "rays": rng.randint(1, 2), "W": rng.choice([4, 6, 9]), "H": rng.choice([3, 5, 8]), "blocking": blocking}


def build(f, covariance=4.3681e-06):
    groups = []
    for k, g in enumerate(f["groups"]):
        groups.append(scene.group([f"h{k}{j}" for j in range(len(g["pos"]))], [[x / S for x in p] for p in g["pos"]],
                                  side=f["side"], size=f["size"] / S, motor_limits=(-10.0, 10.0),
                                  aspect=f["aspect"] / S))
    return scene.scenario(groups, R.build_tower(f["targets"]), rays=f["rays"], covariance=covariance)


def align(sc, f, k):
    g = f["groups"][k]
    return scene.prepare(sc, sc.heliostat_field.heliostat_groups[k], g["mask"], g["tgt"], [[x / S for x in d] for d in g["inc"]])


def tracer(sc, f, k, **kw):
    args = dict(scenario=sc, heliostat_group=sc.heliostat_field.heliostat_groups[k], blocking_active=f["blocking"],
                batch_size=kw.pop("batch_size", 2), random_seed=kw.pop("seed", 7), bitmap_resolution=torch.tensor([f["W"], f["H"]]))
    args.update(kw)
    return HeliostatRayTracer(**args)


def mirror(points, side):
    """Corner and sides of the rectangle spanned by the surface points of a heliostat (order of scene.facet_points)."""
    n = side * side
    ll, ul, lr = points[2 * n], points[side - 1], points[4 * n - side]
    return {"c": ll[:3], "su": [ul[k] - ll[k] for k in range(3)], "sv": [lr[k] - ll[k] for k in range(3)]}


def mirrors_of(sc, f):
    """All mirrors of the field as the blocking test has to see them, in the order of groups and heliostats."""
    res = []
    for k, g in enumerate(f["groups"]):
        grp = sc.heliostat_field.heliostat_groups[k]
        active = grp.active_surface_points
        aligned = bool(grp.active_heliostats_mask.sum() > 0)
        j = 0
        for h in range(len(g["pos"])):
            if aligned and int(grp.active_heliostats_mask[h]) > 0:
                pts = active[j].tolist()
                j += int(grp.active_heliostats_mask[h])
            else:
                pts = [[p[0] + g["pos"][h][0] / S, p[1] + g["pos"][h][1] / S, p[2] + g["pos"][h][2] / S]
                       for p in scene.facet_points(f["side"], f["size"] / S, aspect=f["aspect"] / S).tolist()]
            m = mirror(pts, f["side"])
            res.append({key: fx(v) for key, v in m.items()})
    return res


def samples_of(sc, f, k, rt):
    """What the specification needs to know about the samples of group k."""
    grp = sc.heliostat_field.heliostat_groups[k]
    first = sum(len(g["pos"]) for g in f["groups"][:k])
    g = f["groups"][k]
    own = [first + h for h, m in enumerate(g["mask"]) for _ in range(m)]
    du, de = rt.distortions_dataset.distortions_u, rt.distortions_dataset.distortions_e
    return [{"inc": g["inc"][s], "tgt": g["tgt"][s], "own": own[s],
             "pts": fx(grp.active_surface_points[s][:, :3]), "nrm": fx(grp.active_surface_normals[s][:, :3]),
             "du": fx(du[s]), "de": fx(de[s])} for s in range(len(own))]


def trace_event(i):
    """Trace one group of a field and record everything the scene specification speaks about."""
    f = i["field"]
    sc = build(f, i["cov"] / 1e9)
    order = range(len(f["groups"]))
    aligned = {k: align(sc, f, k) for k in order if k in i["align"]}
    k = i["group"]
    mask, tgt, inc = aligned[k]
    kw = {}
    if i["dni"]:
        kw["dni"] = i["dni"] / S
    rt = tracer(sc, f, k, batch_size=i["batch"], seed=i["seed"], **kw)
    flux, arrive, on, free = rt.trace_rays(incident_ray_directions=inc, active_heliostats_mask=mask, target_area_indices=tgt,
                                           ray_extinction_factor=i["ext"] / S, mirror_reflectivity=i["refl"] / S, device=scene.CPU)
    per = rt.get_bitmaps_per_target(bitmaps_per_heliostat=flux, target_area_indices=tgt, device=scene.CPU)
    data = {"W": f["W"], "H": f["H"], "mag": fx(float(rt.ray_magnitude)), "refl": i["refl"], "ext": i["ext"],
            "targets": f["targets"], "blocking": f["blocking"], "mirrors": mirrors_of(sc, f) if f["blocking"] else [],
            "samples": samples_of(sc, f, k, rt)}
    if i["dni"]:
        data["dni"] = i["dni"]
        data["area"] = fx((2 * f["size"] / S + 0.02) * (2 * f["size"] * f["aspect"] / S / S + 0.02))
    return {"scene": data, "flux": fx(flux), "arrive": fx(arrive), "on": fx(on), "free": fx(free), "per": fx(per)}


def trace_case(rng, blocking=False):
    f = random_field(rng, blocking, groups=rng.choice([1, 2]) if blocking else None, max_heliostats=4 if blocking else 3)
    k = rng.randrange(len(f["groups"]))
    return {"field": f, "group": k, "align": sorted({k} | {j for j in range(len(f["groups"])) if rng.random() < .7}),
            "batch": rng.randint(1, 4), "seed": rng.randint(0, 10**6), "cov": rng.choice([1000, 5000, 50000, 1000000]),
            "dni": rng.choice([0, 0, R.q(rng.uniform(1, 40))]), "ext": rng.choice([0, R.q(rng.uniform(0, .6))]),
            "refl": rng.choice([935000, R.q(rng.uniform(.5, 1))])}
