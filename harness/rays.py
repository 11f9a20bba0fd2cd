"""Shared by C05 and C06: random targets and rays, and running them through the intersection code."""

import math

import torch
from artist.flux import bitmap
from artist.geometry import coordinates
from artist.raytracing import geometry
from artist.raytracing.heliostat_ray_tracer import HeliostatRayTracer
from artist.scene.rays import Rays

from . import scene
from .core import fx

S = 1_000_000


def q(v):
    """Quantise a nested list of numbers to the fixed-point grid."""
    return [q(x) for x in v] if isinstance(v, (list, tuple)) else int(math.floor(v * S + 0.5))


def ten(v):
    return torch.tensor(v, dtype=torch.float64).div(S).to(torch.float32)


def unit(v):
    n = math.sqrt(sum(x * x for x in v))
    return [x / n for x in v]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def planar_target(rng, lattice=False):
    if lattice:
        return {"kind": "p", "c": q([0.0, 0.0, 5.0]), "n": q([0.0, rng.choice([-1.0, 1.0]), 0.0]), "w": q(4.0), "h": q(2.0)}
    return {"kind": "p", "c": q([rng.uniform(-3, 3), rng.uniform(-2, 2), rng.uniform(3, 9)]),
            "n": q([0.0, rng.choice([-1.0, -1.0, 1.0]), 0.0]), "w": q(rng.uniform(1, 6)), "h": q(rng.uniform(1, 6))}


def cylinder_target(rng, upright=None):
    if upright is None:
        upright = rng.random() < 0.5
    a = [0.0, 0.0, 1.0] if upright else unit([rng.gauss(0, 1) for _ in range(3)])
    while True:
        v = [rng.gauss(0, 1) for _ in range(3)]
        n = cross(a, v)
        if sum(x * x for x in n) > 0.05:
            n = unit(n)
            break
    return {"kind": "c", "c": q([rng.uniform(-3, 3), rng.uniform(-2, 2), rng.uniform(3, 9)]), "n": q(n), "a": q(a),
            "r": q(rng.uniform(0.5, 3)), "h": q(rng.uniform(1, 6)),
            "open": q(rng.choice([math.pi / 2, math.pi, 1.5 * math.pi, 2 * math.pi, rng.uniform(0.5, 2 * math.pi)]))}


def point_on(rng, t, margin=1.15):
    """A point on (or slightly off) the target surface."""
    c = [x / S for x in t["c"]]
    if t["kind"] == "p":
        return [c[0] + rng.uniform(-.5, .5) * margin * t["w"] / S, c[1], c[2] + rng.uniform(-.5, .5) * margin * t["h"] / S]
    n, a = [x / S for x in t["n"]], [x / S for x in t["a"]]
    v = cross(a, n)
    th, z = rng.uniform(-.5, .5) * margin * t["open"] / S, rng.uniform(-.5, .5) * margin * t["h"] / S
    return [c[k] + t["r"] / S * (math.cos(th) * n[k] + math.sin(th) * v[k]) + z * a[k] for k in range(3)]


def origin_for(rng, t, p):
    """Mostly an origin from which the front of the target is visible."""
    c = [x / S for x in t["c"]]
    n = [x / S for x in t["n"]]
    if t["kind"] == "c":
        a = [x / S for x in t["a"]]
        rel = [p[k] - c[k] for k in range(3)]
        z = sum(x * y for x, y in zip(rel, a))
        n = unit([rel[k] - z * a[k] for k in range(3)])
    d = rng.choice([rng.uniform(3, 18), rng.uniform(8, 18), rng.uniform(-6, 3)])
    return [p[k] + d * n[k] + rng.uniform(-.45, .45) * abs(d) for k in range(3)]


def steep_rays(rng, t):
    """Rays that almost run along the axis of a cylinder."""
    c, n, a = ([x / S for x in t[k]] for k in "cna")
    origins, dirs = [], []
    for _ in range(rng.randint(2, 4)):
        p = point_on(rng, t, .95)
        rel = [p[k] - c[k] for k in range(3)]
        z = sum(x * y for x, y in zip(rel, a))
        out = unit([rel[k] - z * a[k] for k in range(3)])
        side, flat, s = cross(a, out), rng.choice([rng.uniform(.086, .1), rng.uniform(.086, .3)]), rng.choice([-1, 1])
        turn = rng.uniform(-.5, .5)
        d = unit([s * a[k] + flat * (-math.cos(turn) * out[k] + math.sin(turn) * side[k]) for k in range(3)])
        far = rng.uniform(.5, 6)
        origins.append([p[k] - far * d[k] for k in range(3)])
        dirs.append(d)
    return {"targets": [t], "idx": [0], "origins": [q(origins)], "dirs": [[q(dirs)]], "mags": [[q([1.0] * len(dirs))]],
            "W": rng.choice([2, 5, 33]), "H": rng.choice([3, 16, 64])}


def random_rays(rng, targets, heliostats, rays, points):
    idx = [rng.randrange(len(targets)) for _ in range(heliostats)]
    origins, dirs, mags = [], [], []
    for k in range(heliostats):
        t = targets[idx[k]]
        base = origin_for(rng, t, point_on(rng, t))
        pts = [[b + rng.uniform(-.8, .8) for b in base] for _ in range(points)]
        origins.append(q(pts))
        dd = []
        for _ in range(rays):
            row = []
            for p in pts:
                aim = point_on(rng, t)
                d = [aim[j] - p[j] for j in range(3)]
                if rng.random() < 0.07:
                    d = [-x for x in d]
                if rng.random() < 0.05:
                    d = [rng.gauss(0, 1) for _ in range(3)]
                row.append(unit(d))
            dd.append(row)
        dirs.append(q(dd))
        mags.append(q([[rng.choice([1.0, 1.0, 0.25, 3.5]) for _ in range(points)] for _ in range(rays)]))
    return {"targets": targets, "idx": idx, "origins": origins, "dirs": dirs, "mags": mags,
            "W": rng.choice([2, 5, 8, 33, 64]), "H": rng.choice([3, 4, 16, 64])}


def build_tower(targets):
    p = [(f"p{k}", [x / S for x in t["c"]], [x / S for x in t["n"]], (t["w"] / S, t["h"] / S))
         for k, t in enumerate(targets) if t["kind"] == "p"]
    c = [(f"c{k}", [x / S for x in t["c"]], [x / S for x in t["n"]], [x / S for x in t["a"]], t["r"] / S, t["h"] / S, t["open"] / S)
         for k, t in enumerate(targets) if t["kind"] == "c"]
    return scene.tower(p, c)


def homogeneous(t, w):
    return torch.cat([t, torch.full((*t.shape[:-1], 1), w)], dim=-1)


def intersect(kind, tower, origins, dirs, mags, idx, W, H):
    f = geometry.line_plane_intersections if kind == "p" else geometry.line_cylinder_intersections
    return f(rays=Rays(ray_directions=homogeneous(ten(dirs), 0.0), ray_magnitudes=ten(mags)),
             points_at_ray_origins=homogeneous(ten(origins), 1.0), target_areas=tower.target_areas[0 if kind == "p" else 1],
             target_area_indices=torch.tensor(idx), bitmap_resolution=torch.tensor([W, H]), device=scene.CPU)


def run_rays(i):
    kind = i["targets"][0]["kind"]
    e, u, dist, inten = intersect(kind, build_tower(i["targets"]), i["origins"], i["dirs"], i["mags"], i["idx"], i["W"], i["H"])
    return {"e": fx(e), "u": fx(u), "dist": fx(dist), "int": fx(inten)}


def run_back(i):
    pos = coordinates.bitmap_coordinates_to_target_coordinates(
        bitmap_coordinates=torch.stack([ten(i["col"]), ten(i["row"])], dim=1), bitmap_resolution=torch.tensor([i["W"], i["H"]]),
        solar_tower=build_tower(i["targets"]), target_area_indices=torch.tensor(i["idx"]), device=scene.CPU)
    return {"pos": fx(pos)}


_TRACER = {}


def tracer(W, H):
    if (W, H) not in _TRACER:
        grp = scene.group(["h"], [[0.0, -8.0, 0.0]], side=2)
        sc = scene.scenario([grp], scene.tower(scene.DEFAULT_PLANAR), rays=1)
        grp.activate_heliostats(active_heliostats_mask=torch.tensor([1], dtype=torch.int32), device=scene.CPU)
        _TRACER[(W, H)] = HeliostatRayTracer(scenario=sc, heliostat_group=grp, blocking_active=False,
                                             bitmap_resolution=torch.tensor([W, H]), batch_size=1, random_seed=1)
    return _TRACER[(W, H)]


def run_spot(i):
    """One ray through intersection, splatting, centre of mass and back to the target."""
    t = i["targets"][i["idx"]]
    tw = build_tower(i["targets"])
    planes = sum(1 for x in i["targets"] if x["kind"] == "p")
    local = i["idx"] if t["kind"] == "p" else i["idx"] - planes
    e, u, dist, inten = intersect(t["kind"], tw, [[i["o"]]], [[[i["d"]]]], [[[i["mag"]]]], [local], i["W"], i["H"])
    bm = tracer(i["W"], i["H"]).bilinear_splatting(
        bitmap_intersections_e=e, bitmap_intersections_u=u, absolute_intensities=inten, device=scene.CPU)
    com = bitmap.get_center_of_mass(bm, device=scene.CPU)
    pos = coordinates.bitmap_coordinates_to_target_coordinates(
        bitmap_coordinates=com, bitmap_resolution=torch.tensor([i["W"], i["H"]]), solar_tower=tw,
        target_area_indices=torch.tensor([i["idx"]]), device=scene.CPU)
    return {"sum": fx(bm.sum()), "com": fx(com[0]), "pos": fx(pos[0])}


def run(case):
    return {"rays": run_rays, "back": run_back, "spot": run_spot}[case["kind"]](case["in"])


def ray_cases(ctx, make, n, n_back, n_spot, other):
    rng = ctx.rng
    for _ in range(n):
        targets = [make(rng) for _ in range(rng.randint(1, 3))]
        yield {"kind": "rays", "in": random_rays(rng, targets, rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 4))}
    if make is cylinder_target:
        for _ in range(n // 8):
            yield {"kind": "rays", "in": steep_rays(rng, make(rng))}
    for _ in range(n_back):
        targets = [planar_target(rng) for _ in range(rng.randint(1, 2))] + [cylinder_target(rng) for _ in range(rng.randint(1, 2))]
        W, H = rng.choice([4, 9, 64]), rng.choice([3, 8, 50])
        m = rng.randint(1, 5)
        yield {"kind": "back", "in": {"targets": targets, "idx": [rng.randrange(len(targets)) for _ in range(m)], "W": W, "H": H,
                                      "col": q([rng.uniform(0, W - 1) for _ in range(m)]),
                                      "row": q([rng.uniform(0, H - 1) for _ in range(m)])}}
    for _ in range(n_spot):
        t = make(rng)
        targets = sorted([t] + [other(rng) for _ in range(rng.randint(0, 1))], key=lambda x: x["kind"] == "c")
        p = point_on(rng, t, 0.97)
        o = origin_for(rng, t, p)
        if math.dist(o, p) < 0.3:
            continue
        yield {"kind": "spot", "in": {"targets": targets, "idx": targets.index(t), "o": q(o),
                                      "d": q(unit([p[k] - o[k] for k in range(3)])), "mag": q(rng.choice([1.0, 2.0, 0.5])),
                                      "W": rng.choice([4, 9, 17, 64]), "H": rng.choice([5, 8, 31])}}
