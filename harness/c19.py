"""C19: coordinate systems, rotations and canting."""

import math

import torch
from artist.geometry import coordinates, rotations, transforms

from . import rays as R
from . import scene
from .core import fx

TRACE = "GeometryTrace"
TRACE_CONSTS = {"S": 1_000_000}
ASSUMPTIONS = ["exactly opposite vectors have no unique rotation (decompose_rotations)",
               "geographic offsets are the documented linearisation at the latitude of the point, up to 50 km"]


def models(ctx):
    yield dict(module="GeometryModel", consts={"S": 1_000_000, "Parts": ctx.pick(12, 24), "Tol": 25}, init="Init", next_="Next",
               invariants=["Proper", "KeepsLength", "Additive", "Axes", "UnitEnu", "South", "Canting"])


def vec(rng, n=1.0):
    k = rng.random()
    if k < .25:
        v = [0.0, 0.0, 0.0]
        v[rng.randrange(3)] = rng.choice([-1.0, 1.0])
        return [x * n for x in v]
    if k < .4:
        v = [rng.choice([-1.0, 0.0, 1.0]) for _ in range(3)]
        return [x * n for x in v] if any(v) else [0.0, n, 0.0]
    while True:
        v = [rng.gauss(0, 1) for _ in range(3)]
        if sum(x * x for x in v) > .3:
            return [x * n for x in v]


def angle(rng):
    return R.q(rng.choice([rng.choice([-1, 1]) * math.pi * rng.randint(0, 8) / 4, rng.uniform(-7, 7), rng.uniform(-.01, .01)]))


def cases(ctx):
    rng = ctx.rng
    for _ in range(ctx.pick(60, 500)):
        n, deg = rng.randint(1, 5), rng.randint(0, 1)
        full = 180 if deg else math.pi
        yield {"kind": "enu", "in": {"deg": deg, "slant": rng.choice([R.q(1.0), R.q(rng.uniform(.1, 50))]),
                                     "az": [R.q(rng.choice([rng.randint(-8, 8) * full / 4, rng.uniform(-2, 2) * full])) for _ in range(n)],
                                     "el": [R.q(rng.choice([rng.randint(-2, 2) * full / 4, rng.uniform(-.5, .5) * full])) for _ in range(n)]}}
    for _ in range(ctx.pick(50, 400)):
        n, mm = rng.randint(1, 4), rng.randint(0, 1)
        span = 7_000_000 if mm else 130_000
        yield {"kind": "wgs", "in": {"mm": mm, "lat": R.q(rng.choice([rng.uniform(-75, 75), 50.9, 0.0])), "lon": R.q(rng.choice([rng.uniform(-170, 170), rng.uniform(-170, 170), 179.9999, -179.9999])),
                                     "alt": rng.randint(-100, 3000), "dlat": [rng.randint(-span, span) for _ in range(n)],
                                     "dlon": [rng.randint(-span, span) for _ in range(n)],
                                     "dalt": [rng.randint(-900_000, 900_000) for _ in range(n)]}}
    for _ in range(ctx.pick(40, 300)):
        n = rng.randint(1, 5)
        yield {"kind": "homog", "in": {"v": [[rng.randint(-20_000_000, 20_000_000) if rng.random() < .8 else rng.randint(-3, 3) * 1_000_000
                                              for _ in range(3)] for _ in range(n)], "batched": rng.randint(0, 1)}}
    for _ in range(ctx.pick(50, 400)):
        n = rng.randint(1, 4)
        yield {"kind": "rot", "in": {"a": [angle(rng) for _ in range(n)], "b": [angle(rng) for _ in range(n)],
                                     "t": [R.q(vec(rng, 10.0)) for _ in range(n)]}}
    for _ in range(ctx.pick(60, 500)):
        n = rng.randint(1, 4)
        t = vec(rng, rng.choice([1.0, 5.0, .5]))
        yield {"kind": "decomp", "in": {"from": [R.q(rng.choice([vec(rng), vec(rng, 4.0), [x * 2 for x in t], [x + rng.gauss(0, .02) for x in t]])) + [0] for _ in range(n)],
                                        "to": R.q(t) + [0]}}
    for _ in range(ctx.pick(60, 500)):
        a = vec(rng, rng.choice([1.0, 5.0, .5]))
        b = rng.choice([vec(rng), vec(rng, 3.0), [-x for x in a], [2 * x for x in a]])
        if rng.random() < .35:  # nearly parallel, nearly opposite
            far = math.sqrt(sum(x * x for x in a)) * rng.choice([.3, .05, .01, .003])
            b = [rng.choice([1, 1, -1]) * 1.0 * x for x in a] if rng.random() < .6 else [-x for x in a]
            b = [x + far * y for x, y in zip(b, R.cross(R.unit(a), R.unit([rng.gauss(0, 1) for _ in range(3)])))]
        yield {"kind": "axis", "in": {"from": R.q(a), "to": R.q(b)}}
    for _ in range(ctx.pick(70, 600)):
        n, f, p = rng.randint(1, 3), rng.randint(1, 4), rng.randint(1, 3)
        cant = []
        for _ in range(n):
            row = []
            for _ in range(f):
                while True:
                    tilt = rng.choice([.02, .3, 1.5])
                    e = [rng.uniform(.2, 2), rng.gauss(0, tilt), rng.gauss(0, tilt)]
                    m = [rng.gauss(0, tilt), rng.uniform(.2, 2), rng.gauss(0, tilt)]
                    if rng.random() < .2:
                        e, m = [1.5, 0.0, 0.0], [0.0, 1.25, 0.0]
                    c = R.cross(R.unit(e), R.unit(m))
                    if sum(x * x for x in c) > .05:
                        break
                row.append([R.q(e) + [0], R.q(m) + [0]])
            cant.append(row)
        w = rng.choice([0, 1_000_000])
        yield {"kind": "cant", "in": {"cant": cant, "data": [[[R.q(vec(rng, rng.choice([1.0, 3.0]))) + [w] for _ in range(p)] for _ in range(f)] for _ in range(n)]}}


def run_enu(i):
    s = 1e6
    return {"p": fx(coordinates.azimuth_elevation_to_enu(
        azimuth=torch.tensor([a / s for a in i["az"]], dtype=torch.float64), elevation=torch.tensor([a / s for a in i["el"]], dtype=torch.float64),
        slant_range=i["slant"] / s, degree=bool(i["deg"]), device=scene.CPU))}


def run_wgs(i):
    ref = [i["lat"] / 1e6, i["lon"] / 1e6, i["alt"] / 1e3]
    pts = [[ref[0] + math.degrees(a * 1e-9), ref[1] + math.degrees(b * 1e-9), ref[2] + c / 1e3] for a, b, c in zip(i["dlat"], i["dlon"], i["dalt"])]
    pts = [[a, (b + 180) % 360 - 180 if abs(b) > 180 else b, c] for a, b, c in pts]  # longitudes start anew at the antimeridian
    p = coordinates.convert_wgs84_coordinates_to_local_enu(coordinates_to_transform=torch.tensor(pts, dtype=torch.float64),
                                                           reference_point=torch.tensor(ref, dtype=torch.float64), device=scene.CPU)
    return {"p": fx(p, 1000 if i["mm"] else 1_000_000)}


def run_homog(i):
    v = R.ten(i["v"])
    if i["batched"]:
        p = coordinates.convert_3d_points_to_4d_format(points=v[None, :, None], device=scene.CPU)[0, :, 0]
        d = coordinates.convert_3d_directions_to_4d_format(directions=v[None, :, None], device=scene.CPU)[0, :, 0]
    else:
        p = coordinates.convert_3d_points_to_4d_format(points=v, device=scene.CPU)
        d = coordinates.convert_3d_directions_to_4d_format(directions=v, device=scene.CPU)
    back = {float(a): b for a, b in zip(v.double().flatten().tolist(), [x for r in i["v"] for x in r])}

    def exact(t):  # the numbers must be handed through unchanged
        return [[back.get(float(x), fx(x)) for x in row[:3]] + [fx(row[3])] for row in t.double().tolist()]
    return {"p": exact(p), "d": exact(d), "n": fx(coordinates.normalize_points(v), 100_000_000)}


def run_rot(i):
    a, b, t = R.ten(i["a"]), R.ten(i["b"]), R.ten(i["t"])
    s = transforms.rotate_distortions(e=a[:, None, None], u=b[:, None, None], device=scene.CPU)[:, 0, 0]
    return {"e": fx(transforms.rotate_e(e=a, device=scene.CPU)), "n": fx(transforms.rotate_n(n=a, device=scene.CPU)),
            "u": fx(transforms.rotate_u(u=a, device=scene.CPU)), "s": fx(s),
            "t": fx(transforms.translate_enu(e=t[:, 0], n=t[:, 1], u=t[:, 2], device=scene.CPU))}


def run_decomp(i):
    e, n, u = rotations.decompose_rotations(initial_vector=R.ten(i["from"]), target_vector=R.ten(i["to"]))
    return {"e": fx(e), "n": fx(n), "u": fx(u)}


def run_axis(i):
    axis, ang = rotations.rotation_angle_and_axis(from_orientation=R.ten(i["from"]), to_orientation=R.ten(i["to"]), device=scene.CPU)
    return {"axis": fx(axis), "angle": fx(ang)}


def run_cant(i):
    c, d = R.ten(i["cant"]), R.ten(i["data"])
    x = transforms.perform_canting(canting_angles=c, data=d, device=scene.CPU)
    return {"canted": fx(x), "uncanted": fx(transforms.perform_canting(canting_angles=c, data=d, inverse=True, device=scene.CPU)),
            "back": fx(transforms.perform_canting(canting_angles=c, data=x, inverse=True, device=scene.CPU))}


def run_case(case):
    return {"enu": run_enu, "wgs": run_wgs, "homog": run_homog, "rot": run_rot, "decomp": run_decomp, "axis": run_axis,
            "cant": run_cant}[case["kind"]](case["in"])
