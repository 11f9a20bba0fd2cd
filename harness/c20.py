"""C20: NURBS surfaces."""

import torch
from artist.nurbs import NURBSSurfaces
from artist.nurbs import utils as nurbs_utils

from . import rays as R
from . import scene
from .core import Raw, fx, ints

TRACE = "NurbsTrace"
S = 1_000_000
TRACE_CONSTS = {"S": S}
ASSUMPTIONS = ["evaluation positions keep the documented distance of 1e-7 from the ends for uniform knots (the other mode includes the ends)",
               "surfaces of degree one are not compared in their normals at their edges, where there is no unique one",
               "control grids are not folded (an upward surface)"]


def models(ctx):
    yield dict(module="NurbsModel", consts=dict(S=S, Degrees={1, 2, 3, 4} if ctx.thorough else {1, 2, 3}, Extra={1, 2, 3, 5}, Steps=ctx.pick(14, 60)), spec="Spec",
               invariants=["MatchesRecursion", "Local", "NonNegative", "PartitionOfUnity", "EndPoints", "SlopesFit", "Linear"], properties=["Finishes"])


def spans(rng):
    return rng.choice([1, 2, 3, 4, rng.randint(5, 14)])


def position(rng, n, p):
    return rng.choice([rng.randint(0, S), rng.randint(0, S), S * rng.randint(0, n - p) // (n - p), rng.choice([0, S]), rng.randint(S - S // (n - p) // 4, S) if rng.random() < .5 else rng.randint(0, S // (n - p))])


def cases(ctx):
    rng = ctx.rng
    for p in range(1, 5):
        for e in [1, 2, 3, 4, 7, 12] if not ctx.thorough else range(1, 17):
            for uniform in (1, 0):
                yield {"kind": "basis", "in": {"p": p, "n": p + e, "uniform": uniform,
                                               "eval": [S * k // e for k in range(e + 1)] + [rng.randint(0, S) for _ in range(6)] + [rng.randint(S - S // e // 2, S), S - S // e - 1000 if e > 1 else 5]}}
    for _ in range(ctx.pick(150, 1500)):
        p, q = rng.randint(1, 3), rng.randint(1, 3)
        n, m = p + spans(rng), q + spans(rng)
        hs, fs, k = rng.randint(1, 3), rng.randint(1, 4), rng.randint(1, 4)
        bend = rng.choice([0, .02, .2])
        jit = rng.choice([0, .15])
        control = []
        for _ in range(hs):
            row = []
            for _ in range(fs):
                a, b, z = rng.uniform(.4, 2), rng.uniform(.4, 2), rng.uniform(-.3, .3)
                row.append([[R.q([a * (2 * u / (n - 1) - 1) + jit * a / n * rng.uniform(-1, 1), b * (2 * v / (m - 1) - 1) + jit * b / m * rng.uniform(-1, 1),
                                  z + bend * rng.uniform(-1, 1) * min(a / n, b / m)]) for v in range(m)] for u in range(n)])
            control.append(row)
        i = {"degrees": [p, q], "uniform": int(rng.random() < .7), "control": control,
             "eval": [[[[position(rng, n, p), position(rng, m, q)] for _ in range(k)] for _ in range(fs)] for _ in range(hs)]}
        if rng.random() < .7:
            i["canting"] = [[cant(rng) for _ in range(fs)] for _ in range(hs)]
            i["shift"] = [[R.q([rng.uniform(-2, 2), rng.uniform(-2, 2), rng.uniform(-.1, .1)]) for _ in range(fs)] for _ in range(hs)]
        yield {"kind": "surface", "in": i}
    for _ in range(ctx.pick(25, 200)):
        eps = rng.choice([0, 1, 1000, 20000])
        yield {"kind": "grid", "in": {"n": [rng.randint(1, 7), rng.randint(1, 7)], "eps": eps}}
    for _ in range(ctx.pick(25, 200)):
        yield {"kind": "plane", "in": {"n": [rng.randint(2, 6), rng.randint(2, 6)], "canting": [cant(rng) for _ in range(rng.randint(1, 4))]}}


def cant(rng):
    e = R.unit([1, rng.uniform(-.2, .2), rng.uniform(-.2, .2)])
    n = R.unit([rng.uniform(-.1, .1) - e[1], 1, rng.uniform(-.2, .2)])
    a, b = rng.uniform(.3, 2), rng.uniform(.3, 2)
    return [R.q([a * x for x in e]), R.q([b * x for x in n])]


def run_case(case):
    i = case["in"]
    if case["kind"] == "grid":
        g = nurbs_utils.create_nurbs_evaluation_grid(torch.tensor(i["n"]), **({"epsilon": i["eps"] / S} if i["eps"] else {}), device=scene.CPU)
        return {"points": fx(g), "inside": int(bool(((g > 0) & (g < 1)).all()))}
    if case["kind"] == "plane":
        c = R.homogeneous(R.ten(i["canting"]), 0.0)
        return {"control": fx(nurbs_utils.create_planar_nurbs_control_points(torch.tensor(i["n"]), c, device=scene.CPU))}
    uniform = bool(i["uniform"])

    def inside(x):
        x = torch.tensor(x, dtype=torch.float64).div(S).float()
        return x.clamp(1e-7, 1 - 1e-7) if uniform else x
    if case["kind"] == "basis":
        n, p = i["n"], i["p"]
        s = NURBSSurfaces(degrees=torch.tensor([p, 1]), control_points=torch.rand(1, 1, n, 2, 3), uniform=uniform, device=scene.CPU)
        ev = inside([[[[x, S // 2] for x in i["eval"]]]])
        spans = s.find_spans(direction=0, evaluation_points=ev, knot_vectors=s.knot_vectors_u, device=scene.CPU)
        d = s.basis_functions_and_derivatives(direction=0, evaluation_points=ev, knot_vectors=s.knot_vectors_u, spans=spans, nth_derivative=1, device=scene.CPU)
        rows = lambda k, f: [[fx(float(d[k][b][0, 0, x]) * f) for b in range(p + 1)] for x in range(len(i["eval"]))]
        return {"knots": fx(s.knot_vectors_u[0, 0]), "spans": ints(spans[0, 0]), "basis": rows(0, 1), "slopes": rows(1, 1 / (n - p))}
    s = NURBSSurfaces(degrees=torch.tensor(i["degrees"]), control_points=R.ten(i["control"]), uniform=uniform, device=scene.CPU)
    c = R.homogeneous(R.ten(i["canting"]), 0.0) if "canting" in i else None
    f = R.homogeneous(R.ten(i["shift"]), 0.0) if "canting" in i else None
    pts, nrm = s.calculate_surface_points_and_normals(evaluation_points=inside(i["eval"]), canting=c, facet_translations=f, device=scene.CPU)
    return {"points": fx(pts), "normals": fx(nrm)}
