"""C07: blocking - every mirror in the way of a ray blocks it, no other does."""

import math
import os

import h5py
import torch
from artist.raytracing import blocking
from artist.scenario.scenario import Scenario

from . import field as F
from . import rays as R
from . import scene
from .core import REPO, fx, ints

TRACE = "BlockingTrace"
TRACE_CONSTS = {"S": 1_000_000}
LIMIT = 60
S = 1_000_000
ASSUMPTIONS = ["rays within the soft margin of an edge of a mirror (about 1.6 % of its side or 16 mm), or starting within 7 cm of it, may count either way",
               "one heliostat is activated at most once when blocking is on (the package rejects other masks)",
               "mirrors seen edge-on (cosine below 0.02) may count either way"]


def models(ctx):
    yield dict(module="Lbvh", consts={"MaxN": 5, "Bits": ctx.pick(3, 4), "Rounding": "up", "Ties": True}, spec="Spec",
               invariants=["Proper", "Contiguous", "NoOverflow", "FoundOnlyMet", "FoundAll"],
               properties=["Terminates"] if not ctx.thorough else [], timeout=800)


def rect(rng, c, size=1.0):
    """A randomly turned rectangle around c, as [c, su, sv]."""
    while True:
        n = R.unit([rng.gauss(0, .6), rng.gauss(0, .6) - .5, rng.uniform(.2, 1)])
        a = R.cross([rng.gauss(0, .2), 1.0, rng.gauss(0, .2)], n)
        if sum(x * x for x in a) > .1:
            break
    a = R.unit(a)          # roughly east
    b = R.cross(n, a)      # roughly north
    w, h = size * rng.uniform(.6, 1.4), size * rng.uniform(.6, 1.4)
    return {"c": R.q([c[k] - a[k] * w / 2 - b[k] * h / 2 for k in range(3)]), "su": R.q([x * h for x in b]), "sv": R.q([x * w for x in a])}


def layout(rng, n):
    """Centres of mirrors: scattered, on a line, in a grid, coinciding, or far apart in one direction."""
    kind = rng.choice(["scatter", "line", "grid", "same", "stack", "field", "cluster", "spread"])
    if kind == "scatter":
        return [[rng.uniform(-8, 8), rng.uniform(-8, 8), rng.uniform(-1, 1)] for _ in range(n)]
    if kind == "line":
        d = R.unit([rng.gauss(0, 1), rng.gauss(0, 1), rng.choice([0, 0, rng.gauss(0, 1)])])
        return [[x * 2.0 * k for x in d] for k in range(n)]
    if kind == "grid":
        return [[3.0 * (k % 4), 3.0 * (k // 4), 0.0] for k in range(n)]
    if kind == "same":
        p = [[rng.uniform(-5, 5), rng.uniform(-5, 5), 0.0] for _ in range(max(1, n // 3))]
        return [rng.choice(p) for _ in range(n)]
    if kind == "stack":
        return [[0.0, 0.0, 1.5 * k] for k in range(n)]
    if kind == "spread":  # distances that double: trees as deep as there are mirrors
        d = rng.choice([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [1.0, 1.0, 0.0], [1.0, .8, .1]])
        return [[x * 2.0 * rng.choice([1.0, 1.0, 1.02]) * 2.0 ** (k if n < 10 else k * 9 / n) for x in d] for k in range(n)]
    if kind == "cluster":
        return [[rng.choice([-300, 0, 300]) + rng.uniform(-.2, .2), rng.uniform(-1, 1), 0.0] for _ in range(n)]
    return [[rng.randint(-3, 3) * 6.0, 20 + rng.randint(0, 4) * 6.0, 1.7] for _ in range(n)]


def corners(m):
    c, u, v = m["c"], m["su"], m["sv"]
    return [c, [c[k] + u[k] for k in range(3)], [c[k] + u[k] + v[k] for k in range(3)], [c[k] + v[k] for k in range(3)]]


def shooting(rng):
    """Mirrors and rays starting on some of them, mostly aimed at other mirrors."""
    n = rng.choice([1, 2, 3, 5, 8, 13])
    mirrors = [rect(rng, p) for p in layout(rng, n)]
    hs = rng.sample(range(n), rng.randint(1, min(n, 3)))
    P, K = rng.randint(1, 3), rng.randint(1, 3)
    origins, dirs, limits = [], [], []

    def on(m, lo=0.05):
        a, b = rng.uniform(lo, 1 - lo), rng.uniform(lo, 1 - lo)
        return [(m["c"][k] + a * m["su"][k] + b * m["sv"][k]) / S for k in range(3)]
    for h in hs:
        o = [on(mirrors[h]) for _ in range(P)]
        dd, ll = [], []
        for _ in range(K):
            row, lim = [], []
            for p in o:
                aim = on(rng.choice(mirrors), rng.choice([.05, -.3])) if rng.random() < .8 else [rng.uniform(-9, 9), rng.uniform(-9, 9), 6.0]
                d = [aim[k] - p[k] for k in range(3)]
                far = math.sqrt(sum(x * x for x in d))
                if far < .3 or far > 60:
                    d, far = [rng.gauss(0, 1), rng.gauss(0, 1), 1.0], 3.0
                if rng.random() < .1:
                    d = [0.0, 0.0, 1.0]
                row.append(R.unit(d))
                lim.append(rng.choice([0, R.q(far * 1.5), R.q(far * .6), R.q(200.0)]))
            dd.append(row)
            ll.append(lim)
        origins.append(R.q(o))
        dirs.append(R.q(dd))
        limits.append(ll)
    return {"mirrors": mirrors, "origins": origins, "dirs": dirs, "limits": limits, "own": hs}


def cases(ctx):
    rng = ctx.rng
    for k in range(ctx.pick(60, 500)):
        n = [1, 2, 3, 4, 5, 7, 9, 16, 25, 40][k % 10]
        yield {"kind": "tree", "in": {"corners": [corners(rect(rng, p)) for p in layout(rng, n)]}}
    for k in range(ctx.pick(150, 1500)):
        yield {"kind": "filter", "in": shooting(rng)}
    for k in range(ctx.pick(120, 1200)):
        i = shooting(rng)
        if rng.random() < .3:
            i["own"] = [-1] * len(i["own"])
        yield {"kind": "mask", "in": i}
    for _ in range(ctx.pick(40, 300)):
        n = 6
        lo, hi, o, d = [], [], [], []
        for _ in range(n):
            a = [rng.uniform(-3, 3) for _ in range(3)]
            b = [x + rng.choice([0.0, rng.uniform(.1, 3)]) for x in a]
            start = [rng.uniform(-6, 6) for _ in range(3)]
            aim = [rng.uniform(x, y) for x, y in zip(a, b)] if rng.random() < .7 else [rng.uniform(-4, 4) for _ in range(3)]
            v = [y - x for x, y in zip(start, aim)]
            if rng.random() < .15:
                v = rng.choice([[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, 1.0]])
            lo.append(R.q(a))
            hi.append(R.q(b))
            o.append(R.q(start))
            d.append(R.q(R.unit(v)))
        yield {"kind": "box", "in": {"lo": lo, "hi": hi, "o": o, "d": d}}
    for _ in range(ctx.pick(40, 200)):
        yield {"kind": "rect", "in": {"scenario": "", "field": F.random_field(rng, True, max_heliostats=4)}}
    for name in ("test_blocking.h5", "test_scenario_paint_four_heliostats.h5", "test_scenario_paint_four_heliostats_ideal.h5"):
        for _ in range(ctx.pick(2, 8)):
            yield {"kind": "rect", "in": {"scenario": name, "side": rng.choice([2, 3, 5]), "seed": rng.randint(0, 999)}}
    for k in range(ctx.pick(60, 500)):
        yield {"kind": "trace", "in": F.trace_case(rng, blocking=True)}
    for k in range(ctx.pick(24, 200)):
        yield {"kind": "trace", "in": row_case(rng)}


def row_case(rng):
    """A dense field in which mirrors stand in front of each other, with a low target."""
    n = rng.choice([3, 5, 7])
    ng = rng.choice([1, 2, 3])
    pos = [[(k % 2) * rng.uniform(0, .6), -3.0 - 1.7 * k * rng.uniform(.9, 1.1), 0.0] for k in range(n)]
    rng.shuffle(pos)
    groups = []
    for g in range(min(ng, n)):
        mine = pos[g::ng]
        mask = [rng.choice([1, 1, 1, 0]) for _ in mine]
        if not any(mask):
            mask[0] = 1
        m = sum(mask)
        groups.append({"pos": R.q(mine), "mask": mask, "tgt": [0] * m,
                       "inc": R.q([R.unit([rng.uniform(-.3, .3), rng.uniform(.2, 1.2), rng.uniform(-1, -.3)]) for _ in range(m)])})
    f = {"targets": [{"kind": "p", "c": R.q([0.0, 0.0, rng.uniform(.4, 2.5)]), "n": R.q([0.0, -1.0, 0.0]), "w": R.q(3.0), "h": R.q(3.0)}],
         "groups": groups, "side": 2, "size": R.q(.8), "aspect": R.q(1.0), "rays": 1, "W": 4, "H": 4, "blocking": True}
    k = rng.randrange(len(groups))
    return {"field": f, "group": k, "align": list(range(len(groups))), "batch": rng.randint(1, 4), "seed": rng.randint(0, 10**6),
            "cov": 1000, "dni": 0, "ext": 0, "refl": S}


def corner_tensor(ms):
    return R.homogeneous(R.ten([corners(m) if isinstance(m, dict) else m for m in ms]), 1.0)


def run_tree(i):
    t = blocking.build_linear_bounding_volume_hierarchies(blocking_primitives_corners=corner_tensor(i["corners"]), device=scene.CPU)
    return {"left": ints(t["left"]), "right": ints(t["right"]), "leaf": [int(x) for x in t["is_leaf"].tolist()],
            "prim": ints(t["primitive_index"]), "lo": fx(t["aabb_min"]), "hi": fx(t["aabb_max"]),
            "depth": int(blocking.compute_lbvh_max_depth(t["left"], t["right"]))}


def ray_tensors(i):
    lim = torch.tensor(i["limits"], dtype=torch.float64).div(S).to(torch.float32)
    return (R.homogeneous(R.ten(i["origins"]), 1.0), R.homogeneous(R.ten(i["dirs"]), 0.0), torch.where(lim == 0, torch.inf, lim))


def run_filter(i):
    o, d, lim = ray_tensors(i)
    kept = blocking.lbvh_filter_blocking_planes(
        points_at_ray_origins=o, ray_directions=d, blocking_primitives_corners=corner_tensor(i["mirrors"]),
        ray_to_heliostat_mapping=torch.tensor(i["own"]).repeat_interleave(d.shape[1] * d.shape[2]),
        intersection_distances_target=lim, device=scene.CPU)
    return {"kept": ints(kept)}


def run_mask(i):
    o, d, lim = ray_tensors(i)
    ms = i["mirrors"]
    spans = R.homogeneous(R.ten([[m["su"], m["sv"]] for m in ms]), 0.0)
    normals = R.homogeneous(torch.nn.functional.normalize(torch.cross(spans[:, 0, :3], spans[:, 1, :3], dim=-1), dim=-1), 0.0)
    own = torch.tensor(i["own"])[:, None] == torch.arange(len(ms))[None, :]
    mask = blocking.soft_ray_blocking_mask(
        ray_origins=o, ray_directions=d, blocking_primitives_corners=corner_tensor(ms), blocking_primitives_spans=spans,
        blocking_primitives_normals=normals, intersection_distances_target=lim, own_blocking_primitives=own)
    return {"mask": fx(mask)}


def run_box(i):
    d = R.ten(i["d"])
    a, b = blocking.ray_aabb_intersect(ray_origins=R.ten(i["o"]), inverse_ray_directions=1.0 / (d + 1e-12),
                                       aabb_min=R.ten(i["lo"]), aabb_max=R.ten(i["hi"]))
    return {"entry": fx(a.clamp(-90, 90)), "exit": fx(b.clamp(-90, 90))}


def prim_list(p):
    c, s, n = p
    return [{"c": fx(c[k]), "s": fx(s[k]), "n": fx(n[k])} for k in range(c.shape[0])]


def run_rect(i):
    tol = 30
    if not i["scenario"]:
        f = i["field"]
        sc = F.build(f)
        for k in range(len(f["groups"])):
            F.align(sc, f, k)
        truth = F.mirrors_of(sc, f)
        surf = torch.cat([g.surface_points for g in sc.heliostat_field.heliostat_groups])
        rt = F.tracer(sc, f, 0)
    else:
        with h5py.File(os.path.join(REPO, "tests/data/scenarios", i["scenario"])) as h:
            sc = Scenario.load_scenario_from_hdf5(h, number_of_surface_points_per_facet=torch.tensor([i["side"]] * 2), device=scene.CPU)
        g = torch.Generator().manual_seed(i["seed"])
        for grp in sc.heliostat_field.heliostat_groups:
            m = torch.ones(grp.number_of_heliostats, dtype=torch.int32)
            inc = torch.nn.functional.normalize(torch.stack([torch.rand(len(m), generator=g) - .5, torch.ones(len(m)), -torch.rand(len(m), generator=g) - .2], 1), dim=1)
            scene.prepare(sc, grp, m.tolist(), [0] * len(m), inc.tolist())
        surf = torch.cat([g.surface_points for g in sc.heliostat_field.heliostat_groups])
        from artist.raytracing.heliostat_ray_tracer import HeliostatRayTracer
        rt = HeliostatRayTracer(scenario=sc, heliostat_group=sc.heliostat_field.heliostat_groups[0], blocking_active=True,
                                bitmap_resolution=torch.tensor([8, 8]))
        active = torch.cat([g.active_surface_points for g in sc.heliostat_field.heliostat_groups])
        truth = []
        for k in range(surf.shape[0]):
            p = surf[k, :, :2].double()
            e, n = p[:, 0], p[:, 1]
            ll, ul, ur, lr = ((-e - n).argmax(), (n - e).argmax(), (e + n).argmax(), (e - n).argmax())
            a = active[k].double()
            m = {"c": a[ll][:3], "su": a[ul][:3] - a[ll][:3], "sv": a[lr][:3] - a[ll][:3]}
            far = a[ur][:3] - (m["c"] + m["su"] + m["sv"])
            tol = max(tol, int(2 * S * float(far.norm())) + 30)
            truth.append({key: fx(v) for key, v in m.items()})
    act = rt.blocking_heliostat_surfaces_active
    return {"mirrors": truth, "tol": tol,
            "index": prim_list(blocking.create_blocking_primitives_rectangles_by_index(blocking_heliostats_active_surface_points=act, device=scene.CPU)),
            "search": prim_list(blocking.create_blocking_primitives_rectangle(
                blocking_heliostats_surface_points=surf, blocking_heliostats_active_surface_points=act, device=scene.CPU))}


def run_case(case):
    return {"trace": F.trace_event, "tree": run_tree, "filter": run_filter, "mask": run_mask, "rect": run_rect, "box": run_box}[case["kind"]](case["in"])
