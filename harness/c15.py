"""C15: learned surfaces keep their outline and reach the field's surfaces unchanged."""

import itertools
import pathlib
import shutil
import tempfile

import h5py
import torch
from artist.field.heliostat_field import HeliostatField
from artist.optim import SurfaceReconstructor
from artist.scenario.scenario import Scenario

from . import c14, c18, c20
from . import rays as R
from . import scene
from .core import fx, ints

TRACE = "SurfacesTrace"
S = 1_000_000
TRACE_CONSTS = {"S": S}
LIMIT = 120
ASSUMPTIONS = ["control points that are not flat describe a fitted surface: they are where the facet is (as written by the package)",
               "the number of control points is not changed on loading a fitted surface (documented)"]


def models(ctx):
    yield dict(module="SurfacesModel", consts=dict(Sizes=[2, 1], Versions=1, MaxOps=ctx.pick(4, 5)), spec="Spec",
               invariants=["UpToDate", "Replayed", "Repeats", "Known", "LockKeeps"], properties=["OnlyUpdates", "OnlyBends", "Ends"])


def bend(rng, facets):
    """Other control points of the same facets, in the coordinates of the facets."""
    out = []
    for f in facets:
        n, m = len(f["control"]), len(f["control"][0])
        a, b = [sum(t * t for t in x) ** .5 / S for x in f["cant"]]
        lift, jit = rng.choice([0, .02, .1]), rng.choice([0, .1])
        out.append([[R.q([a * (2 * u / (n - 1) - 1 + jit / n * rng.uniform(-1, 1)), b * (2 * v / (m - 1) - 1 + jit / m * rng.uniform(-1, 1)), lift * rng.uniform(-1, 1) * min(a, b) / max(n, m)])
                     for v in range(m)] for u in range(n)])
    return out


def history(rng, ops):
    sizes = [2, 1]
    groups = []
    facets = rng.choice([1, 2, 2])
    for g, n in enumerate(sizes):
        degrees = [rng.randint(1, 3), rng.randint(1, 3)]
        k = [degrees[0] + rng.randint(1, 3), degrees[1] + rng.randint(1, 3)]
        hel = []
        for h in range(n):
            s = c18.surface(rng, facets, degrees, k, rng.random() < .6)
            hel.append({"facets": s["facets"], "versions": [bend(rng, s["facets"]) for _ in range(2)]})
        groups.append({"degrees": degrees, "hel": hel})
    steps = []
    for o in ops:
        o = dict(o)
        if o["op"] == "activate":
            o["mask"] = [rng.choice([0, 1, 2]) for _ in range(sizes[o["g"] - 1])]
        steps.append(o)
    grid = rng.choice([[1, 3], [3, 2], [2, 3], [2, 2], [3, 3], [2, 1], [4, 2]])
    return {"groups": groups, "grid": grid, "steps": steps, "inplace": rng.randint(0, 1), "direct": int(grid[0] == grid[1] and rng.random() < .5)}


def cases(ctx):
    rng = ctx.rng
    shapes = [(u, v) for u in range(1, 5) for v in range(1, 5)] + [(7, 2), (2, 9), (6, 5)]
    for (u, v), hs, fs in itertools.product(shapes, (1, 2), (1, 3)):
        k = 0 if rng.random() < .1 else 5
        yield {"kind": "lock", "in": {"g": [[[[[rng.randint(-2 * S, 2 * S) if rng.random() * 5 < k else 0 for _ in range(3)] for _ in range(v)] for _ in range(u)] for _ in range(fs)] for _ in range(hs)]}}
    lists = ctx.behaviours("SurfacesModel", dict(Sizes=[2, 1], Versions=1, MaxOps=3), spec="Spec", invariants=["Export"])
    lists += ctx.behaviours("SurfacesModel", dict(Sizes=[2, 1], Versions=2, MaxOps=6), spec="Spec", invariants=["Export"], simulate=(ctx.pick(40, 300), 8))
    rng.shuffle(lists)
    seen = set()
    want = ctx.pick(130, 900)
    for ops in lists:
        if str(ops) not in seen and (any(o["op"] == "update" for o in ops) or rng.random() < .1) and len(seen) < want:
            seen.add(str(ops))
            yield {"kind": "history", "in": history(rng, ops)}
    for k in range(ctx.pick(10, 60)):
        data = rng.choice([[[1]], [[1, 0]], [[0, 1], [1]], [[1], [0]], [[1, 1], [0]]])
        cfg = {"tol": 0, "max": rng.randint(2, 4), "num": 1, "den": 1000, "patience": 50, "window": 50, "unit": S, "eps": 0}
        i = c14.describe(rng, "surface", data, 2, cfg)
        i["lr"] = 2000
        i["scheduler"] = "exponential"
        i["sampling"] = rng.choice([[4, 4], [4, 4], [2, 8], [8, 2]])
        yield {"kind": "learn", "in": i}


def write(i, path):
    names = {}
    hel = []
    for g, grp in enumerate(i["groups"]):
        kind = ["ideal", "linear"][g]
        for h, x in enumerate(grp["hel"]):
            par = {} if kind == "ideal" else {"par": [{"given": 1, "v": v} for v in (154_166_666, 340_000, 338_000, 5_843, 75_000)]}
            hel.append({"name": f"{kind}{h}", "position": c18.far([3 * h - 4 * g, 20 + g, 0]) + [S], "surface": {"degrees": grp["degrees"], "facets": x["facets"]},
                        "act": [{"type": kind, "clockwise": 0, "lo": 0, "hi": 60_000_000, **par} for _ in range(2)]})
            names[f"{kind}{h}"] = (g, h)
    one = {"given": 0, "v": 0}
    c18.write({"plant": [50 * S, 6 * S, 0], "cyl": [], "planar": [{"name": "t", "center": [0, 0, 30 * S, S], "normal": [0, S, 0, 0], "size": [S, S]}],
               "lights": [{"key": "sun", "type": "sun", "rays": 2, "mean": 0, "cov": 4_368_100}], "hel": hel, "grid": i["grid"],
               "proto": {"surface": hel[0]["surface"], "kin": {"type": "rigid_body", "orientation": [0, -S, 0, 0], "translations": [one] * 9, "rotations": [one] * 4}, "act": hel[0]["act"]}}, path)


def category(name):
    return "surface" if name in ("surface_points", "surface_normals") else "control" if name == "nurbs_control_points" else "active" if "active" in name else name


def state_of(sc):
    """All tensors of the groups, their kinematics and actuators, and the rest of the scenario."""
    out = {}

    def put(prefix, o):
        for k, v in vars(o).items():
            if isinstance(v, torch.Tensor) and not k.startswith("_"):
                out[prefix + (k,)] = v.detach().clone()
    for g, grp in enumerate(sc.heliostat_field.heliostat_groups):
        put((g, "group"), grp)
        put((g, "kinematics"), grp.kinematics)
        put((g, "actuators"), grp.kinematics.actuators)
    for k, t in enumerate(sc.solar_tower.target_areas):
        put((k, "target"), t)
    put((0, "field"), sc.heliostat_field)
    return out


def changes(a, b):
    keep = lambda x, y: x.shape == y.shape and torch.equal(torch.nan_to_num(x.double()), torch.nan_to_num(y.double()))
    return sorted({category(k[-1]) for k in a.keys() | b.keys() if k not in a or k not in b or not keep(a[k], b[k])})


def shown_of(grp, k, picks=None):
    p, n = grp.surface_points[k].detach(), grp.surface_normals[k].detach()
    return [[j + 1, fx(p[j][:3]), fx(n[j][:3])] for j in (range(len(p)) if picks is None else picks) if j < len(p)]


def run_history(i):
    tmp = tempfile.mkdtemp(prefix="c15.")
    try:
        path = pathlib.Path(tmp) / "s.h5"
        write(i, path)
        with h5py.File(path, "r") as f:
            sc = Scenario.load_scenario_from_hdf5(f, number_of_surface_points_per_facet=torch.tensor(i["grid"]), device=scene.CPU)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if i["direct"]:
        sc.heliostat_field = HeliostatField(heliostat_groups=sc.heliostat_field.heliostat_groups, device=scene.CPU)
    kinds = ["ideal", "linear"]
    byname = {n: (grp, k) for grp in sc.heliostat_field.heliostat_groups for k, n in enumerate(grp.names)}
    where = lambda g, h: byname[f"{kinds[g]}{h}"]
    sizes = [len(g["hel"]) for g in i["groups"]]

    def points():
        return [[torch.cat([where(g, h)[0].surface_points[where(g, h)[1]], where(g, h)[0].surface_normals[where(g, h)[1]]]).detach().clone() for h in range(n)] for g, n in enumerate(sizes)]

    def record(before, was, show):
        now, pts = state_of(sc), points()
        moved = [[0 if a.shape == b.shape and torch.equal(a, b) else fx((a - b).abs().max()) if a.shape == b.shape else S for a, b in zip(x, y)] for x, y in zip(was, pts)]
        w = all(bool((t[:len(t) // 2, 3] == 1).all()) and bool((t[len(t) // 2:, 3] == 0).all()) for row in pts for t in row)
        r = {"count": [[len(byname and [n for n in byname if n.startswith(kinds[g])]), len(pts[g][0]) // 2] for g in range(len(sizes))], "w": int(w), "moved": moved,
             "changed": changes(before, now), "rows": [],
             "shown": [[shown_of(*where(g, h)) for h in range(n)] for g, n in enumerate(sizes)] if show else []}
        return r, now, pts

    before, was = state_of(sc), points()
    r, before, was = record(before, was, True)
    steps = [r]
    for s in i["steps"]:
        rows = []
        if s["op"] == "bend":
            grp, k = where(s["g"] - 1, s["h"] - 1)
            new = R.ten(i["groups"][s["g"] - 1]["hel"][s["h"] - 1]["versions"][s["v"] - 1])
            if i["inplace"]:
                with torch.no_grad():
                    grp.nurbs_control_points[k] = new
            else:
                c = grp.nurbs_control_points.detach().clone()
                c[k] = new
                grp.nurbs_control_points = c.requires_grad_()
        elif s["op"] == "update":
            sc.heliostat_field.update_surfaces(device=scene.CPU)
        else:
            grp = where(s["g"] - 1, 0)[0]
            order = [where(s["g"] - 1, h)[1] for h in range(sizes[s["g"] - 1])]
            mask = torch.zeros(len(order), dtype=torch.int32)
            for h, m in enumerate(s["mask"]):
                mask[order[h]] = m
            grp.activate_heliostats(active_heliostats_mask=mask, device=scene.CPU)
            for row in range(len(grp.active_surface_points)):
                rows.append(next((h + 1 for h, k in enumerate(order) if torch.equal(grp.active_surface_points[row], grp.surface_points[k])
                                  and torch.equal(grp.active_surface_normals[row], grp.surface_normals[k])), 0))
        r, before, was = record(before, was, s["op"] == "update")
        r["rows"] = rows
        steps.append(r)
    return {"steps": steps}


def run_learn(case):
    i = case["in"]
    i["L"] = S
    b = c14.once(i)
    sc = b["sc"]
    after, rest = c14.snapshot(sc)
    gen = torch.Generator().manual_seed(i["seed"])
    i["degrees"], i["grid"] = [2, 2], [4, 4]
    hel, learned, untouched = [], [], 1
    for g, grp in enumerate(sc.heliostat_field.heliostat_groups):
        x, y = b["before"][g], after[g]
        for h in range(grp.number_of_heliostats):
            moved = not torch.equal(x["control"][h], y["control"][h])
            learned.append(int(moved))
            if not moved and float((x["points"][h] - y["points"][h]).abs().max() + (x["normals"][h] - y["normals"][h]).abs().max()) > 3e-6:
                untouched = 0
            picks = sorted(torch.randperm(len(y["points"][h]), generator=gen)[:12].tolist())
            hel.append({"facets": [{"control": fx(y["control"][h][f]), "cant": fx(y["canting"][h][f]), "shift": fx(y["shifts"][h][f])} for f in range(grp.number_of_facets_per_heliostat)],
                        "shown": shown_of(grp, h, picks)})
    i["trained"] = [int(x > 0) for row in i["data"] for x in row]
    other = sorted({k for x, y in zip(b["before"], after) for k in x if k not in ("points", "normals", "control") and not torch.equal(x[k], y[k])}
                   | ({"scenario"} if any(not torch.equal(x, y) for x, y in zip(b["rest"], rest)) else set()))
    return {"outline": c14.outline(b["before"], after), "learned": learned, "untouched": untouched, "other": other, "hel": hel}


def run_case(case):
    if case["kind"] == "lock":
        g = R.ten(case["in"]["g"])
        kept = g.clone()
        o = SurfaceReconstructor.lock_control_points_on_outer_edges(gradients=g, device=scene.CPU)
        assert o.dtype == kept.dtype
        return {"g": fx(o)}
    return run_history(case["in"]) if case["kind"] == "history" else run_learn(case)
