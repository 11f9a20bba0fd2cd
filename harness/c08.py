"""C08: histories of activations, alignments and traces."""

import random

import torch
from artist.raytracing.heliostat_ray_tracer import HeliostatRayTracer

from . import scene
from .core import Raw, ints

TRACE = "ActivationTrace"
LIMIT = 60
ASSUMPTIONS = ["before its first activation a group holds no data: histories start with activations",
               "surfaces are compared with those of a fresh scenario for the first alignment after an activation"]
MASKS = "<<{<<1, 1>>, <<0, 2>>, <<0, 0>>}, {<<1, 0>>, <<1, 1>>}>>"
BIG = "<<{<<1, 1, 1>>, <<0, 2, 1>>, <<0, 0, 0>>, <<1, 0, 1>>, <<3, 0, 0>>}, {<<1, 0>>, <<1, 1>>, <<0, 2>>, <<0, 0>>}, {<<1>>, <<2>>, <<0>>}>>"
INVS = ["RowsOfMask", "LastCounts"]


def models(ctx):
    yield dict(module="ActivationModel", consts=dict(Masks=Raw(MASKS), Inputs={1, 3}, MaxLen=ctx.pick(3, 4)), spec="Spec", invariants=INVS,
               properties=["Local"])


def cases(ctx):
    rng = ctx.rng
    hist = ctx.behaviours("ActivationModel", dict(Masks=Raw(MASKS), Inputs={1, 3}, MaxLen=ctx.pick(2, 3)), spec="Spec", invariants=INVS + ["Export"])
    for h in hist:
        yield {"kind": "history", "in": {"ops": h, "sizes": [2, 2], "linear": [0, 1], "seed": 1}}
    for depth in (5, 9):
        hist = ctx.behaviours("ActivationModel", dict(Masks=Raw(BIG), Inputs={1, 2, 3, 4}, MaxLen=depth), spec="Spec", invariants=INVS + ["Export"],
                              simulate=(ctx.pick(130, 700), depth + 1))
        for h in hist:
            yield {"kind": "history", "in": {"ops": focus(rng, h), "sizes": [3, 2, 1], "linear": [1, 0, 1], "seed": rng.randint(1, 10**6)}}


def focus(rng, ops):
    """Random histories mostly hit the wrong mask: make most alignments and traces use the active one."""
    active, out = {}, []
    for op in ops:
        op = dict(op)
        if op["op"] == "activate":
            active[op["g"]] = op["mask"] or [1] * {1: 3, 2: 2, 3: 1}[op["g"]]
        elif rng.random() < .8:
            op["mask"] = active[op["g"]]
            if op["op"] == "trace" and max(sum(active.values(), [])) <= 1 and rng.random() < .6:
                op["inp"] = 1  # with blocking
        out.append(op)
    return out


KINDS = {"points": ("", "surface_points"), "normals": ("", "surface_normals"), "canting": ("", "canting"), "facets": ("", "facet_translations"),
         "control": ("", "nurbs_control_points"), "positions": ("kinematics", "heliostat_positions"),
         "orientations": ("kinematics", "initial_orientations"), "translations": ("kinematics", "translation_deviation_parameters"),
         "rotations": ("kinematics", "rotation_deviation_parameters"), "motors": ("kinematics", "motor_positions"),
         "actuators": ("actuators", "non_optimizable_parameters"), "learned": ("actuators", "optimizable_parameters")}


def owner(grp, where):
    return grp if not where else grp.kinematics if where == "kinematics" else grp.kinematics.actuators


def build(i):
    rng = random.Random(i["seed"])
    torch.manual_seed(i["seed"])
    groups = []
    for g, n in enumerate(i["sizes"]):
        pts = scene.facet_points(2, 1.0).expand(n, -1, -1).clone()
        pts[:, :, 2] = .01 * torch.rand(n, 1)
        nrm = torch.zeros_like(pts)
        nrm[:, :, 0] = .02 * torch.rand(n, 1)
        nrm[:, :, 2] = 1.0
        nrm = torch.nn.functional.normalize(nrm, dim=-1)
        lin = i["linear"][g]
        grp = scene.group([f"g{g}h{k}" for k in range(n)], [[rng.uniform(-6, 6), -20.0 - 3 * g - k, rng.uniform(0, 1)] for k in range(n)],
                          kind="linear" if lin else "ideal", points=pts, normals=nrm, translations=.02 * torch.rand(n, 9),
                          rotations=.02 * torch.rand(n, 4), control_points=torch.rand(n, 4, 2, 2, 3))
        for what in ("canting", "facet_translations", "initial_orientations"):
            t = getattr(grp, what)
            t += .01 * torch.rand_like(t) if what != "initial_orientations" else torch.rand(n, 1) * 1e-3
        grp.kinematics.initial_orientations = grp.initial_orientations
        grp.kinematics.motor_positions = torch.rand(n, 2)
        a = grp.kinematics.actuators
        if lin:
            a.non_optimizable_parameters[:, 4] += 10 * torch.rand(n, 2)
            a.optimizable_parameters = (a.optimizable_parameters.detach() + 1e-3 * torch.rand(n, 2, 2))
        else:
            a.non_optimizable_parameters[:, 3] += torch.rand(n, 2)
        groups.append(grp)
    return scene.scenario(groups, scene.tower(scene.DEFAULT_PLANAR), rays=2), groups


def inputs(i, g, rows, inp):
    """Alignment inputs number 1, 2 give sun and aim points, 3, 4 motor positions."""
    rng = random.Random(f"{i['seed']}-{g}-{inp}")
    if inp <= 2:
        inc, aim = [], []
        for _ in rows:
            inc.append(scene.unit([rng.uniform(-.5, .5), 1.0, rng.uniform(-1, -.2)]))
            aim.append([rng.uniform(-1, 1), 0.0, rng.uniform(4, 7)])
        return scene.t4(inc, 0.0), scene.t4(aim, 1.0)
    lo, hi = (20000.0, 50000.0) if i["linear"][g] else (.2, 1.0)
    return torch.tensor([[rng.uniform(lo, hi), rng.uniform(lo, hi)] for _ in rows]).reshape(-1, 2)


def do(i, sc, groups, op):
    g = op["g"] - 1
    grp = groups[g]
    mask = torch.tensor(op["mask"], dtype=torch.int32)
    rows = [h for h, k in enumerate(op["mask"]) for _ in range(k)]
    if op["op"] == "activate":
        if op["mask"]:
            grp.activate_heliostats(active_heliostats_mask=mask, device=scene.CPU)
            mask += 1  # the caller's mask is the caller's
        else:
            grp.activate_heliostats(device=scene.CPU)
    elif op["op"] == "align":
        x = inputs(i, g, rows, op["inp"])
        if op["inp"] <= 2:
            grp.align_surfaces_with_incident_ray_directions(aim_points=x[1], incident_ray_directions=x[0], active_heliostats_mask=mask,
                                                            device=scene.CPU)
        else:
            grp.align_surfaces_with_motor_positions(motor_positions=x, active_heliostats_mask=mask, device=scene.CPU)
    else:
        rt = HeliostatRayTracer(scenario=sc, heliostat_group=grp, blocking_active=op["inp"] == 1, batch_size=2, random_seed=5,
                                bitmap_resolution=torch.tensor([6, 6]))
        inc = scene.t4([scene.unit([.1, 1.0, -.5])] * len(rows), 0.0)
        return rt.trace_rays(incident_ray_directions=inc, active_heliostats_mask=mask, target_area_indices=torch.zeros(len(rows), dtype=torch.int64),
                             device=scene.CPU)[0]
    return None


def rows_of(grp, stored, kind):
    where, name = KINDS[kind]
    act = getattr(owner(grp, where), ("active_" + name) if name != "heliostat_positions" else "active_heliostat_positions")
    res = []
    for r in act:
        hits = [k + 1 for k in range(stored.shape[0]) if torch.equal(stored[k], r)]
        res.append(hits[0] if len(hits) == 1 else -1)
    return res


def content(grp):
    parts = [grp.active_surface_points, grp.active_surface_normals, grp.active_canting, grp.active_nurbs_control_points,
             grp.kinematics.active_heliostat_positions, grp.kinematics.active_motor_positions, grp.active_heliostats_mask]
    return tuple(p.detach().numpy().tobytes() for p in parts), tuple(p.detach().numpy().tobytes() for p in parts[:2])


def run_case(case):
    i = case["in"]
    sc, groups = build(i)
    store = [{k: getattr(owner(g, w), n).detach().clone() for k, (w, n) in KINDS.items()} for g in groups]
    ids, steps, history = {}, [], []
    first = [content(g) for g in groups]
    prev = None
    last = {}
    for op in i["ops"]:
        g = op["g"] - 1
        st = {"rejected": 0, "fresh": -1}
        flux = None
        try:
            flux = do(i, sc, groups, op)
        except AssertionError:
            st["rejected"] = 1
        if not st["rejected"]:
            if op["op"] == "activate":
                last[g] = [op]
            elif op["op"] == "align":
                last[g] = last[g] + [op]
            if op["op"] != "activate" and len(last[g]) == 2:
                sc2, groups2 = build(i)
                for o in last[g]:
                    do(i, sc2, groups2, o)
                if op["op"] == "align":
                    a, b = groups[g], groups2[g]
                    d = [(a.active_surface_points - b.active_surface_points), (a.active_surface_normals - b.active_surface_normals)]
                    st["fresh"] = int(max([0.0] + [float(x.abs().max()) for x in d if x.numel()]) * 1e6)
                else:
                    f2 = do(i, sc2, groups2, op)
                    scale = max(1e-9, float(f2.max())) if f2.numel() else 1.0
                    st["fresh"] = int(float((flux - f2).abs().max()) / scale * 1e6) if f2.numel() else 0
        st["rows"] = [{k: rows_of(grp, store[n][k], k) if not (k == "learned" and not i["linear"][n]) else [] for k in KINDS}
                      for n, grp in enumerate(groups)]
        st["stored"] = int(all(torch.equal(getattr(owner(grp, w), m), store[n][k]) for n, grp in enumerate(groups) for k, (w, m) in KINDS.items()))
        cs = [content(grp) for grp in groups]
        st["active"] = [ids.setdefault((n, c[0]), len(ids) + 1) if c != first[n] else 0 for n, c in enumerate(cs)]
        st["surf"] = [ids.setdefault((n, "s", c[1]), len(ids) + 1) for n, c in enumerate(cs)]
        st["mask"] = [ints(grp.active_heliostats_mask) for grp in groups]
        st["number"] = [[int(grp.number_of_active_heliostats), int(grp.kinematics.number_of_active_heliostats)] for grp in groups]
        steps.append(st)
    return {"steps": steps}
