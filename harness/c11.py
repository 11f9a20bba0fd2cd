"""C11: lists of (heliostat, target, direction) reach the right heliostats in order."""

import math

import torch

from . import rays as R
from . import scene
from .core import Skip, fx, ints

TRACE = "MappingTrace"
TRACE_CONSTS = {"S": 1_000_000}
EXPECTED_ERRORS = ("ValueError",)
ASSUMPTIONS = ["directions are either normalized to 5e-5 (default direction: 1e-5) or off by at least one percent"]

GROUPS = [["ha", "hb"], ["hc", "hd"]]
MODEL = dict(Groups=GROUPS, Others={"xx"}, Targets=["alpha", "gamma"], Unknown={"nowhere"})


def models(ctx):
    yield dict(module="MappingModel", consts={**MODEL, "Groups": [["ha", "hb", "he"], ["hc"]], "Others": set(), "Unknown": set(), "MaxLen": ctx.pick(3, 4)},
               spec="Spec", invariants=["Agrees", "Complete"], properties=["Ends"] if not ctx.thorough else [])


def directions(rng, n):
    return [R.q(R.unit([rng.gauss(0, 1) for _ in range(3)])) + [0] for _ in range(n)]


def broken(rng, d):
    k = rng.randrange(4)
    if k == 0:
        return [int(x * rng.choice([0.5, 0.98, 1.02, 3.0])) for x in d]
    if k == 1:
        return d[:3] + [rng.choice([1_000_000, -100_000, 100_000])]
    if k == 2:
        return d[:3]
    return [0, 0, 0, 0]


def cases(ctx):
    rng = ctx.rng
    dirs = directions(rng, 4)
    lists = ctx.behaviours("MappingModel", {**MODEL, "MaxLen": ctx.pick(2, 3)}, spec="Spec", invariants=["Agrees", "Complete", "Export"])
    for lst in lists:
        for g in GROUPS:
            yield {"kind": "map", "in": {"names": g, "groups": GROUPS, "targets": ["alpha", "gamma"], "cyl": 1,
                                         "list": [[h, t, dirs[k - 1]] for h, t, k in lst]}}
    pool = ["m", "kappa", "h1", "h10", "h2", "zz", "AA31", "ab", "B", "q7", "00", "h-3"]
    for _ in range(ctx.pick(250, 2500)):
        names = rng.sample(pool, rng.randint(2, 9))
        cut = rng.randint(1, len(names) - 1)
        groups = [names[:cut], names[cut:]]
        tn = rng.sample(["t1", "t0", "receiver", "b", "a", "stj"], rng.randint(1, 5))
        ds = directions(rng, 8)
        ds.append(ds[0][:3] + [4000])
        lst = [[rng.choice(names + ["nobody"] * rng.choice([0, 1, 3])), rng.choice(tn), rng.choice(ds)] for _ in range(rng.randint(0, 14))]
        if lst and rng.random() < 0.35:
            for _ in range(rng.randint(1, 2)):
                e = rng.choice(lst)
                if rng.random() < 0.4:
                    e[1] = "missing"
                else:
                    e[2] = broken(rng, e[2])
        if lst and rng.random() < .4:  # the very same entry more than once
            for _ in range(rng.randint(1, 3)):
                lst.insert(rng.randrange(len(lst) + 1), rng.choice(lst))
        yield {"kind": "map", "in": {"names": rng.choice(groups), "groups": groups, "targets": tn, "cyl": rng.randint(0, len(tn) - 1), "list": lst,
                                     "shared": rng.randint(0, 1)}}
    for k in range(ctx.pick(80, 400)):  # one entry of the own group, off by little
        names = rng.sample(pool, rng.randint(2, 5))
        tn = rng.sample(["t1", "t0", "receiver", "b", "a", "stj"], rng.randint(1, 4))
        lst = [[rng.choice(names), rng.choice(tn), d] for d in directions(rng, rng.randint(1, 5))]
        e = rng.choice(lst)
        near = [lambda d: [int(x * rng.choice([.99, .98, .96, 1.01, 1.02, 1.04])) for x in d], lambda d: d[:3] + [rng.choice([-1, 1]) * rng.choice([30_000, 50_000])],
                lambda d: [round(x * rng.choice([.99997, 1.00003])) for x in d], lambda d: d[:3] + [rng.choice([-4000, 4000])]][k % 4]
        e[2] = near(e[2])
        yield {"kind": "map", "in": {"names": names, "groups": [names], "targets": tn, "cyl": rng.randint(0, len(tn) - 1), "list": lst}}
    for k in range(ctx.pick(24, 120)):
        names = rng.sample(pool, rng.randint(1, 6))
        d = rng.choice([[0, 1_000_000, 0, 0], directions(rng, 1)[0]])
        d = [int(x * [.99, .98, 1.01, 1.02, .96, 1.04][k % 6]) for x in d]
        yield {"kind": "default", "in": {"names": names, "groups": [names], "targets": ["a", "b"], "cyl": 1, "dir": d, "given": 1, "target": 0}}
    for _ in range(ctx.pick(120, 800)):
        names = rng.sample(pool, rng.randint(1, 6))
        tn = rng.sample(["t1", "t0", "receiver", "b", "a", "stj"], rng.randint(1, 5))
        d = rng.choice([[0, 1_000_000, 0, 0], directions(rng, 1)[0]])
        if rng.random() < 0.25:
            d = broken(rng, d)
        yield {"kind": "default", "in": {"names": names, "groups": [names], "targets": tn, "cyl": rng.randint(0, len(tn) - 1), "dir": d,
                                         "given": int(d != [0, 1_000_000, 0, 0] or rng.random() < .5),
                                         "target": rng.choice([0, rng.randrange(len(tn)), rng.randrange(len(tn)), len(tn), len(tn) + 3, -1, -len(tn)])}}
    for _ in range(ctx.pick(60, 400)):
        names = rng.sample(["t1", "t0", "receiver", "b", "a", "stj", "x1"], 7)
        pl = [{"name": names.pop(), **R.planar_target(rng)} for _ in range(rng.randint(1, 3))]
        cy = [{"name": names.pop(), **R.cylinder_target(rng)} for _ in range(rng.randint(0, 3))]
        n = len(pl) + len(cy)
        yield {"kind": "tower", "in": {"planar": pl, "cyl": cy, "ask": [rng.randrange(n) for _ in range(rng.randint(1, 8))]}}


def tower(i):
    k = len(i["targets"]) - i["cyl"]
    return scene.tower([(n, [j, 0, 5], [0, -1, 0], (1, 1)) for j, n in enumerate(i["targets"][:k])],
                       [(n, [j, 3, 5], [0, -1, 0], [0, 0, 1], 1, 2, math.pi) for j, n in enumerate(i["targets"][k:])])


def run_case(case):
    i = case["in"]
    if case["kind"] == "tower":
        f = lambda v: [x / R.S for x in v]
        tw = scene.tower([(t["name"], f(t["c"]), f(t["n"]), (t["w"] / R.S, t["h"] / R.S)) for t in i["planar"]],
                         [(t["name"], f(t["c"]), f(t["n"]), f(t["a"]), t["r"] / R.S, t["h"] / R.S, t["open"] / R.S) for t in i["cyl"]])
        return {"index": [tw.target_name_to_index.get(t["name"], -1) for t in i["planar"] + i["cyl"]],
                "centers": fx(tw.get_centers_of_target_areas(torch.tensor(i["ask"]), device=scene.CPU)),
                "owner": [[next((a for a in range(2) if tw.target_areas[a] is o), -1), int(j)] for o, j in tw.index_to_target_area]}
    groups = [scene.group(g, [[2.0 * k, -8.0, 0.0] for k in range(len(g))]) for g in i["groups"]]
    sc = scene.scenario(groups, tower(i), rays=1)
    grp = groups[i["groups"].index(i["names"])]
    if case["kind"] == "map":
        made, rays = {}, {}  # equal entries are either the same object or equal objects
        entries = []
        for h, t, v in i["list"]:
            if i.get("shared"):
                v = rays.setdefault(tuple(v), R.ten(v))
                entries.append(made.setdefault((h, t, id(v)), (h, t, v)))
            else:
                entries.append((h, t, R.ten(v)))
        mask, target, d = sc.index_mapping(grp, entries, device=scene.CPU)
    else:
        kw = {"single_incident_ray_direction": R.ten(i["dir"])} if i["given"] else {}
        mask, target, d = sc.index_mapping(grp, single_target_area_index=i["target"], device=scene.CPU, **kw)
    if d.dtype != torch.float32:
        raise Skip("unexpected dtype")
    return {"mask": ints(mask), "target": ints(target), "dir": fx(d)}
