"""C02: samples of a heliostat group over the processes of its subgroup."""

import torch
from artist.raytracing.heliostat_ray_tracer import HeliostatRayTracer
from artist.raytracing.sampling import RestrictedDistributedSampler

from . import scene
from .c01 import INVS

TRACE = "DistributionTrace"
ASSUMPTIONS = ["up to 8 heliostats (16 thorough), 4 samples per heliostat and 9 processes; sample counts that are not a "
               "multiple of the number of active heliostats are included"]


def models(ctx):
    yield dict(module="Distribution", consts=dict(MaxWS=ctx.pick(5, 7), MaxG=1, MaxH=ctx.pick(5, 7), MaxPer=ctx.pick(3, 4)),
               invariants=INVS, spec="Spec", properties=["Terminates"])


def cases(ctx):
    for ws in range(1, ctx.pick(8, 12)):
        for hs in range(0, ctx.pick(9, 17)):
            counts = sorted({hs * p for p in (1, 2, 3, 4)} | {hs + 1, hs + 2, 2 * hs + 1} if hs else {0})
            for n in counts:
                if n >= hs:
                    yield {"kind": "sampler", "in": {"ws": ws, "heliostats": hs, "samples": n}}
    rng = ctx.rng
    for _ in range(ctx.pick(150, 800)):
        n = rng.randint(1, 6)
        mask = [rng.choice([0, 1, 1, 2, 3]) for _ in range(n)]
        if sum(mask) == 0:
            mask[rng.randrange(n)] = 1
        ws = rng.randint(1, 5)
        yield {"kind": "loader", "in": {"ws": ws, "rank": rng.randrange(ws), "mask": mask, "batch": rng.randint(1, 5),
                                        "heliostats": sum(1 for m in mask if m), "samples": sum(mask)}}


def run_case(case):
    i = case["in"]
    if case["kind"] == "sampler":
        rows, again = [], []
        for r in range(i["ws"]):
            s = RestrictedDistributedSampler(number_of_samples=i["samples"], number_of_active_heliostats=i["heliostats"],
                                             world_size=i["ws"], rank=r)
            rows.append([int(x) for x in s])
            again.append([int(x) for x in s])
        return {"rows": rows, "again": again}
    n = len(i["mask"])
    grp = scene.group([f"h{k}" for k in range(n)], [[2.0 * k, -8.0, 0.0] for k in range(n)])
    sc = scene.scenario([grp], scene.tower(scene.DEFAULT_PLANAR), rays=1)
    grp.activate_heliostats(active_heliostats_mask=torch.tensor(i["mask"], dtype=torch.int32), device=scene.CPU)
    rt = HeliostatRayTracer(scenario=sc, heliostat_group=grp, blocking_active=False, world_size=i["ws"], rank=i["rank"],
                            batch_size=i["batch"], random_seed=3)
    full = rt.distortions_dataset.distortions_u
    batches = []
    for u, _ in rt.distortions_loader:
        b = []
        for row in u:
            hits = [k for k in range(full.shape[0]) if torch.equal(full[k], row)]
            b.append(hits[0] if len(hits) == 1 else -1)
        batches.append(b)
    return {"batches": batches, "indices": [int(x) for x in rt.get_sampler_indices()]}
