"""C03: results of ray tracing do not depend on batches, processes or other samples."""

from . import field as F
from . import scene
from .core import fx, ints

TRACE = "RowsTrace"
LIMIT = 60
ASSUMPTIONS = ["one heliostat is activated at most once when blocking is on (the package rejects other masks)",
               "processes are simulated by constructing the tracer with each rank in turn; real processes are exercised by C01 and C16"]


def models(ctx):
    yield dict(module="BatchLoop", consts={"MaxN": ctx.pick(4, 5), "MaxWS": 3, "Shuffled": False}, spec="Spec",
               invariants=["EachRowOnce", "OwnData", "Complete", "OnlyOwnRows"], properties=["Terminates"])


def cases(ctx):
    rng = ctx.rng
    for k in range(ctx.pick(70, 500)):
        c = F.trace_case(rng, blocking=k % 3 == 0)
        f = c["field"]
        n = sum(f["groups"][c["group"]]["mask"])
        configs = [[1, b] for b in sorted({1, 2, 3, n, n + 1})]
        configs += [[w, rng.randint(1, 3)] for w in sorted({2, 3, n, n + 1} - {1})]
        yield {"kind": "rows", "in": {**c, "configs": configs, "align_all": rng.random() < .5}}


def rows(rt, inc, mask, tgt, i):
    flux, arrive, on, free = rt.trace_rays(incident_ray_directions=inc, active_heliostats_mask=mask, target_area_indices=tgt,
                                           ray_extinction_factor=i["ext"] / 1e6, mirror_reflectivity=i["refl"] / 1e6, device=scene.CPU)
    return [{"flux": fx(flux[k]), "on": fx(on[k]), "free": fx(free[k]), "arrive": fx(arrive[k])} for k in range(flux.shape[0])]


def run_case(case):
    i = case["in"]
    f, g = i["field"], i["group"]
    sc = F.build(f, i["cov"] / 1e9)
    for k in range(len(f["groups"])):
        if k in i["align"] and k != g:
            F.align(sc, f, k)
    mask, tgt, inc = F.align(sc, f, g)
    n = int(mask.sum())
    dni = {"dni": i["dni"] / 1e6} if i["dni"] else {}

    def trace(ws, rank, b):
        rt = F.tracer(sc, f, g, batch_size=b, seed=i["seed"], world_size=ws, rank=rank, **dni)
        return rt, rows(rt, inc, mask, tgt, i)

    rt0, base = trace(1, 0, n)
    again = rows(rt0, inc, mask, tgt, i)
    runs = []
    for ws, b in i["configs"]:
        ranks = []
        for r in range(ws):
            rt, res = trace(ws, r, b)
            ranks.append({"idx": ints(rt.get_sampler_indices()), "rows": res})
        runs.append(ranks)
    alone = []
    if not f["blocking"]:
        # the same samples with all other heliostats switched off; the scattering angles are carried over
        du, de = rt0.distortions_dataset.distortions_u.clone(), rt0.distortions_dataset.distortions_e.clone()
        owner = [h for h, m in enumerate(f["groups"][g]["mask"]) for _ in range(m)]
        for h in sorted(set(owner)):
            mine = [s for s in range(n) if owner[s] == h]
            sc2 = F.build(f, i["cov"] / 1e9)
            m2 = [m if j == h else 0 for j, m in enumerate(f["groups"][g]["mask"])]
            grp = sc2.heliostat_field.heliostat_groups[g]
            mask2, tgt2, inc2 = scene.prepare(sc2, grp, m2, [f["groups"][g]["tgt"][s] for s in mine],
                                              [[x / 1e6 for x in f["groups"][g]["inc"][s]] for s in mine])
            rt = F.tracer(sc2, f, g, batch_size=1, seed=i["seed"], **dni)
            rt.distortions_dataset.distortions_u[:] = du[mine]
            rt.distortions_dataset.distortions_e[:] = de[mine]
            for s, row in zip(mine, rows(rt, inc2, mask2, tgt2, i)):
                alone.append({"sample": s, "row": row})
    return {"base": base, "again": again, "runs": runs, "alone": alone}
