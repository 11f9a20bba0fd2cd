"""C04: energy accounting of the ray tracer."""

import torch
from artist.raytracing.heliostat_ray_tracer import HeliostatRayTracer  # noqa: F401

from . import field as F
from . import rays as R
from . import scene
from .core import fx

TRACE = "SceneTrace"
TRACE_CONSTS = {"S": 1_000_000}
ASSUMPTIONS = ["rays within float32 rounding of an edge of the target may count either way",
               "all heliostats of a group have the same size (the package derives the mirror area from the first one)",
               "rays exactly on the upper or right edge of the bitmap may be lost (measure zero)"]


def models(ctx):
    yield dict(module="SplatModel", consts={"S": 10_000, "Wm": ctx.pick(4, 5), "Hm": ctx.pick(3, 4), "Sub": ctx.pick(4, 5)},
               invariants=["Conserved", "FourPixels", "NoNegative", "Centred"])


def cases(ctx):
    rng = ctx.rng
    for _ in range(ctx.pick(60, 500)):
        yield {"kind": "trace", "in": F.trace_case(rng)}
    for _ in range(ctx.pick(25, 250)):
        yield {"kind": "trace", "in": F.trace_case(rng, blocking=True)}
    # splatting of lattice and random positions, inside, on and outside of the bitmap
    for _ in range(ctx.pick(120, 1200)):
        W, H = rng.choice([2, 3, 5, 8]), rng.choice([2, 4, 6])
        n, m = rng.randint(1, 3), rng.randint(1, 6)

        def pos(hi):
            return rng.choice([R.q(rng.uniform(0, hi - 1)), R.q(rng.randrange(hi)), R.q(rng.uniform(0, hi - 1)), R.q(rng.uniform(1, hi) + 0.5),
                               R.q(rng.randrange(hi) + 0.5)])
        yield {"kind": "splat", "in": {"W": W, "H": H, "e": [[pos(W) for _ in range(m)] for _ in range(n)],
                                       "u": [[pos(H) for _ in range(m)] for _ in range(n)],
                                       "mag": [[R.q(rng.uniform(0, 5)) for _ in range(m)] for _ in range(n)]}}
    for _ in range(ctx.pick(30, 200)):
        c = F.trace_case(rng)
        yield {"kind": "scale", "in": {**c, "refl1": R.q(rng.uniform(.3, 1)), "refl2": R.q(rng.uniform(.3, 1)),
                                       "ext1": R.q(rng.uniform(0, .7)), "ext2": R.q(rng.uniform(0, .7)),
                                       "dni1": R.q(rng.uniform(5, 20)), "dni2": R.q(rng.uniform(5, 20))}}
    for _ in range(ctx.pick(60, 400)):
        n, t = rng.randint(1, 6), rng.randint(1, 4)
        W, H = rng.randint(2, 4), rng.randint(2, 4)
        yield {"kind": "sum", "in": {"W": W, "H": H, "targets": t, "cyl": rng.randint(0, t), "tgt": [rng.randrange(t) for _ in range(n)],
                                     "flux": [[[rng.randint(0, 50) for _ in range(W)] for _ in range(H)] for _ in range(n)]}}


def run_splat(i):
    f = R.tracer(i["W"], i["H"]).bilinear_splatting(
        bitmap_intersections_e=R.ten(i["e"])[:, None, :], bitmap_intersections_u=R.ten(i["u"])[:, None, :],
        absolute_intensities=R.ten(i["mag"])[:, None, :], device=scene.CPU)
    return {"flux": fx(f)}


def run_scale(i):
    sums = []
    for v in "12":
        f = i["field"]
        sc = F.build(f, i["cov"] / 1e9)
        mask, tgt, inc = F.align(sc, f, i["group"])
        rt = F.tracer(sc, f, i["group"], batch_size=i["batch"], seed=i["seed"], dni=i["dni" + v] / 1e6)
        flux, *_ = rt.trace_rays(incident_ray_directions=inc, active_heliostats_mask=mask, target_area_indices=tgt,
                                 ray_extinction_factor=i["ext" + v] / 1e6, mirror_reflectivity=i["refl" + v] / 1e6, device=scene.CPU)
        sums.append(fx(flux.sum(dim=(1, 2))))
    return {"a": sums[0], "b": sums[1]}


def run_sum(i):
    targets = [{"kind": "p", "c": [0, 0, 0], "n": R.q([0.0, -1.0, 0.0]), "w": R.q(1.0), "h": R.q(1.0)} for _ in range(i["targets"] - i["cyl"])]
    targets += [{"kind": "c", "c": [0, 0, 0], "n": R.q([0.0, -1.0, 0.0]), "a": R.q([0.0, 0.0, 1.0]), "r": R.q(1.0), "h": R.q(1.0),
                 "open": R.q(3.0)} for _ in range(i["cyl"])]
    grp = scene.group(["h"], [[0.0, -8.0, 0.0]], side=1)
    sc = scene.scenario([grp], R.build_tower(targets), rays=1)
    grp.activate_heliostats(active_heliostats_mask=torch.tensor([1], dtype=torch.int32), device=scene.CPU)
    rt = HeliostatRayTracer(scenario=sc, heliostat_group=grp, blocking_active=False, batch_size=1,
                            bitmap_resolution=torch.tensor([i["W"], i["H"]]))
    per = rt.get_bitmaps_per_target(bitmaps_per_heliostat=torch.tensor(i["flux"], dtype=torch.float32),
                                    target_area_indices=torch.tensor(i["tgt"]), device=scene.CPU)
    return {"per": fx(per, 1)}


def run_case(case):
    return {"trace": F.trace_event, "splat": run_splat, "scale": run_scale, "sum": run_sum}[case["kind"]](case["in"])
