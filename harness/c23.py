"""C23: scattering angles are reproducible, follow the configured distribution and turn the rays by exactly themselves."""

import contextlib
import math
import os

import torch
from artist.raytracing.heliostat_ray_tracer import HeliostatRayTracer
from artist.raytracing.sampling import DistortionsDataset
from artist.scene.sun import Sun

from . import rays as R
from . import scene
from .core import fx

TRACE = "ScatterTrace"
TRACE_CONSTS = {"S": 1_000_000}
ASSUMPTIONS = ["distribution checks allow six standard errors of the sample size",
               "reproducibility is checked on the CPU generator of one torch version"]


def models(ctx):
    yield dict(module="Streams", consts={"Procs": 2, "Rows": 3, "MaxNoise": ctx.pick(1, 2), "Reseed": True, "DrawAll": True}, spec="Spec",
               invariants=["Reproducible", "Distinct", "Agreement"])


def sun_of(rng):
    return {"mean": rng.choice([0, 0, R.q(rng.uniform(-.01, .01))]), "cov": rng.choice([4368, 1000, 1000000, 25000])}


def cases(ctx):
    rng = ctx.rng
    for _ in range(ctx.pick(60, 600)):
        n, r, p = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 4)
        amp = rng.choice([.005, .05, .5, math.pi])
        ang = lambda: R.q([[[rng.choice([0.0, rng.uniform(-amp, amp), rng.uniform(-amp, amp)]) for _ in range(p)] for _ in range(r)] for _ in range(n)])
        yield {"kind": "scatter", "in": {"u": ang(), "e": ang(),
                                         "d": [[R.q(R.unit([rng.gauss(0, 1) for _ in range(3)])) for _ in range(p)] for _ in range(n)]}}
    for _ in range(ctx.pick(24, 120)):
        yield {"kind": "sample", "in": {**sun_of(rng), "heliostats": rng.randint(3, 6), "rays": rng.choice([5, 10, 20]),
                                        "points": rng.choice([16, 25, 40]), "seed": rng.randint(0, 10**6)}}
    for _ in range(ctx.pick(40, 300)):
        yield {"kind": "repro", "in": {**sun_of(rng), "heliostats": rng.randint(1, 5), "rays": rng.randint(1, 4), "points": 4 * rng.choice([1, 4]),
                                       "seed": rng.randint(0, 10**6), "away": rng.choice([1, 1, 2, 10, 256, 65536, 10**6]), "ranks": rng.randint(2, 4), "batch": rng.randint(1, 3)}}


def make_tracer(sc, grp, seed=7, **kw):
    return HeliostatRayTracer(scenario=sc, heliostat_group=grp, blocking_active=kw.pop("blocking", False), random_seed=seed,
                              bitmap_resolution=torch.tensor([4, 4]), **kw)


def run_scatter(i):
    rt = R.tracer(4, 4)
    rt.ray_magnitude = 1.0
    d = R.homogeneous(R.ten(i["d"]), 0.0)
    rays = rt.scatter_rays(distortion_u=R.ten(i["u"]), distortion_e=R.ten(i["e"]), original_ray_direction=d, device=scene.CPU)
    return {"d": fx(rays.ray_directions), "mag": fx(rays.ray_magnitudes)}


def norm(i, t, scale):
    mean, sigma = i["mean"] / 1e6, math.sqrt(i["cov"] / 1e9)
    return fx((t.double() - mean) / sigma, scale)


def sun(i):
    return Sun(number_of_rays=i["rays"], distribution_parameters={"distribution_type": "normal", "mean": i["mean"] / 1e6,
                                                                  "covariance": i["cov"] / 1e9}, device=scene.CPU)


def run_sample(i):
    ds = DistortionsDataset(light_source=sun(i), number_of_points_per_heliostat=i["points"], number_of_active_heliostats=i["heliostats"],
                            random_seed=i["seed"])
    return {"u": norm(i, ds.distortions_u.reshape(-1), 10_000), "e": norm(i, ds.distortions_e.reshape(-1), 10_000)}


@contextlib.contextmanager
def process(ws, rank):
    """As seen from one process of several."""
    d = torch.distributed
    names = {"is_initialized": lambda: True, "get_rank": lambda *a, **k: rank, "get_world_size": lambda *a, **k: ws}
    kept = {n: getattr(d, n) for n in names}
    env = {n: os.environ.get(n) for n in ("RANK", "LOCAL_RANK", "WORLD_SIZE")}
    try:
        for n, f in names.items():
            setattr(d, n, f)
        os.environ.update(RANK=str(rank), LOCAL_RANK=str(rank), WORLD_SIZE=str(ws))
        yield
    finally:
        for n, f in kept.items():
            setattr(d, n, f)
        for n, v in env.items():
            if v is None:
                os.environ.pop(n, None)
            else:
                os.environ[n] = v


def run_repro(i):
    side = int(math.isqrt(i["points"] // 4))

    def field():
        grp = scene.group([f"h{k}" for k in range(i["heliostats"])], [[2.0 * k, -9.0, 0.0] for k in range(i["heliostats"])], side=side)
        sc = scene.scenario([grp], scene.tower(scene.DEFAULT_PLANAR), rays=i["rays"], covariance=i["cov"] / 1e9, mean=i["mean"] / 1e6)
        mask, tgt, inc = scene.prepare(sc, grp, [1] * i["heliostats"], [0] * i["heliostats"], [R.unit([.1, .8, -.5])] * i["heliostats"])
        return sc, grp, mask, tgt, inc

    def rec(ds):
        return {"u": norm(i, ds.distortions_u, 1_000_000), "e": norm(i, ds.distortions_e, 1_000_000), "shape": list(ds.distortions_u.shape)}

    runs = []
    sc, grp, mask, tgt, inc = field()
    first = make_tracer(sc, grp, i["seed"])
    runs.append(rec(first.distortions_dataset))
    torch.rand(17)
    first.trace_rays(incident_ray_directions=inc, active_heliostats_mask=mask, target_area_indices=tgt, device=scene.CPU)
    runs.append(rec(first.distortions_dataset))
    torch.manual_seed(i["seed"] + 5)
    other = make_tracer(sc, grp, i["seed"] + i["away"])
    for rank in range(i["ranks"]):
        torch.rand(rank + 1)
        rt = make_tracer(sc, grp, i["seed"], world_size=i["ranks"], rank=rank, batch_size=i["batch"], blocking=bool(rank % 2))
        if len(rt.get_sampler_indices()):
            rt.trace_rays(incident_ray_directions=inc, active_heliostats_mask=mask, target_area_indices=tgt, device=scene.CPU)
        runs.append(rec(rt.distortions_dataset))
    sc, grp, *_ = field()
    runs.append(rec(make_tracer(sc, grp, i["seed"], dni=500.0).distortions_dataset))
    ds = DistortionsDataset(light_source=sun(i), number_of_points_per_heliostat=i["points"], number_of_active_heliostats=i["heliostats"],
                            random_seed=i["seed"])
    runs.append(rec(ds))
    # the same in a process that takes part in a distributed run with another rank
    with process(i["ranks"], i["ranks"] - 1):
        sc, grp, *_ = field()
        runs.append(rec(make_tracer(sc, grp, i["seed"], world_size=i["ranks"], rank=i["ranks"] - 1).distortions_dataset))
    rows = []
    for k in range(len(ds)):
        u, e = ds[k]
        rows.append({"u": norm(i, u, 1_000_000), "e": norm(i, e, 1_000_000)})
    return {"runs": runs, "other": rec(other.distortions_dataset), "rows": rows, "length": len(ds)}


def run_case(case):
    return {"scatter": run_scatter, "sample": run_sample, "repro": run_repro}[case["kind"]](case["in"])
