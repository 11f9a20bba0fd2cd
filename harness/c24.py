"""C24: aim-point optimization respects its limits and reports its history."""

import math

import torch
from artist.flux import bitmap  # noqa: F401
from artist.optim import AimPointOptimizer
from artist.optim import loss as losses
from artist.raytracing.heliostat_ray_tracer import HeliostatRayTracer
from artist.util import constants

from . import c14
from . import rays as R
from . import scene
from .core import Raw, fx, ints

TRACE = "AimPointTrace"
S = 1_000_000
TRACE_CONSTS = {"S": S}
LIMIT = 150
ASSUMPTIONS = ["limits of the motors allow the alignment with the center of the target; a heliostat that cannot be aligned within them is not moved",
               "ground truths have some flux", "no step throws all rays off a cylindrical target"]
LOSSES = {"kl": lambda sc: losses.KLDivergenceLoss, "pixel": lambda sc: losses.PixelLoss, "vector": lambda sc: losses.VectorLoss, "focal": lambda sc: losses.FocalSpotLoss}


def models(ctx):
    yield dict(module="AimPointModel", consts=dict(Levels=Raw("{1, 2, 4}"), MaxEpochs=Raw("{0, 2, 3}") if ctx.thorough else Raw("{0, 2}"), Windows=Raw("{1, 2}"), Patiences=Raw("{1, 2}"), Tols=Raw("{0, 1}"),
                                                   Limits=Raw("{[lo |-> 0, hi |-> 10, x0 |-> 4], [lo |-> 0, hi |-> 3, x0 |-> 3], [lo |-> 0, hi |-> 3, x0 |-> 5]}"),
                                                   Violations=Raw("{-2, 0, 1}"), Rho=1), spec="Spec",
               invariants=["WithinLimits", "Weighs", "NeverRewards", "Whole", "Bounded", "FirstEpochIsTheStart"], properties=["Ends"])


def describe(rng, cfg, script=None):
    groups = []
    for g in range(rng.choice([1, 1, 2])):
        n = rng.randint(1, 3)
        linear = int(rng.random() < .4 if g == 0 else 1 - groups[0]["linear"])
        groups.append({"linear": linear, "pos": R.q([[4.5 * h - 4 * g + rng.uniform(-1, 1), 22 + 5 * g + rng.uniform(-1, 1), rng.uniform(-.1, .1)] for h in range(n)]),
                       "rot": R.q([[rng.choice([0, 1]) * rng.uniform(-.003, .003) for _ in range(4)] for _ in range(n)]),
                       # distance of the limits from where the motors start: lower, upper, per motor
                       "room": [[[rng.choice([.9, .3, .02, .001, 0.0]) for _ in range(2)] for _ in range(2)] for _ in range(n)]})
    loss = rng.choice(["kl", "kl", "kl", "pixel", "vector", "focal"]) if script is None else rng.choice(["pixel", "vector", "focal"])
    W, H = rng.choice([(16, 16), (16, 16), (12, 16), (16, 8)])
    i = {"groups": groups, "cfg": dict(cfg), "loss": loss, "target": rng.choice([0, 0, 1, 2]), "sun": R.q(R.unit([rng.uniform(-.4, .4), rng.uniform(.4, .8), rng.uniform(-.9, -.4)])) + [0],
         "W": W, "H": H, "rays": rng.randint(1, 3), "dni": R.q(rng.choice([1.0, 500.0, 900.0])), "seed": rng.randint(0, 10**6), "batch": rng.choice([1, 2, 100]), "log": rng.choice([0, 1, 2]),
         "lr": rng.choice([0, 1000, 20_000, 50_000, 300_000, 300_000, 2 * S]) if script is None else 1000, "scheduler": rng.choice(["exponential", "reduce_on_plateau", "cyclic"]),
         "rhoF": R.q(rng.choice([0, 1.0, 20.0])), "rhoI": R.q(rng.choice([0, 1.0, 20.0])), "rhoL": R.q(rng.choice([0, 1.0, 5.0])), "dense": R.q(rng.choice([.4, .98, .9, .8, 3.0])),
         "wide": rng.choice([20, 2000, 20000]), "share": R.q(rng.choice([.5, 1.0, 2.0])),
         "blob": R.q([rng.uniform(.3, .7), rng.uniform(.3, .7), rng.uniform(.1, .3)])}
    if loss == "kl" and rng.random() < .2:
        i["target"] = 2
    if i["target"] == 2 and i["lr"] > 20_000:  # such steps throw all rays off the curved target, which then has nothing to learn from
        i["lr"] = 20_000
    if script is not None:
        i["script"] = script
    return i


def cases(ctx):
    rng = ctx.rng
    base = dict(Levels=Raw("{1, 2, 4}"), Windows=Raw("{1, 2, 3}"), Patiences=Raw("{1, 2}"), Tols=Raw("{0, 1}"), MaxEpochs=Raw("{0, 1, 3, 5}"), Limits=Raw("{[lo |-> 0, hi |-> 10, x0 |-> 4]}"),
                Violations=Raw("{0}"), Rho=0)
    runs = ctx.behaviours("AimPointModel", base, spec="Spec", invariants=["Export"], simulate=(ctx.pick(400, 3000), 10))
    seen = set()
    runs = [r for r in runs if not (str(r) in seen or seen.add(str(r)))]
    rng.shuffle(runs)
    for r in runs[:ctx.pick(110, 700)]:
        i = describe(rng, r["cfg"], script=[x * S for x in r["T"] + [1, 1, 1]])
        i["cfg"].update(tol=r["cfg"]["tol"] * S)
        yield {"kind": "run", "in": i}
    for _ in range(ctx.pick(110, 900)):
        cfg = {"window": rng.choice([2, 3, 50, 50]), "patience": rng.randint(1, 2), "num": 1, "den": 1, "relative": 1, "eps": 0, "unit": 1, "tol": 0, "max": rng.choice([0, 1, 2, 4, 8, 10, 12])}
        yield {"kind": "run", "in": describe(rng, cfg)}
    for k in range(ctx.pick(24, 150)):  # some heliostats gain rays while others lose them
        i = describe(rng, {"window": 50, "patience": 1, "num": 1, "den": 1, "relative": 1, "eps": 0, "unit": 1, "tol": 0, "max": rng.choice([4, 5, 6])})
        i.update(loss="kl", target=rng.choice([0, 1]), lr=rng.choice([20_000, 50_000, 300_000]), rhoF=R.q(rng.choice([0, 1.0])), rhoI=R.q(rng.choice([1.0, 5.0, 20.0])), wide=20000, scheduler="exponential")
        for g in i["groups"]:
            g["room"] = [[[.9, .9], [.9, .9]] for _ in g["pos"]]
            for p in g["pos"][1:]:
                p[1] -= rng.choice([0, 6, 10]) * S
        yield {"kind": "run", "in": i}


def build(i):
    """The scenario; limits of the motors are set around where the alignment puts them."""
    groups = []
    for g, d in enumerate(i["groups"]):
        n = len(d["pos"])
        grp = scene.group([f"g{g}h{h}" for h in range(n)], [[x / S for x in p] for p in d["pos"]], kind="linear" if d["linear"] else "ideal", side=4, size=.8, motor_limits=(-10.0, 10.0),
                          rotations=torch.tensor(d["rot"]) / S, linear=dict(angle=(.005843 - math.pi / 2, .939954)))
        groups.append(grp)
    tw = scene.tower([("alpha", [0.0, 0.0, 6.0], [0.0, 1.0, 0.0], (5.0, 4.0)), ("beta", [1.0, 0.0, 5.0], [0.0, 1.0, 0.0], (3.0, 5.0))],
                     [("stalk", [0.0, 0.0, 6.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], 1.5, 4.0, math.pi)])
    sc = scene.scenario(groups, tw, rays=i["rays"], covariance=i["wide"] / S)
    for grp, d in zip(groups, i["groups"]):
        m = align(i, sc, grp)
        room = torch.tensor(d["room"])
        if d["linear"]:
            room = (room * 10000).round()
        fixed = grp.kinematics.actuators.non_optimizable_parameters.clone()
        # limits in single precision: the alignment within them must stay the same
        fixed[:, 2] = torch.minimum(m - room[:, :, 0], m)
        fixed[:, 3] = torch.maximum(m + room[:, :, 1], m)
        if d["linear"]:
            fixed[:, 2] = torch.clamp(torch.floor(fixed[:, 2]), min=0.0)
            fixed[:, 3] = torch.clamp(torch.ceil(fixed[:, 3]), max=80000.0)
        grp.kinematics.actuators.non_optimizable_parameters = fixed
    return sc


def everyone(grp):
    return torch.ones(grp.number_of_heliostats, dtype=torch.int32)


def align(i, sc, grp):
    n = grp.number_of_heliostats
    grp.activate_heliostats(active_heliostats_mask=everyone(grp), device=scene.CPU)
    grp.align_surfaces_with_incident_ray_directions(aim_points=sc.solar_tower.get_centers_of_target_areas(torch.full((n,), i["target"]), device=scene.CPU),
                                                    incident_ray_directions=R.ten(i["sun"]).repeat(n, 1), active_heliostats_mask=everyone(grp), device=scene.CPU)
    return grp.kinematics.active_motor_positions.detach().clone()


def blocks(b):
    """Sums over four by four blocks of a bitmap, in units of the whole ground truth."""
    h, w = b.shape
    return b.reshape(4, h // 4, 4, w // 4).sum(dim=(1, 3)).reshape(-1)


def traced(i, sc, motors=None):
    """Fluxes and shares of rays of all heliostats through the public interface, with given motor positions or aligned."""
    gs = sc.heliostat_field.heliostat_groups
    for k, grp in enumerate(gs):
        align(i, sc, grp)
        if motors is not None:
            grp.activate_heliostats(active_heliostats_mask=everyone(grp), device=scene.CPU)
            grp.align_surfaces_with_motor_positions(motor_positions=motors[k], active_heliostats_mask=everyone(grp), device=scene.CPU)
    parts, shares = [], [[], [], []]
    for grp in gs:
        n = grp.number_of_heliostats
        rt = HeliostatRayTracer(scenario=sc, heliostat_group=grp, blocking_active=True, batch_size=100, random_seed=0, bitmap_resolution=torch.tensor([i["W"], i["H"]]), dni=i["dni"] / S)
        with torch.no_grad():
            flux, *s = rt.trace_rays(incident_ray_directions=R.ten(i["sun"]).repeat(n, 1), active_heliostats_mask=everyone(grp), target_area_indices=torch.full((n,), i["target"]), device=scene.CPU)
        parts += list(flux)
        for a, b in zip(shares, s):
            a += b.tolist()
    return parts, shares


def recorder(kind, sc, i, truth, scale, norm):
    base = LOSSES[kind](sc)

    class Recorder(base):
        calls = []

        def __call__(self, prediction, ground_truth, **kwargs):
            k = len(self.calls)
            if "script" in i:
                v = torch.tensor([i["script"][min(k, len(i["script"]) - 1)] / S]) + 0 * prediction.sum()
            else:
                v = super().__call__(prediction=prediction, ground_truth=ground_truth, **kwargs)
            p = prediction.detach().double()
            self.calls.append({"loss": fx(v.detach().flatten()[0], scale), "sum": fx(p.sum() / norm), "peak": fx(p.max() / norm * i["W"] * i["H"]), "blocks": fx(blocks(p[0]) / norm, S),
                               "target": int(kwargs["target_area_indices"][0]), "truth": int(torch.equal(ground_truth[0], truth)), "hits": []})
            return v
    r = Recorder(sc) if kind == "focal" else Recorder()
    r.calls = []
    return r


def once(i, setup=None):
    torch.manual_seed(3)
    sc = build(i)
    ref = build(i)
    parts0, _ = traced(i, ref)
    total = sum(parts0)
    norm = float(total.double().sum()) or 1.0
    u, e = torch.meshgrid(torch.linspace(0, 1, i["H"]), torch.linspace(0, 1, i["W"]), indexing="ij")
    a, b, s = [x / S for x in i["blob"]]
    truth = torch.exp(-((u - a) ** 2 + (e - b) ** 2) / (2 * s * s))
    truth = truth / truth.sum() * norm * i["share"] / S
    width, height = [(5.0, 4.0), (3.0, 5.0), (1.5 * math.pi, 4.0)][i["target"]]
    peak = float(total.max()) or 1.0
    most = peak * i["dense"] / S
    density = most / (width * height / (i["W"] * i["H"]))
    scale = {"kl": S, "pixel": S, "vector": S, "focal": S}[i["loss"]]
    if "script" not in i and i["loss"] in ("pixel", "vector"):
        # in units of the first loss, which is known only from the data
        d = float(((total - truth) ** 2).sum())
        scale = S / ((d / norm if i["loss"] == "pixel" else d) or 1.0)
    cfg = i["cfg"]
    opt = {constants.initial_learning_rate: i["lr"] / S, constants.tolerance: cfg["tol"] / S if cfg["tol"] or i["loss"] != "kl" else -1e9, constants.max_epoch: cfg["max"], constants.batch_size: i["batch"],
           constants.log_step: i["log"], constants.early_stopping_delta: cfg["num"] / cfg["den"], constants.early_stopping_patience: cfg["patience"], constants.early_stopping_window: cfg["window"]}
    sched = {constants.scheduler_type: i["scheduler"], constants.gamma: .99, constants.lr_min: i["lr"] / S, constants.lr_max: i["lr"] / S * 2, constants.step_size_up: 4, constants.reduce_factor: .5,
             constants.patience: 2, constants.threshold: 1e-3, constants.cooldown: 1}
    con = {constants.rho_flux_integral: i["rhoF"] / S, constants.rho_intercept: i["rhoI"] / S, constants.rho_local_flux: i["rhoL"] / S, constants.max_flux_density: density}
    rec = recorder(i["loss"], sc, i, truth, scale, norm)
    before, rest = c14.snapshot(sc)
    hits = []
    inner = HeliostatRayTracer.trace_rays

    def watched(self, *args, **kwargs):
        r = inner(self, *args, **kwargs)
        hits.append((len(rec.calls), r[1].detach().clone()))
        return r
    HeliostatRayTracer.trace_rays = watched
    try:
        opt_ = AimPointOptimizer(ddp_setup=setup or c14.ddp(len(i["groups"])), scenario=sc, optimization_configuration={constants.optimization: opt, constants.scheduler: sched, constants.constraints: con},
                                 incident_ray_direction=R.ten(i["sun"]), target_area_index=i["target"], ground_truth=truth, dni=i["dni"] / S, bitmap_resolution=torch.tensor([i["W"], i["H"]]),
                                 device=scene.CPU)
        loss, hist, *shares = opt_.optimize(loss_definition=rec, device=scene.CPU)
    finally:
        HeliostatRayTracer.trace_rays = inner
    n = sum(len(d["pos"]) for d in i["groups"])
    per = [[x for k, t in hits if k == c for x in t.tolist()] for c in range(len(rec.calls))]
    if all(len(q) == n for q in per):  # one trace per group and epoch, heliostats in order
        for c, q in zip(rec.calls, per):
            c["hits"] = fx(torch.tensor(q, dtype=torch.float64))
    return dict(sc=sc, ref=ref, parts0=parts0, norm=norm, limit=most / norm * i["W"] * i["H"], calls=rec.calls, loss=loss, hist=hist, shares=shares, before=before, rest=rest, scale=scale)


def digest(r):
    gs = r["sc"].heliostat_field.heliostat_groups
    return c14.digest(*[g.kinematics.motor_positions for g in gs], torch.tensor(r["hist"]["total_loss"], dtype=torch.float64), *r["shares"])


def run_case(case):
    i = case["in"]
    r = once(i)
    again = once(i)
    sc, ref, scale = r["sc"], r["ref"], r["scale"]
    gs = sc.heliostat_field.heliostat_groups
    after, rest = c14.snapshot(sc)
    start, end, lo, hi = [], [], [], []
    ok = True
    for d, g, q in zip(i["groups"], gs, build(i).heliostat_field.heliostat_groups):
        unit = 100 if d["linear"] else S
        fixed = q.kinematics.actuators.non_optimizable_parameters
        s = align(i, ref, q)
        m = g.kinematics.motor_positions.detach()
        ok = ok and m.shape == s.shape
        start += fx(s.flatten(), unit)
        end += fx(m.flatten(), unit)
        lo += fx(fixed[:, 2].flatten(), unit)
        hi += fx(fixed[:, 3].flatten(), unit)
    parts1, public = traced(i, ref, [g.kinematics.motor_positions.detach().clone() for g in gs])
    i["lo"], i["hi"], i["mtol"] = lo, hi, 8
    i["limit"] = fx(torch.tensor(r["limit"], dtype=torch.float64))
    i["real"] = int("script" not in i)
    # can any motor be moved noticeably at all?
    i["free"] = int(any(min(x - a, b - x) > 500 for x, a, b in zip(start, lo, hi)) and sum(float(p.sum()) for p in r["parts0"]) > 0)
    h = r["hist"]
    hist = {"total": fx(h["total_loss"], scale), "flux": fx(h["flux_loss"], scale), "local": fx(h["local_flux_constraint"]), "intercept": fx(h["intercept_constraint"]),
            "integral": fx(h["flux_integral_constraint"]), "gain": fx(h["flux_integral"], 10_000)}
    flat = [t for g in after for t in g.values()] + [g.kinematics.motor_positions for g in gs] + [torch.tensor(v) for v in h.values()]
    changed = sorted({k for x, y in zip(r["before"], after) for k in x if not torch.equal(x[k], y[k])} | ({"scenario"} if any(not torch.equal(x, y) for x, y in zip(r["rest"], rest)) else set()))
    return {"calls": r["calls"], "hist": hist, "loss": fx(r["loss"].flatten()[0], scale), "before": start, "after": end, "start": int(ok), "changed": changed,
            "finite": int(all(bool(torch.isfinite(t).all()) for t in flat)), "parts0": [fx(blocks(p.double()) / r["norm"]) for p in r["parts0"]],
            "parts1": [fx(blocks(p.double()) / r["norm"]) for p in parts1], "shares": [fx(s.double()) for s in r["shares"]], "public": [fx(torch.tensor(s, dtype=torch.float64)) for s in public],
            "digest": digest(r), "again": digest(again)}
