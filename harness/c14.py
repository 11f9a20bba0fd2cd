"""C14: reconstructions change only what they should and report what they did."""

import hashlib
import math

import torch
from artist.field.heliostat_group import HeliostatGroup  # noqa: F401
from artist.io.calibration_parser import CalibrationDataParser
from artist.nurbs import create_planar_nurbs_control_points
from artist.optim import KinematicsReconstructor, SurfaceReconstructor
from artist.optim import loss as losses
from artist.raytracing.heliostat_ray_tracer import HeliostatRayTracer
from artist.util import constants
from artist.flux import bitmap

from . import rays as R
from . import scene
from .core import Raw, fx, ints

TRACE = "ReconstructionTrace"
S = 1_000_000
TRACE_CONSTS = {"S": S}
LIMIT = 120
ASSUMPTIONS = ["all heliostats of a group with calibration data have equally many samples, at least two (required by the package)",
               "losses that are compared with thresholds are exact in single precision"]
SHAPES = {1: "{<<<<1>>>>, <<<<1, 0>>>>, <<<<1, 1>>>>}", 2: "{<<<<0>>, <<1, 0>>>>, <<<<1>>, <<0, 1>>>>, <<<<1>>, <<0>>>>, <<<<0, 1>>, <<1, 1>>>>, <<<<0>>, <<0>>>>}"}
LEVELS = Raw("{1, 2, 4}")


def models(ctx):
    base = dict(Levels=LEVELS, Windows=Raw("{1, 2, 3}"), Patiences=Raw("{1, 2}"), Tols=Raw("{0, 1}"))
    inv = ["Declarative", "Bounded", "Lengths", "Order", "Frame", "Reported"]
    yield dict(module="ReconstructionModel", consts={**base, "Shapes": Raw(SHAPES[1]), "MaxEpochs": Raw("{1, 2, 4}") if ctx.thorough else Raw("{1, 3}")}, spec="Spec", invariants=inv, properties=["Ends"])
    yield dict(module="ReconstructionModel", consts={**base, "Levels": Raw("{1, 3}"), "Windows": Raw("{2}"), "Shapes": Raw(SHAPES[2]), "MaxEpochs": Raw("{1, 2}")}, spec="Spec", invariants=inv,
               properties=["Ends"] if not ctx.thorough else [])


def cases(ctx):
    rng = ctx.rng
    base = dict(Levels=LEVELS, Windows=Raw("{1, 2, 3}"), Patiences=Raw("{1, 2}"), Tols=Raw("{0, 1}"), MaxEpochs=Raw("{0, 1, 3, 5}"))
    runs = []
    for k in (1, 2):
        got = ctx.behaviours("ReconstructionModel", {**base, "Shapes": Raw(SHAPES[k])}, spec="Spec", invariants=["Declarative", "Export"], simulate=(ctx.pick(500, 3000), 40))
        runs += got
    seen = set()
    runs = [r for r in runs if not (str(r) in seen or seen.add(str(r)))]
    rng.shuffle(runs)
    for r in runs[:ctx.pick(240, 1500)]:
        method = rng.choice(["align", "align", "flux", "surface"])
        yield {"kind": "run", "in": describe(rng, method, r["data"], rng.choice([2, 3, 4, 5]), cfg=r["cfg"], script=r["T"])}
    for _ in range(ctx.pick(130, 900)):
        method = rng.choice(["align", "align", "flux", "surface"])
        data = [[rng.choice([0, 1, 1]) for _ in range(rng.randint(1, 3))] for _ in range(rng.choice([1, 1, 2]))]
        if not any(map(any, data)):
            data[0][0] = 1
        mx = rng.randint(0, 4)
        cfg = {"window": rng.choice([2, 3, 50]), "patience": rng.randint(1, 2), "num": 1, "den": 1, "relative": 1, "eps": 0, "unit": 1, "tol": 0, "max": mx}
        if rng.random() < .15:
            cfg["tol"] = 900_000_000
        yield {"kind": "run", "in": describe(rng, method, data, rng.choice([2, 3, 4, 5]), cfg=cfg)}


def describe(rng, method, data, n, cfg, script=None):
    groups = []
    far = .02 if method == "align" and script is None and rng.random() < .4 else .003
    for g, row in enumerate(data):
        linear = rng.random() < .5 or g == 1
        groups.append({"linear": int(linear), "pos": R.q([[4.5 * h - 4 * g + rng.uniform(-1, 1), 22 + 5 * g + rng.uniform(-1, 1), rng.uniform(-.1, .1)] for h in range(len(row))]),
                       "rot": R.q([[rng.uniform(-far, far) for _ in range(4)] for _ in row]),
                       "start": R.q([[rng.choice([0, 1]) * rng.uniform(-.002, .002) for _ in range(4)] for _ in row])})
    i = {"method": method, "data": data, "n": n, "cfg": {k: v for k, v in cfg.items()}, "groups": groups, "seed": rng.randint(0, 10**6), "log": rng.choice([0, 1, 2]),
         "scheduler": rng.choice(["exponential", "reduce_on_plateau", "cyclic"]), "lr": rng.choice([200, 500]), "loss": rng.choice({"align": ["angle"], "flux": ["focal", "pixel", "kl"], "surface": ["pixel", "kl"]}[method]),
         "rho": R.q(rng.choice([1.0, .5, 2.0])), "etol": R.q(rng.choice([.01, 0, -.05, -.5])), "ws": R.q(rng.choice([0, .005, .2])), "wi": R.q(rng.choice([0, .005, .2]))}
    if script is not None:
        i["etol"] = 0
        i["script"] = []
        per = n - max(1, n // 4)
        for x, (row, t) in enumerate(zip([r for r in data if any(r)], script)):
            k = sum(row)
            # a few epochs more than expected: the loss goes on falling
            t = t + [1] * 3
            i["script"].append([[round(v * 15625) for v in spread(rng, method, 64 * level, k, per)] for level in t])
        i["cfg"].update(tol=cfg["tol"] * S, unit=S, eps=0)
    return i


def zero_sum(rng, k, d):
    out = []
    while len(out) + 1 < k:
        x = rng.randint(-d, d)
        out += [x, -x]
    out += [0] * (k - len(out))
    rng.shuffle(out)
    return out


def spread(rng, method, level, k, per):
    """Losses per sample (in 1/64) with the given total."""
    res = []
    for dh in zero_sum(rng, k, level // 3):
        if method != "flux":
            q = [level + dh + z for z in zero_sum(rng, per, level // 3)]
        else:
            low = (per - 1) // 2
            q = [level + dh - rng.randint(0, level // 3) for _ in range(low)] + [level + dh] + [level + dh + rng.randint(0, level // 3) for _ in range(per - 1 - low)]
            rng.shuffle(q)
        res += q
    return res


class Parser(CalibrationDataParser):
    def __init__(self, data):
        self.data = data

    def parse_data_for_reconstruction(self, heliostat_data_mapping, heliostat_group, scenario, bitmap_resolution=None, device=None):
        d = self.data[heliostat_group.names[0]]
        return tuple(d[k].clone() for k in ("flux", "focal", "sun", "motors", "mask", "targets"))


class Recorder(losses.Loss):
    """Asks the real loss function (or a script) and remembers everything it was asked."""

    def __init__(self, inner, truth, script, scale):
        self.inner, self.truth, self.script, self.scale = inner, truth, script, scale
        self.calls = []
        self.loss_function = getattr(inner, "loss_function", None)

    def __call__(self, prediction, ground_truth, **kwargs):
        g = len(self.calls) - 1
        k = len(self.calls[g])
        if self.script is not None:
            q = self.script[g][min(k, len(self.script[g]) - 1)]
            if len(q) != prediction.shape[0]:
                q = (q * prediction.shape[0])[:prediction.shape[0]]
            v = torch.tensor(q) / S + 0 * torch.nan_to_num(prediction).reshape(prediction.shape[0], -1).sum(dim=1)
        else:
            v = self.inner(prediction=prediction, ground_truth=ground_truth, **kwargs)
        row = {"losses": fx(v, self.scale)}
        if prediction.dim() == 2:
            row.update(truth=[p[:3] for p in fx(ground_truth)], pred=[p[:3] for p in fx(prediction)] if k == 0 or self.keep else [])
        else:
            row.update(truth=[self.identify(g, t) for t in ground_truth], targets=ints(kwargs["target_area_indices"]), sums=fx(prediction.sum(dim=(1, 2)) / self.norm), pred=coarse(prediction) if k == 0 else [])
        self.calls[g].append(row)
        return v

    def identify(self, g, t):
        for k, f in enumerate(self.truth[g]):
            if torch.equal(f, t):
                return k
        return -1


def coarse(b):
    """Sums over blocks of bitmaps."""
    n = b.shape[0]
    return fx(b.reshape(n, 4, b.shape[1] // 4, 4, b.shape[2] // 4).sum(dim=(2, 4)).reshape(n, 16), 10_000)


RES = 16


def build(i):
    """The scenario with the assumed parameters, and the calibration data measured with the true ones."""
    gen = torch.Generator().manual_seed(i["seed"])
    rnd = lambda *s: torch.rand(*s, generator=gen)
    groups = []
    for g, d in enumerate(i["groups"]):
        n = len(d["pos"])
        grp = scene.group([f"g{g}h{h}" for h in range(n)], [[x / S for x in p] for p in d["pos"]], kind="linear" if d["linear"] else "ideal", side=4, size=.8,
                          degrees=(2, 2), motor_limits=(-10.0, 10.0), linear=dict(angle=(.005843 - math.pi / 2, .939954)))
        canting = torch.zeros((n, 4, 2, 4))
        canting[:, :, 0, 0] = canting[:, :, 1, 1] = .4
        tr = torch.zeros((n, 4, 4))
        for f, (a, b) in enumerate([(-1, 1), (1, 1), (-1, -1), (1, -1)]):
            tr[:, f, 0], tr[:, f, 1] = a * .45, b * .45
            for h in range(n):
                t = float(rnd(1)) * .01
                canting[h, f, 0] = torch.tensor([.4 * math.cos(t), 0, -a * .4 * math.sin(t), 0])
                canting[h, f, 1] = torch.tensor([0, .4 * math.cos(t), -b * .4 * math.sin(t), 0])
        grp.canting, grp.facet_translations = canting, tr
        grp.nurbs_control_points = torch.stack([create_planar_nurbs_control_points(torch.tensor([4, 4]), canting[h], device=scene.CPU) for h in range(n)])
        groups.append(grp)
    tw = scene.tower([("alpha", [0.0, 0.0, 6.0], [0.0, 1.0, 0.0], (5.0, 5.0)), ("beta", [1.0, 0.0, 5.0], [0.0, 1.0, 0.0], (6.0, 5.0))])
    sc = scene.scenario(groups, tw, rays=i.get("rays", 3), covariance=i.get("wide", 2) * 1e-6)
    sc.heliostat_field.update_surfaces(device=scene.CPU)
    data = []
    for g, (grp, d) in enumerate(zip(groups, i["groups"])):
        mask = torch.tensor([i["n"] * x for x in i["data"][g]], dtype=torch.int32)
        k = int(mask.sum())
        sun = torch.nn.functional.normalize(torch.stack([rnd(k) - .5, .4 + .5 * rnd(k), -.4 - .5 * rnd(k), torch.zeros(k)], dim=1), dim=1)
        targets = (rnd(k) < .5).long()
        e = {"mask": mask, "sun": sun, "targets": targets, "motors": torch.zeros((0, 2)), "focal": torch.zeros((0, 4)), "flux": torch.zeros((0, RES, RES))}
        if k:
            true = torch.tensor(d["rot"]) / S
            grp.kinematics.rotation_deviation_parameters = true
            keep = grp.nurbs_control_points
            if i["method"] == "surface":
                bent = keep.clone()
                bent[..., 1:-1, 1:-1, 2] += .004 * (rnd(*bent[..., 1:-1, 1:-1, 2].shape) - .5)
                grp.nurbs_control_points = bent
                sc.heliostat_field.update_surfaces(device=scene.CPU)
            aims = sc.solar_tower.get_centers_of_target_areas(targets, device=scene.CPU)
            aims[:, 0] += .3 * (rnd(k) - .5)
            grp.activate_heliostats(active_heliostats_mask=mask, device=scene.CPU)
            grp.align_surfaces_with_incident_ray_directions(aim_points=aims, incident_ray_directions=sun, active_heliostats_mask=mask, device=scene.CPU)
            e["motors"] = grp.kinematics.active_motor_positions.detach().clone()
            e["focal"] = aims
            e["flux"] = trace(sc, grp, mask, sun, targets, crop=i["method"] == "surface").detach()
            if i["method"] == "surface":
                grp.nurbs_control_points = keep
                sc.heliostat_field.update_surfaces(device=scene.CPU)
        grp.kinematics.rotation_deviation_parameters = torch.tensor(d["start"]) / S
        data.append(e)
    return sc, data


def trace(sc, grp, mask, sun, targets, crop, **kwargs):
    rt = HeliostatRayTracer(scenario=sc, heliostat_group=grp, blocking_active=False, batch_size=4, **({"random_seed": 0} | kwargs), bitmap_resolution=torch.tensor([RES, RES]))
    f = rt.trace_rays(incident_ray_directions=sun, active_heliostats_mask=mask, target_area_indices=targets, device=scene.CPU)[0]
    return bitmap.crop_flux_distributions_around_center(flux_distributions=f, solar_tower=sc.solar_tower, target_area_indices=targets, device=scene.CPU) if crop else f


def ddp(groups):
    return {"device": scene.CPU, "is_distributed": False, "is_nested": False, "rank": 0, "world_size": 1, "process_subgroup": None, "groups_to_ranks_mapping": {0: list(range(groups))},
            "heliostat_group_rank": 0, "heliostat_group_world_size": 1, "ranks_to_groups_mapping": {g: [0] for g in range(groups)}}


TENSORS = {"positions": lambda g: g.positions, "points": lambda g: g.surface_points, "normals": lambda g: g.surface_normals, "canting": lambda g: g.canting, "shifts": lambda g: g.facet_translations,
           "control": lambda g: g.nurbs_control_points, "translations": lambda g: g.kinematics.translation_deviation_parameters,
           "rotations": lambda g: g.kinematics.rotation_deviation_parameters, "fixed": lambda g: g.kinematics.actuators.non_optimizable_parameters,
           "learnable": lambda g: g.kinematics.actuators.optimizable_parameters}


def snapshot(sc):
    out = []
    for g in sc.heliostat_field.heliostat_groups:
        out.append({k: f(g).detach().clone() for k, f in TENSORS.items()})
    sun = sc.light_sources.light_source_list[0]
    p, c = sc.solar_tower.target_areas
    rest = [p.centers, p.normals, p.dimensions, sc.power_plant_position, sun.distribution.loc, sun.distribution.covariance_matrix] + [g.nurbs_degrees for g in sc.heliostat_field.heliostat_groups]
    return out, [t.detach().clone() for t in rest]


def digest(*tensors):
    h = hashlib.sha256()
    for t in tensors:
        h.update(t.detach().contiguous().numpy().tobytes())
    return int.from_bytes(h.digest()[:4], "big") % 900_000_000


LOSS = {"angle": lambda sc: losses.AngleLoss(), "focal": lambda sc: losses.FocalSpotLoss(scenario=sc), "pixel": lambda sc: losses.PixelLoss(), "kl": lambda sc: losses.KLDivergenceLoss()}


def once(i, log=None, only=None, spoil=False, more=0, setup=None):
    """One reconstruction from the original state."""
    torch.manual_seed(1)
    sc, data = build(i)
    if only is not None:
        for g, e in enumerate(data):
            if g != only:
                data[g] = {k: v[:0] if k != "mask" else torch.zeros_like(v) for k, v in e.items()}
    if spoil:
        per = i["n"] - max(1, i["n"] // 4)
        for e in data:
            for s in range(int(e["mask"].sum())):
                if s % i["n"] >= per:
                    e["flux"][s] = e["flux"][s].flip(0) * 2 + .1
                    e["focal"][s, :3] += .2
    before, rest = snapshot(sc)
    trained = [g for g, r in enumerate(i["data"]) if any(r) and (only is None or g == only)]
    script = i.get("script")
    if script is not None and only is not None:
        script = [script[[g for g, r in enumerate(i["data"]) if any(r)].index(only)]]
    scale = i["L"]
    rec = Recorder(LOSS[i["loss"]](sc), [data[g]["flux"] for g in trained], script, scale)
    rec.norm = 1000.0
    rec.keep = more > 0

    class Watch(Parser):
        def parse_data_for_reconstruction(self, heliostat_data_mapping, heliostat_group, scenario, bitmap_resolution=None, device=None):
            r = super().parse_data_for_reconstruction(heliostat_data_mapping, heliostat_group, scenario, bitmap_resolution, device)
            if r[4].sum() > 0:
                rec.calls.append([])
            return r

    cfg = i["cfg"]
    opt = {constants.initial_learning_rate: i["lr"] / S, constants.initial_learning_rate_rotation_deviation: i["lr"] / S, constants.tolerance: cfg["tol"] / scale if cfg["tol"] else (0 if i["loss"] != "kl" else -1e9),
           constants.max_epoch: cfg["max"] + more, constants.batch_size: 4, constants.log_step: i["log"] if log is None else log, constants.early_stopping_delta: cfg["num"] / cfg["den"],
           constants.early_stopping_patience: cfg["patience"], constants.early_stopping_window: cfg["window"]}
    sched = {constants.scheduler_type: i["scheduler"], constants.gamma: .99, constants.lr_min: 1e-6, constants.lr_max: 5e-4, constants.step_size_up: 4, constants.reduce_factor: .5, constants.patience: 2,
             constants.threshold: 1e-3, constants.cooldown: 1}
    con = {constants.rho_flux_integral: i["rho"] / S, constants.energy_tolerance: i["etol"] / S, constants.weight_smoothness: i["ws"] / S, constants.weight_ideal_surface: i["wi"] / S}
    config = {constants.optimization: opt, constants.scheduler: sched, constants.constraints: con}
    args = dict(ddp_setup=setup or ddp(len(i["data"])), scenario=sc, data={constants.data_parser: Watch({g.names[0]: d for g, d in zip(sc.heliostat_field.heliostat_groups, data)}), constants.heliostat_data_mapping: []},
                optimization_configuration=config, bitmap_resolution=torch.tensor([RES, RES]))
    if i["method"] == "surface":
        final, hist = SurfaceReconstructor(number_of_surface_points=torch.tensor(i.get("sampling", [4, 4])), device=scene.CPU, **args).reconstruct_surfaces(loss_definition=rec, device=scene.CPU)
    else:
        method = constants.kinematics_reconstruction_alignment if i["method"] == "align" else constants.kinematics_reconstruction_raytracing
        final, hist = KinematicsReconstructor(reconstruction_method=method, **args).reconstruct_kinematics(loss_definition=rec, device=scene.CPU)
    return {"sc": sc, "data": data, "before": before, "rest": rest, "final": final, "hist": hist[0], "all": hist, "calls": rec.calls, "trained": trained}


def results(r, groups=None):
    gs = r["sc"].heliostat_field.heliostat_groups
    n = [g.number_of_heliostats for g in gs]
    res = []
    for k, g in enumerate(gs):
        if groups is None or k in groups:
            res += [f(g) for f in TENSORS.values()] + [r["final"][sum(n[:k]):sum(n[:k + 1])]]
            if k in r["trained"]:
                h = r["hist"][r["trained"].index(k)]
                res.append(torch.tensor(h["total_loss"], dtype=torch.float64))
    return digest(*res)


def public(i):
    """The prediction for the training samples before the first epoch, computed through the public interface."""
    sc, data = build(i)
    per = i["n"] - max(1, i["n"] // 4)
    out = []
    for g, row in enumerate(i["data"]):
        if not any(row):
            continue
        if i["method"] == "align":
            out.append([[] for _ in range(1)])
            continue
        grp, d = sc.heliostat_field.heliostat_groups[g], data[g]
        k = [s for s in range(int(d["mask"].sum())) if s % i["n"] < per]
        mask = torch.tensor([per * x for x in row], dtype=torch.int32)
        grp.activate_heliostats(active_heliostats_mask=mask, device=scene.CPU)
        if i["method"] == "flux":
            grp.align_surfaces_with_motor_positions(motor_positions=d["motors"][k], active_heliostats_mask=mask, device=scene.CPU)
        else:
            grp.align_surfaces_with_incident_ray_directions(aim_points=sc.solar_tower.get_centers_of_target_areas(d["targets"][k], device=scene.CPU), incident_ray_directions=d["sun"][k],
                                                            active_heliostats_mask=mask, device=scene.CPU)
        out.append(coarse(trace(sc, grp, mask, d["sun"][k], d["targets"][k], crop=i["method"] == "surface").detach()))
    return out


def tests_of(i, r):
    """Losses of the test samples with the final parameters, computed through the public interface."""
    sc, data = r["sc"], r["data"]
    per = i["n"] - max(1, i["n"] // 4)
    out = []
    for g in r["trained"]:
        grp, d = sc.heliostat_field.heliostat_groups[g], data[g]
        k = [s for s in range(int(d["mask"].sum())) if s % i["n"] >= per]
        mask = torch.tensor([(i["n"] - per) * x for x in i["data"][g]], dtype=torch.int32)
        grp.activate_heliostats(active_heliostats_mask=mask, device=scene.CPU)
        if i["method"] == "surface":
            grp.align_surfaces_with_incident_ray_directions(aim_points=sc.solar_tower.get_centers_of_target_areas(d["targets"][k], device=scene.CPU), incident_ray_directions=d["sun"][k],
                                                            active_heliostats_mask=mask, device=scene.CPU)
        else:
            grp.align_surfaces_with_motor_positions(motor_positions=d["motors"][k], active_heliostats_mask=mask, device=scene.CPU)
        with torch.no_grad():
            f = trace(sc, grp, mask, d["sun"][k], d["targets"][k], crop=i["method"] == "surface", **({} if i["method"] == "surface" else {"random_seed": 7}))
        e = {"pixel_loss": losses.PixelLoss()(prediction=f, ground_truth=d["flux"][k], reduction_dimensions=(1, 2)),
             "kl_div": losses.KLDivergenceLoss()(prediction=f, ground_truth=d["flux"][k], reduction_dimensions=(1, 2))}
        if i["method"] != "surface":
            e["focal_spot_loss"] = losses.FocalSpotLoss(scenario=sc)(prediction=f, ground_truth=d["flux"][k], target_area_indices=d["targets"][k], device=scene.CPU)
        out.append({n: fx(v, 10_000) for n, v in e.items()})
    return out


def run_case(case):
    i = case["in"]
    real = "script" not in i
    i["L"] = S if not real else {"angle": 100 * S, "focal": S, "pixel": 100 * S, "kl": S}[i["loss"]]
    i["learns"] = int(real)
    i["moves"] = int(real and i["scheduler"] != "cyclic")
    i["improves"] = int(real and i["loss"] == "angle" and i["scheduler"] != "cyclic" and i["cfg"]["tol"] == 0 and i["cfg"]["window"] > 2 and i["cfg"]["max"] > 1)
    b = once(i)
    sc, data = b["sc"], b["data"]
    after, rest = snapshot(sc)
    trained = b["trained"]
    i["targets"] = [ints(d["targets"]) for d in data]
    if i["method"] == "align":
        i["focal"] = [[p[:3] for p in fx(d["focal"])] for d in data]
        i["sun"] = [[p[:3] for p in fx(d["sun"])] for d in data]
        i["motors"] = []
        i["helio"] = []
        for g, d in zip(i["groups"], data):
            i["motors"].append([[fx(x, 100 if g["linear"] else S) for x in m] for m in d["motors"].tolist()])
            i["helio"].append([{"pos": p, "tr": [0] * 9, "rot": r, "act": actuators(g["linear"])} for p, r in zip(g["pos"], g["start"])])
    out = {"calls": b["calls"], "final": [-1 if math.isinf(x) else fx(x, i["L"]) for x in b["final"].tolist()],
           "changed": [{k: [int(not torch.equal(x[k][h], y[k][h])) if x[k].numel() else 0 for h in range(len(i["data"][g]))] for k in TENSORS} for g, (x, y) in enumerate(zip(b["before"], after))],
           "others": int(any(not torch.equal(x, y) for x, y in zip(b["rest"], rest))),
           "finite": int(all(bool(torch.isfinite(t).all()) for g in after for t in g.values())), "outline": outline(b["before"], after), "hist": [], "public": public(i)}
    for h in b["hist"]:
        e = {"total": fx(h["total_loss"], i["L"]), "test": [int(t.numel()) for t in h["test_loss"].values()]}
        if i["method"] == "surface":
            e.update(flux=fx(h["flux_loss"], i["L"]), smooth=fx(h["smoothness_regularizer"], i["L"]), ideal=fx(h["ideal_regularizer"], i["L"]), integral=fx(h["flux_integral"]), constraint=fx(h["flux_integral_constraint"]))
        out["hist"].append(e)
    G = range(len(i["data"]))
    v = once(i, log=1 if i["log"] != 1 else 0)
    t = b if i["log"] == 1 else v
    out["tests"] = [{n: fx(x, 10_000) for n, x in h["test_loss"].items()} for h in t["hist"]]
    out["digest"] = {"base": results(b), "again": results(once(i)), "validated": results(v), "untested": results(once(i, spoil=True)),
                     "group": [results(b, [g]) for g in G], "alone": [results(once(i, only=g), [g]) if g in trained else 0 for g in G]}
    out["samples"] = tests_of(i, t)
    if i["method"] == "align" and real and i["cfg"]["tol"] == 0 and i["cfg"]["window"] == 50:
        m = once(i, more=1)
        # one more epoch, unless the loss reached the tolerance before
        if all(len(c) == len(d) + 1 for c, d in zip(m["calls"], b["calls"])):
            nxt = {g: c[-1]["pred"] for g, c in zip(trained, m["calls"])}
            out["next"] = [nxt.get(g, []) for g in G]
            out["rot"] = [fx(g["rotations"]) for g in after]
    return out


def outline(before, after):
    n = 0
    for x, y in zip(before, after):
        a, b = x["control"][..., :2], y["control"][..., :2]
        d = a != b
        n += int(d[:, :, 0].any() or d[:, :, -1].any() or d[:, :, :, 0].any() or d[:, :, :, -1].any())
    return n


def actuators(linear):
    if not linear:
        return [{"kind": 1, "cw": 0, "inc": 1, "off": 0, "rad": 0, "a0": 0, "s0": 0} for _ in range(2)]
    return [{"kind": 0, "cw": c, "inc": 15416667, "off": 340000, "rad": 338000, "a0": a, "s0": s} for c, a, s in ((0, -1564953, 75000), (1, 939954, 75600))]
