"""C25: what the plant's files say is what the scenario gets."""

import json
import math
import pathlib
import shutil
import struct
import tempfile

import h5py
import numpy as np
import torch
import artist.io  # noqa: F401
from artist.io import paint_scenario_parser as paint
from artist.io import stral_scenario_parser as stral
from artist.nurbs.surfaces import NURBSSurfaces
from artist.scenario.surface_generator import SurfaceGenerator
from artist.util import constants

from .core import fx, ints

TRACE = "PlantFilesTrace"
TRACE_CONSTS = {"S": 1_000_000}
ASSUMPTIONS = ["target areas have unit normal vectors that are not vertical; the corners of a cylindrical target lie on the ends of its arch",
               "positions lie within some hundred metres of the plant's", "every facet of a heliostat has a deflectometry measurement",
               "surfaces are fitted with Adam and the plateau schedule (the only one the fit's interface can drive)"]
LAT, LON, ALT = 50.913421, 6.387824, 88.0
A, B = 6378137.0, 6356752.314245
E2 = (A * A - B * B) / (A * A)
DEV = ["first_joint_translation_e", "first_joint_translation_n", "first_joint_translation_u", "first_joint_tilt_n", "first_joint_tilt_u",
       "second_joint_translation_e", "second_joint_translation_n", "second_joint_translation_u", "second_joint_tilt_e", "second_joint_tilt_n",
       "concentrator_translation_e", "concentrator_translation_n", "concentrator_translation_u"]
DEV_FILE = ["joint_translation_e_1", "joint_translation_n_1", "joint_translation_u_1", None, None, "joint_translation_e_2", "joint_translation_n_2",
            "joint_translation_u_2", None, None, "concentrator_translation_e", "concentrator_translation_n", "concentrator_translation_u"]
PARAMS = ["initial_stroke_length", "offset", "pivot_radius", "initial_angle"]
CPU = torch.device("cpu")
MODEL = dict(Losses={0, 1, 2}, Epochs=3)


def models(ctx):
    yield dict(module="PlantFilesModel", consts={**MODEL, "MaxLen": ctx.pick(3, 4), "MaxFits": ctx.pick(2, 3)}, spec="Spec",
               invariants=["Once", "Kinds", "Prototype", "Alone"], properties=["Ends"] if not ctx.thorough else [])


def cases(ctx):
    rng = ctx.rng
    for m in ctx.behaviours("PlantFilesModel", {**MODEL, "MaxLen": ctx.pick(3, 4), "MaxFits": 4, "Losses": {0}}, spec="Spec", invariants=["Once", "Export"]):
        yield plant(rng, 3, m["paths"])
    for _ in range(ctx.pick(40, 300)):
        mode = rng.choice([1, 1, 2, 3, 3])
        fits = [{1: 0, 2: 1, 3: rng.randint(0, 1)}[mode] for _ in range(rng.randint(1, 4))]
        yield plant(rng, mode, fits)
    for _ in range(ctx.pick(150, 1500)):
        yield {"kind": "tower", "in": a_tower(rng)}
    for _ in range(ctx.pick(40, 400)):
        few = rng.randint(1, 5)
        yield {"kind": "surface", "in": {"stral": rng.randint(0, 1), "facets": [
            {**a_facet(rng), "points": [[rng.randint(-2_000_000, 2_000_000) for _ in range(3)] for _ in range(n)],
             "normals": [[rng.randint(-1_000_000, 1_000_000) for _ in range(3)] for _ in range(n)]}
            for n in [rng.randint(1, 12) for _ in range(few)]]}}
    for _ in range(ctx.pick(14, 120)):
        n = rng.randint(2, 3)
        yield {"kind": "fit", "in": {"facets": n, "epochs": rng.choice([40, 60]), "step": rng.randint(1, 4), "seed": rng.randint(0, 10**6), "cp": [rng.randint(4, 6), rng.randint(4, 6)],
                                     "method": 2 if rng.random() < .8 else 1, "patience": rng.choice([1, 3, 50]), "cooldown": rng.choice([0, 0, 2]),
                                     "flat": [rng.choice([0, 1]) for _ in range(n)], "extra": [rng.randint(0, 7) for _ in range(n)]}}


def around(rng, size):
    return rng.randint(-size, size)


def a_tower(rng):
    ts = []
    for name in rng.sample(["receiver", "multi_focus_tower", "solar_tower_juelich_upper", "solar_tower_juelich_lower", "a", "z2", "target"], rng.randint(1, 5)):
        c = [around(rng, 200_000_000), around(rng, 200_000_000), rng.randint(5_000_000, 150_000_000)]
        az, el = rng.choice([0.0, math.pi / 2, rng.uniform(-3.14, 3.14)]), rng.choice([0.0, 0.0, rng.uniform(-1.2, 1.2)])
        n = [math.sin(az) * math.cos(el), math.cos(az) * math.cos(el), math.sin(el)]
        n = [round(x) if abs(abs(x) - round(abs(x))) < 1e-9 else x for x in n]
        whole = all(isinstance(x, int) for x in n) and rng.random() < .6
        n = n if whole else [float(x) for x in n]
        base = {"key": name, "normal": fx(n), "n": n, "center": c}
        if rng.random() < .5:
            w, h = rng.randint(500_000, 12_000_000), rng.randint(500_000, 12_000_000)
            j = lambda: [around(rng, 80_000) for _ in range(3)]
            a = az
            at = lambda x, u: [p + q for p, q in zip([c[0] + round(x * w / 2 * math.cos(a)), c[1] - round(x * w / 2 * math.sin(a)), c[2] + round(u * h / 2)], j())]
            ts.append({**base, "type": "planar", "ul": at(1, 1), "ll": at(1, -1), "ur": at(-1, 1), "lr": at(-1, -1)})
        else:
            ts.append({**base, "type": "convex_cylinder", "radius": rng.randint(1_000_000, 9_000_000), "height": rng.randint(500_000, 9_000_000),
                       "degrees": rng.choice([60, 90, 180, 120, 200, 270, rng.randint(10, 340)])})
            ts[-1]["opening"] = round(math.radians(ts[-1]["degrees"]) * 1e6)
    return {"targets": ts, "plant_at": rng.randint(0, len(ts)), "order": rng.randint(0, 10**6)}


def a_facet(rng):
    a, b, t = rng.randint(300_000, 1_500_000), rng.randint(300_000, 1_500_000), [around(rng, 30_000) for _ in range(4)]
    return {"t": [around(rng, 2_000_000) for _ in range(2)] + [around(rng, 50_000)], "ce": [a, t[0], t[1]], "cn": [t[2], b, t[3]]}


def plant(rng, mode, fits):
    hs = []
    names = rng.sample(["AA39", "AB12", "h", "Z", "x1", "10", "2", "b-c", "q"], len(fits))
    number = rng.choice([1, 2, 4])
    for name, f in zip(names, fits):
        fs = [a_facet(rng) for _ in range(number)]
        hs.append({"name": name, "fit": f, "none": rng.randint(0, 1), "pos": [around(rng, 250_000_000), around(rng, 250_000_000), around(rng, 9_000_000)], "facets": fs,
                   "cloud": [[rng.randint(1_000_000, 3_000_000), rng.randint(1_000_000, 3_000_000)] for _ in fs],
                   "init": [rng.choice([0, 1_000_000, around(rng, 1_000_000)]) for _ in range(3)],
                   "dev": [around(rng, 400_000) if k else 0 for k in DEV_FILE],
                   "act": [{"type": rng.choice(["linear", "linear", "ideal"]), "clockwise": rng.randint(0, 1), "limits": [rng.choice([0, 0, rng.randint(1, 900)]), rng.randint(1000, 90_000)],
                            "increment": rng.randint(100_000_000, 200_000_000), "params": [rng.randint(1, 400_000), rng.randint(100_000, 400_000), rng.randint(100_000, 400_000), around(rng, 1_500_000)]}
                           for _ in range(2)]})
    return {"kind": "heliostats", "in": {"heliostats": hs, "mode": mode, "method": rng.choice([1, 2, 2]), "cp": [rng.randint(4, 6), rng.randint(4, 6)], "epochs": rng.choice([0, 1, 2]),
                                         "step": rng.randint(1, 3), "seed": rng.randint(0, 10**6)}}


# ---------------------------------------------------------------------------
def geographic(p):
    """Micrometres east, north and up of the plant as degrees and metres."""
    lat0, lat = math.radians(LAT), math.radians(LAT)
    for _ in range(30):
        lat = lat0 + p[1] / 1e6 / (A * (1 - E2) / (1 - E2 * math.sin(lat) ** 2) ** 1.5)
    lon = math.radians(LON) + p[0] / 1e6 / (A / math.sqrt(1 - E2 * math.sin(lat) ** 2) * math.cos(lat))
    return [math.degrees(lat), math.degrees(lon), ALT + p[2] / 1e6]


def run_case(case):
    tmp = tempfile.mkdtemp(prefix="c25.")
    try:
        return {"tower": tower, "heliostats": heliostats, "surface": surface, "fit": fit}[case["kind"]](case["in"], pathlib.Path(tmp))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def vec(q):
    return [x / 1e6 for x in q]


def row(t):
    """A homogeneous vector, whichever leading dimensions of one it has."""
    return fx(t.double().reshape(-1))


def tower(i, tmp):
    entries = []
    for t in i["targets"]:
        if t["type"] == "planar":
            e = {"type": "planar", "normal_vector": t["n"], "coordinates": {
                "center": geographic(t["center"]), "upper_left": geographic(t["ul"]), "upper_right": geographic(t["ur"]), "lower_left": geographic(t["ll"]),
                "lower_right": geographic(t["lr"]), "upper_middle": geographic([0, 0, 0])}}
        else:
            n = np.array(t["n"], dtype=float)
            up = np.array([0, 0, 1.0])
            axis = up - n * (up @ n)
            axis /= np.linalg.norm(axis)
            left = np.cross(axis, n)      # to the left of somebody who looks at the target along -n
            half = math.radians(t["degrees"]) / 2
            at = lambda x, u, r: geographic(list(np.array(t["center"]) + r * (n * math.cos(half) - x * left * math.sin(half)) + u * axis * t["height"] / 2))
            pre = "receiver_inner_" if t["key"] == "receiver" else ""
            c = {"center": geographic([0, 0, 1]), pre + "upper_left": at(1, 1, t["radius"]), pre + "upper_right": at(-1, 1, t["radius"]),
                 pre + "lower_left": at(1, -1, t["radius"]), pre + "lower_right": at(-1, -1, t["radius"])}
            if pre:
                c.update({f"receiver_outer_{k}": geographic([1, 2, 3]) for k in ("upper_left", "upper_right", "lower_left", "lower_right")})
            e = {"type": "convex_cylinder", "normal_vector": t["n"], "radius": t["radius"] / 1e6, "opening_angle": t["degrees"], "coordinates": c}
        entries.append((t["key"], e))
    entries.insert(i["plant_at"], ("power_plant_properties", {"ID": "X", "coordinates": [LAT, LON, ALT]}))
    (tmp / "tower.json").write_text(json.dumps(dict(entries)))
    p, planar, cylinder = paint.extract_paint_tower_measurements(tower_measurements_path=tmp / "tower.json", device=CPU)
    return {"plant": fx([1e3 * (float(a) - b) for a, b in zip(p.power_plant_position, [LAT, LON, ALT])]),
            "planar": [{"key": t.target_area_key, "center": row(t.center), "normal": row(t.normal_vector), "e": fx(t.plane_e), "u": fx(t.plane_u)} for t in planar.target_area_list],
            "cylinder": [{"key": t.target_area_key, "center": row(t.center), "normal": row(t.normal), "axis": row(t.axis), "radius": fx(t.radius), "height": fx(t.height),
                          "opening": fx(t.opening_angle)} for t in cylinder.target_area_list]}


def cloud(rng, w, h, step, n, bend=.02, tilt=(0.0, 0.0)):
    """Points and normals of a bent facet; the two that span the cloud are among those that are used."""
    e, no = rng.uniform(-w / 2, w / 2, n), rng.uniform(-h / 2, h / 2, n)
    e[0], no[0], e[step], no[step] = -w / 2, -h / 2, w / 2, h / 2
    u = bend * (e * e + .7 * no * no) + tilt[0] * e + tilt[1] * no
    normals = np.stack([-2 * bend * e - tilt[0], -1.4 * bend * no - tilt[1], np.ones(n)], axis=1)
    return np.stack([e, no, u], axis=1), normals / np.linalg.norm(normals, axis=1, keepdims=True)


def scheduled(lr=1e-3, patience=50, cooldown=0, cls=torch.optim.Adam):
    o = cls([torch.empty(1, requires_grad=True)], lr=lr)
    return o, torch.optim.lr_scheduler.ReduceLROnPlateau(o, mode="min", factor=.2, patience=patience, threshold=1e-7, threshold_mode="abs", cooldown=cooldown)


def heliostats(i, tmp):
    rng = np.random.default_rng(i["seed"])
    paths = []
    for k, h in enumerate(i["heliostats"]):
        acts = [{"type_axis": a["type"], "clockwise_axis_movement": a["clockwise"], "min_increment": a["limits"][0], "max_increment": a["limits"][1], "increment": a["increment"] / 1e3,
                 "offset_shift": 7, "radius_shift": 8, "min_movement_angle": 9, **{p: v / 1e6 for p, v in zip(PARAMS, a["params"])}} for a in h["act"]]
        (tmp / f"{k}.json").write_text(json.dumps({
            "heliostat_position": geographic(h["pos"]), "height": 2.5, "width": 3.2, "initial_orientation": vec(h["init"]),
            "kinematics_properties": {"actuators": acts, **{f: v / 1e6 for f, v in zip(DEV_FILE, h["dev"]) if f}},
            "facet_properties": {"canting_type": "receiver canting", "number_of_facets": len(h["facets"]), "facets": [
                {"translation_vector": vec(f["t"]), "canting_e": vec(f["ce"]), "canting_n": vec(f["cn"])} for f in h["facets"]]}}))
        p = (h["name"], tmp / f"{k}.json")
        if h["fit"]:
            with h5py.File(tmp / f"{k}.h5", "w") as f:
                for x, (w, hh) in enumerate(h["cloud"], 1):
                    pts, nrm = cloud(rng, w / 1e6, hh / 1e6, i["step"], 30)
                    f[f"facet{x}/surface_points"], f[f"facet{x}/surface_normals"] = pts.astype(np.float32), nrm.astype(np.float32)
            p += (tmp / f"{k}.h5",)
        elif i["mode"] == 3 and h["none"]:
            p += (None,)
        paths.append(p)
    o, s = scheduled()
    plant_position = torch.tensor([LAT, LON, ALT], dtype=torch.float64)
    cp = torch.tensor(i["cp"])
    more = dict(nurbs_fit_optimizer=o, nurbs_fit_scheduler=s, deflectometry_step_size=i["step"], nurbs_fit_max_epoch=i["epochs"],
                nurbs_fit_method=constants.fit_nurbs_from_points if i["method"] == 1 else constants.fit_nurbs_from_normals)
    f = {1: paint.extract_paint_heliostats_ideal_surface, 2: paint.extract_paint_heliostats_fitted_surface, 3: paint.extract_paint_heliostats_mixed_surface}[i["mode"]]
    r, p = f(paths=paths, power_plant_position=plant_position, number_of_nurbs_control_points=cp, device=CPU, **({} if i["mode"] == 1 else more))

    def facets(q):
        return [{"t": row(x.translation_vector), "ce": row(x.canting[0]), "cn": row(x.canting[1]), "degrees": ints(x.degrees), "cps": fx(x.control_points)} for x in q]

    def kin(k):
        return {"init": row(k.initial_orientation), "dev": fx([getattr(k.deviations, d) for d in DEV])}

    def act(q):
        return [{"type": a.actuator_type, "clockwise": int(a.clockwise_axis_movement), "limits": ints(a.min_max_motor_positions), "increment": fx(a.parameters.increment, 1000),
                 "params": fx([getattr(a.parameters, x) for x in PARAMS])} for a in q]
    return {"list": [{"name": h.name, "id": int(h.heliostat_id), "pos": row(h.position), "facets": facets(h.surface.facet_list), "act": act(h.actuators.actuator_list), **kin(h.kinematics)}
                     for h in r.heliostat_list],
            "proto": {"facets": facets(p.surface_prototype.facet_list), "act": act(p.actuators_prototype.actuator_list), **kin(p.kinematics_prototype)}}


def surface(i, tmp):
    fs = i["facets"]
    if not i["stral"]:
        with h5py.File(tmp / "d.h5", "w") as f:
            for k, x in reversed(list(enumerate(fs, 1))):
                f[f"facet{k}/surface_points"], f[f"facet{k}/surface_normals"] = np.array(x["points"]) / 1e6, np.array(x["normals"]) / 1e6
        p, n = paint.extract_paint_deflectometry_data(heliostat_deflectometry_path=tmp / "d.h5", number_of_facets=len(fs), device=CPU)
        return {"points": [fx(x) for x in p], "normals": [fx(x) for x in n]}
    nx = next(k for k in (3, 2, 1) if len(fs) % k == 0)
    with open(tmp / "s.binp", "wb") as f:
        f.write(struct.pack("=5f2I2f", 1, 2, 3, 4, 5, nx, len(fs) // nx, 8, 9))
        for k, x in enumerate(fs):
            f.write(struct.pack("=i9fI", k, *vec(x["t"]), *vec(x["ce"]), *vec(x["cn"]), len(x["points"])))
            for a, b in zip(x["points"], x["normals"]):
                f.write(struct.pack("=7f", *vec(a), *vec(b), 11.0))
    t, c, p, n = stral.extract_stral_deflectometry_data(stral_file_path=tmp / "s.binp", device=CPU)
    return {"t": fx(t), "ce": fx(c[:, 0]), "cn": fx(c[:, 1]), "points": [fx(x) for x in p], "normals": [fx(x) for x in n]}


class Counting(torch.optim.Adam):
    """Adam that writes down its rates."""

    def step(self, closure=None):
        self.__dict__.setdefault("rates", []).append((id(self.param_groups[0]["params"][0]), self.param_groups[0]["lr"]))
        self.__dict__.setdefault("alive", []).append(self.param_groups[0]["params"][0])
        return super().step(closure)


def fit(i, tmp):
    rng = np.random.default_rng(i["seed"])
    n, base = i["facets"], 40 + i["step"]
    data = [cloud(rng, rng.uniform(1, 3), rng.uniform(1, 3), i["step"], base + x, bend=0.0 if fl else rng.uniform(.01, .03) * rng.choice([-1, 1]),
                  tilt=(0.0, 0.0) if fl else rng.uniform(-.02, .02, 2)) for x, fl in zip(i["extra"], i["flat"])]
    least = min(len(p) for p, _ in data)
    as_t = lambda q: [torch.tensor(x, dtype=torch.float32) for x in q]
    pts, nrm = as_t(p for p, _ in data), as_t(q for _, q in data)
    t = torch.tensor(np.c_[rng.uniform(-1, 1, (n, 3)), np.zeros(n)], dtype=torch.float32)
    cant = torch.tensor([[[1.0, 0, 0, 0], [0, 1.0, 0, 0]]] * n)
    method = constants.fit_nurbs_from_points if i["method"] == 1 else constants.fit_nurbs_from_normals

    def run(points, normals, which, o, s):
        g = SurfaceGenerator(number_of_control_points=torch.tensor(i["cp"]), device=CPU)
        return g.generate_fitted_surface_config(
            heliostat_name="h", facet_translation_vectors=t[which], canting=cant[which], surface_points_with_facets_list=points, surface_normals_with_facets_list=normals,
            optimizer=o, scheduler=s, deflectometry_step_size=i["step"], fit_method=method, tolerance=0.0, max_epoch=i["epochs"], device=CPU).facet_list

    both = lambda: scheduled(patience=i["patience"], cooldown=i["cooldown"], cls=Counting)
    copies = [x.clone() for x in pts + nrm]
    o, s = both()
    whole = run(pts, nrm, slice(None), o, s)
    rates = list(o.__dict__.get("rates", []))
    same = all(torch.equal(a, b) for a, b in zip(copies, pts + nrm))
    again = run(pts, nrm, slice(None), o, s)
    alone = [run([pts[f][:least]], [nrm[f][:least]], slice(f, f + 1), *both())[0] for f in range(n)]
    used = torch.zeros(max(len(p) for p in pts), dtype=torch.bool)
    used[:least:i["step"]] = True
    off = [torch.where(used[:len(p), None], p, p * 1.5 + .3) for p in pts]
    offn = [torch.where(used[:len(p), None], p, p.flip(-1)) for p in nrm]
    spare = run(off, offn, slice(None), *both())

    def deviation(f, cps):
        """Of the normals (or the heights) at the measured points, in units of 1e-9."""
        p, q = pts[f][:least:i["step"]], nrm[f][:least:i["step"]]
        lo, hi = p[:, :2].min(0).values, p[:, :2].max(0).values
        at = torch.cat([((p[:, :2] - lo) / (hi - lo)).clamp(1e-5, 1 - 1e-5), torch.zeros(len(p), 1)], dim=1)
        srf = NURBSSurfaces(degrees=torch.tensor([3, 3]), control_points=cps[None, None].clone(), device=CPU)
        m = srf.calculate_surface_points_and_normals(evaluation_points=at[None, None], canting=None, facet_translations=None, device=CPU)
        if i["method"] == 1:
            return float(((m[0][0, 0, :, 2] - p[:, 2]) ** 2).mean()) * 1e9
        return float(((m[1][0, 0, :, :3] - q) ** 2).mean()) * 1e9
    flat = [float(((nrm[f][:least:i["step"]] - torch.tensor([0, 0, 1.0])) ** 2).mean() if i["method"] == 2 else (pts[f][:least:i["step"], 2] ** 2).mean()) * 1e9 for f in range(n)]
    end = [deviation(f, whole[f].control_points) for f in range(n)]
    first, seen = [], set()
    for k, r in rates:
        if k not in seen:
            seen.add(k)
            first.append(r)
    num = lambda q: [int(min(x, 1e9)) for x in q]
    cps = lambda q: [fx(x.control_points.reshape(-1)) for x in q]
    return {"together": cps(whole), "alone": cps(alone), "again": cps(again), "spare": cps(spare), "steps": len(rates) or -1, "first": fx(first, 1_000_000_00),
            "flat": num(flat), "fit": num(end), "inputs": int(same)}
