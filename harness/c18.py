"""C18: a scenario file reproduces the described field."""

import pathlib
import shutil
import tempfile

import h5py
import torch
from artist.scenario.h5_scenario_generator import H5ScenarioGenerator
from artist.scenario.scenario import Scenario
from artist.util import config as C

from . import c20
from . import rays as R
from . import scene
from .core import Skip, fx, ints

TRACE = "ScenarioTrace"
S = 1_000_000
TRACE_CONSTS = {"S": S}
EXPECTED_ERRORS = ("ValueError", "KeyError", "RuntimeError", "AttributeError")
ASSUMPTIONS = ["heliostats have at most nine facets, named in order, and the facets of the heliostats of a group share degrees and numbers of control points (required by the package)",
               "a changed number of control points is asked for ideal surfaces only (as documented)"]
TRANSLATIONS = ["first_joint_translation_e", "first_joint_translation_n", "first_joint_translation_u", "second_joint_translation_e", "second_joint_translation_n",
                "second_joint_translation_u", "concentrator_translation_e", "concentrator_translation_n", "concentrator_translation_u"]
ROTATIONS = ["first_joint_tilt_n", "first_joint_tilt_u", "second_joint_tilt_e", "second_joint_tilt_n"]
KINDS = {"proto", "ideal", "linear", "mixed"}


def models(ctx):
    yield dict(module="ScenarioModel", consts=dict(NumHel=ctx.pick(2, 3), Kinds=KINDS | {"single", "unknown"} if not ctx.thorough else KINDS | {"unknown"}), spec="Spec",
               invariants=["OneGroup", "Aligned", "Counted", "Rejects"], properties=["Ends"] if not ctx.thorough else [])


def far(v):
    """Exact in single precision: multiples of 1/64."""
    return [15625 * round(x * 64) for x in v]


def maybe(rng, p, v):
    g = int(rng.random() < p)
    return {"given": g, "v": v if g else 0}


def act(rng, kind, p=.9):
    a = {"type": kind, "clockwise": rng.randint(0, 1), "lo": rng.choice([0, -rng.randint(0, 5000)]), "hi": rng.choice([80_000_000, rng.randint(1, 60_000_000)])}
    if kind != "ideal" or rng.random() < .1:
        a["par"] = [maybe(rng, p, rng.randint(100_000, 160_000_000)), maybe(rng, p, rng.randint(-400_000, 400_000)), maybe(rng, p, rng.randint(0, 400_000)),
                    maybe(rng, p, rng.randint(-1_500_000, 1_500_000)), maybe(rng, p, rng.randint(0, 200_000))]
    return a


def kin(rng, kind="rigid_body"):
    p = rng.choice([0, .5, 1, 1])
    return {"type": kind, "orientation": rng.choice([[0, -S, 0, 0], R.q(R.unit([rng.gauss(0, 1) for _ in range(3)])) + [0]]),
            "translations": [maybe(rng, p, rng.randint(-400_000, 400_000)) for _ in range(9)], "rotations": [maybe(rng, p, rng.randint(-300_000, 300_000)) for _ in range(4)]}


def surface(rng, facets, degrees, n, flat):
    out = []
    for _ in range(facets):
        c = c20.cant(rng)
        a, b = [R.norm(x) / S for x in c] if hasattr(R, "norm") else [sum(t * t for t in x) ** .5 / S for x in c]
        control = [[R.q([a * (2 * u / (n[0] - 1) - 1), b * (2 * v / (n[1] - 1) - 1), 0]) for v in range(n[1])] for u in range(n[0])]
        if not flat:
            z = rng.uniform(-.2, .2)
            for row in control:
                for q in row:
                    q[2] = R.q([z + rng.uniform(-.03, .03)])[0]
        out.append({"control": control, "cant": [x + [0] for x in c], "shift": R.q([rng.uniform(-2, 2), rng.uniform(-2, 2), rng.uniform(-.1, .1)]) + [0]})
    return {"degrees": degrees, "facets": out}


def tower(rng, np_, nc, pool):
    names = rng.sample(pool, np_ + nc)
    pl = [{"name": n, "center": far([rng.uniform(-9, 9), rng.uniform(-9, 9), rng.uniform(0, 60)]) + [S], "normal": R.q(R.unit([rng.gauss(0, 1) for _ in range(3)])) + [0],
           "size": [rng.randint(100_000, 9_000_000), rng.randint(100_000, 9_000_000)]} for n in names[:np_]]
    cy = [{"name": n, "center": far([rng.uniform(-9, 9), rng.uniform(-9, 9), rng.uniform(0, 60)]) + [S], "normal": R.q(R.unit([rng.gauss(0, 1) for _ in range(3)])) + [0],
           "axis": R.q(R.unit([rng.gauss(0, 1) for _ in range(3)])) + [0], "radius": rng.randint(100_000, 9_000_000), "height": rng.randint(100_000, 9_000_000),
           "angle": rng.randint(100_000, 6_283_000)} for n in names[np_:]]
    return pl, cy


TARGETS = ["t1", "t0", "receiver", "b", "a", "stj", "T10", "multi_focus"]


def light(rng, key):
    return {"key": key, "type": "sun", "rays": rng.randint(1, 300), "mean": rng.choice([0, rng.randint(-1000, 1000)]), "cov": rng.choice([4_368_100, rng.randint(1, 90_000_000)])}


def cases(ctx):
    rng = ctx.rng
    combos = ctx.behaviours("ScenarioModel", dict(NumHel=2, Kinds=KINDS), spec="Spec", invariants=["Export"])
    rng.shuffle(combos)
    for m in combos if ctx.thorough else combos[:120]:
        hel = []
        for k, h in enumerate(m["hel"]):
            e = {"name": f"h{2 - k}", "position": R.q([k, 20, 0]) + [S]}
            if h["surface"]:
                e["surface"] = surface(rng, 1, [1, 1], [2, 2], rng.random() < .5)
            if h["kin"]:
                e["kin"] = kin(rng)
            if h["act"]:
                e["act"] = [act(rng, a["type"]) for a in h["act"]]
            hel.append(e)
        pl, cy = tower(rng, 1, 1, TARGETS)
        yield {"kind": "load", "in": {"plant": [50_913_421, 6_387_824, 87_000_000], "planar": pl, "cyl": cy, "lights": [light(rng, "sun")], "hel": hel, "grid": [2, 2],
                                      "proto": {"surface": surface(rng, 1, [1, 1], [2, 2], True), "kin": kin(rng), "act": [act(rng, a["type"]) for a in m["proto"]]}}}
    for _ in range(ctx.pick(130, 1200)):
        facets = rng.choice([1, 1, 2, 4, 4])
        # degrees and control grid belong to a group: the actuator type decides
        degrees = {k: [rng.randint(1, 3), rng.randint(1, 3)] for k in ("ideal", "linear")}
        n = {k: [d[0] + rng.randint(1, 4), d[1] + rng.randint(1, 4)] for k, d in degrees.items()}
        t = rng.choice(["ideal", "linear"])
        change = rng.random() < .15
        flat = lambda: change or rng.random() < .4
        pool = ["m", "kappa", "h1", "h10", "h2", "zz", "AA31", "ab", "B", "q7", "00", "h-3"]
        hel = []
        for name in rng.sample(pool, rng.randint(1, 5)):
            e = {"name": name, "position": far([rng.uniform(-90, 90), rng.uniform(10, 200), rng.uniform(-1, 3)]) + [S]}
            own = rng.choice(["ideal", "linear", t])
            if own != t or rng.random() < .5:
                e["surface"] = surface(rng, facets, degrees[own], n[own], flat())
            if rng.random() < .5:
                e["kin"] = kin(rng)
            if own != t or rng.random() < .4:
                e["act"] = [act(rng, own), act(rng, own)]
            hel.append(e)
        np_, nc = rng.choice([(1, 0), (0, 1), (2, 0), (2, 1), (3, 2), (1, 3)])
        pl, cy = tower(rng, np_, nc, TARGETS)
        i = {"plant": [rng.randint(-80_000_000, 80_000_000), rng.randint(-179_000_000, 179_000_000), rng.randint(-100, 3000) * 1000], "planar": pl, "cyl": cy,
             "lights": [light(rng, k) for k in rng.sample(["sun", "sun_1", "b", "a"], rng.choice([1, 1, 1, 2, 3]))], "hel": hel, "grid": [rng.randint(1, 3), rng.randint(1, 3)],
             "proto": {"surface": surface(rng, facets, degrees[t], n[t], flat()), "kin": kin(rng), "act": [act(rng, t), act(rng, t)]}}
        if change:
            i["change"] = [max(d[k] for d in degrees.values()) + rng.randint(1, 3) for k in (0, 1)]
        if rng.random() < .3:
            spoil(rng, i)
        yield {"kind": "load", "in": i}


def spoil(rng, i):
    """Contradictory or unknown descriptions."""
    h = rng.choice(i["hel"])
    k = rng.randrange(9)
    if k == 0 and len(i["hel"]) > 1:
        i["hel"][0]["name"] = i["hel"][1]["name"]
    elif k == 1:
        both = i["planar"] + i["cyl"]
        if len(both) > 1:
            both[0]["name"] = both[-1]["name"]
    elif k == 2:
        h["kin"] = kin(rng, "soft_body")
    elif k == 3:
        h["act"] = [act(rng, "ideal"), act(rng, "linear")][::rng.choice([-1, 1])]
    elif k == 4:
        h["act"] = [act(rng, "ideal") for _ in range(rng.choice([1, 3]))]
    elif k == 5:
        h["act"] = [act(rng, "hydraulic"), act(rng, "hydraulic")]
    elif k == 6:
        i["proto"]["act"] = rng.choice([[act(rng, "ideal"), act(rng, "linear")], [act(rng, "hydraulic")] * 2, [act(rng, "linear")], [act(rng, "linear") for _ in range(3)]])
    elif k == 7:
        i["lights"][0]["type"] = "moon"
    elif k == 8:
        s = i["proto"]["surface"]
        h["surface"] = surface(rng, len(s["facets"]) + 1, s["degrees"], [len(s["facets"][0]["control"]), len(s["facets"][0]["control"][0])], True)


def facets(s):
    return [C.FacetConfig(facet_key=f"facet_{k}", control_points=R.ten(f["control"]), degrees=torch.tensor(s["degrees"]), translation_vector=R.ten(f["shift"]), canting=R.ten(f["cant"]))
            for k, f in enumerate(s["facets"], 1)]


def num(v, scale=S):
    return torch.tensor(v / scale)


def acts(q):
    out = []
    for k, a in enumerate(q, 1):
        par = None
        if "par" in a:
            names = ["increment", "offset", "pivot_radius", "initial_angle", "initial_stroke_length"]
            par = C.ActuatorParameters(**{n: num(x["v"], 1000 if n == "increment" else S) for n, x in zip(names, a["par"]) if x["given"]})
        out.append(C.ActuatorConfig(f"actuator_{k}", a["type"], bool(a["clockwise"]), [a["lo"] / 1000, a["hi"] / 1000], par))
    return out


def kinematics(k, cls):
    named = list(zip(TRANSLATIONS, k["translations"])) + list(zip(ROTATIONS, k["rotations"]))
    given = {n: num(x["v"]) for n, x in named if x["given"]}
    return cls(k["type"], R.ten(k["orientation"]), C.KinematicsDeviations(**given) if given else None)


def run_case(case):
    tmp = tempfile.mkdtemp(prefix="c18.")
    try:
        return load(case["in"], pathlib.Path(tmp) / "scenario.h5")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def write(i, path):
    planar = C.TargetAreaPlanarListConfig([C.TargetAreaPlanarConfig(p["name"], R.ten(p["center"]), R.ten(p["normal"]), p["size"][0] / S, p["size"][1] / S) for p in i["planar"]])
    cyl = C.TargetAreaCylindricalListConfig([C.TargetAreaCylindricalConfig(
        target_area_key=c["name"], radius=c["radius"] / S, center=R.ten(c["center"]), height=c["height"] / S, axis=R.ten(c["axis"]), normal=R.ten(c["normal"]),
        opening_angle=c["angle"] / S) for c in i["cyl"]])
    lights = C.LightSourceListConfig([C.LightSourceConfig(light_source_key=x["key"], light_source_type=x["type"], number_of_rays=x["rays"], distribution_type="normal",
                                                          mean=x["mean"] / S, covariance=x["cov"] / 1e12) for x in i["lights"]])
    proto = C.PrototypeConfig(C.SurfacePrototypeConfig(facets(i["proto"]["surface"])), kinematics(i["proto"]["kin"], C.KinematicsPrototypeConfig),
                              C.ActuatorPrototypeConfig(acts(i["proto"]["act"])))
    hel = C.HeliostatListConfig([C.HeliostatConfig(
        name=h["name"], heliostat_id=k, position=R.ten(h["position"]), surface=C.SurfaceConfig(facets(h["surface"])) if "surface" in h else None,
        kinematics=kinematics(h["kin"], C.KinematicsConfig) if "kin" in h else None, actuators=C.ActuatorListConfig(acts(h["act"])) if "act" in h else None)
        for k, h in enumerate(i["hel"])])
    H5ScenarioGenerator(file_path=path, power_plant_config=C.PowerPlantConfig(torch.tensor([x / S for x in i["plant"]], dtype=torch.float64)), target_area_list_planar_config=planar,
                        target_area_list_cylindrical_config=cyl, light_source_list_config=lights, heliostat_list_config=hel, prototype_config=proto).generate_scenario()


def load(i, path):
    write(i, path)
    with h5py.File(path, "r") as f:
        sc = Scenario.load_scenario_from_hdf5(f, number_of_surface_points_per_facet=torch.tensor(i["grid"]),
                                              **({"change_number_of_control_points_per_facet": torch.tensor(i["change"])} if "change" in i else {}), device=scene.CPU)
    return record(sc, Scenario.get_number_of_heliostat_groups_from_hdf5(path))


KIN = {"HeliostatGroupRigidBody": "rigid_body"}
ACT = {"LinearActuators": "linear", "IdealActuators": "ideal"}


def record(sc, count):
    groups = []
    for g in sc.heliostat_field.heliostat_groups:
        k = g.kinematics
        a = k.actuators
        rows = []
        kind = ACT.get(type(a).__name__, "?")
        for h in range(g.number_of_heliostats):
            fixed = a.non_optimizable_parameters[h]
            big = [2, 3, 4]
            rows.append({"position": fx(g.positions[h]), "orientation": fx(g.initial_orientations[h] if hasattr(g, "initial_orientations") else k.initial_orientations[h]),
                         "translations": fx(k.translation_deviation_parameters[h]), "rotations": fx(k.rotation_deviation_parameters[h]),
                         "fixed": [[fx(fixed[r, c], 1 if r < 2 else 1000 if r in big else S) for r in range(fixed.shape[0])] for c in range(2)],
                         "learnable": [fx(a.optimizable_parameters[h][:, c]) for c in range(2)] if kind == "linear" else [[], []],
                         "cant": fx(g.canting[h]), "shift": fx(g.facet_translations[h]), "control": fx(g.nurbs_control_points[h]),
                         "points": [p[:3] for p in fx(g.surface_points[h])], "normals": [p[:3] for p in fx(g.surface_normals[h])]})
        groups.append({"kin": KIN.get(type(g).__name__, "?"), "act": kind, "names": list(g.names), "rows": rows, "degrees": ints(g.nurbs_degrees)})
    p, c = sc.solar_tower.target_areas
    lights = []
    for s in sc.light_sources.light_source_list:
        lights.append({"rays": int(s.number_of_rays), "mean": fx(s.distribution.loc.flatten()[0]), "cov": fx(s.distribution.covariance_matrix[0, 0], 1e12)})
    return {"groups": groups, "count": int(count), "number": int(sc.heliostat_field.number_of_heliostat_groups), "sizes": ints(sc.heliostat_field.number_of_heliostats_per_group),
            "plant": fx(sc.power_plant_position),
            "planar": [{"name": n, "center": fx(p.centers[k]), "normal": fx(p.normals[k]), "size": fx(p.dimensions[k])} for k, n in enumerate(p.names)],
            "cyl": [{"name": n, "center": fx(c.centers[k]), "normal": fx(c.normals[k]), "axis": fx(c.axes[k]), "radius": fx(c.radii[k]), "height": fx(c.heights[k]),
                     "angle": fx(c.opening_angles[k])} for k, n in enumerate(c.names)],
            "index": {k: int(v) for k, v in sc.solar_tower.target_name_to_index.items()}, "lights": lights}
