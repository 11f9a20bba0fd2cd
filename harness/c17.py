"""C17: calibration files reach the right heliostats and targets."""

import json
import os
import pathlib
import shutil
import tempfile

import math
import numpy as np
import torch
from artist.io import paint_scenario_parser
from artist.io.paint_calibration_parser import PaintCalibrationDataParser
from PIL import Image

from . import scene
from .core import Raw, fx, ints

TRACE = "CalibrationTrace"
TRACE_CONSTS = {"S": 1_000_000}
EXPECTED_ERRORS = ("KeyError", "ValueError")
ASSUMPTIONS = ["an entry lists as many images as property files", "images of another resolution than requested are compared in their corners",
               "at least one measurement per heliostat is requested when collecting files"]
MODEL = dict(Group=["ha", "hb"], Foreign={"xx"}, MaxFiles=2)
LIMITS = Raw("{-1, 0, 1, 2, 3}")
LAT, LON, ALT = 50.913421, 6.387824, 88.0


def models(ctx):
    yield dict(module="CalibrationModel", consts={**MODEL, "MaxLen": ctx.pick(2, 3), "Limits": LIMITS}, spec="Spec",
               invariants=["Agrees", "Limited", "Counted", "Own"], properties=["Ends"] if not ctx.thorough else [])


def cases(ctx):
    rng = ctx.rng
    for m in ctx.behaviours("CalibrationModel", {**MODEL, "MaxLen": ctx.pick(2, 3), "Limits": LIMITS}, spec="Spec", invariants=["Agrees", "Export"]):
        number = {}
        entries = [{"h": e["h"], "files": [number.setdefault(f, len(number) + 1) for f in e["files"]]} for e in m["entries"]]
        res = [2, 1]
        yield {"kind": "parse", "in": {"names": MODEL["Group"], "entries": entries, "limit": m["limit"], "targets": ["beta", "alpha"], "method": 1, "res": res,
                                       "lat": round(LAT * 1e6), "files": [a_file(rng, 2, res, 0) for _ in number]}}
    pool = ["m", "kappa", "h1", "h10", "h2", "zz", "AA31", "ab", "B", "q7", "00", "h-3"]
    for _ in range(ctx.pick(200, 2000)):
        names = rng.sample(pool, rng.randint(1, 6))
        others = [x for x in pool if x not in names][:3] + ["nobody"]
        targets = rng.sample(["t1", "t0", "receiver", "b", "a", "stj"], rng.randint(1, 5))
        res = [rng.randint(1, 9), rng.randint(1, 9)]
        heads = [rng.choice(names + names + others) for _ in range(rng.randint(0, 8))]
        if rng.random() < .6:
            heads = list(dict.fromkeys(heads))
        entries, total = [], 0
        for h in heads:
            k = rng.choice([0, 1, 1, 2, 3, 4])
            entries.append({"h": h, "files": list(range(total + 1, total + k + 1))})
            total += k
        if total and rng.random() < .2:  # one file more than once
            entries[0]["files"].append(rng.randint(1, total))
        unknown = .1 if rng.random() < .1 else 0
        yield {"kind": "parse", "in": {"names": names, "entries": entries, "limit": rng.choice([-1, -1, 0, 1, 2, 3, 4, 9]), "targets": targets, "method": rng.randint(1, 2),
                                       "res": res, "lat": round(LAT * 1e6), "files": [a_file(rng, len(targets), res, unknown) for _ in range(total)]}}
    for _ in range(ctx.pick(60, 500)):
        hs = []
        for _ in range(rng.randint(1, 4)):
            have = rng.random() < .9
            ids = rng.sample(range(10000, 99999), rng.choice([0, 1, 3, 6, 9])) if have else []
            hs.append({"dir": int(have), "files": [{"id": x, "image": int(rng.random() < .75)} for x in ids]})
        yield {"kind": "collect", "in": {"heliostats": hs, "count": rng.randint(1, 6), "shuffle": int(rng.random() < .6), "seed": rng.choice([42, rng.randint(0, 99)]),
                                         "variant": rng.choice(["flux", "flux-centered", "cropped", "raw"]), "orders": [rng.randint(0, 10**6) for _ in range(3)]}}


def a_file(rng, targets, res, unknown):
    if rng.random() < .6:
        grey = [[rng.randint(0, 255) for _ in range(res[0])] for _ in range(res[1])]
    else:
        k = rng.choice([6, 10])
        c = [[rng.randint(0, 255) for _ in range(2)] for _ in range(2)]
        grey = [[c[2 * a // k][2 * b // k] for b in range(2 * (k // 2))] for a in range(k)]
        if res[0] < 3 or res[1] < 3:
            grey = [[c[0][0]] * k for _ in range(k)]
    return {"target": -1 if rng.random() < unknown else rng.randrange(targets), "az": rng.randint(-180_000_000, 180_000_000), "el": rng.randint(0, 90_000_000),
            "spots": [[rng.randint(-60_000, 60_000), rng.randint(-60_000, 60_000), rng.randint(-80_000, 150_000)] for _ in range(2)],
            "motors": [rng.randint(0, 80_000), rng.randint(0, 80_000)], "grey": grey}


def run_case(case):
    tmp = tempfile.mkdtemp(prefix="c17.")
    try:
        return (collect if case["kind"] == "collect" else parse)(case["in"], pathlib.Path(tmp))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def parse(i, tmp):
    for k, f in enumerate(i["files"], 1):
        spots = [[LAT + math.degrees(a * 1e-9), LON + math.degrees(b * 1e-9), ALT + c / 1e3] for a, b, c in f["spots"]]
        (tmp / f"{k}-calibration-properties.json").write_text(json.dumps({
            "motor_position": {"axis_1_motor_position": f["motors"][0], "axis_2_motor_position": f["motors"][1]},
            "target_name": i["targets"][f["target"]] if f["target"] >= 0 else "elsewhere", "sun_azimuth": f["az"] / 1e6, "sun_elevation": f["el"] / 1e6,
            "focal_spot": {"UTIS": spots[0], "HeliOS": spots[1]}}))
        Image.fromarray(np.array(f["grey"], dtype=np.uint8), mode="L").save(tmp / f"{k}-flux.png")
    tw = scene.tower([(n, [j, 0, 5], [0, -1, 0], (1, 1)) for j, n in enumerate(i["targets"])])
    g = scene.group(i["names"], [[3 * k, 10, 0] for k in range(len(i["names"]))])
    sc = scene.scenario([g], tw)
    sc.power_plant_position = torch.tensor([LAT, LON, ALT], dtype=torch.float64)
    p = PaintCalibrationDataParser(sample_limit=None if i["limit"] < 0 else i["limit"], centroid_extraction_method=["UTIS", "HeliOS"][i["method"] - 1])
    mapping = [(e["h"], [tmp / f"{f}-calibration-properties.json" for f in e["files"]], [tmp / f"{f}-flux.png" for f in e["files"]]) for e in i["entries"]]
    flux, spots, inc, motors, mask, targets = p.parse_data_for_reconstruction(
        heliostat_data_mapping=mapping, heliostat_group=g, scenario=sc, bitmap_resolution=torch.tensor(i["res"]), device=scene.CPU)
    return {"flux": fx(flux, 255), "spots": fx(spots), "incident": fx(inc), "motors": fx(motors, 1), "mask": ints(mask), "targets": ints(targets)}


class Shuffled:
    """The file system lists directories in an order of its own."""

    def __init__(self, seed):
        self.seed = seed

    def __enter__(self):
        import glob
        import random
        self.old = [(pathlib.Path, "glob", pathlib.Path.glob), (pathlib.Path, "iterdir", pathlib.Path.iterdir), (pathlib.Path, "rglob", pathlib.Path.rglob),
                    (os, "listdir", os.listdir), (glob, "glob", glob.glob)]
        for owner, name, f in self.old:
            def wrapped(*a, _f=f, _name=name, **k):
                r = sorted(_f(*a, **k))
                random.Random(self.seed).shuffle(r)
                return r if _name in ("listdir",) else iter(r) if owner is pathlib.Path else r
            setattr(owner, name, wrapped)

    def __exit__(self, *a):
        for owner, name, f in self.old:
            setattr(owner, name, f)


def collect(i, tmp):
    names = [f"A{chr(65 + k)}{10 + k}" for k in range(len(i["heliostats"]))]
    for n, h in zip(names, i["heliostats"]):
        d = tmp / n / "Calibration"
        if h["dir"]:
            d.mkdir(parents=True)
        for f in h["files"]:
            (d / f"{f['id']}-calibration-properties.json").write_text("{}")
            for v in ("flux", "flux-centered", "cropped", "raw"):
                if v != i["variant"] or f["image"]:
                    (d / f"{f['id']}-{v}.png").write_text("")
    runs = []
    for seed in i["orders"]:
        with Shuffled(seed):
            r = paint_scenario_parser.build_heliostat_data_mapping(
                base_path=str(tmp), heliostat_names=names, number_of_measurements=i["count"], image_variant=i["variant"], randomize=bool(i["shuffle"]), seed=i["seed"])

        def ident(paths, suffix, n):
            d = tmp / n / "Calibration"
            return [int(p.name[:5]) if pathlib.Path(p) == d / (p.name[:5] + suffix) and p.exists() else -1 for p in map(pathlib.Path, paths)]
        runs.append([{"h": names.index(n) + 1, "props": ident(a, "-calibration-properties.json", n), "images": ident(b, f"-{i['variant']}.png", n)} for n, a, b in r])
    return {"runs": runs}
