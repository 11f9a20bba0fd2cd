"""C12: splitting calibration samples into training and test samples."""

import torch
from artist.optim.training import train_test_split

from . import scene
from .core import Raw, ints

TRACE = "SplitTrace"
ASSUMPTIONS = ["every selected heliostat has the same number of samples, as the reconstructors document",
               "test fractions are dyadic so that their product with the sample count is exact"]


def models(ctx):
    return []


def cases(ctx):
    rng = ctx.rng
    out = []
    for num, den in [(1, 4), (1, 2), (1, 8)]:
        got = ctx.behaviours("SplitModel", {"MaxH": ctx.pick(3, 5), "MaxPer": ctx.pick(9, 12), "Fractions": Raw(f"{{<<{num}, {den}>>}}")},
                             spec="Spec", invariants=["Correct", "Partition", "Useful", "Export"], properties=["Ends"])
        out += got
    for _ in range(ctx.pick(150, 1500)):
        n, per = rng.randint(1, 12), rng.randint(1, 24)
        mask = [per * rng.choice([0, 1, 1]) for _ in range(n)]
        if not any(mask):
            mask[rng.randrange(n)] = per
        num, den = rng.choice([(1, 4), (1, 4), (1, 2), (1, 8), (3, 4), (5, 16)])
        out.append({"mask": mask, "num": num, "den": den})
    for c in out:
        yield {"kind": "split", "in": {**c, "default": int((c["num"], c["den"]) == (1, 4) and rng.random() < .7)}}


def run_case(case):
    i = case["in"]
    n = sum(i["mask"])
    ids = torch.arange(n)
    mask = torch.tensor(i["mask"], dtype=torch.int32)
    data = {"flux": (ids[:, None, None] + 0.25 * torch.rand(n, 2, 3)).float(), "focal": ids[:, None].float() + 0.25 * torch.rand(n, 4),
            "incident": ids[:, None].float() + 0.25 * torch.rand(n, 4), "motor": ids[:, None].float() + 0.25 * torch.rand(n, 2),
            "target": ids.clone()}
    keep = {k: v.clone() for k, v in data.items()}
    keep["mask"] = mask.clone()
    kw = {} if i["default"] else {"test_fraction": i["num"] / i["den"]}
    r = train_test_split(active_heliostats_mask=mask, flux_measured=data["flux"], focal_spots_measured=data["focal"],
                         incident_ray_directions=data["incident"], motor_positions=data["motor"], target_area_indices=data["target"],
                         device=scene.CPU, **kw)
    names = {"flux": "flux_measured", "focal": "focal_spots_measured", "incident": "incident_ray_directions", "motor": "motor_positions",
             "target": "target_area_indices"}
    whole, got = 1, {"train": {}, "test": {}}
    for side in got:
        for k, f in names.items():
            v = getattr(r, f"{f}_{side}")
            rows = [int(x) for x in v.reshape(v.shape[0], -1)[:, 0].floor()] if v.numel() else []
            got[side][k] = rows
            if not torch.equal(v, keep[k][rows]):
                whole = 0
    same = all(torch.equal(keep[k], data[k]) for k in data) and torch.equal(keep["mask"], mask)
    return {"train": ints(r.train_indices), "test": ints(r.test_indices), "data_train": got["train"], "data_test": got["test"],
            "whole": whole, "mask_train": ints(r.active_heliostats_mask_train), "mask_test": ints(r.active_heliostats_mask_test),
            "n_train": r.number_of_train_samples, "n_test": r.number_of_test_samples, "n": r.number_of_samples_per_heliostat,
            "unchanged": int(same)}
