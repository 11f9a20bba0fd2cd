"""C22: centre of mass, trapezoid profiles and crops of flux bitmaps."""

import itertools

import torch
from artist.flux import bitmap

from . import rays as R
from . import scene
from .core import fx

TRACE = "BitmapTrace"
S = 1_000_000
P = 1000
TRACE_CONSTS = {"S": S}
ASSUMPTIONS = ["bitmaps are at least two pixels wide and high when they are cropped", "a bitmap's intensities add up to much more than 1e-8"]


def models(ctx):
    yield dict(module="BitmapModel", consts=dict(S=S, Sides={1, 2, 3} if ctx.thorough else {1, 2}, Values={0, 1, 3} if not ctx.thorough else {0, 1}, MaxWidth=ctx.pick(9, 14)), spec="Spec",
               invariants=["Inside", "ScaleFree", "Shifts", "Mirrors", "CropCentred", "CropSmall", "Symmetric", "Bounded", "Linear"])


def blob(rng, h, w):
    """Pixels in units of 1/1000."""
    kind = rng.random()
    b = [[0] * w for _ in range(h)]
    if kind < .1:
        return b
    if kind < .45:
        r0, c0, s = rng.uniform(0, h - 1), rng.uniform(0, w - 1), rng.uniform(.3, 2)
        return [[int(20000 * max(0, 1 - ((r - r0) ** 2 + (c - c0) ** 2) / (4 * s * s))) for c in range(w)] for r in range(h)]
    if kind < .65:
        for _ in range(rng.randint(1, 3)):
            b[rng.randrange(h)][rng.randrange(w)] = rng.randint(1, 40) * 1000
        return b
    if kind < .8 and h > 4 and w > 4:
        for r in range(h // 2 - 1, h // 2 + 1):
            for c in range(w // 2 - 1, w // 2 + 1):
                b[r][c] = rng.randint(0, 9000)
        b[h // 2][w // 2] = 5000
        return b
    return [[rng.randint(0, 10000) for _ in range(w)] for _ in range(h)]


def cases(ctx):
    rng = ctx.rng
    for h, w, vals in ((2, 2, (0, 1, 3)), (1, 3, (0, 2, 5)), (3, 2, (0, 1)), (1, 1, (0, 4))):
        bs = [[[v * P for v in flat[r * w:(r + 1) * w]] for r in range(h)] for flat in itertools.product(vals, repeat=h * w)]
        for k in range(0, len(bs), 27):
            yield {"kind": "centre", "in": {"bitmaps": bs[k:k + 27], "dx": rng.randint(0, 2), "dy": rng.randint(0, 2), "scale": rng.choice([3, 1000])}}
    for _ in range(ctx.pick(120, 1500)):
        h, w = rng.randint(1, 9), rng.randint(1, 9)
        yield {"kind": "centre", "in": {"bitmaps": [blob(rng, h, w) for _ in range(rng.randint(1, 4))], "dx": rng.randint(0, 3), "dy": rng.randint(0, 3),
                                        "scale": rng.choice([2, 17, 10000])}}
    grid = list(itertools.product(range(1, ctx.pick(13, 22)), range(0, ctx.pick(6, 10)), range(0, ctx.pick(12, 20))))
    grid += [(rng.randint(10, 60), rng.randint(0, 40), rng.randint(0, 60)) for _ in range(ctx.pick(50, 500))]
    for k in range(0, len(grid), 60):
        yield {"kind": "trapezoid", "in": {"widths": [list(x) for x in grid[k:k + 60]]}}
    for _ in range(ctx.pick(220, 2500)):
        targets = [R.planar_target(rng) for _ in range(rng.randint(0, 2))] + [R.cylinder_target(rng) for _ in range(rng.randint(0, 2))]
        targets = targets or [R.planar_target(rng)]
        h, w = rng.randint(2, 9), rng.randint(2, 9)
        n = rng.randint(1, 4)
        idx = [rng.randrange(len(targets)) for _ in range(n)]
        cw, ch = R.q(rng.uniform(.3, 7)), R.q(rng.uniform(.3, 7))
        if rng.random() < .3:
            idx = [rng.choice([k for k, t in enumerate(targets) if t["kind"] == "p"] or [0])] * n
            t = targets[idx[0]]
            if t["kind"] == "p":
                cw, ch = t["w"], t["h"]
        yield {"kind": "crop", "in": {"targets": targets, "idx": idx, "w": cw, "h": ch, "bitmaps": [blob(rng, h, w) for _ in range(n)]}}


def tens(bs):
    return torch.tensor(bs, dtype=torch.float64).div(P).float()


def run_case(case):
    i = case["in"]
    com = lambda x: fx(bitmap.get_center_of_mass(bitmaps=x, device=scene.CPU), S)
    if case["kind"] == "trapezoid":
        return {"profiles": [fx(bitmap.trapezoid_distribution(total_width=t, slope_width=s, plateau_width=p, device=scene.CPU), S) for t, s, p in i["widths"]]}
    b = tens(i["bitmaps"])
    if case["kind"] == "centre":
        n, h, w = b.shape
        moved = torch.zeros(n, h + i["dy"] + 1, w + i["dx"] + 1)
        moved[:, i["dy"]:i["dy"] + h, i["dx"]:i["dx"] + w] = b
        return {"centre": com(b), "alone": [com(b[k:k + 1])[0] for k in range(n)], "scaled": com(b * i["scale"]), "moved": com(moved)}
    out = bitmap.crop_flux_distributions_around_center(flux_distributions=b, solar_tower=R.build_tower(i["targets"]), target_area_indices=torch.tensor(i["idx"]),
                                                       crop_width=i["w"] / S, crop_height=i["h"] / S, device=scene.CPU)
    return {"crops": fx(out, P)}
