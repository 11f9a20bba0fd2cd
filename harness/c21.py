"""C21: losses and regularizers."""

import functools

import torch
from artist.optim import loss as losses
from artist.optim import regularizers

from . import rays as R
from . import scene
from .c22 import blob
from .core import fx

TRACE = "LossTrace"
S = 1_000_000
P = 1000
TRACE_CONSTS = {"S": S, "P": P}
ASSUMPTIONS = ["relative pixel errors and divergences are defined for truths (and predictions) that are not empty",
               "angles below about 1e-3 are beyond the resolution of the loss in 32-bit floats"]


def models(ctx):
    yield dict(module="LossModel", consts=dict(S=S, Values={0, 1, 2, 5} if ctx.thorough else {0, 1, 4}, Size=3), spec="Spec",
               invariants=["Gibbs", "ScaleFree", "Squares", "Pixels", "Angles", "Smooth", "Deviates", "PerSample"])


def near(rng, b):
    f = rng.choice([0, 1, 50, 3000])
    return [[max(0, int(x + rng.uniform(-f, f) * (x > 0))) for x in row] for row in b]


def nested(rng, shape, lim):
    return rng.randint(-lim, lim) if not shape else [nested(rng, shape[1:], lim) for _ in range(shape[0])]


def cases(ctx):
    rng = ctx.rng
    for _ in range(ctx.pick(70, 700)):
        n = rng.randint(1, 5)
        shape = rng.choice([(1,), (2,), (4,), (3, 2), (2, 2, 2)])
        lim = rng.choice([50, 900, 5000])
        truth = nested(rng, (n, *shape), lim)
        pred = nested(rng, (n, *shape), lim)
        if rng.random() < .3:
            pred[0] = truth[0]
        yield {"kind": "vector", "in": {"depth": 1 + len(shape), "pred": pred, "truth": truth}}
    for kind in ("pixel", "divergence", "spot"):
        for _ in range(ctx.pick(110, 1200)):
            n, h, w = rng.randint(1, 4), rng.randint(1, 7), rng.randint(1, 7)
            truth = [blob(rng, h, w) for _ in range(n)]
            pred = [near(rng, b) if rng.random() < .5 else blob(rng, h, w) for b in truth]
            if kind == "pixel" and any(0 < sum(map(sum, b)) < 2 * sum((x - y) ** 2 for r, q in zip(a, b) for x, y in zip(r, q)) / P / 900 for a, b in zip(pred, truth)):
                continue
            i = {"depth": 3, "pred": pred, "truth": truth}
            if kind == "spot":
                i["targets"] = [R.planar_target(rng) for _ in range(rng.randint(0, 2))] + [R.cylinder_target(rng) for _ in range(rng.randint(0, 2))]
                i["targets"] = i["targets"] or [R.cylinder_target(rng)]
                i["idx"] = [rng.randrange(len(i["targets"])) for _ in range(n)]
            yield {"kind": kind, "in": i}
    for kind in ("angle", "cosine"):
        for _ in range(ctx.pick(60, 600)):
            n = rng.randint(1, 5)
            vec = lambda: [int(P * rng.choice([1, 3]) * x) for x in R.unit([rng.gauss(0, 1) for _ in range(3)])] + [0]
            truth = [vec() for _ in range(n)]
            pred = []
            for t in truth:
                m = rng.random()
                pred.append(vec() if m < .5 else [-x for x in t] if m < .6 else [2 * x for x in t] if m < .8 else [x + rng.randint(-30, 30) for x in t[:3]] + [0])
            yield {"kind": kind, "in": {"depth": 2, "pred": pred, "truth": truth}}
    for _ in range(ctx.pick(80, 800)):
        per = rng.randint(1, 5)
        n = per * rng.randint(0 if rng.random() < .1 else 1, 4) + rng.choice([0, 0, rng.randint(0, per - 1)])
        yield {"kind": "reduce", "in": {"loss": [rng.randint(0, 100 * S) if rng.random() < .8 else 7 for _ in range(max(n, 1))], "per": per,
                                        "how": rng.choice(["mean", "median", "sum", "max", "min"])}}
    for _ in range(ctx.pick(100, 1000)):
        n, f, u, v = rng.randint(1, 3), rng.randint(1, 4), rng.randint(2, 5), rng.randint(2, 5)
        lim = rng.choice([5, 100, 500])
        before = nested(rng, (n, f, u, v, 3), lim)
        now = nested(rng, (n, f, u, v, 3), lim)
        if rng.random() < .3:  # one control point only
            now = [[[[list(p) for p in row] for row in fa] for fa in h] for h in before]
            now[rng.randrange(n)][rng.randrange(f)][rng.randrange(u)][rng.randrange(v)][2] += rng.randint(1, 900)
        yield {"kind": "regularizer", "in": {"which": rng.choice(["smooth", "ideal"]), "now": now, "before": before}}


def run_case(case):
    i = case["in"]
    t = lambda x: torch.tensor(x, dtype=torch.float64).div(P).float()
    if case["kind"] == "reduce":
        f = {"mean": torch.mean, "median": torch.median, "sum": torch.sum, "max": torch.max, "min": torch.min}[i["how"]]
        x = torch.tensor(i["loss"], dtype=torch.float64).div(S)
        return {"reduced": fx(losses.reduce_loss_per_sample(loss_per_sample=x, number_of_samples_per_heliostat=i["per"], reduction=functools.partial(f, dim=1)), S)}
    if case["kind"] == "regularizer":
        r = (regularizers.SmoothnessRegularizer if i["which"] == "smooth" else regularizers.IdealSurfaceRegularizer)(reduction_dimensions=(1,))
        now, before = t(i["now"]).double(), t(i["before"]).double()
        f = lambda a, b: fx(r(current_control_points=a, original_control_points=b, device=scene.CPU), S)
        return {"value": f(now, before), "same": f(before, before.clone()), "doubled": f(before + 2 * (now - before), before), "shifted": f(now + .25, before)}
    pred, truth = t(i["pred"]), t(i["truth"])
    n = len(truth)
    kw = {}
    if case["kind"] == "vector":
        f, kw = losses.VectorLoss(), {"reduction_dimensions": tuple(range(1, truth.dim()))}
    elif case["kind"] == "pixel":
        f, kw = losses.PixelLoss(), {"reduction_dimensions": (1, 2)}
    elif case["kind"] == "divergence":
        f, kw = losses.KLDivergenceLoss(), {"reduction_dimensions": (1, 2)}
    elif case["kind"] == "angle":
        f = losses.AngleLoss()
    elif case["kind"] == "cosine":
        f = losses.CosineSimilarityLoss()
    else:
        f, kw = losses.FocalSpotLoss(scenario=scene.scenario([], R.build_tower(i["targets"]))), {"device": scene.CPU}
    idx = lambda k: {"target_area_indices": torch.tensor(i["idx"][k])} if case["kind"] == "spot" else {}
    call = lambda a, b, k: fx(torch.nan_to_num(f(prediction=a, ground_truth=b, **kw, **idx(k)), nan=-77.0, posinf=999.0, neginf=-999.0), S)
    out = {"loss": call(pred, truth, slice(0, n)), "alone": [call(pred[k:k + 1], truth[k:k + 1], slice(k, k + 1))[0] for k in range(n)],
           "perfect": call(truth, truth.clone(), slice(0, n)), "rejected": 0}
    if case["kind"] == "divergence":
        out["scaled"] = call(pred * 37.5, truth * 210.0, slice(0, n))
    try:
        f(prediction=pred, ground_truth=truth)
    except ValueError:
        out["rejected"] = 1
    return out
