"""C10: motor positions and joint angles."""

import math

import torch

from . import scene
from .core import fx

TRACE = "ActuatorTrace"
S = 10_000_000
M = 100
TRACE_CONSTS = {"S": S}
ASSUMPTIONS = ["angles are compared with the resolution 32-bit floats have at that point of the triangle; close to its degenerate "
               "positions only saturation and monotonicity are required"]


def models(ctx):
    yield dict(module="ActuatorModel", consts={"S": S, "N": ctx.pick(10, 60)}, spec="Spec", invariants=["Monotonic", "Inverse", "Mirrored", "AtZero"])


def actuator(rng):
    while True:
        o, r = rng.choice([(.34, .338), (.4, .41), (rng.uniform(.15, .7), rng.uniform(.15, .7))])
        lo, hi = abs(o - r), o + r
        s = rng.uniform(lo + .012, hi - .012)
        if rng.random() < .4 and lo < .09:
            s = .0763
        if lo + .012 < s < hi - .012:
            break
    return {"kind": 0, "cw": rng.randint(0, 1), "inc": int(M * rng.choice([154166.666, rng.uniform(40000, 300000)])), "off": int(o * S), "rad": int(r * S),
            "a0": int(rng.choice([0, .005843, .939954, rng.uniform(-1.5, 1.5)]) * S), "s0": int(s * S)}


def motor(rng, p):
    """Mostly inside of the mechanical range."""
    lo, hi = abs(p["off"] - p["rad"]) / S, (p["off"] + p["rad"]) / S
    s = rng.choice([rng.uniform(lo, hi), rng.uniform(lo, hi), rng.uniform(lo + .03, hi - .03) if hi - lo > .1 else hi, lo, hi, lo - rng.uniform(0, .3), hi + rng.uniform(0, .3)])
    m = int((s - p["s0"] / S) * p["inc"])
    return max(-9_000_000, min(9_000_000, rng.choice([m, m, m, 0])))


def cases(ctx):
    rng = ctx.rng
    for _ in range(ctx.pick(160, 1500)):
        n = rng.randint(1, 3)
        par = [[actuator(rng) for _ in range(2)] for _ in range(n)]
        rows = [h + 1 for h in range(n) for _ in range(rng.choice([1, 1, 2, 0]))] or [1]
        rows = [h for h in rows]
        mot = [[[motor(rng, par[h - 1][j]) for j in range(2)] for h in rows] for _ in range(rng.randint(4, 8))]
        ang = [[[par[h - 1][j]["a0"] + int(rng.choice([rng.uniform(-1, 1), rng.uniform(-4, 4)]) * S) for j in range(2)] for h in rows] for _ in mot]
        yield {"kind": "linear", "in": {"par": par, "rows": rows, "motor": mot, "angle": ang}}
    for _ in range(ctx.pick(10, 50)):
        n = rng.randint(1, 3)
        v = lambda: [[[78125 * rng.randint(-384, 384) for _ in range(2)] for _ in range(n)] for _ in range(3)]
        yield {"kind": "ideal", "in": {"par": [], "rows": list(range(1, n + 1)), "motor": v(), "angle": v()}}


def run_case(case):
    i = case["in"]
    n = max(i["rows"]) if not i["par"] else len(i["par"])
    lin = case["kind"] == "linear"
    grp = scene.group([f"h{k}" for k in range(n)], [[2.0 * k, -8.0, 0.0] for k in range(n)], kind="linear" if lin else "ideal")
    a = grp.kinematics.actuators
    d = torch.float64
    if lin:
        for h, pair in enumerate(i["par"]):
            for j, p in enumerate(pair):
                a.non_optimizable_parameters[h, :, j] = torch.tensor([0, p["cw"], 0, 60000, p["inc"] / M, p["off"] / S, p["rad"] / S], dtype=d)
                with torch.no_grad():
                    a.optimizable_parameters[h, :, j] = torch.tensor([p["a0"] / S, p["s0"] / S], dtype=d)
    mask = torch.tensor([i["rows"].count(h + 1) for h in range(n)], dtype=torch.int32)
    grp.activate_heliostats(active_heliostats_mask=mask, device=scene.CPU)
    scale = M if lin else S
    out = {"angle": [], "back": [], "motor": []}
    for mot, ang in zip(i["motor"], i["angle"]):
        t = torch.tensor(mot, dtype=d).div(scale).float()
        x = a.motor_positions_to_angles(t, device=scene.CPU)
        out["angle"].append(fx(x, S))
        out["back"].append(fx(a.angles_to_motor_positions(x, device=scene.CPU), scale))
        out["motor"].append(fx(a.angles_to_motor_positions(torch.tensor(ang, dtype=d).div(S).float(), device=scene.CPU), scale))
    return out
