"""C09: alignment of heliostats by sun and aim point, and by motor positions."""

import math

import numpy as np
import torch

from . import rays as R
from . import scene
from .core import Raw, fx

TRACE = "KinematicsTrace"
S = 1_000_000
M = 100
TRACE_CONSTS = {"S": S}
ASSUMPTIONS = ["aim points at least 15 m away, joints at least 0.15 rad off the gimbal position, linear actuators away from their degenerate positions",
               "every aim point is generated from joint angles inside of the motor limits, which proves it to be within reach"]


def models(ctx):
    sets = (("{0, 60, -20}", "{-400, 100, 900}", "{-1100, 0, 300, 2800}") if not ctx.thorough else
            ("{0, 60, -20}", "{-1200, -400, 100, 900, 1400}", "{-3000, -1100, 0, 300, 1200, 1900, 2800}"))
    yield dict(module="KinematicsModel", consts=dict(S=S, Tilts=Raw(sets[0]), Angles1=Raw(sets[1]), Angles2=Raw(sets[2])),
               spec="Spec", invariants=["Rigid", "Reaches", "Found"])


def rot(axis, a):
    c, s = math.cos(a), math.sin(a)
    return np.array({"e": [[1, 0, 0], [0, c, -s], [0, s, c]], "n": [[c, 0, -s], [0, 1, 0], [s, 0, c]], "u": [[c, -s, 0], [s, c, 0], [0, 0, 1]]}[axis])


def joints(k, a1, a2):
    """Independent forward kinematics of the generator: centre and normal."""
    tr, r = np.array(k["tr"]) / S, [x / S for x in k["rot"]]
    f = rot("n", r[0]) @ rot("u", r[1])
    g = rot("e", r[2]) @ rot("n", r[3])
    m1 = f @ rot("e", a1)
    m2 = m1 @ g @ rot("u", a2)
    c = np.array(k["pos"]) / S + f @ tr[:3] + m1 @ g @ tr[3:6] + m2 @ tr[6:]
    return c, m2 @ np.array([0, -1.0, 0])


def absolute(p, m):
    o, r = p["off"] / S, p["rad"] / S
    soft = lambda x: x + math.log1p(math.exp(-100 * x)) / 100 + 1e-6
    s = m / p["inc"] + soft(p["s0"] / S)
    return math.acos(max(-1, min(1, (o * o + r * r - s * s) / (2 * o * r))))


def angle(p, m):
    if p["kind"] == 1:
        return m / S
    d = absolute(p, 0) - absolute(p, m)
    return p["a0"] / S + (d if p["cw"] else -d)


def actuator(rng, linear, j):
    if not linear:
        return {"kind": 1, "cw": 0, "inc": 1, "off": 0, "rad": 0, "a0": 0, "s0": 0}
    o, r = (.34, .338) if rng.random() < .5 else (rng.uniform(.25, .5), rng.uniform(.25, .5))
    s = rng.uniform(abs(o - r) + .04, .75 * (o + r))
    return {"kind": 0, "cw": rng.randint(0, 1), "inc": int(M * rng.uniform(80000, 200000)), "off": int(o * S), "rad": int(r * S),
            "a0": int(rng.uniform(-.5, 1.0) * S), "s0": int(s * S)}


def helio(rng, linear):
    big = rng.random() < .5
    t = .3 if big else .02
    a = .08 if big else .005
    if rng.random() < .15:
        t = a = 0
    k = {"pos": R.q([rng.uniform(-100, 100), rng.uniform(-100, 100), rng.uniform(-3, 10)]), "tr": R.q([rng.uniform(-t, t) for _ in range(9)]),
         "rot": R.q([rng.uniform(-a, a) for _ in range(4)]), "act": [actuator(rng, linear, j) for j in range(2)]}
    k["points"] = R.q([[rng.uniform(-2, 2), rng.uniform(-2, 2), rng.uniform(-.05, .05)] for _ in range(4)])
    k["normals"] = R.q([R.unit([rng.uniform(-.1, .1), rng.uniform(-.1, .1), 1]) for _ in range(4)])
    return k


def place(rng, k):
    """Motor positions well inside of the actuators' and the kinematics' range, or None."""
    for _ in range(60):
        mot = []
        for p in k["act"]:
            if p["kind"] == 1:
                mot.append(int(rng.uniform(-3, 3) * S))
            else:
                lo, hi = abs(p["off"] - p["rad"]) / S, (p["off"] + p["rad"]) / S
                mot.append(int((rng.uniform(lo + .1 * hi, .9 * hi) - p["s0"] / S) * p["inc"]))
        if k["act"][0]["kind"] == 0 and any(not .4 < absolute(p, m) < 2.7 or not .25 < absolute(p, 0) < 2.9 for p, m in zip(k["act"], mot)):
            continue
        r = k["rot"]
        g = rot("e", r[2] / S) @ rot("n", r[3] / S)
        phi = math.atan2(-g[0][1], g[0][0])
        b = angle(k["act"][1], mot[1]) + phi
        if abs(math.cos(b)) < .15 or any(abs(angle(p, m)) > 3.1 for p, m in zip(k["act"], mot)):
            continue
        return mot
    return None


def cases(ctx):
    rng = ctx.rng
    for c in range(ctx.pick(240, 2500)):
        linear = rng.random() < .5
        n = rng.randint(1, 3)
        hs = []
        while len(hs) < n:
            k = helio(rng, linear)
            m = place(rng, k)
            if m is None:
                continue
            k["lim"] = []
            wide = rng.random() < .4
            for p, x in zip(k["act"], m):
                w = (8 * S if wide else int(rng.uniform(.2, .6) * S)) if not linear else int((1.0 if wide else rng.uniform(.04, .1)) * p["inc"])
                k["lim"].append([max(-900_000_000, x - w), min(900_000_000, x + w)])
            hs.append((k, m))
        rows = [h + 1 for h in range(n) for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < .2:
            rows = [h for h in rows if h != 1] or rows
        if c % 4 == 0:
            mot = [place(rng, hs[h - 1][0]) or hs[h - 1][1] for h in rows]
            yield {"kind": "motors", "in": {"helio": [k for k, _ in hs], "rows": rows, "motors": mot}}
            continue
        sun, aim, wit = [], [], []
        for h in rows:
            k, m = hs[h - 1]
            lim = k["lim"]
            wm = [x if rng.random() < .3 else int(x + rng.uniform(-.5, .5) * (lim[j][1] - x) * (0.05 if abs(lim[j][1] - x) > (2 * S if not linear else .3 * k["act"][j]["inc"]) else 1)) for j, x in enumerate(m)]
            g = rot("e", k["rot"][2] / S) @ rot("n", k["rot"][3] / S)
            phi = math.atan2(-g[0][1], g[0][0])
            if abs(math.cos(angle(k["act"][1], wm[1]) + phi)) < .15 or any(abs(angle(p, x)) > 3.12 for p, x in zip(k["act"], wm)) or (linear and any(not .35 < absolute(p, x) < 2.75 for p, x in zip(k["act"], wm))):
                wm = m
            c0, nv = joints(k, angle(k["act"][0], wm[0]), angle(k["act"][1], wm[1]))
            t = np.cross(nv, R.unit([rng.gauss(0, 1) for _ in range(3)]))
            t = t / np.linalg.norm(t)
            b = rng.uniform(0, 1.1)
            r = math.cos(b) * nv + math.sin(b) * t
            d = r - 2 * (r @ nv) * nv
            sun.append(R.q(list(d)))
            aim.append(R.q(list(c0 + rng.choice([rng.uniform(15, 40), rng.uniform(40, 200)]) * r)))
            wit.append(wm)
        yield {"kind": "align", "in": {"helio": [k for k, _ in hs], "rows": rows, "sun": sun, "aim": aim, "witness": wit}}


def build(i):
    hs = i["helio"]
    n = len(hs)
    linear = hs[0]["act"][0]["kind"] == 0
    f = lambda key: torch.tensor([k[key] for k in hs], dtype=torch.float64).div(S).float()
    pts, nrm = R.homogeneous(f("points"), 1.0), R.homogeneous(f("normals"), 0.0)
    grp = scene.group([f"h{k}" for k in range(n)], [[x / S for x in k["pos"]] for k in hs], kind="linear" if linear else "ideal", points=pts, normals=nrm,
                      translations=f("tr"), rotations=f("rot"))
    a = grp.kinematics.actuators
    scale = M if linear else S
    for h, k in enumerate(hs):
        for j, p in enumerate(k["act"]):
            if "lim" in k:
                a.non_optimizable_parameters[h, 2, j] = k["lim"][j][0] / scale
                a.non_optimizable_parameters[h, 3, j] = k["lim"][j][1] / scale
            if linear:
                a.non_optimizable_parameters[h, 1, j] = float(p["cw"])
                a.non_optimizable_parameters[h, 4:, j] = torch.tensor([p["inc"] / M, p["off"] / S, p["rad"] / S], dtype=torch.float64)
                with torch.no_grad():
                    a.optimizable_parameters[h, :, j] = torch.tensor([p["a0"] / S, p["s0"] / S], dtype=torch.float64)
    mask = torch.tensor([i["rows"].count(h + 1) for h in range(n)], dtype=torch.int32)
    return grp, mask, scale


def run_case(case):
    i = case["in"]
    grp, mask, scale = build(i)
    grp.activate_heliostats(active_heliostats_mask=mask, device=scene.CPU)
    if case["kind"] == "motors":
        mot = torch.tensor(i["motors"], dtype=torch.float64).div(scale).float()
        grp.align_surfaces_with_motor_positions(motor_positions=mot, active_heliostats_mask=mask, device=scene.CPU)
        return {"points": fx(grp.active_surface_points), "normals": fx(grp.active_surface_normals)}
    grp.align_surfaces_with_incident_ray_directions(aim_points=R.homogeneous(R.ten(i["aim"]), 1.0), incident_ray_directions=R.homogeneous(R.ten(i["sun"]), 0.0),
                                                    active_heliostats_mask=mask, device=scene.CPU)
    mot = grp.kinematics.active_motor_positions.detach().clone()
    out = {"motors": fx(mot, scale), "points": fx(grp.active_surface_points), "normals": fx(grp.active_surface_normals)}
    grp.activate_heliostats(active_heliostats_mask=mask, device=scene.CPU)
    grp.align_surfaces_with_motor_positions(motor_positions=mot, active_heliostats_mask=mask, device=scene.CPU)
    out["again"] = fx(grp.active_surface_points)
    return out
