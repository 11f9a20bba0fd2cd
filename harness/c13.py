"""C13: early stopping and learning-rate schedules, step by step."""

import torch
from artist.optim import training
from artist.util import constants

from .core import fx

TRACE = "StoppingTrace"
TRACE_CONSTS = {"S": 1_000_000}
ASSUMPTIONS = ["losses and thresholds are dyadic, so that the comparisons in the code are exact"]


def models(ctx):
    yield dict(module="StoppingModel", consts=dict(Levels={0, 2, 3, 8}, MaxLen=ctx.pick(5, 6), Windows={1, 2, 3}, Patiences={1, 2, 3}, Cools={0, 1}),
               spec="Spec", invariants=["Declarative", "NotBeforeFull", "Spaced", "FirstCut", "Earned"])


def cases(ctx):
    rng = ctx.rng
    got = ctx.behaviours("StoppingModel", dict(Levels={0, 2, 3, 8}, MaxLen=ctx.pick(4, 5), Windows={1, 2, 3}, Patiences={1, 2}, Cools={0}), spec="Spec",
                         invariants=["Declarative", "Export"])
    seen = set()
    for c in got:
        key = (tuple(sorted(c["cfg"].items())), tuple(c["losses"]))
        if key in seen:
            continue
        seen.add(key)
        yield {"kind": "stop", "in": {**c["cfg"], "losses": c["losses"], "unit": 1, "default": 0}}
    for _ in range(ctx.pick(200, 2000)):
        unit = rng.choice([1, 1024])
        dflt = int(rng.random() < .25)
        w, p = (10, 20) if dflt else (rng.randint(1, 12), rng.randint(1, 25))
        den = 10000 if dflt else rng.choice([2, 8, 64, 8192])
        x = rng.randint(500, 4000)
        xs = []
        mode = "slow" if dflt and rng.random() < .6 else rng.choice(["noise", "falling", "steps", "negative"])
        for t in range(rng.choice([40, 80, 120])):
            if mode == "noise":
                x = max(0, x + rng.randint(-60, 50))
            elif mode == "falling":
                x = x - max(1, x // rng.choice([10, 50])) if x > 3 and t < 30 else max(0, x + rng.choice([-1, 0, 0, 1]))
            elif mode == "slow":
                x = x - (t % rng.choice([2, 4, 9]) == 0)
            elif mode == "steps":
                x = x // 2 if rng.random() < .05 else x
            else:
                x = x - rng.randint(0, 100)
            xs.append(x)
        yield {"kind": "stop", "in": {"window": w, "patience": p, "num": 1, "den": den, "relative": 1 if dflt else rng.choice([0, 1, 1]), "eps": 1, "unit": unit,
                                      "losses": [max(x, 1) for x in xs] if dflt else xs, "default": dflt}}
    lr = lambda: rng.choice([1_000_000, 250_000, 8_000_000, 20_000_000])
    for _ in range(ctx.pick(40, 300)):
        yield {"kind": "exp", "in": {"lr": lr(), "gamma": rng.choice([990_000, 900_000, 500_000, 999_000, 1_000_000]), "epochs": rng.randint(1, 30),
                                     "groups": rng.randint(1, 2)}}
        a = rng.choice([0, 1000, 100_000, 500_000])
        yield {"kind": "cyclic", "in": {"lr": lr(), "min": a, "max": a + rng.choice([1000, 500_000, 7_000_000]), "up": rng.choice([1, 2, 3, 5, 10, 20]),
                                        "epochs": rng.randint(1, 60), "groups": rng.randint(1, 2)}}
    for _ in range(ctx.pick(120, 1000)):
        x = rng.randint(100, 4000)
        xs = []
        for t in range(rng.randint(5, 60)):
            r = rng.random()
            x = x if r < .4 else x // 2 if r < .5 else max(1, x - rng.randint(0, 30)) if r < .8 else x + rng.randint(0, 200)
            xs.append(x)
        r = lr()
        yield {"kind": "plateau", "in": {"lr": r, "factor": rng.choice([100_000, 500_000, 900_000]), "patience": rng.choice([0, 1, 2, 5, 10]),
                                         "num": rng.choice([0, 1, 1]), "den": rng.choice([4, 64, 8192]), "cooldown": rng.choice([0, 0, 1, 2, 5]),
                                         "min": rng.choice([0, 1000, r // 4, r // 2, r]), "losses": xs, "groups": rng.randint(1, 2)}}


def run_case(case):
    i = case["in"]
    if case["kind"] == "stop":
        s = training.EarlyStopping() if i["default"] else training.EarlyStopping(window_size=i["window"], patience=i["patience"], min_improvement=i["num"] / i["den"], relative=bool(i["relative"]),
                                   eps=i["eps"] / i["unit"])
        return {"stop": [int(bool(s.step(x / i["unit"]))) for x in i["losses"]]}
    ps = [torch.zeros(2, requires_grad=True) for _ in range(i["groups"])]
    opt = torch.optim.Adam([{"params": [p]} for p in ps], lr=i["lr"] / 1e6)
    c = constants
    if case["kind"] == "exp":
        sch = training.exponential(opt, {c.gamma: i["gamma"] / 1e6})
    elif case["kind"] == "cyclic":
        sch = training.cyclic(opt, {c.lr_min: i["min"] / 1e6, c.lr_max: i["max"] / 1e6, c.step_size_up: i["up"]})
    else:
        sch = training.reduce_on_plateau(opt, {c.reduce_factor: i["factor"] / 1e6, c.patience: i["patience"], c.threshold: i["num"] / i["den"],
                                               c.cooldown: i["cooldown"], c.lr_min: i["min"] / 1e6})
    rates = [[g["lr"] for g in opt.param_groups]]
    for t in range(len(i["losses"]) if "losses" in i else i["epochs"]):
        for p in ps:
            p.grad = torch.ones(2)
        opt.step()
        if case["kind"] == "plateau":
            sch.step(torch.tensor(float(i["losses"][t])))
        else:
            sch.step()
        rates.append([g["lr"] for g in opt.param_groups])
    if any(len(set(r)) > 1 for r in rates):
        return {"lr": [-1]}
    return {"lr": fx([r[0] for r in rates])}
