"""C16: several processes learn together what one process learns alone."""

import json
import multiprocessing as mp
import os
import random
import shutil
import tempfile
import time
import traceback

import artist.io  # noqa: F401
import torch
from artist.scene.sun import Sun
from artist.util import env as aenv

from . import c01, c14, c24, scene
from .core import Raw, fx

TRACE = "CollectivesTrace"
S = 1_000_000
TRACE_CONSTS = {"S": S}
LIMIT = 280
PROCS = 3
ASSUMPTIONS = ["real gloo process groups of up to six processes on the loopback network",
               "a light source without scatter, as scattered rays differ with the number of processes that share a group (C23)"]
STALL = 20  # seconds without progress of processes that all wait for others


def models(ctx):
    for scope in ("group", "all"):
        yield dict(module="CollectivesModel", consts=dict(MaxWS=ctx.pick(4, 5), MaxG=ctx.pick(2, 3), Levels=Raw("{1, 3}"), Tols=Raw("{0, 1}"), MaxEpochs=Raw(ctx.pick("{0, 1}", "{0, 1}")), Scope=scope), spec="Spec",
                   invariants=["Agree", "AgreeAll", "KnowAll", "Sound"], properties=["Ends"])


def reconstruction(rng, method, groups):
    cfg = {"window": rng.choice([2, 50, 50]), "patience": 1, "num": 1, "den": rng.choice([2, 10]), "relative": 1, "eps": 0, "unit": 1, "tol": 0, "max": rng.choice([1, 2, 4, 5])}
    data = [[rng.choice([0, 1, 1, 1]) for _ in range(rng.randint(1, 3))] for _ in range(groups)]
    if not any(map(any, data)):
        data[0][0] = 1
    i = c14.describe(rng, method, data, rng.choice([2, 4]), cfg)
    i["scheduler"] = rng.choice(["exponential", "reduce_on_plateau", "cyclic"])
    for grp in i["groups"]:
        for h in range(len(grp["pos"])):
            if rng.random() < .3:  # little to learn here: a loss that is lower than that of the others from the beginning
                grp["start"][h] = [x + rng.choice([-300, 300]) for x in grp["rot"][h]]
    i["L"] = 1
    return i


def cases(ctx):
    rng = ctx.rng
    shapes = [(ws, g) for ws in range(1, 6) for g in range(1, 4) if ws + g > 2]
    for method in ("flux", "surface", "align", "aim"):
        todo = [(ws, g) for ws, g in shapes if ws > 1]
        rng.shuffle(todo)
        for ws, g in todo[:ctx.pick(9, 12)]:
            for _ in range(ctx.pick(3, 12)):
                if method == "aim":
                    cfg = {"window": rng.choice([2, 50, 50]), "patience": 1, "num": 1, "den": rng.choice([2, 10]), "relative": 1, "eps": 0, "unit": 1, "tol": 0, "max": rng.choice([1, 2, 4])}
                    i = c24.describe(rng, cfg)
                    while len(i["groups"]) < g:
                        i["groups"].append(c24.describe(rng, cfg)["groups"][0])
                    i["groups"] = i["groups"][:g]
                    for k, grp in enumerate(i["groups"]):
                        for p in grp["pos"]:
                            p[1] += 4 * k * S
                    i["target"] = rng.choice([0, 1])
                    i["lr"] = rng.choice([20_000, 50_000])
                else:
                    i = reconstruction(rng, method, g)
                # level: let the training end when the loss of some epoch falls below a level
                yield {"kind": "run", "in": {"method": method, "ws": ws, "g": g, "run": i, "level": rng.choice([0, 1, 2, 3, 4]), "trained": [k for k in range(g) if method == "aim" or any(i["data"][k])],
                                             "vtol": 30, "ltol": 200, "stol": 200}}


def learned(sc):
    return [[g.kinematics.rotation_deviation_parameters, g.kinematics.actuators.optimizable_parameters, g.nurbs_control_points, g.surface_points, g.surface_normals] for g in sc.heliostat_field.heliostat_groups]


def work(i, d, tol, norm):
    """One run of one process; d: its place among all."""
    inner = Sun.get_distortions

    def still(self, *args, **kwargs):
        u, e = inner(self, *args, **kwargs)
        return 0 * u, 0 * e
    Sun.get_distortions = still

    def rel(x):
        x = torch.as_tensor(x, dtype=torch.float64).flatten()
        x = torch.where(torch.isfinite(x), x, torch.full_like(x, -7 * norm))
        return fx(torch.clamp(x / norm, -1000, 1000), S)
    run = {**i["run"], "L": 1, "cfg": {**i["run"]["cfg"], "tol": tol * (S if i["method"] == "aim" else 1)}}
    if i["method"] == "aim":
        r = c24.once(run, setup=d)
        gs = r["sc"].heliostat_field.heliostat_groups
        values = [fx(g.kinematics.motor_positions.flatten(), 100 if x["linear"] else S) for g, x in zip(gs, run["groups"])]
        keys = sorted(r["hist"])
        return {"digest": c14.digest(*[g.kinematics.motor_positions for g in gs], *r["shares"]), "values": values, "loss": rel(r["loss"]), "shares": [fx(s.double()) for s in r["shares"]],
                "hist": [rel(r["hist"][k]) if k in ("total_loss", "flux_loss") else fx(torch.tensor(r["hist"][k], dtype=torch.float64)) for k in keys], "more": [],
                "curves": [r["hist"]["total_loss"]]}
    r = c14.once(run, setup=d)
    gs = r["sc"].heliostat_field.heliostat_groups
    values = [fx(g.nurbs_control_points[..., 2].flatten()) if i["method"] == "surface" else fx(g.kinematics.rotation_deviation_parameters.flatten()) for g in gs]
    return {"digest": c14.digest(*[t for q in learned(r["sc"]) for t in q], r["final"]), "values": values, "loss": rel(r["final"]), "shares": [],
            "hist": [], "more": [[rel(h["total_loss"]) for h in q] for q in r["all"]], "curves": [h["total_loss"] for h in r["all"][0]]}


OPS = ["all_reduce", "broadcast", "reduce", "all_gather", "all_gather_object", "broadcast_object_list", "barrier", "gather", "gather_object", "scatter", "reduce_scatter", "all_gather_into_tensor"]


def watch(say):
    """Tell about every collective operation before and after it."""
    dist = torch.distributed
    for name in OPS:
        def wrapped(*args, __name=name, __inner=getattr(dist, name), **kwargs):
            group = kwargs.get("group")
            if group is None:
                group = next((a for a in args if isinstance(a, dist.ProcessGroup)), None)
            who = dist.get_process_group_ranks(group or dist.group.WORLD)
            tensor = next((a for a in list(args) + list(kwargs.values()) if isinstance(a, torch.Tensor)), None)
            op = kwargs.get("op", next((a for a in args if isinstance(a, dist.ReduceOp.RedOpType)), ""))
            say({"op": __name, "who": list(who), "shape": [] if tensor is None else list(tensor.shape), "src": kwargs.get("src", args[1] if __name == "broadcast" and len(args) > 1 else -1), "how": str(op)})
            res = __inner(*args, **kwargs)
            say("done")
            return res
        setattr(dist, name, wrapped)


def child(rank, i, port, path, tol, norm):
    torch.set_num_threads(1)
    f = open(path, "w")

    def say(x):
        f.write(json.dumps(x) + "\n")
        f.flush()
    try:
        for k in ("MASTER_ADDR", "MASTER_PORT", "RANK", "WORLD_SIZE"):
            os.environ.pop(k, None)
        if i["ws"] > 1:
            os.environ.update(MASTER_ADDR="127.0.0.1", MASTER_PORT=str(port), RANK=str(rank), WORLD_SIZE=str(i["ws"]), GLOO_SOCKET_IFNAME="lo")
        with aenv.setup_distributed_environment(number_of_heliostat_groups=i["g"], device=scene.CPU) as d:
            say("ready")
            watch(say)
            res = work(i, d, tol, norm)
            say({"result": res})
            if i["ws"] > 1:
                torch.distributed.barrier()
    except BaseException as e:  # noqa: BLE001
        say({"error": repr(e)[:300], "where": traceback.format_exc()[-900:]})
    f.close()
    os._exit(0)


def read(path):
    out = []
    try:
        with open(path) as f:
            for line in f:
                if line.endswith("\n"):
                    out.append(json.loads(line))
    except FileNotFoundError:
        pass
    return out


def processes(i, tol=0, norm=1.0):
    """What the processes told until all had finished, or none could go on."""
    tmp = tempfile.mkdtemp(prefix="c16.")
    try:
        paths = [os.path.join(tmp, str(r)) for r in range(i["ws"])]
        port = c01.free_port()
        c = mp.get_context("fork")
        ps = [c.Process(target=child, args=(r, i, port, paths[r], tol, norm)) for r in range(i["ws"])]
        for p in ps:
            p.start()
        last, since, start = None, time.time(), time.time()
        while any(p.is_alive() for p in ps):
            time.sleep(.1)
            told = [read(p) for p in paths]
            size = [len(t) for t in told]
            if size != last:
                last, since = size, time.time()
            # every process that is still there waits for another
            waiting = all(t and isinstance(t[-1], dict) and ("op" in t[-1]) for t, p in zip(told, ps) if p.is_alive())
            if (waiting and time.time() - since > STALL) or time.time() - start > 120:
                break
        for p in ps:
            if p.is_alive():
                p.kill()
            p.join()
        return [read(p) for p in paths]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def report(told):
    logs, results, errors = [], [], []
    for t in told:
        ops = [x for x in t if isinstance(x, dict) and "op" in x]
        res = next((x["result"] for x in t if isinstance(x, dict) and "result" in x), None)
        # the last operation is the harness' own
        logs.append(ops[:-1] if res is not None and ops and ops[-1]["op"] == "barrier" else ops)
        results.append(res)
        errors.append(next((x["error"] for x in t if isinstance(x, dict) and "error" in x), ""))
    return logs, results, errors


NOTHING = {"digest": "", "values": [], "loss": [], "shares": [], "hist": [], "more": []}


def alone(i, tol=0, norm=1.0):
    _, single, errors = report(processes({**i, "ws": 1}, tol, norm))
    if single[0] is None:
        raise RuntimeError("a single process did not finish: " + errors[0])
    return single[0]


def lengths(r):
    return [len(c) for c in r["curves"]]


def level(i, curves):
    """A level between two clearly different losses of successive epochs."""
    gaps = [(a + b) / 2 for c in curves for a, b in zip(c, c[1:]) if b < a - .02 * abs(a)]
    clear = [t for t in gaps if all(abs(x - t) > .005 * abs(t) for c in curves for x in c)]
    return clear[i["level"] % len(clear)] if clear and i["level"] else 0


def run_case(case):
    i = case["in"]
    first = alone(i)
    norm = max(abs(c[0]) for c in first["curves"]) or 1.0
    cfg = i["run"]["cfg"]
    tol = 0
    if cfg["window"] > 2:
        tol = level(i, first["curves"])
    else:  # the training should not end by a hair
        den = cfg["den"]
        q = []
        for f in (98, 102):
            cfg.update(num=f, den=den * 100)
            q.append(lengths(alone(i)))
        cfg.update(num=1, den=den)
        if not q[0] == q[1] == lengths(first):
            cfg["window"] = 50
    single = alone(i, tol, norm)
    for attempt in range(2):  # a port may be taken between choosing and using it
        told = processes(i, tol, norm)
        if all("ready" in t for t in told):
            break
    logs, results, errors = report(told)
    for r in results + [single]:
        (r or {}).pop("curves", None)
    return {"logs": logs, "ended": [int(r is not None) for r in results], "results": [r or NOTHING for r in results], "single": single, "errors": errors, "level": int(tol != 0)}
