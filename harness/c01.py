"""C01: heliostat groups over processes."""

import multiprocessing as mp
import os
import queue
import socket
import time

import torch
from artist.util import env as aenv

TRACE = "DistributionTrace"
LIMIT = 200
ASSUMPTIONS = [
    "process counts up to 40 and group counts up to 12; real gloo process groups up to 5 processes on the loopback network",
    "for the per-rank set-up without real processes torch.distributed.new_group is replaced by a recorder",
]
INVS = ["Closed", "Served", "Agree", "OnePerRank", "OnePerGroup", "Balanced", "SubRanks", "SamplesClosed",
        "EachSampleOnce", "WholeHeliostats", "Idle", "SampleBalance"]


def models(ctx):
    yield dict(module="Distribution", consts=dict(MaxWS=ctx.pick(6, 9), MaxG=ctx.pick(5, 7), MaxH=ctx.pick(2, 3), MaxPer=1),
               invariants=INVS, spec="Spec", properties=["Terminates"])


def cases(ctx):
    top_ws, top_g = ctx.pick((24, 9), (40, 12))
    for ws in range(1, top_ws + 1):
        for g in range(1, top_g + 1):
            yield {"kind": "distribute", "in": {"ws": ws, "g": g}}
    for ws in range(1, ctx.pick(12, 20) + 1):
        for g in range(1, ctx.pick(6, 9) + 1):
            if ws > g:
                first = _setup(ws, g, 0)["created"]
                for r in range(ws):
                    yield {"kind": "setup", "in": {"ws": ws, "g": g, "rank": r, "created0": first}}
    real = ctx.pick([(1, 1), (1, 3), (2, 1), (3, 2), (4, 3), (2, 4), (5, 2)],
                    [(ws, g) for ws in range(1, 7) for g in range(1, 5)])
    for ws, g in real:
        yield {"kind": "collective", "in": {"ws": ws, "g": g}}


def _setup(ws, g, rank):
    created = []
    dist = torch.distributed
    orig = dist.new_group

    def fake(ranks=None, *a, **k):
        created.append([int(r) for r in ranks])
        return ("group", tuple(ranks))

    dist.new_group = fake
    try:
        mapping, nested = aenv.distribute_groups_among_ranks(world_size=ws, number_of_heliostat_groups=g)
        sub, size, pg, r2g = aenv.create_subgroups_for_nested_ddp(rank=rank, groups_to_ranks_mapping=mapping)
    finally:
        dist.new_group = orig
    return {"groups": list(mapping[rank]), "ranks": [list(r2g.get(k, [])) for k in range(g)], "subrank": int(sub),
            "subsize": int(size), "own": list(pg[1]) if pg else [], "created": created}


def free_port():
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        return s.getsockname()[1]


def _child(rank, ws, g, port, q):
    os.environ.update(MASTER_ADDR="127.0.0.1", MASTER_PORT=str(port), RANK=str(rank), WORLD_SIZE=str(ws),
                      GLOO_SOCKET_IFNAME="lo")
    try:
        with aenv.setup_distributed_environment(number_of_heliostat_groups=g, device=torch.device("cpu")) as d:
            total = torch.tensor([rank + 1])
            if d["is_nested"]:
                torch.distributed.all_reduce(total, group=d["process_subgroup"])
            else:
                total = torch.tensor([0])
            row = {"rank": d["rank"], "ws": d["world_size"], "dist": d["is_distributed"], "nested": d["is_nested"],
                   "groups": list(d["groups_to_ranks_mapping"][rank]),
                   "ranks": [list(d["ranks_to_groups_mapping"].get(k, [])) for k in range(g)],
                   "subrank": int(d["heliostat_group_rank"]), "subsize": int(d["heliostat_group_world_size"]),
                   "sum": int(total)}
            if d["is_distributed"]:
                torch.distributed.barrier()
        row["closed"] = not torch.distributed.is_initialized()
        q.put((rank, row))
    except BaseException as e:  # noqa: BLE001
        q.put((rank, {"error": repr(e)[:200]}))


def _processes(ws, g):
    """The reports of the ranks that came back within a minute."""
    c = mp.get_context("fork")
    q = c.Queue()
    port = free_port()
    ps = [c.Process(target=_child, args=(r, ws, g, port, q)) for r in range(ws)]
    for p in ps:
        p.start()
    rows, end = {}, time.time() + 60
    try:
        while len(rows) < ws:
            r, row = q.get(timeout=max(.1, end - time.time()))
            rows[r] = row
    except queue.Empty:
        pass
    finally:
        for p in ps:
            p.join(1 if len(rows) < ws else 5)
            if p.is_alive():
                p.kill()
    return rows


def run_case(case):
    i = case["in"]
    if case["kind"] == "distribute":
        m, nested = aenv.distribute_groups_among_ranks(world_size=i["ws"], number_of_heliostat_groups=i["g"])
        return {"map": [list(m[k]) for k in sorted(m)], "nested": bool(nested)}
    if case["kind"] == "setup":
        return _setup(i["ws"], i["g"], i["rank"])
    if case["kind"] == "collective":
        ws = i["ws"]
        if ws == 1:
            for k in ("MASTER_ADDR", "MASTER_PORT", "RANK", "WORLD_SIZE"):
                os.environ.pop(k, None)
            with aenv.setup_distributed_environment(number_of_heliostat_groups=i["g"], device=torch.device("cpu")) as d:
                row = {"rank": d["rank"], "ws": d["world_size"], "dist": d["is_distributed"], "nested": d["is_nested"],
                       "groups": list(d["groups_to_ranks_mapping"][0]),
                       "ranks": [list(d["ranks_to_groups_mapping"].get(k, [])) for k in range(i["g"])],
                       "subrank": int(d["heliostat_group_rank"]), "subsize": int(d["heliostat_group_world_size"]),
                       "sum": 0, "closed": True}
            return {"rows": [row]}
        for attempt in range(2):  # a port may be taken between choosing and using it: only a repeated failure is one
            rows = _processes(ws, i["g"])
            good = [rows[r] for r in sorted(rows) if "error" not in rows[r]]
            if len(good) == ws:
                break
        return {"rows": good}
    raise ValueError(case["kind"])
