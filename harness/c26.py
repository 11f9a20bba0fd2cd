"""C26: gradients are the derivatives of what is computed."""

import math

import torch
from artist.field.heliostat_group import HeliostatGroup  # noqa: F401
from artist.flux import bitmap
from artist.nurbs.surfaces import NURBSSurfaces
from artist.nurbs.utils import create_nurbs_evaluation_grid
from artist.optim import IdealSurfaceRegularizer, SmoothnessRegularizer
from artist.optim import loss as losses
from artist.raytracing.heliostat_ray_tracer import HeliostatRayTracer
from torch.optim import optimizer as optimizers

from . import c14, c24, scene
from . import rays as R
from .core import Raw

TRACE = "GradientTrace"
S = 1_000_000
TRACE_CONSTS = {"S": S}
LIMIT = 120
ASSUMPTIONS = ["gradients are compared where the computation is smooth: steps whose difference quotients do not converge only have to have finite gradients",
               "the balancing of the regularizers of the surface reconstruction is not exercised (their weights are zero)"]
SIZE = {"rot": 3e-4, "tra": 3e-3, "act": 1e-3, "aim": .006, "cp": 6e-4}
WHAT = ["rot", "tra", "act", "mot", "aim", "cp"]
STEPS = (1.0, .5, .25)
GOALS = ["com", "sum", "crop", "focal", "pixel", "kl"]


def models(ctx):
    yield dict(module="GradientModel", consts=dict(Ops=Raw('{"add", "mul", "square", "clip"}'), Values=Raw("-1..2") if not ctx.thorough else Raw("-2..3"), Size=ctx.pick(3, 4)), spec="Spec",
               invariants=["Paired", "Adjoint"], properties=["Ends"])
    yield dict(module="QuotientModel", consts=dict(S=100_000, Coefficients=Raw("{-20000, 0, 7000, 30000}") if not ctx.thorough else Raw("{-20000, -3000, 0, 7000, 30000}"), Steps=Raw("{400, 1000}")), spec="Spec",
               invariants=["Accepts", "Refuses"])


def cases(ctx):
    rng = ctx.rng
    for k in range(ctx.pick(90, 900)):
        yield {"kind": "chain", "in": chain(rng, WHAT[k % 6])}
    for _ in range(ctx.pick(60, 600)):
        yield {"kind": "surface", "in": {"seed": rng.randint(0, 10**6), "degrees": [rng.randint(1, 3), rng.randint(1, 3)], "more": [rng.randint(1, 4), rng.randint(1, 4)], "surfaces": rng.randint(1, 2), "facets": rng.randint(1, 2),
                                         "grid": [rng.randint(2, 4), rng.randint(2, 4)], "cant": rng.randint(0, 1), "which": rng.choice(["points", "normals"])}}
    for k in range(ctx.pick(120, 900)):
        which = ["vector", "focal", "pixel", "kl", "angle", "cosine", "smooth", "ideal"][k % 8]
        yield {"kind": "loss", "in": {"seed": rng.randint(0, 10**6), "which": which, "n": rng.randint(1, 4), "shape": [rng.randint(3, 8), rng.randint(3, 8)],
                                      "case": "usual" if rng.random() < .7 else rng.choice(["perfect", "nothing"] if which not in ("smooth", "ideal", "angle", "cosine") else ["perfect"])}}
    for k in range(ctx.pick(120, 1000)):
        yield {"kind": "step", "in": step(rng, ["align", "flux", "surface", "aim", "aim", "aim"][k % 6])}


def chain(rng, what):
    groups, n = 1, rng.choice([1, 2, 2, 3])
    row = [rng.choice([0, 1, 1]) for _ in range(rng.randint(1, 3))]
    if not any(row):
        row[0] = 1
    d = c14.describe(rng, "flux", [row], n, cfg=dict(tol=0, max=1, num=1, den=1, patience=5, window=50))
    d["loss"] = "pixel"
    linear = what == "act" or rng.random() < .5
    d["groups"][0]["linear"] = int(linear)
    goal = rng.choice(GOALS)
    blocking = int(rng.random() < .25)
    if blocking:
        # one sample per heliostat
        d.update(n=1)
    mode = "motors" if what == "mot" else "motors" if what == "act" else "sun" if what in ("aim", "cp") else rng.choice(["motors", "sun"])
    return {"scene": d, "what": what, "mode": mode, "goal": goal, "cyl": int(rng.random() < .3), "rays": 40 if goal in ("kl", "crop", "pixel") else rng.choice([2, 5]),
            "wide": rng.choice([2, 20, 200]), "seed": rng.randint(0, 10**6), "blocking": blocking}


def step(rng, method):
    if method == "aim":
        cfg = {"window": 50, "patience": 5, "num": 1, "den": 1, "relative": 1, "eps": 0, "unit": 1, "tol": 0, "max": 1}
        d = c24.describe(rng, cfg)
        d.update(lr=1000, rays=40, wide=30, W=8, H=8, target=rng.choice([0, 0, 0, 1]))
    else:
        row = [rng.choice([0, 1, 1]) for _ in range(rng.randint(1, 3))]
        if not any(row):
            row[0] = 1
        cfg = {"window": 50, "patience": 5, "num": 1, "den": 1, "relative": 1, "eps": 0, "unit": 1, "tol": 0, "max": 1}
        d = c14.describe(rng, method, [row], rng.choice([2, 3, 4]), cfg=cfg)
        d["loss"] = "pixel" if d["loss"] == "kl" else d["loss"]
        d.update(ws=0, wi=0, rays=40, wide=100)
        if method == "surface":
            d["etol"] = rng.choice([0, R.q([-.05])[0], R.q([-.05])[0]])
    # how much constraints matter: powers of ten times what the scene says; the divergence alone has a kink wherever the first ray reaches a pixel
    boost = rng.choice([4, 6, 8]) if d["loss"] == "kl" else rng.choice([0, 0, 3, 6])
    return {"method": method, "scene": d, "seed": rng.randint(0, 10**6), "boost": boost}


# ------------------------------------------------------------------ pairings of adjoints and changes
def pair(adjoints, changes):
    return sum(float((a.double() * c.double()).sum()) for a, c in zip(adjoints, changes) if a is not None)


def pairings(run, leaf, size, v):
    """run(x) gives a list of cuts (lists of tensors), the last one being the objective.  For every cut: the pairing of its adjoint with its change along v for two step sizes."""
    t = leaf.detach().clone().requires_grad_()
    cuts = run(t)
    goal = cuts[-1][0]
    flat = [t] + [x for cut in cuts[:-1] for x in cut]
    wanted = [x for x in flat if x.requires_grad]
    got = torch.autograd.grad(goal, wanted, allow_unused=True) if goal.requires_grad else [None] * len(wanted)
    grads, k = [], 0
    for x in flat:
        if x.requires_grad:
            grads.append(got[k])
            k += 1
        else:
            grads.append(None)
    finite = all(g is None or bool(torch.isfinite(g).all()) for g in grads)
    adj = [[grads[0]]]
    k = 1
    for cut in cuts[:-1]:
        adj.append(grads[k:k + len(cut)])
        k += len(cut)
    adj.append([torch.ones_like(goal)])
    rows = []
    with torch.no_grad():
        for h in STEPS:
            up, down = run(t.detach() + h * size * v), run(t.detach() - h * size * v)
            # the leaf's own change is the exact one
            changes = [[size * v]] + [[(a.double() - b.double()) / (2 * h) for a, b in zip(x, y)] for x, y in zip(up, down)]
            rows.append([pair(a, c) for a, c in zip(adj, changes)])
        # how much the two sides of the finest step differ
        sides = [[[(a.double() - m.double()) / h for a, m in zip(x, y)] for x, y in zip(side, cuts)] for side, h in ((up, h), (down, -h))]
        bends = [abs(pair(a, x) - pair(a, y)) / 2 for a, x, y in zip(adj[1:], *sides)]
    return rows, finite, float(goal.detach()), max(bends)


def report(rows, finite, value, bend, **more):
    flat = [abs(x) for r in rows for x in r]
    finite = finite and math.isfinite(value)
    ok = all(math.isfinite(x) for x in flat)
    top = max(flat) if ok else 0.0
    # in units of the largest pairing; the objective's own rounding is what the quotients cannot resolve
    q = [[round(x / top * S) if top else 0 for x in r] for r in rows] if ok else [[0] * len(rows[0])] * 3
    blur = min(round(4e-7 * abs(value) / top * S), 10 * S) if ok and top and math.isfinite(value) else 0 if ok else 10 * S
    return {"finite": int(finite), "quotients": q, "blur": blur, "bend": min(round(bend / top * S), 10 * S) if ok and top and math.isfinite(bend) else 0, "nil": int(ok and top == 0), **more}


def direction(gen, shape, mask=None):
    v = torch.randn(shape, generator=gen)
    if mask is not None:
        v = v * mask
    return v


RES = 8


def TOWER(cyl):
    """Targets that are wide enough for all rays."""
    planar = ("alpha", [0.0, 0.0, 6.0], [0.0, 1.0, 0.0], (8.0, 8.0))
    return scene.tower([planar] if cyl else [planar, ("beta", [1.0, 0.0, 5.0], [0.0, 1.0, 0.0], (9.0, 8.0))],
                       [("stalk", [0.0, 0.0, 6.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], 4.0, 9.0, math.pi)] if cyl else [])


# ------------------------------------------------------------------ alignment, ray tracing and losses
def run_chain(i):
    torch.manual_seed(5)
    gen = torch.Generator().manual_seed(i["seed"])
    sc, data = c14.build(i["scene"])
    grp, d = sc.heliostat_field.heliostat_groups[0], data[0]
    sc.solar_tower = TOWER(i["cyl"])
    sun = sc.light_sources.light_source_list[0]
    sun.number_of_rays = i["rays"]
    sun.distribution = torch.distributions.MultivariateNormal(sun.distribution.loc, torch.eye(2) * i["wide"] * 1e-6)
    k = grp.kinematics
    aims0 = d["focal"]
    k.rotation_deviation_parameters = k.rotation_deviation_parameters.detach()
    leafs = {"rot": k.rotation_deviation_parameters, "tra": k.translation_deviation_parameters, "act": k.actuators.optimizable_parameters, "mot": d["motors"], "aim": aims0[:, :3], "cp": grp.nurbs_control_points}
    size = dict(SIZE, mot=10.0 if i["scene"]["groups"][0]["linear"] else 2e-4)
    leaf = leafs[i["what"]]
    # away from places where everything is in line
    leaf = leaf + size[i["what"]] * direction(gen, leaf.shape)
    v = direction(gen, leaf.shape) * (.3 if i["goal"] == "crop" else 1)
    weights = torch.randn(64, 2, generator=gen)
    truth = None

    def run(x):
        p = dict(leafs, **{i["what"]: x})
        k.rotation_deviation_parameters, k.translation_deviation_parameters, k.actuators.optimizable_parameters = p["rot"], p["tra"], p["act"]
        grp.nurbs_control_points = p["cp"]
        grp.activate_heliostats(active_heliostats_mask=d["mask"], device=scene.CPU)
        cuts = []
        if i["what"] == "cp":
            n = grp.active_nurbs_control_points.shape[0]
            grid = create_nurbs_evaluation_grid(torch.tensor([4, 4]), device=scene.CPU)
            points, normals = NURBSSurfaces(degrees=grp.nurbs_degrees, control_points=grp.active_nurbs_control_points, device=scene.CPU).calculate_surface_points_and_normals(
                evaluation_points=grid.expand(n, 4, -1, 2), canting=grp.active_canting, facet_translations=grp.active_facet_translations, device=scene.CPU)
            cuts.append([points, normals])
            grp.active_surface_points, grp.active_surface_normals = points.reshape(n, -1, 4), normals.reshape(n, -1, 4)
        if i["mode"] == "motors":
            grp.align_surfaces_with_motor_positions(motor_positions=p["mot"], active_heliostats_mask=d["mask"], device=scene.CPU)
        else:
            grp.align_surfaces_with_incident_ray_directions(aim_points=torch.cat([p["aim"], torch.ones(p["aim"].shape[0], 1)], dim=1), incident_ray_directions=d["sun"], active_heliostats_mask=d["mask"],
                                                            device=scene.CPU)
        cuts.append([grp.active_surface_points, grp.active_surface_normals])
        rt = HeliostatRayTracer(scenario=sc, heliostat_group=grp, blocking_active=bool(i["blocking"]), batch_size=4, random_seed=0, bitmap_resolution=torch.tensor([RES, RES]))
        flux = rt.trace_rays(incident_ray_directions=d["sun"], active_heliostats_mask=d["mask"], target_area_indices=d["targets"], device=scene.CPU)[0]
        cuts.append([flux])
        if truth is None:
            return flux
        if i["goal"] == "com":
            c = bitmap.get_center_of_mass(flux, device=scene.CPU)
            value = (c * weights[:c.shape[0]]).sum()
        elif i["goal"] == "sum":
            value = (flux.sum(dim=(1, 2)) * weights[:flux.shape[0], 0]).sum()
        elif i["goal"] == "focal":
            value = losses.FocalSpotLoss(scenario=sc)(prediction=flux, ground_truth=truth, target_area_indices=d["targets"], device=scene.CPU).sum()
        else:
            if i["goal"] == "crop":
                flux = bitmap.crop_flux_distributions_around_center(flux_distributions=flux, solar_tower=sc.solar_tower, target_area_indices=d["targets"], device=scene.CPU)
                cuts.append([flux])
            loss = losses.KLDivergenceLoss() if i["goal"] == "kl" else losses.PixelLoss()
            value = loss(prediction=flux, ground_truth=truth, reduction_dimensions=(1, 2)).sum()
        cuts.append([value])
        return cuts

    with torch.no_grad():
        truth = run(leaf + 20 * size[i["what"]] * direction(gen, leaf.shape))
        # only where the prediction surely is something
        truth = torch.where(truth < .2 * truth.amax(dim=(1, 2), keepdim=True), 0.0, truth)
    return report(*pairings(run, leaf, size[i["what"]], v))


def run_surface(i):
    gen = torch.Generator().manual_seed(i["seed"])
    n, f = i["surfaces"], i["facets"]
    grid = [a + b for a, b in zip(i["degrees"], i["more"])]
    control = torch.zeros(n, f, grid[0], grid[1], 3)
    control[..., 0] = torch.linspace(-1, 1, grid[0])[:, None]
    control[..., 1] = torch.linspace(-1, 1, grid[1])
    control += .1 * torch.randn(control.shape, generator=gen)
    e = create_nurbs_evaluation_grid(torch.tensor(i["grid"]), device=scene.CPU)
    canting = torch.zeros(n, f, 2, 4)
    canting[:, :, 0, 0] = canting[:, :, 1, 1] = 1.0
    if i["cant"]:
        canting[:, :, 0, 2] = .1
        canting[:, :, 1, 2] = -.05
    shift = torch.randn(n, f, 4, generator=gen)
    shift[..., 3] = 0
    w = torch.randn(n, f, e.shape[0], 3, generator=gen)
    v = direction(gen, control.shape)

    def run(x):
        points, normals = NURBSSurfaces(degrees=torch.tensor(i["degrees"]), control_points=x, device=scene.CPU).calculate_surface_points_and_normals(
            evaluation_points=e.expand(n, f, -1, 2), canting=canting, facet_translations=shift, device=scene.CPU)
        return [[((points if i["which"] == "points" else normals)[..., :3] * w).sum()]]

    return report(*pairings(run, control, 5e-3, v))


def run_loss(i):
    gen = torch.Generator().manual_seed(i["seed"])
    which, n = i["which"], i["n"]
    kw = {}
    if which in ("angle", "cosine"):
        shape, dims = (n, 4), None
    elif which == "vector":
        shape, kw = (n, 4), dict(reduction_dimensions=(1,))
    elif which in ("smooth", "ideal"):
        shape = (n, 2, *i["shape"], 3)
    else:
        shape, kw = (n, *i["shape"]), dict(reduction_dimensions=(1, 2))
    signed = which in ("angle", "cosine", "vector", "smooth", "ideal")
    truth = torch.randn(shape, generator=gen) if signed else .1 + torch.rand(shape, generator=gen)
    if which in ("angle", "cosine"):
        truth[:, 3] = 0
    pred = truth + (.3 * torch.randn(shape, generator=gen) if signed else .5 * torch.rand(shape, generator=gen))
    if i["case"] == "perfect":
        pred = truth.clone()
    elif i["case"] == "nothing":
        pred = torch.zeros_like(truth)
    if which == "focal":
        tw = scene.tower([("alpha", [0.0, 0.0, 6.0], [0.0, 1.0, 0.0], (5.0, 4.0)), ("beta", [1.0, 0.0, 5.0], [0.0, 1.0, 0.0], (3.0, 5.0))], [("stalk", [0.0, 0.0, 6.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], 1.5, 5.0, math.pi)])

        class Scene:
            solar_tower = tw
        f = losses.FocalSpotLoss(scenario=Scene())
        kw = dict(target_area_indices=torch.randint(0, 3, (n,), generator=gen), device=scene.CPU)
    elif which in ("smooth", "ideal"):
        r = (SmoothnessRegularizer if which == "smooth" else IdealSurfaceRegularizer)(reduction_dimensions=(1,))
        f = lambda prediction, ground_truth: r(current_control_points=prediction, original_control_points=ground_truth, device=scene.CPU)
    else:
        f = {"vector": losses.VectorLoss, "pixel": losses.PixelLoss, "kl": losses.KLDivergenceLoss, "angle": losses.AngleLoss, "cosine": losses.CosineSimilarityLoss}[which]()
    w = .2 + torch.rand(n, generator=gen)
    v = direction(gen, shape)

    def run(x):
        return [[(f(prediction=x, ground_truth=truth, **kw) * w).sum()]]

    return report(*pairings(run, pred, .02, v))


# ------------------------------------------------------------------ what optimizers step along
class Steps:
    """Moves the parameters of the first optimizer after its first step to a place, and remembers the gradients its second step finds there."""

    def __init__(self, place):
        self.place, self.first, self.count, self.grads, self.params = place, None, 0, None, None

    def before(self, opt, args, kwargs):
        if self.first is None:
            self.first = opt
            self.start = [p.detach().clone() for g in opt.param_groups for p in g["params"]]
        if opt is self.first:
            self.count += 1
            if self.count == 2:
                ps = [p for g in opt.param_groups for p in g["params"]]
                self.grads = [None if p.grad is None else p.grad.detach().clone() for p in ps]

    def after(self, opt, args, kwargs):
        if opt is self.first and self.count == 1:
            with torch.no_grad():
                for p, s, v in zip([p for g in opt.param_groups for p in g["params"]], self.start, self.place(self.start)):
                    p.copy_(s + v)

    def __enter__(self):
        self.handles = [optimizers.register_optimizer_step_pre_hook(self.before), optimizers.register_optimizer_step_post_hook(self.after)]
        return self

    def __exit__(self, *a):
        for h in self.handles:
            h.remove()


def run_step(i):
    s = dict(i["scene"], L=S)
    for k in ("rho", "rhoF", "rhoI", "rhoL"):
        if k in s:
            s[k] *= 10 ** i["boost"]

    def at(place):
        with Steps(place) as steps:
            if i["method"] == "aim":
                r = c24.once(s)
                hist = r["hist"]["total_loss"]
                # rays that leave the target drop out all at once
                if min(float(x) for x in r["shares"][1]) < .99999:
                    i["off"] = 1
            else:
                hist = c14.once(s)["hist"][0]["total_loss"]
        return steps, hist[1] if len(hist) > 1 else math.nan

    size = {"align": 2e-3, "flux": 4e-4, "surface": 3e-5, "aim": 2e-3 if s["loss"] == "kl" else 5e-3}[i["method"]]

    def along(shapes, salt):
        gen = torch.Generator().manual_seed(i["seed"] + salt)
        out = []
        for q in shapes:
            v = torch.randn(q.shape, generator=gen)
            if i["method"] == "surface":
                # the outline is locked: only heights and inner control points may move
                v[..., 0, :, :2] = v[..., -1, :, :2] = v[..., :, 0, :2] = v[..., :, -1, :2] = 0
            out.append(v * size)
        return out

    base = lambda q: [(20 if i["method"] == "align" else 2) * x for x in along(q, 1)]
    steps, value = at(base)
    if steps.grads is None:
        return {"finite": 0, "quotients": [[0, 0]] * 3, "blur": 0, "bend": 0, "nil": 0, "steps": steps.count}
    v = along(steps.start, 2)
    finite = all(g is None or bool(torch.isfinite(g).all()) for g in steps.grads)
    left = pair(steps.grads, v)
    rows = []
    for h in STEPS:
        up = at(lambda q: [b + h * x for b, x in zip(base(q), v)])[1]
        down = at(lambda q: [b - h * x for b, x in zip(base(q), v)])[1]
        rows.append([left, (up - down) / (2 * h)])
    return report(rows, finite, value, abs(up - 2 * value + down) / h / 2)


def run_case(case):
    i = case["in"]
    kinky = {"pixel", "kl", "crop", "vector"}
    i["rough"] = int(case["kind"] == "chain" and i["goal"] in kinky or case["kind"] == "step" and i["scene"]["loss"] in kinky)
    i["off"] = 0
    out = {"chain": run_chain, "surface": run_surface, "loss": run_loss, "step": run_step}[case["kind"]](i)
    i["edge"] = int(case["kind"] == "loss" and i["case"] != "usual" or i["off"])
    return out
