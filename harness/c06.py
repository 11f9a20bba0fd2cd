"""C06: rays on cylindrical targets."""

from . import rays as R

TRACE = "RayTraceTrace"
TRACE_CONSTS = {"S": 1_000_000}
ASSUMPTIONS = ["normals and axes of the targets are orthogonal unit vectors",
               "rays within float32 rounding of an edge of the sector, or grazing the cylinder, may count as hit or miss"]


def models(ctx):
    yield dict(module="RayTraceModel", consts={"S": 1_000_000, "N": ctx.pick(3, 4), "Kind": "c"},
               invariants=["HitsAreOnTarget", "RoundTrip", "UpIsUp", "SharesAddUp"])


def cases(ctx):
    yield from R.ray_cases(ctx, R.cylinder_target, ctx.pick(400, 4000), ctx.pick(60, 400), ctx.pick(250, 2500), R.planar_target)


run_case = R.run
