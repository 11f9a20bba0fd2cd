"""C05: rays on planar targets."""

import itertools

from . import rays as R

TRACE = "RayTraceTrace"
TRACE_CONSTS = {"S": 1_000_000}
ASSUMPTIONS = ["targets are vertical planes facing south or north (the package's bitmap axes are the world's east and up)",
               "rays within float32 rounding of an edge of the target may count as hit or miss",
               "scenes of up to about 25 m; the arithmetic does not depend on the size"]


def models(ctx):
    yield dict(module="RayTraceModel", consts={"S": 1_000_000, "N": ctx.pick(3, 4), "Kind": "p"},
               invariants=["HitsAreOnTarget", "RoundTrip", "UpIsUp", "SharesAddUp", "ReflectionInvolutive", "ScatterKeepsLength"])


def cases(ctx):
    # lattice: every side of the target, straight and oblique, forwards and backwards
    for n in (-1.0, 1.0):
        t = {"kind": "p", "c": R.q([0.0, 0.0, 5.0]), "n": R.q([0.0, n, 0.0]), "w": R.q(4.0), "h": R.q(2.0)}
        pts = list(itertools.product((-2.4, -1.7, -0.3, 0.9, 1.9, 2.3), (3.8, 4.2, 4.9, 5.7, 6.1)))
        for y, back in itertools.product((-6.0, -1.0, 1.0, 5.0), (False, True)):
            for lean in ((0.0, 0.0), (0.7, -0.4)):
                origins, dirs = [], []
                for x, z in pts:
                    o = [x + lean[0], y, z + lean[1]]
                    d = R.unit([x - o[0], -y, z - o[2]])
                    origins.append(o)
                    dirs.append([-v for v in d] if back else d)
                yield {"kind": "rays", "in": {"targets": [t], "idx": [0], "origins": [R.q(origins)], "dirs": [[R.q(dirs)]],
                                              "mags": [[[1_000_000] * len(pts)]], "W": 7, "H": 4}}
    yield from R.ray_cases(ctx, R.planar_target, ctx.pick(250, 2500), ctx.pick(60, 400), ctx.pick(200, 2000), R.cylinder_target)


run_case = R.run
