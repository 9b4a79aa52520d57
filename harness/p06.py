"""Concentration matrix of a limited latitude longitude region."""
import math

import numpy as np

from harness.common import EighStub, inst, matrix_solved, rect_integral

PI = math.pi
META = dict(
    bounds="every rectangle (all four limits symbolic) for bandlimits 1..4 (both latitudes and longitudes: 1..3)",
    outside="larger bandlimits, rounding of float64 beyond 1e-7",
    assumptions=[
        "eigh is modelled by its contract",
        "float64 arithmetic is treated as exact, compared with tolerance 1e-7",
        "numba's compiled loop computes what its Python source says",
    ],
)


def limits(ctx, which):
    d = {}
    if "t" in which:
        d["theta_min"] = ctx.angle("theta_min", 0, PI)
        d["theta_max"] = ctx.angle("theta_max", 0, PI)
        ctx.assume(ctx.And(d["theta_min"] > 0.01, d["theta_max"] >= d["theta_min"]))
    if "p" in which:
        d["phi_min"] = ctx.angle("phi_min", 0, 2 * PI)
        d["phi_max"] = ctx.angle("phi_max", 0, 2 * PI)
        ctx.assume(ctx.And(d["phi_min"] > 0.01, d["phi_max"] >= d["phi_min"]))
    return d


def full(d):
    return (d.get("theta_min", 0.0), d.get("theta_max", PI), d.get("phi_min", 0.0), d.get("phi_max", 2 * PI))


def matrix(ctx, L, which):
    from sleplet.slepian.slepian_limit_lat_lon import SlepianLimitLatLon

    d = limits(ctx, which)
    from sleplet import _string_methods

    # names play no part here (and would split the paths on whole degrees)
    ctx.patch(_string_methods, "angle_as_degree", lambda r: "x")
    K = matrix_solved(ctx, SlepianLimitLatLon, L, **d)
    ctx.check(np.shape(K) == (L * L, L * L), "size of the matrix")
    want = [[None] * (L * L) for _ in range(L * L)]
    for i in range(L * L):
        l = math.isqrt(i)
        m = i - l * l - l
        for j in range(L * L):
            p = math.isqrt(j)
            q = j - p * p - p
            want[i][j] = rect_integral(ctx, l, m, p, q, *full(d))
    ctx.close(K, ctx.arr(want, "c") if ctx.symbolic else np.array(want, dtype=complex), "concentration matrix", tol=1e-7)
    ctx.reach()


def instances(tier):
    out = []
    for L in range(1, 5):
        for which in ("t", "p", "tp"):
            if which == "tp" and L > 3:
                continue
            out.append(inst(f"L{L} {which}", "matrix", L=L, which=which, weight=L * L))
    return out
