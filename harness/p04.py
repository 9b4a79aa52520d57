"""Shannon number of a region."""
import math

import numpy as np

from harness.common import flat, inst, object_solving

PI = math.pi
META = dict(
    bounds="every opening angle of a cap, every opening angle up to pi/2 of a gap, every rectangle, every mask on the grid; "
    "bandlimits 1..6 (quick) or 1..8 (thorough), masks for bandlimits 1..2",
    outside="larger bandlimits, areas within 1e-9 of a rounding boundary",
    assumptions=["float64 arithmetic is treated as exact, compared with tolerance 1e-9"],
)


def check_n(ctx, N, area, L):
    x = area * (L * L / (4 * PI))
    ctx.check(ctx.And(N - x <= 0.5 + 1e-9, x - N <= 0.5 + 1e-9), "Shannon number is the rounded area fraction times L^2")


def names(ctx):
    from sleplet import _string_methods

    ctx.patch(_string_methods, "angle_as_degree", lambda r: "x")


def cap(ctx, L, gap, order):
    from sleplet.slepian.slepian_polar_cap import SlepianPolarCap

    names(ctx)
    t = ctx.angle("theta_max", 0.001, PI / 2 if gap else PI - 0.001)
    s, _ = object_solving(ctx, SlepianPolarCap, L, t, gap=gap, order=order)
    check_n(ctx, s.N, (2 if gap else 1) * 2 * PI * (1 - ctx.cos(t)), L)
    ctx.check(ctx.And(s.N >= 0, s.N <= L * L), "Shannon number between 0 and L^2")
    ctx.reach()


def lim(ctx, L, which):
    from harness.p06 import full, limits
    from sleplet.slepian.slepian_limit_lat_lon import SlepianLimitLatLon

    names(ctx)
    d = limits(ctx, which)
    if ctx.symbolic:
        # the matrix is decided elsewhere: only the number is needed here
        ctx.patch(SlepianLimitLatLon, "_slepian_integral",
                  lambda self: np.zeros((4 * L - 3, 4 * L - 3), dtype=complex))
    s, _ = object_solving(ctx, SlepianLimitLatLon, L, **d)
    tm, tx, pm, px = full(d)
    check_n(ctx, s.N, (px - pm) * (ctx.cos(tm) - ctx.cos(tx)), L)
    ctx.reach()


def arbitrary(ctx, L):
    import pyssht as ssht

    from sleplet._data import setup_pooch
    from sleplet.slepian.slepian_arbitrary import SlepianArbitrary

    res = 2 * L
    thetas, phis = ssht.sample_positions(res, Grid=True, Method="MWSS")
    thetas, phis = np.asarray(thetas, dtype=float), np.asarray(phis, dtype=float)
    mask = ctx.array("mask", thetas.shape, kind="b")
    setup_pooch.save_to_local(f"slepian_masks_africa_L{res}.npy", mask)
    if ctx.symbolic:
        ctx.patch(SlepianArbitrary, "_matrix_helper", lambda self, a, b, i: None)
    s, _ = object_solving(ctx, SlepianArbitrary, L, "africa")
    # quadrature weights: spacing of the grid times sin(theta)
    nt, np_ = thetas.shape
    w = np.sin(thetas) * (PI / (nt - 1)) * (2 * PI / np_)
    area = 0.0
    for m, x in zip(flat(mask), w.ravel()):
        area = area + ctx.ite(m, float(x), 0.0)
    x = area * (L * L / (4 * PI))
    ctx.check(ctx.And(s.N - x <= 0.5 + 1e-9, x - s.N <= 0.5 + 1e-9), "Shannon number is the rounded area fraction times L^2")
    ctx.reach()


def instances(tier):
    out = []
    for L in range(1, 7 if tier == "quick" else 9):
        for gap in (False, True):
            for order in (None, 0) if L == 2 else (0,):
                out.append(inst(f"{'gap' if gap else 'cap'} L{L} order={order}", "cap", L=L, gap=gap, order=order, weight=L))
        if L <= 4:
            for which in ("t", "p", "tp"):
                out.append(inst(f"lim {which} L{L}", "lim", L=L, which=which, weight=L))
        if L <= 2:
            out.append(inst(f"arbitrary L{L}", "arbitrary", L=L, weight=5))
    return out
