"""Region masks on the sample grid and masking of signals."""
import math

import numpy as np

from harness.common import flat, inst

PI = math.pi
META = dict(
    bounds="every real limit in range; grids of bandlimits 1..6 (quick) or 1..8 (thorough); masked signals of bandlimit up to 3 "
    "with every coefficient in [-1, 1]",
    outside="larger grids",
    assumptions=["float64 comparisons are treated as comparisons of exact reals",
                 "the spherical harmonic transforms are modelled as the linear maps the library implements"],
)


def grid(L):
    import pyssht as ssht

    t, p = ssht.sample_positions(L, Grid=True, Method="MWSS")
    return np.asarray(t, dtype=float), np.asarray(p, dtype=float)


def mask(ctx, L, kind):
    from sleplet import _mask_methods as mm
    from sleplet.slepian.region import Region

    thetas, phis = grid(L)
    if kind in ("cap", "gap"):
        tx = ctx.real("theta_max", 0, PI)
        ctx.assume(tx < PI)
        reg = Region(theta_max=tx, gap=kind == "gap")
        inside = lambda t, p: ctx.Or(t <= tx, ctx.And(kind == "gap", t >= PI - tx))
        lim = [t - tx for t in set(thetas.ravel())] + [t - (PI - tx) for t in set(thetas.ravel())]
    else:
        tm, tx = ctx.real("theta_min", 0, PI), ctx.real("theta_max", 0, PI)
        pm, px = ctx.real("phi_min", 0, 2 * PI), ctx.real("phi_max", 0, 2 * PI)
        ctx.assume(ctx.Or(tm > 0, pm > 0, px < 2 * PI))
        reg = Region(theta_min=tm, theta_max=tx, phi_min=pm, phi_max=px)
        inside = lambda t, p: ctx.And(t >= tm, t <= tx, p >= pm, p <= px)
        lim = []
    if not ctx.symbolic and any(0 < abs(d) < 1e-12 for d in lim):
        ctx.assume(False)
    if ctx.is_true(ctx.Not(reg._region_type == ("lim_lat_lon" if kind == "lim" else "polar"))):
        # a cap written as a limited region
        ctx.check(kind == "lim", "region type")
    m = mm.create_mask_region(L, reg)
    ctx.check(np.shape(m) == thetas.shape, "the mask has the shape of the grid")
    for got, t, p in zip(flat(m), thetas.ravel(), phis.ravel()):
        want = inside(float(t), float(p))
        ctx.check(ctx.Or(ctx.And(got != 0, want), ctx.And(got == 0, ctx.Not(want))), "sample marked exactly when in the region")
    ctx.reach()


def masked(ctx, L, region, reality, spin):
    import pyssht as ssht

    from sleplet import _mask_methods as mm
    from sleplet.slepian.region import Region

    flm = ctx.array("flm", L * L, kind="c")
    if reality:
        for el in range(L):
            flm[el * el + el] = flm[el * el + el].real
            for m in range(1, el + 1):
                flm[el * el + el - m] = (-1) ** m * np.conj(flm[el * el + el + m])
    for i in range(min(spin * spin, L * L)):
        flm[i] = 0
    reg = Region(**region)
    before = flm.copy()
    got = mm.ensure_masked_flm_bandlimited(flm, L, reg, reality=reality, spin=spin)
    ctx.close(flm, before, "the input is left alone", tol=1e-12)
    thetas, phis = grid(L)
    if reg._region_type == "polar":
        inside = thetas <= region["theta_max"]
        if region.get("gap"):
            inside = inside | (thetas >= PI - region["theta_max"])
    else:
        inside = ((thetas >= region.get("theta_min", 0)) & (thetas <= region.get("theta_max", PI))
                  & (phis >= region.get("phi_min", 0)) & (phis <= region.get("phi_max", 2 * PI)))
    inv, fwd = (ssht.inverse, ssht.forward) if not ctx.symbolic else (mm.ssht.inverse, mm.ssht.forward)
    f = inv(flm, L, Method="MWSS", Reality=reality, Spin=spin)
    f = f * inside.astype(float)
    want = fwd(f, L, Method="MWSS", Reality=reality, Spin=spin)
    ctx.close(got, want, "coefficients of the masked signal", tol=1e-7)
    ctx.reach()


def instances(tier):
    out = []
    for L in range(1, 7 if tier == "quick" else 9):
        for kind in ("cap", "gap", "lim"):
            if kind == "lim" and L > 4:
                continue
            out.append(inst(f"mask {kind} L{L}", "mask", L=L, kind=kind, weight=L, max_paths=50))
    regs = [dict(theta_max=1.0), dict(theta_max=1.2, gap=True), dict(theta_min=0.5, theta_max=2.2, phi_min=0.3, phi_max=3.3)]
    for i, r in enumerate(regs):
        for L in (1, 2, 3):
            for reality, spin in ((True, 0), (False, 0), (False, 1)):
                if spin and L < 2:
                    continue
                out.append(inst(f"masked signal {i} L{L} real={reality} spin={spin}", "masked", L=L, region=r,
                                reality=reality, spin=spin, weight=L))
    return out
