"""The Slepian functions built for a region are those of that region."""
import math

import numpy as np

from harness.common import inst, object_solving, sphere_grid

PI = math.pi
META = dict(
    bounds="every region (all four limits symbolic, gap or not, named mask) at bandlimit 2",
    outside="larger bandlimits",
    assumptions=["float64 comparisons are treated as comparisons of exact reals"],
)
LIMITS = ["theta_min", "theta_max", "phi_min", "phi_max"]


def body(ctx, kind, gap, L=2):
    from sleplet import _string_methods
    from sleplet import slepian_methods as sm
    from sleplet._data import setup_pooch
    from sleplet.slepian.region import Region
    from sleplet.slepian.slepian_limit_lat_lon import SlepianLimitLatLon

    ctx.patch(_string_methods, "angle_as_degree", lambda r: "x")
    top = dict(theta_min=0.0, theta_max=PI, phi_min=0.0, phi_max=2 * PI)
    kw = dict(gap=gap)
    if kind == "polar":
        kw["theta_max"] = ctx.real("theta_max", 0.01, PI - 0.01)
    elif kind == "mask":
        kw["mask_name"] = "africa"
        t, p = sphere_grid(2 * L)
        setup_pooch.save_to_local(f"slepian_masks_africa_L{2 * L}.npy", (t <= 1.3) & (p < 3))
    else:
        for n in LIMITS:
            kw[n] = ctx.real(n, 0.01, 3 if n.startswith("theta") else 6)
        ctx.assume(ctx.And(kw["theta_min"] <= kw["theta_max"], kw["phi_min"] <= kw["phi_max"]))
    reg = Region(**kw)
    if ctx.symbolic:
        ctx.patch(SlepianLimitLatLon, "_slepian_integral", lambda self: np.zeros((4 * L - 3, 4 * L - 3), dtype=complex))
    s, A = object_solving(ctx, sm.choose_slepian_method, L, reg)
    want = {"polar": "SlepianPolarCap", "lim": "SlepianLimitLatLon", "mask": "SlepianArbitrary"}[kind]
    ctx.same(type(s).__name__, want, "kind of Slepian functions")
    ctx.same(s.L, L, "bandlimit")
    for n in LIMITS:
        ctx.close(getattr(s.region, n), kw.get(n, top[n]), f"{n} of the region solved", tol=1e-12)
        if hasattr(s, n):
            ctx.close(getattr(s, n), kw.get(n, top[n]), f"{n} of the functions", tol=1e-12)
    if kind == "polar":
        ctx.same(s.gap, gap, "gap flag")
        ctx.same(s.region.gap, gap, "gap flag of the region")
    if kind == "mask":
        ctx.same(s.mask_name, "africa", "mask")
        ctx.same(s.region.mask_name, "africa", "mask of the region")
    thetas, phis = sphere_grid(2 * L if kind == "mask" else L)
    ctx.check(np.shape(s.mask) == thetas.shape, "mask on the grid")
    ctx.reach()


def invalid(ctx):
    from sleplet import slepian_methods as sm
    from sleplet.slepian.region import Region

    reg = Region(theta_max=ctx.real("theta_max", 0.01, 3))
    reg._region_type = "other"
    err, _ = ctx.raises(Exception, sm.choose_slepian_method, 2, reg)
    ctx.check(isinstance(err, ValueError), "an unknown kind of region is rejected")
    ctx.reach()


def instances(tier):
    out = [inst(f"{k} gap={g}", "body", kind=k, gap=g, branch_ms=500) for k in ("polar", "lim", "mask") for g in (False, True)]
    return out + [inst("unknown", "invalid")]
