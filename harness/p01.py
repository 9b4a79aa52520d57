"""Region classification and range checks."""
import math

from harness.common import inst

PI = math.pi
META = dict(
    bounds="every real angle in [-10, 10] rad for the four limits (not only valid ones), both gap settings, "
    "mask name empty or not",
    outside="angles beyond +-10 rad, NaN",
    assumptions=["float64 comparisons are treated as comparisons of exact reals"],
)


def build(ctx, lo, hi, gap, mask, give):
    from sleplet.slepian.region import Region

    kw = {}
    d = dict(phi_min=0.0, phi_max=2 * PI, theta_min=0.0, theta_max=PI)
    for n in give:
        d[n] = kw[n] = ctx.real(n, lo, hi)
    if gap is not None:
        kw["gap"] = gap
    if mask:
        kw["mask_name"] = mask
    return d, ctx.raises(Exception, Region, **kw)


def classify(ctx, lo, hi, gap, mask, give):
    import pydantic

    d, (err, reg) = build(ctx, lo, hi, gap, mask, give)
    pm, px, tm, tx = d["phi_min"], d["phi_max"], d["theta_min"], d["theta_max"]
    valid = ctx.And(pm >= 0, pm <= 2 * PI, px >= 0, px <= 2 * PI, tm >= 0, tm <= PI, tx >= 0, tx <= PI)
    polar = ctx.And(pm == 0, px == 2 * PI, tm == 0, ctx.Not(tx == PI))
    lim = ctx.Or(ctx.Not(pm == 0), ctx.Not(px == 2 * PI), ctx.Not(tm == 0))
    if err is not None:
        if isinstance(err, pydantic.ValidationError):
            ctx.check(ctx.Not(valid), "angles in range are accepted")
        else:
            # nothing specified at all
            ctx.check(isinstance(err, AttributeError), f"unexpected error {type(err).__name__}: {err}")
            ctx.check(
                ctx.And(valid, ctx.Not(polar), ctx.Not(lim), not mask), "only a fully default region without mask fails"
            )
        ctx.reach()
        return
    ctx.check(valid, "out of range angles are rejected")
    t = reg._region_type
    ctx.check(t in ("polar", "lim_lat_lon", "arbitrary"), f"region type {t!r}")
    if t == "polar":
        ctx.check(polar, "polar region only when just theta_max is set")
    elif t == "lim_lat_lon":
        ctx.check(ctx.And(lim, ctx.Not(polar)), "limited region only when another limit is set")
    else:
        ctx.check(ctx.And(ctx.Not(lim), ctx.Not(polar), bool(mask)), "mask used only when every angle is default")
    for n in d:
        ctx.check(getattr(reg, n) == d[n], f"{n} is kept")
    ctx.reach()


def assign(ctx, field, lo, hi):
    """Range checks also hold when a field is reassigned later."""
    import pydantic

    from sleplet.slepian.region import Region

    r = Region(theta_max=1.0)
    v = ctx.real("v", lo, hi)
    top = 2 * PI if field.startswith("phi") else PI
    err, _ = ctx.raises(pydantic.ValidationError, setattr, r, field, v)
    ok = ctx.And(v >= 0, v <= top)
    if err is not None:
        ctx.check(ctx.Not(ok), f"assignment of a valid {field} accepted")
    else:
        ctx.check(ok, f"assignment of an invalid {field} rejected")
    ctx.reach()


def instances(tier):
    out = []
    full = ["phi_min", "phi_max", "theta_min", "theta_max"]
    gives = [full, ["theta_max"], ["theta_min"], ["phi_max"], ["phi_min"], ["theta_min", "theta_max"],
             ["phi_min", "phi_max"], ["theta_max", "phi_max"], []]
    for give in gives:
        for gap in ((None, True) if tier == "quick" else (None, True, False)):
            for mask in ("", "africa"):
                out.append(inst(f"{'+'.join(give) or 'none'}/gap={gap}/mask={mask or '-'}", "classify", lo=-10, hi=10, gap=gap,
                                mask=mask, give=give))
    for f in full:
        out.append(inst(f"assign {f}", "assign", field=f, lo=-10, hi=10))
    return out
