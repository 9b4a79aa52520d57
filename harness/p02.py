"""The default region, read from the environment in degrees."""
import math
import os

from harness.common import inst

PI = math.pi
META = dict(
    bounds="every whole number of degrees in [-20, 380] for each limit given, limits left out, the usual spellings of the gap flag",
    outside="values that are not whole numbers",
    assumptions=["float64 comparisons are treated as comparisons of exact reals"],
)
VARS = {"phi_min": ("PHI_MIN", 0), "phi_max": ("PHI_MAX", 360), "theta_min": ("THETA_MIN", 0), "theta_max": ("THETA_MAX", 180)}


def body(ctx, give, gap, mask):
    import pydantic

    from sleplet import _mask_methods

    env = {k: v for k, v in os.environ.items()
           if k not in ("PHI_MIN", "PHI_MAX", "THETA_MIN", "THETA_MAX", "POLAR_GAP", "SLEPIAN_MASK")}
    deg = {}
    for n, (var, dflt) in VARS.items():
        deg[n] = dflt
        if n in give:
            if give[n] == "sym":
                deg[n] = ctx.int(n, -20, 380)
                # the largest angle is exercised by "text" (its conversion is rounded in float64)
                ctx.assume(deg[n] != (360 if n.startswith("phi") else 180))
            env[var] = ctx.text(deg[n])
    if gap is not None:
        env["POLAR_GAP"] = gap
    if mask is not None:
        env["SLEPIAN_MASK"] = mask
    ctx.patch(os, "environ", env)
    err, reg = ctx.raises(pydantic.ValidationError, _mask_methods.create_default_region)
    ok = ctx.And(*[ctx.And(deg[n] >= 0, deg[n] <= (360 if n.startswith("phi") else 180)) for n in deg])
    if err is not None:
        ctx.check(ctx.Not(ok), "angles in range are accepted")
        ctx.reach()
        return
    ctx.check(ok, "angles out of range are rejected")
    for n in deg:
        ctx.close(getattr(reg, n), deg[n] * (PI / 180), f"{n} in radians", tol=1e-9)
    ctx.same(reg.gap, gap is not None and gap.lower() == "true", "gap flag")
    polar = ctx.And(deg["phi_min"] == 0, deg["phi_max"] == 360, deg["theta_min"] == 0, deg["theta_max"] != 180)
    alld = ctx.And(deg["phi_min"] == 0, deg["phi_max"] == 360, deg["theta_min"] == 0, deg["theta_max"] == 180)
    t = reg._region_type
    ctx.check({"polar": polar, "arbitrary": alld, "lim_lat_lon": ctx.Not(ctx.Or(polar, alld))}.get(t, False),
              f"type {t} of the default region")
    ctx.same(reg.mask_name, mask if mask is not None else "south_america", "mask of the default region")
    ctx.reach()


def instances(tier):
    out = []
    names = list(VARS)
    sets = [{}] + [{n: "sym"} for n in names] + [{n: "text"} for n in names]
    sets += [dict.fromkeys(names, "sym"), dict.fromkeys(names, "text"), dict(theta_min="sym", theta_max="sym"),
             dict(phi_min="sym", phi_max="sym"), dict(theta_max="sym", phi_min="text", phi_max="text", theta_min="text")]
    for give in sets:
        few = tier == "quick" and give not in ({}, dict(theta_max="sym"))
        for gap in (None, "TRUE") if few else (None, "true", "TRUE", "False"):
            for mask in ((None, "africa") if (gap is None and not few) or tier == "thorough" else (None,)):
                label = "+".join(f"{k}:{v}" for k, v in give.items()) or "none"
                out.append(inst(f"{label}/gap={gap}/mask={mask}", "body", give=give, gap=gap, mask=mask,
                                branch_ms=400, weight=len(give)))
    return out
