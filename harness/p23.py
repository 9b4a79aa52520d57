"""Normalisation of plotted fields."""
import numpy as np

from harness.common import flat, inst

META = dict(
    bounds="fields of 2..6 samples, every value in [-1e6, 1e6] (quick: up to 4 samples)",
    outside="larger fields, rounding of float64, NaN and infinities",
    assumptions=["float64 arithmetic is treated as exact real arithmetic, compared with tolerance 1e-6"],
)


def body(ctx, shape, scale):
    from sleplet import plot_methods as pm

    f = ctx.array("f", shape, lo=-scale, hi=scale)
    vals = flat(f)
    allzero = ctx.And(*[v == 0 for v in vals])
    g = pm._normalise_function(f, normalise=True)
    out = flat(g)
    ctx.check(np.shape(g) == tuple(shape), "shape of the normalised field")
    if ctx.is_true(allzero):
        for o in out:
            ctx.check(o == 0.5, "an all zero field is plotted at 0.5")
        ctx.reach()
        return
    for o in out:
        ctx.check(ctx.And(o >= -1e-9, o <= 1 + 2e-5), "normalised value in [0, 1]")
    const = ctx.And(*[v == vals[0] for v in vals[1:]])
    if ctx.is_true(const):
        for o in out:
            ctx.check(ctx.And(o >= 1 - 1e-9, o <= 1 + 1e-9), "constant non zero field is plotted at 1")
        ctx.reach()
        return
    # more than rounding apart: the map is affine, sends the smallest value to 0 and the largest to 1
    for i, v in enumerate(vals):
        far_max = ctx.And(*[v >= w for w in vals])
        far_min = ctx.And(*[v <= w for w in vals])
        spread = ctx.Or(*[ctx.Or(v - w > 1e-4 * abs(v), w - v > 1e-4 * abs(v)) for w in vals])
        ctx.check(ctx.Or(ctx.Not(far_max), ctx.And(out[i] >= 1 - 1e-9, out[i] <= 1 + 2e-5)), "maximum maps to 1")
        ctx.check(
            ctx.Or(ctx.Not(far_min), ctx.Not(spread), ctx.And(out[i] >= -1e-9, out[i] <= 1e-9)), "minimum maps to 0"
        )
    ctx.reach()


def off(ctx, shape):
    from sleplet import plot_methods as pm

    f = ctx.array("f", shape, lo=-1e6, hi=1e6)
    g = pm._normalise_function(f, normalise=False)
    ctx.close(g, f, "normalisation switched off changes nothing", tol=1e-9)
    ctx.reach()


def instances(tier):
    out = [inst("off", "off", shape=[2, 3])]
    shapes = [[1, 2], [3, 1]] + ([[2, 2], [2, 3]] if tier == "thorough" else [])
    for sh in shapes:
        for sc in (1.0, 1e6, 1e-7):
            out.append(inst(f"on{sh}x{sc:g}", "body", shape=sh, scale=sc))
    return out
