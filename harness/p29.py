"""The topographic map of the Earth, its continents, and the cosmic microwave background."""
import math

import numpy as np

from harness.common import any_mask, earth_data, flat, inst, library, sphere_grid
from harness.p15 import arr, conj, lms
from harness.p19 import Draws
from harness.p19 import judge as judge_noise

VIEW = dict(africa=(44, 87, 341), south_america=(54, 108, 63))
RANGE = dict(africa=41, south_america=40)
META = dict(
    bounds="every set of Earth data of bandlimit 1..5 (quick) or 1..7, every smoothing factor in 1..1000, every mask; masks created at bandlimits 1 and 5 (every map) and 22 (every level of a constant map), thorough also 6, 7 and 40; "
    "every power spectrum of the cosmic microwave background in [0.01, 10] of bandlimits 1..5 (quick) or 1..6 and every outcome of the random numbers",
    outside="larger bandlimits; the contents of the data files; samples within 1e-7 of sea level",
    assumptions=["float64 arithmetic is treated as exact, compared with tolerance 1e-7", "pyssht is the real library (its transforms and rotations are applied "
                 "as linear maps), its Gaussian smoothing multiplies degree l by exp(-l^2 sigma^2)", "a generator with a given seed answers the same numbers again"],
)


def data(ctx, L, more=1):
    """Any data of at least that bandlimit; orders of zero are real (as for every map)."""
    out = []
    for i, (l, m) in enumerate(lms(L + more)):
        out.append(ctx.real(f"flm{i}", -1, 1) + 0j if m == 0 else ctx.cplx(f"flm{i}"))
    flm = arr(ctx, out)
    earth_data(ctx, flm)
    return flm


def level(ctx, L):
    """A sea or a land of any level."""
    flm = arr(ctx, [ctx.real("level", -1, 1) + 0j] + [0j] * (L * L - 1))
    earth_data(ctx, flm)
    return flm


def earth(ctx, L, flm, smoothing=None):
    out = []
    for l, m in lms(L):
        x = flm[l * l + l + abs(m)]
        x = conj(x) if m >= 0 else (-1) ** m * x
        if smoothing is not None and l:
            s = math.pi / (smoothing * L)
            x = x * ctx.exp(-(l * l) * s * s)
        out.append(x + 0j)
    return arr(ctx, out)


def factor(ctx, smooth):
    if not smooth:
        return {}
    return dict(smoothing=ctx.int("smoothing", 1, 1000))


def globe(ctx, L, smooth, more):
    import sleplet.functions as fs

    flm = data(ctx, L, more)
    kw = factor(ctx, smooth)
    f = fs.Earth(L, **kw)
    ctx.check(np.shape(f.coefficients) == (L * L,), "as many coefficients")
    ctx.close(f.coefficients, earth(ctx, L, flm, kw.get("smoothing")), "coefficients of the Earth", tol=1e-7, observe=not smooth)
    f = fs.Earth(L, **kw)
    ctx.close(f.coefficients, earth(ctx, L, flm, kw.get("smoothing")), "the same again", tol=1e-7, observe=False)
    ctx.reach()


def turned(ctx, name, x, L):
    import pyssht

    return library(ctx, pyssht).rotate_flms(x, *[float(np.deg2rad(a)) for a in VIEW[name]], L)


def field(ctx, name, L, flm, smoothing=None):
    import pyssht

    x = turned(ctx, name, earth(ctx, L, flm, smoothing), L)
    return library(ctx, pyssht).inverse(x, L, Method="MWSS", Reality=True)


def view(ctx, L, place):
    from sleplet import harmonic_methods as hm

    x = ctx.array("flm", L * L, kind="c")
    x0 = x.copy()
    got = getattr(hm, f"rotate_earth_to_{place}")(x, L)
    ctx.close(got, turned(ctx, place, x0, L), "the Earth turned to the continent", tol=1e-7, observe=False)
    ctx.close(x, x0, "coefficients untouched", tol=1e-9)
    ctx.reach()


def continent(ctx, L, place, smooth):
    """With a mask at hand."""
    import pyssht

    import sleplet.functions as fs
    from sleplet._data import setup_pooch

    flm = data(ctx, L)
    shape = sphere_grid(L)[0].shape
    mask = ctx.array("mask", shape, kind="b")
    setup_pooch.save_to_local(f"slepian_masks_{place}_L{L}.npy", mask)
    kw = factor(ctx, smooth)
    f = getattr(fs, "Africa" if place == "africa" else "SouthAmerica")(L, **kw)
    e = field(ctx, place, L, flm, kw.get("smoothing"))
    want = arr(ctx, [ctx.ite(b, x + 0.0, 0.0) for b, x in zip(flat(mask), flat(e))], "f").reshape(shape)
    want = library(ctx, pyssht).forward(want, L, Method="MWSS", Reality=True)
    ctx.close(f.coefficients, want, "coefficients of the continent", tol=1e-7, observe=False)
    ctx.reach()


def created(ctx, L, place, via, few=False):
    """The mask of the continent, made from the Earth."""
    from sleplet import _mask_methods as mm
    from sleplet.slepian.region import Region

    flm = data(ctx, L, 0) if not few else level(ctx, L)
    if via == "region":
        got = mm.create_mask_region(L, Region(mask_name=place))
    else:
        got = mm.create_mask(L, f"{place}_L{L}.npy")
    t, _ = sphere_grid(L)
    ctx.check(np.shape(got) == t.shape, "one value for each sample")
    inside = t <= np.deg2rad(RANGE[place])
    e = field(ctx, place, L, flm)
    for ij in np.ndindex(t.shape):
        g = got[ij]
        if not inside[ij]:
            ctx.check(ctx.Not(g), "nothing far from the centre is in the mask")
            continue
        ctx.check(ctx.Or(ctx.Not(g), e[ij] >= -1e-7), "the sea is not in the mask")
        ctx.check(ctx.Or(g, e[ij] <= 1e-7), "the land is in the mask")
    again = mm.create_mask_region(L, Region(mask_name=place))
    for a, b in zip(flat(again), flat(got)):
        ctx.check(ctx.Or(ctx.And(a, b), ctx.And(ctx.Not(a), ctx.Not(b))), "the same mask again")
    ctx.reach()


def unknown(ctx):
    from sleplet import _mask_methods as mm

    data(ctx, 2)
    k = ctx.choice("name", 3)
    e, _ = ctx.raises(ValueError, mm.create_mask, 2, ["asia_L2.npy", "africa_L3.npy", "south_america"][k])
    ctx.check(e is not None, "an unknown mask is rejected")
    ctx.reach()


def cmb(ctx, L):
    import sleplet.functions as fs

    cl = ctx.array("cl", max(L, 3), lo=0.01, hi=10)
    earth_data(ctx, np.zeros(4, dtype=complex), cl)
    if L < 3:
        f = fs.Wmap(L)
        ctx.close(f.coefficients, np.zeros(L * L), "nothing below degree 2", tol=1e-9)
        ctx.reach()
        return
    d = Draws(ctx)

    def var(i, j):
        l = math.isqrt(i)
        return cl[l - 2] * (2 * math.pi / (l * (l + 1))) if i == j and l > 1 else 0.0

    n = judge_noise(ctx, d, lambda: fs.Wmap(L).coefficients, var)
    ctx.check(np.shape(n) == (L * L,), "as many coefficients")
    for i, (l, m) in enumerate(lms(L)):
        ctx.close(arr(ctx, [n[l * l + l - m] + 0j]), arr(ctx, [(-1) ** m * conj(n[i] + 0j)]), "a real map", tol=1e-7, observe=False)
    ctx.reach()


def instances(tier):
    deep = tier == "thorough"
    out = []
    for L in (1, 2, 3, 4, 5) + ((6, 7) if deep else ()):
        for smooth in (False, True):
            out.append(inst(f"earth L{L} smooth{int(smooth)}", "globe", L=L, smooth=smooth, more=1, weight=L**2))
    out.append(inst("earth L3 exact", "globe", L=3, smooth=False, more=0))
    for name in VIEW:
        for L in (1, 2, 3, 4, 5) + ((6,) if deep else ()):
            out.append(inst(f"view {name} L{L}", "view", L=L, place=name, weight=L**3))
        for L in (1, 2, 3) + ((4,) if deep else ()):
            for smooth in (False, True):
                out.append(inst(f"{name} L{L} smooth{int(smooth)}", "continent", L=L, place=name, smooth=smooth, weight=L**4))
        for L in (1, 5) + ((6, 7) if deep else ()):
            out.append(inst(f"mask {name} L{L}", "created", L=L, place=name, via="region" if L % 2 else "name", weight=L**3))
        # rings of samples between the two ranges, and close to them
        for L in (22,) + ((40,) if deep else ()):
            out.append(inst(f"mask {name} L{L}", "created", L=L, place=name, via="region", few=True, weight=L**3))
    out.append(inst("unknown", "unknown"))
    for L in (1, 2, 3, 4, 5) + ((6,) if deep else ()):
        out.append(inst(f"cmb L{L}", "cmb", L=L, weight=L**4))
    return out
