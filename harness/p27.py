"""Functions taken as real are real."""
import math

import numpy as np

from harness.common import any_mask, earth_data, flat, inst
from harness.p15 import arr, conj, lms
from harness.p19 import Draws, power
from harness.p29 import data, factor

META = dict(
    bounds="every function of the package at bandlimits 1..3 (quick) or 1..4: every set of Earth data and power spectrum, every mask, every parameter, "
    "smoothing factor, noise level and outcome of the random numbers, every set of wavelet generators, every point and every angle (bandlimit 2; Slepian functions of two polar caps, a gap, a box and a mask, bandlimits 2..3)",
    outside="larger bandlimits; noise which happens to be exactly zero",
    assumptions=["float64 arithmetic is treated as exact, compared with tolerance 1e-7", "pyssht is the real library, its rotations and harmonics are "
                 "those of their definitions", "a generator with a given seed answers the same numbers again", "pys2let answers any generators"],
)
SPHERE = ("Africa", "AxisymmetricWaveletCoefficientsAfrica", "AxisymmetricWaveletCoefficientsEarth", "AxisymmetricWaveletCoefficientsSouthAmerica",
          "AxisymmetricWavelets", "DiracDelta", "Earth", "ElongatedGaussian", "Gaussian", "HarmonicGaussian", "Identity", "NoiseEarth", "Ridgelets",
          "SouthAmerica", "SphericalHarmonic", "SquashedGaussian", "Wmap")
SLEPIAN = ("Slepian", "SlepianAfrica", "SlepianDiracDelta", "SlepianIdentity", "SlepianNoiseAfrica", "SlepianNoiseSouthAmerica", "SlepianSouthAmerica",
           "SlepianWaveletCoefficientsAfrica", "SlepianWaveletCoefficientsSouthAmerica", "SlepianWavelets")


def parameters(ctx, cls, L):
    """Any parameters of that function."""
    w = lambda n: ctx.real(n, 0.05, 100)  # noqa: E731
    if cls == "Gaussian":
        return dict(sigma=w("sigma"))
    if cls == "HarmonicGaussian":
        return dict(l_sigma=w("l_sigma"), m_sigma=w("m_sigma"))
    if cls == "ElongatedGaussian":
        return dict(t_sigma=w("t_sigma"), p_sigma=w("p_sigma"))
    if cls == "SquashedGaussian":
        return dict(t_sigma=w("t_sigma"), freq=w("freq"))
    if cls == "SphericalHarmonic":
        ell = ctx.choice("ell", L)
        return dict(ell=ell, m=ctx.choice("m", 2 * ell + 1) - ell)
    if cls == "NoiseEarth":
        return dict(SNR=ctx.real("SNR", -30, 30))
    if "Wavelet" in cls or cls == "Ridgelets":
        j = ctx.choice("j", 2)
        kw = dict(B=2, j_min=0, j=None if j == 0 or L == 1 else 0)
        return kw | (dict(spin=ctx.choice("spin", 2) * 2) if cls == "Ridgelets" and L > 2 else dict(spin=0) if cls == "Ridgelets" else {})
    return {}


def surroundings(ctx, L):
    """Any data, masks, wavelets and random numbers."""
    import pys2let

    flm = data(ctx, L, 1)
    earth_data(ctx, flm, ctx.array("cl", max(L, 3), lo=0.01, hi=10))
    for place in ("africa", "south_america"):
        from sleplet._data import setup_pooch

        from harness.common import sphere_grid

        mask = ctx.array(f"mask_{place}", sphere_grid(L)[0].shape, kind="b")
        setup_pooch.save_to_local(f"slepian_masks_{place}_L{L}.npy", mask)
    sizes = {}

    def generators(B, n, j_min):
        k = (int(n), int(j_min))
        if k not in sizes:
            s = pys2let.pys2let_j_max(B, n, j_min) - j_min + 1
            sizes[k] = ctx.array(f"scaling{n}_{j_min}", n), ctx.array(f"wavelets{n}_{j_min}", (n, s))
        return sizes[k][0].copy(), sizes[k][1].copy()

    ctx.patch(pys2let, "axisym_wav_l", generators)
    return flm


def is_real(ctx, c, L, msg):
    """Coefficients of a real field."""
    c = flat(c)
    ctx.check(len(c) == L * L, "as many coefficients")
    for i, (l, m) in enumerate(lms(L)):
        if m >= 0:
            ctx.close(arr(ctx, [c[l * l + l - m] + 0j]), arr(ctx, [(-1) ** m * conj(c[i] + 0j)]), msg, tol=1e-7, observe=False)


def claim(ctx, f, L, c, msg):
    """(only) a function flagged as real has to be."""
    if bool(f.reality):
        ctx.check(f.spin == 0, "functions with spin are not real")
        is_real(ctx, c, L, msg)


def made(ctx, make):
    try:
        return make()
    except ArithmeticError:
        raise
    except Exception as e:  # noqa: BLE001
        if type(e).__name__ == "NonFinite":  # outside: noise which happens to be exactly zero
            ctx.assume(False)
        raise


def sphere(ctx, cls, L, noise, smooth, act):
    import sleplet.functions as fs

    flm = surroundings(ctx, L)
    Draws(ctx)
    kw = parameters(ctx, cls, L)
    if smooth:
        kw |= factor(ctx, True)
    if noise:
        kw["noise"] = ctx.real("noise", -30, 30)
    if cls == "NoiseEarth" or noise:
        ctx.assume(power(flm[: L * L]) > 0.01)
    f = made(ctx, lambda: getattr(fs, cls)(L, **kw))
    ctx.check(f.spin == kw.get("spin", 0), "only ridgelets have spin, the one asked for")
    claim(ctx, f, L, f.coefficients, "a function taken as real is real")
    if f._unnoised_coefficients is not None:
        claim(ctx, f, L, f._unnoised_coefficients, "so is its signal")
    if act == "turn":
        r = f.rotate(ctx.angle("alpha", 0, 2 * math.pi), ctx.angle("beta", 0, math.pi), gamma=ctx.angle("gamma", 0, 2 * math.pi))
        claim(ctx, f, L, r, "turned, it still is")
        r = f.translate(ctx.angle("t_alpha", 0, 2 * math.pi), ctx.angle("t_beta", 0, math.pi))
        claim(ctx, f, L, r, "a translated function taken as real is real")
    elif act == "convolve":
        r = f.convolve(f.coefficients, ctx.array("g", L * L, kind="c"))
        claim(ctx, f, L, r, "a convolution taken as real is real")
    ctx.reach()


REGIONS = {
    "cap": lambda: dict(theta_max=1.9),
    "small cap": lambda: dict(theta_max=0.9),
    "gap": lambda: dict(theta_max=1.0, gap=True),
    "box": lambda: dict(theta_min=0.4, theta_max=1.7, phi_min=0.5, phi_max=3.4),
    "mask": lambda: dict(mask_name="africa"),
}


def slepian(ctx, cls, L, region=None):
    import sleplet.functions as fs
    from sleplet import slepian_methods as sm
    from sleplet.slepian.region import Region

    k = ctx.real("level", 0.5, 2)
    rng = np.random.default_rng(3)
    earth_data(ctx, arr(ctx, [k * x + 0j for x in rng.uniform(0.2, 1, (L + 1) ** 2).round(3).tolist()]))
    for place in ("africa", "south_america"):
        any_mask(place, L)
        any_mask(place, 2 * L)
    Draws(ctx)
    kw = dict(B=2, j_min=0, j=(None, 0, 1)[ctx.choice("j", 3)]) if "Wavelet" in cls else {}
    if cls == "Slepian":
        kw["rank"] = ctx.choice("rank", L * L)
    place = "africa" if cls.endswith("Africa") else "south_america"
    region = Region(**REGIONS[region]()) if region else Region(mask_name=place)
    f = made(ctx, lambda: getattr(fs, cls)(L, region=region, **kw))
    ctx.check(f.spin == 0, "Slepian functions have no spin")
    if bool(f.reality):
        field = sm.slepian_inverse(f.coefficients, L, f.slepian)
        for x in flat(field):
            x = x + 0j
            ctx.close(arr(ctx, [x.imag + 0.0], "f"), np.zeros(1), "a Slepian function taken as real is real", tol=1e-7, observe=False)
    ctx.reach()


def instances(tier):
    deep = tier == "thorough"
    out = []
    for cls in SPHERE:
        for L in (1, 2, 3) + ((4,) if deep else ()):
            if L == 1 and cls == "Ridgelets":
                continue
            out.append(inst(f"{cls} L{L}", "sphere", cls=cls, L=L, noise=False, smooth=False, act=None, weight=L**3))
        for act in ("turn", "convolve"):
            for L in (2,) + ((3,) if deep else ()):
                out.append(inst(f"{cls} L{L} {act}", "sphere", cls=cls, L=L, noise=False, smooth=False, act=act, weight=L**4))
    for cls in ("Earth", "Africa", "SouthAmerica", "DiracDelta"):
        for L in (1, 2) + ((3,) if deep else ()):
            out.append(inst(f"{cls} L{L} noise", "sphere", cls=cls, L=L, noise=True, smooth=False, act=None, weight=L**3))
    for cls in ("Earth", "Africa", "SouthAmerica", "NoiseEarth"):
        for L in (1, 2) + ((3,) if deep else ()):
            out.append(inst(f"{cls} L{L} smooth", "sphere", cls=cls, L=L, noise=False, smooth=True, act=None, weight=L**3))
    for cls in SLEPIAN:
        if cls.endswith(("Africa", "America")):
            out.append(inst(cls, "slepian", cls=cls, L=3, weight=20))
            continue
        for region in REGIONS:
            for L in (2, 3):
                out.append(inst(f"{cls} {region} L{L}", "slepian", cls=cls, L=L, region=region, weight=2 * L**2))
    return out
