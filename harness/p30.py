"""Requests which do not fit are refused, those which fit are taken."""
import math

import numpy as np

from harness.common import EighStub, any_mask, earth_data, inst, sphere_grid, small_mesh
from harness.p18 import earth_flm
from harness.p19 import Draws
from harness.p22 import record

META = dict(
    bounds="lists of 1..5 extra arguments with any values in [-1000, 1000]; every opening angle, order up to twice the bandlimit and signal-to-noise ratio in [-50, 50]; "
    "bandlimits 1..4, a mesh of four vertices",
    outside="empty lists of extra arguments",
    assumptions=["float64 arithmetic is treated as exact"],
)
PLAIN = dict(Africa=0, SouthAmerica=0, Earth=0, Wmap=0, Identity=0, DiracDelta=0, NoiseEarth=1, AxisymmetricWavelets=3, AxisymmetricWaveletCoefficientsEarth=3,
             AxisymmetricWaveletCoefficientsAfrica=3, AxisymmetricWaveletCoefficientsSouthAmerica=3, Ridgelets=4, Gaussian=1, HarmonicGaussian=2,
             ElongatedGaussian=2, SquashedGaussian=2, SphericalHarmonic=2)
SLEPIAN = dict(Slepian=1, SlepianIdentity=0, SlepianDiracDelta=0, SlepianWavelets=3)
LAND = dict(SlepianAfrica=0, SlepianSouthAmerica=0, SlepianNoiseAfrica=1, SlepianNoiseSouthAmerica=1, SlepianWaveletCoefficientsAfrica=3,
            SlepianWaveletCoefficientsSouthAmerica=3)
MESH = dict(MeshBasisFunctions=1, MeshField=0, MeshNoiseField=1, MeshSlepianField=0, MeshSlepianFunctions=1, MeshSlepianNoiseField=1, MeshSlepianWavelets=3,
            MeshSlepianWaveletCoefficients=3)
LANDS = ("africa", "south_america")


def data(ctx, L):
    earth_data(ctx, earth_flm((2 * L + 2) ** 2), np.ones(64))
    for name in LANDS:
        any_mask(name, L)
        any_mask(name, 2 * L)


def land(cls):
    return "africa" if cls.endswith("Africa") else "south_america"


def maker(ctx, cls, L):
    """Makes the function from its parameters."""
    import sleplet.functions as fs
    import sleplet.meshes as ms
    from sleplet.slepian.region import Region

    if cls in MESH:
        m, _ = small_mesh(ctx, 3, pairs=[])
        EighStub(ctx, by_size=True)
        return lambda **k: getattr(ms, cls)(m, **k)
    data(ctx, L)
    if cls in PLAIN:
        return lambda **k: getattr(fs, cls)(L, **k)
    region = Region(theta_max=1.3) if cls in SLEPIAN else Region(mask_name=land(cls))
    return lambda **k: getattr(fs, cls)(L, region=region, **k)


def number(ctx, cls, L, takes):
    """Lists of another length are refused."""
    make = maker(ctx, cls, L)
    n = ctx.choice("n", 5) + 1
    if n == takes:
        ctx.assume(False)
    args = [ctx.int(f"x{i}", -1000, 1000) for i in range(n)]
    err, _ = ctx.raises(Exception, lambda: make(extra_args=args))
    ctx.check(err is not None, f"{cls} takes {takes} extra arguments, not {n}")
    ctx.check(err is None or isinstance(err, (ValueError, TypeError)), "refused as a wrong value or type")
    ctx.reach()


def snr(ctx, cls, L):
    """The level of noise, given as an extra argument, is the one asked for."""
    make = maker(ctx, cls, L)
    Draws(ctx)
    x = ctx.int("snr", -50, 50)
    try:
        a = make(extra_args=[x])
        b = make(SNR=x)
    except Exception as e:  # noqa: BLE001
        if type(e).__name__ == "NonFinite":  # noise which happens to be exactly zero
            ctx.assume(False)
        raise
    ctx.check(a.SNR == x, "the level asked for")
    ctx.close(a.coefficients, b.coefficients, "as if given by name", tol=1e-9, observe=False)
    ctx.reach()


def region(ctx, cls, L):
    """Functions of a land are those of its region only."""
    import sleplet.functions as fs
    from sleplet.slepian.region import Region

    data(ctx, L)
    any_mask("island", L)
    any_mask("island", 2 * L)
    Draws(ctx)
    k = ctx.choice("region", 6)
    if k < 3:
        name = (*LANDS, "island")[k]
        r = Region(mask_name=name)
    else:
        name = "south_america" if k == 5 else None  # the default region
        r = None if k == 5 else Region(theta_max=1.0, gap=True) if k == 3 else Region(theta_min=0.4, phi_max=2.0)
    kw = dict(B=2, j_min=0) if "Wavelet" in cls else {}
    try:
        err, f = ctx.raises(Exception, lambda: getattr(fs, cls)(L, region=r, **kw))
    except Exception as e:  # noqa: BLE001
        if type(e).__name__ == "NonFinite":
            ctx.assume(False)
        raise
    if type(err).__name__ == "NonFinite":
        ctx.assume(False)
    fits = name == land(cls)
    ctx.check((err is None) == fits, f"{cls} of its own region only")
    if f is not None:
        ctx.check(f.region.mask_name == name, "of the region asked for")
    ctx.reach()


def order(ctx, L):
    """Orders of a polar cap."""
    from sleplet.slepian.slepian_polar_cap import SlepianPolarCap

    EighStub(ctx, by_size=True, values=1 if L > 2 else None)
    many = ctx.choice("orders", 3)
    ms = [ctx.choice(f"m{i}", 4 * L + 3) - 2 * L - 1 for i in range(max(many, 1))]
    if many == 2 and ms[0] == ms[1]:
        ctx.assume(False)
    good = ctx.And(*[ctx.And(m < L, m > -L) for m in ms])
    err, s = ctx.raises(Exception, lambda: SlepianPolarCap(L, 1.1, order=np.array(ms) if many else ms[0]))
    if err is not None:
        ctx.check(isinstance(err, ValueError), "refused as a wrong value")
        ctx.check(ctx.Not(good), "orders below the bandlimit are accepted")
    else:
        ctx.check(good, "orders beyond the bandlimit are refused")
    ctx.reach()


def angle(ctx, L, gap):
    """Polar caps have an opening angle."""
    from sleplet.slepian.slepian_polar_cap import SlepianPolarCap

    EighStub(ctx, by_size=True)
    t = ctx.real("theta", 0, 3)
    if not ctx.symbolic:
        t = float(t)
    err, s = ctx.raises(ValueError, lambda: SlepianPolarCap(L, t, gap=gap, order=0))
    if err is not None:
        ctx.check(t == 0, "caps of any size are accepted")
    else:
        ctx.check(ctx.Not(t == 0), "a cap without area is refused")
        ctx.close(s.theta_max, t, "of the opening angle asked for", tol=1e-12)
    ctx.reach()


def rotate(ctx, L):
    """Slepian coefficients cannot be rotated."""
    import sleplet.functions as fs
    from sleplet.slepian.region import Region

    f = fs.SlepianDiracDelta(L, region=Region(theta_max=1.3))
    before = np.array(f.coefficients).copy()
    a, b, g = (ctx.real(n, -4, 4) for n in "abg")
    err, _ = ctx.raises(Exception, lambda: f.rotate(a, b, gamma=g))
    ctx.check(isinstance(err, NotImplementedError), "refused")
    ctx.close(f.coefficients, before, "left as they were", tol=0)
    ctx.reach()


def samples(ctx, L, n):
    """Fields of another size are not drawn."""
    from sleplet.plotting._create_plot_sphere import PlotSphere

    record(ctx)
    t, _ = sphere_grid(n)
    f = ctx.array("f", t.shape)
    err, _ = ctx.raises(Exception, lambda: PlotSphere(f, L, "name", normalise=False, upsample=False).execute())
    if n == L:
        ctx.check(err is None, "fields of the bandlimit are drawn")
    else:
        ctx.check(err is not None, "fields of another bandlimit are refused")
    ctx.reach()


def instances(tier):
    deep = tier == "thorough"
    out = []
    for cls, n in {**PLAIN, **SLEPIAN, **LAND, **MESH}.items():
        out.append(inst(f"arguments {cls}", "number", cls=cls, L=2, takes=n))
    for cls in ("NoiseEarth", "SlepianNoiseAfrica", "SlepianNoiseSouthAmerica", "MeshNoiseField", "MeshSlepianNoiseField"):
        out.append(inst(f"level {cls}", "snr", cls=cls, L=2, weight=3))
    for cls in LAND:
        out.append(inst(f"region {cls}", "region", cls=cls, L=2, weight=3))
    for L in (1, 2, 3, 4) if deep else (1, 2, 3):
        out.append(inst(f"order L{L}", "order", L=L))
        for gap in (False, True):
            out.append(inst(f"angle L{L} {'gap' if gap else 'cap'}", "angle", L=L, gap=gap))
        out.append(inst(f"rotate L{L}", "rotate", L=L))
    for L, n in ((2, 2), (2, 1), (2, 3), (1, 2)):
        out.append(inst(f"samples L{L} n{n}", "samples", L=L, n=n))
    return out
