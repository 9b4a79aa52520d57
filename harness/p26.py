"""Names tell functions and plots apart."""
import numpy as np

from harness.common import EighStub, earth_data, inst, small_mesh
from harness.p15 import lms
from harness.p19 import Draws
from harness.p31 import CUBE, command

META = dict(
    bounds="any two sets of parameters: widths, frequencies and signal-to-noise ratios in [-20, 100] with denominators up to 3 (and any others, taken as they are), degrees, orders, "
    "scales and bandlimits up to 6, angles in [0, 2] pi with denominators up to 3, every choice of flags",
    outside="parameters which differ by less than the rounding of their fraction to denominators below 10^6",
    assumptions=["the text of a number tells it apart from others"],
)
DEN = (1, 2, 3)


def fractions(ctx):
    if ctx.symbolic:
        ctx.Y.HOOKS["denominators"] = DEN


def differ(ctx, a, b, pa, pb, msg):
    """Different parameters have different names."""
    same = ctx.same_text(a, b)
    equal = []
    for x, y in zip(pa, pb):
        equal.append(x == y if x is not None and y is not None else x is None and y is None)
    ctx.check(ctx.Or(ctx.Not(same), ctx.And(*equal)), msg)


def width(ctx, cls, L):
    import sleplet.functions as fs

    names = dict(Gaussian=["sigma"], HarmonicGaussian=["l_sigma", "m_sigma"], ElongatedGaussian=["t_sigma", "p_sigma"],
                 SquashedGaussian=["t_sigma", "freq"], NoiseEarth=["SNR"])[cls]
    earth_data(ctx, np.ones(16, dtype=complex))
    Draws(ctx)
    fractions(ctx)
    lo = -20 if cls == "NoiseEarth" else 0.05
    free = ctx.choice("free", len(names))
    out = []
    for k in "ab":
        v = [ctx.real(f"{n}_{k}", lo, 100) if i == free else 0.5 for i, n in enumerate(names)]
        out.append((getattr(fs, cls)(L, **dict(zip(names, v))).name, v))
    (a, pa), (b, pb) = out
    differ(ctx, a, b, pa, pb, "different widths have different names")
    ctx.reach()


def degree(ctx):
    import sleplet.functions as fs

    out = []
    for k in "ab":
        L = ctx.choice(f"L_{k}", 3) + 2
        i = ctx.choice(f"i_{k}", 4)
        l, m = lms(2)[i]
        out.append((fs.SphericalHarmonic(L, ell=l, m=m).name, [L, l, m]))
    (a, pa), (b, pb) = out
    differ(ctx, a, b, pa, pb, "different harmonics have different names")
    ctx.reach()


def details(ctx, cls, what):
    """Noise, smoothing and bandlimit of any function."""
    import sleplet.functions as fs

    earth_data(ctx, np.arange(1, 37) + 0j, np.ones(10))
    Draws(ctx)
    fractions(ctx)
    out = []
    for k in "ab":
        kw, L = {}, ctx.choice(f"L_{k}", 2) + 1
        if ctx.choice(f"with_{k}", 2):
            kw[what] = ctx.real(f"noise_{k}", -20, 30) if what == "noise" else ctx.int(f"smoothing_{k}", 1, 1000)
        try:
            f = getattr(fs, cls)(L, **kw)
        except Exception as e:  # noqa: BLE001
            if type(e).__name__ == "NonFinite":  # noise which happens to be exactly zero
                ctx.assume(False)
            raise
        out.append((f.name, [L, kw.get(what)]))
    (a, pa), (b, pb) = out
    differ(ctx, a, b, pa, pb, f"with another {what} or bandlimit the name is another")
    ctx.reach()


def wavelet(ctx, cls, L):
    import pys2let

    import sleplet.functions as fs
    from sleplet.slepian.region import Region

    earth_data(ctx, np.arange(1, 37) + 0j)
    kw = dict(region=Region(theta_max=0.9)) if cls.startswith("Slepian") else {}
    out = []
    for k in "ab":
        B, j_min = ctx.choice(f"B_{k}", 2) + 2, ctx.choice(f"j_min_{k}", 2)
        n = pys2let.pys2let_j_max(B, L**2 if cls.startswith("Slepian") else L, j_min) - j_min + 2
        j = ctx.choice(f"j_{k}", n)
        p = dict(B=B, j_min=j_min, j=j - 1 if j else None)
        if cls == "Ridgelets":
            p["spin"] = ctx.choice(f"spin_{k}", 2)
        out.append((getattr(fs, cls)(L, **p, **kw).name, [p["B"], p["j_min"], p["j"], p.get("spin")]))
    (a, pa), (b, pb) = out
    differ(ctx, a, b, pa, pb, "different wavelets have different names")
    ctx.reach()


def kinds(ctx):
    """Different functions have different names."""
    import sleplet.functions as fs

    earth_data(ctx, np.arange(1, 37) + 0j, np.ones(10))
    names = ("Africa", "DiracDelta", "Earth", "ElongatedGaussian", "Gaussian", "HarmonicGaussian", "Identity", "NoiseEarth", "Ridgelets", "SouthAmerica",
             "SphericalHarmonic", "SquashedGaussian", "Wmap", "AxisymmetricWavelets", "AxisymmetricWaveletCoefficientsEarth")
    from harness.common import any_mask

    for p in ("africa", "south_america"):
        any_mask(p, 4)
    Draws(ctx)
    i, j = ctx.choice("a", len(names)), ctx.choice("b", len(names))
    if i < j:
        differ(ctx, getattr(fs, names[i])(4).name, getattr(fs, names[j])(4).name, [i], [j], "different functions have different names")
    ctx.reach()


def rank(ctx, kind):
    import sleplet.functions as fs
    import sleplet.meshes as ms
    from sleplet.slepian.region import Region

    out = []
    if kind == "mesh":
        mesh, _ = small_mesh(ctx, 3, shape=CUBE, pairs=[])
        mesh2, _ = small_mesh(ctx, 3, shape=CUBE, pairs=[], zoom=True)
        EighStub(ctx, by_size=True)
    for k in "ab":
        r = ctx.choice(f"rank_{k}", 3)
        if kind == "mesh":
            z = ctx.choice(f"zoom_{k}", 2)
            cls = ["MeshBasisFunctions", "MeshField"][ctx.choice(f"cls_{k}", 2)]
            f = getattr(ms, cls)(mesh2 if z else mesh, **(dict(rank=r) if cls == "MeshBasisFunctions" else {}))
            out.append((f.name, [cls == "MeshField", r if cls == "MeshBasisFunctions" else None, z]))
        else:
            f = fs.Slepian(2, region=Region(theta_max=[0.9, 1.2][t := ctx.choice(f"theta_{k}", 2)], gap=bool(g := ctx.choice(f"gap_{k}", 2))), rank=r)
            out.append((f.name, [r, t, g]))
    (a, pa), (b, pb) = out
    differ(ctx, a, b, pa, pb, "other ranks, regions or meshes have other names")
    ctx.reach()


def picture(ctx, what):
    """The name suggested for the picture."""
    earth_data(ctx, np.arange(1, 37) + 0j, np.ones(10))
    fractions(ctx)
    out = []
    for k in "ab":
        args, p = ["dirac_delta", "-L", "2"], []
        if what == "flags":
            t, u, z = ctx.choice(f"type_{k}", 4), ctx.choice(f"norm_{k}", 2), ctx.choice(f"up_{k}", 2)
            args += ["-t", ["abs", "real", "imag", "sum"][t]] + ["-u"] * u + ["-z"] * z
            p = [t, u, z]
        elif what == "view":
            v, c = ctx.choice(f"view_{k}", 2), ctx.choice(f"convolve_{k}", 2)
            args = [["earth", "wmap"][c], "-L", "2", "-c", "earth", "-p", ["africa", "south_america"][v]]
            p = [v, c]
        elif what == "method":
            m = ctx.choice(f"method_{k}", 3)
            c = ctx.choice(f"convolve_{k}", 3)
            args += ["-m", ["north", "rotate", "translate"][m]] + ([["-c", "earth"], ["-c", "wmap"]][c - 1] if c else [])
            p = [m, c]
        else:
            v = ctx.real(f"angle_{k}", 0, 1.25)
            rest = [["-a", "0.5"], ["-b", "0.25"], ["-g", "0"]] if len(what) == 2 else [["-a", "0"], ["-b", "0"], ["-g", "0"]]
            args += ["-m", "translate" if what[0] == "t" else "rotate"]
            for flag, x in rest:
                args += [flag, v if flag[1] == what[1] else x]
            p = [v]
        out.append((command(ctx, "plotting_on_sphere", *args).filename, p))
    (a, pa), (b, pb) = out
    differ(ctx, a, b, pa, pb, "different pictures have different names")
    ctx.reach()


def instances(tier):
    deep = tier == "thorough"
    out = []
    for cls in ("Gaussian", "HarmonicGaussian", "ElongatedGaussian", "SquashedGaussian", "NoiseEarth"):
        out.append(inst(f"width {cls}", "width", cls=cls, L=1, weight=2))
    out.append(inst("degree", "degree"))
    for cls, what in (("DiracDelta", "noise"), ("Earth", "smoothing")) + (("Earth", "noise"),):
        out.append(inst(f"details {cls} {what}", "details", cls=cls, what=what, weight=3))
    for cls in ("AxisymmetricWavelets", "Ridgelets", "AxisymmetricWaveletCoefficientsEarth") + ("SlepianWavelets",):
        out.append(inst(f"wavelet {cls}", "wavelet", cls=cls, L=3, weight=3))
    out.append(inst("kinds", "kinds"))
    for kind in ("mesh", "polar"):
        out.append(inst(f"rank {kind}", "rank", kind=kind, weight=3))
    for what in ("flags", "view", "method", "ra", "rb", "rg", "ta", "tb", "ra0", "rb0", "rg0", "ta0", "tb0"):
        out.append(inst(f"picture {what}", "picture", what=what, weight=4))
    return out
