"""Selecting a wavelet by its scale."""
import math

import numpy as np

from harness.common import EighStub, any_mask, earth_data, flat, inst, small_mesh
from harness.p15 import arr, lms
from harness.p17 import want_forward

META = dict(
    bounds="every wavelet number in [-1000, 1000] or none, given by name or as extra arguments, for the wavelet parameters (2,0), (2,1), (3,0), (3,1), "
    "bandlimits 2..5 on the sphere (2..3 for Slepian functions), meshes of 4 basis functions",
    outside="other wavelet parameters and bandlimits; scales which the Slepian wavelet transform leaves out because they are zero",
    assumptions=["pys2let is the real library"],
)


def scales(n, B, j_min):
    import pys2let

    k0, k = pys2let.axisym_wav_l(B, n, j_min)
    return np.concatenate([np.real(k0)[None], np.real(k).T])


def earth_flm(n):
    rng = np.random.default_rng(7)
    return rng.normal(size=n) + 1j * rng.normal(size=n)


def number(ctx, via, B, j_min):
    if via == "none":
        return None, dict(B=B, j_min=j_min)
    j = ctx.int("j", -1000, 1000)
    return j, (dict(B=B, j_min=j_min, j=j) if via == "argument" else dict(extra_args=[B, j_min, j]))


def judge(ctx, j, make, n, vanishes=None):
    """The function for wavelet j of n scales, the scaling function included."""
    err, f = ctx.raises(Exception, make)
    bad = False if j is None else ctx.Or(j < 0, j + 1 >= n)
    if err is not None:
        if isinstance(err, IndexError) and vanishes is not None:
            # the transform leaves out trailing scales of zeros
            ctx.check(ctx.Not(bad), "scales out of range are rejected")
            ctx.check(vanishes(j.__index__() + 1), "only scales of zeros are left out")
            ctx.reach()
            return None, None
        ctx.check(isinstance(err, (ValueError, TypeError)), "only values out of range are rejected")
        ctx.check(bad, "the scales of the wavelets are accepted")
        ctx.reach()
        return None, None
    ctx.check(ctx.Not(bad), "scales out of range are rejected")
    row = 0 if j is None else j.__index__() + 1
    return f, row


def sphere(ctx, cls, L, B, j_min, via):
    import sleplet.functions as fs

    w = scales(L, B, j_min)
    want = np.array([[w[j, l] * math.sqrt((2 * l + 1) / (4 * math.pi)) if m == 0 else 0 for l, m in lms(L)] for j in range(len(w))])
    earth_data(ctx, earth_flm((L + 2) ** 2))
    for name in ("africa", "south_america"):
        any_mask(name, L)
    j, kw = number(ctx, via, B, j_min)
    f, row = judge(ctx, j, lambda: getattr(fs, cls)(L, **kw), len(w))
    if f is None:
        return
    ctx.close(f.wavelets, want, "scaling function and wavelets", tol=1e-9)
    if cls == "AxisymmetricWavelets":
        ctx.close(f.coefficients, want[row], "the wavelet of that scale", tol=1e-9)
    else:
        signal = getattr(fs, cls.replace("AxisymmetricWaveletCoefficients", ""))(L).coefficients
        c = want_forward(ctx, L, signal, want)
        ctx.close(f.wavelet_coefficients, c, "wavelet coefficients of the signal", tol=1e-9)
        ctx.close(f.coefficients, c[row], "coefficients of that scale", tol=1e-9)
    ctx.reach()


def slepian(ctx, cls, L, B, j_min, via):
    import sleplet.functions as fs
    from sleplet.slepian.region import Region

    w = scales(L * L, B, j_min)
    earth_data(ctx, earth_flm((L + 2) ** 2))
    for name in ("africa", "south_america"):
        any_mask(name, L)
        any_mask(name, 2 * L)
    j, kw = number(ctx, via, B, j_min)
    name = "south_america" if cls.endswith("America") else "africa"
    if cls == "SlepianWavelets":
        reg = Region(theta_max=1.3)
    else:
        reg = Region(mask_name=name)
    N = getattr(fs, cls)(L, region=reg, B=B, j_min=j_min).slepian.N
    vanishes = None if cls == "SlepianWavelets" else lambda r: bool(not w[r:, :N].any())
    f, row = judge(ctx, j, lambda: getattr(fs, cls)(L, region=reg, **kw), len(w), vanishes)
    if f is None:
        return
    ctx.close(f.wavelets, w, "scaling function and wavelets", tol=1e-9)
    if cls == "SlepianWavelets":
        ctx.close(f.coefficients, w[row], "the wavelet of that scale", tol=1e-9)
    else:
        signal = getattr(fs, cls.replace("WaveletCoefficients", ""))(L, region=reg).coefficients
        c = w[:, :N] * np.conj(np.array([complex(x) for x in flat(signal)])[None, :N])
        ctx.close(f.wavelet_coefficients, c[: len(f.wavelet_coefficients)], "wavelet coefficients of the signal", tol=1e-9)
        ctx.close(f.coefficients, c[row], "coefficients of that scale", tol=1e-9)
    ctx.reach()


def mesh(ctx, cls, nb, B, j_min, via):
    import sleplet.meshes as ms

    w = scales(nb, B, j_min)
    m, rot = small_mesh(ctx, nb, pairs=[(0, 1), (1, 2), (2, 3)])
    stub = EighStub(ctx, by_size=True)
    j, kw = number(ctx, via, B, j_min)
    N = 0
    if cls != "MeshSlepianWavelets":
        signal = ms.MeshSlepianField(m).coefficients
        ctx.assume(ctx.And(signal[0] * w[0, 0] > 0.001))  # not a signal of zeros
        N = getattr(ms, cls)(m, B=B, j_min=j_min).mesh_slepian.N
    vanishes = None if cls == "MeshSlepianWavelets" else lambda r: ctx.And(*[w[k, p] * signal[p] == 0 for k in range(r, len(w)) for p in range(N)])
    f, row = judge(ctx, j, lambda: getattr(ms, cls)(m, **kw), len(w), vanishes)
    if f is None:
        return
    ctx.close(f.wavelets, w, "scaling function and wavelets", tol=1e-9)
    if cls == "MeshSlepianWavelets":
        ctx.close(f.coefficients, w[row], "the wavelet of that scale", tol=1e-9)
    else:
        signal = flat(ms.MeshSlepianField(m).coefficients)
        c = arr(ctx, [[w[k, p] * signal[p] + 0j for p in range(N)] for k in range(len(f.wavelet_coefficients))])
        ctx.close(f.wavelet_coefficients, c, "wavelet coefficients of the field", tol=1e-7, observe=False)
        ctx.close(f.coefficients, c[row], "coefficients of that scale", tol=1e-7, observe=False)
    ctx.reach()


def instances(tier):
    out = []
    vias = ("argument", "extra", "none")
    for via in vias:
        for cls in ("AxisymmetricWavelets", "AxisymmetricWaveletCoefficientsEarth", "AxisymmetricWaveletCoefficientsAfrica",
                    "AxisymmetricWaveletCoefficientsSouthAmerica"):
            for L, B, jm in ((2, 2, 0), (3, 3, 0), (5, 2, 1), (4, 3, 1)) if tier == "quick" or "America" in cls else ((2, 2, 0), (3, 3, 0), (5, 2, 1), (4, 3, 1), (9, 2, 0), (9, 3, 1)):
                out.append(inst(f"{cls} L{L} B{B} jmin{jm} {via}", "sphere", cls=cls, L=L, B=B, j_min=jm, via=via))
        for cls in ("SlepianWavelets", "SlepianWaveletCoefficientsAfrica", "SlepianWaveletCoefficientsSouthAmerica"):
            for L, B, jm in ((2, 2, 0), (2, 3, 1), (2, 2, 1), (3, 2, 0)) if tier == "quick" else ((2, 2, 0), (2, 3, 1), (2, 2, 1), (3, 2, 0), (3, 3, 1)):
                out.append(inst(f"{cls} L{L} B{B} jmin{jm} {via}", "slepian", cls=cls, L=L, B=B, j_min=jm, via=via, weight=L))
        for cls in ("MeshSlepianWavelets", "MeshSlepianWaveletCoefficients"):
            for nb, B, jm in ((3, 2, 0), (4, 3, 1)):
                out.append(inst(f"{cls} b{nb} B{B} jmin{jm} {via}", "mesh", cls=cls, nb=nb, B=B, j_min=jm, via=via, weight=2))
    return out
