"""Axisymmetric wavelet transform."""
import math

import numpy as np

from harness.common import inst
from harness.p15 import arr, conj, lms

META = dict(
    bounds="every signal of bandlimit 1..6 (quick) or 1..8, every set of 1..3 axisymmetric wavelets (real or complex), and the scale discretised "
    "wavelets of bandlimits up to 10 (quick) or 16",
    outside="larger bandlimits",
    assumptions=["float64 arithmetic is treated as exact, compared with tolerance 1e-7", "pys2let is the real library"],
)


def want_forward(ctx, L, f, w):
    """Axisymmetric wavelet coefficients of f."""
    rows = [[w[j][l * l + l] for l in range(L)] for j in range(len(w))]
    return arr(ctx, [[f[i] * conj(a[l] + 0j) * math.sqrt(4 * math.pi / (2 * l + 1)) for i, (l, m) in enumerate(lms(L))] for a in rows])


def any_wavelets(ctx, L, nw, wkind):
    from sleplet import wavelet_methods as wm

    f = ctx.array("f", L * L, kind="c")
    a = ctx.array("a", (nw, L), kind=wkind)
    w = arr(ctx, [[a[j, l] + 0j if m == 0 else 0j for l, m in lms(L)] for j in range(nw)])
    f0, w0 = f.copy(), w.copy()
    c = wm.axisymmetric_wavelet_forward(L, f, w)
    ctx.check(np.shape(c) == (nw, L * L), "shape of the coefficients")
    want = [[f0[i] * conj(a[j, l] + 0j) * math.sqrt(4 * math.pi / (2 * l + 1)) for i, (l, m) in enumerate(lms(L))] for j in range(nw)]
    ctx.close(c, arr(ctx, want), "wavelet coefficients", tol=1e-7)
    c0 = c.copy()
    r = wm.axisymmetric_wavelet_inverse(L, c, w)
    want = []
    for i, (l, m) in enumerate(lms(L)):
        g = 0.0
        for j in range(nw):
            x = a[j, l] + 0j
            g = g + (x * conj(x)).real
        want.append(f0[i] * (g * (4 * math.pi / (2 * l + 1))))
    ctx.close(r, arr(ctx, want), "reconstruction: signal times the power of the wavelets", tol=1e-7)
    ctx.close(f, f0, "signal untouched", tol=1e-9)
    ctx.close(w, w0, "wavelets untouched", tol=1e-9)
    ctx.close(c, c0, "coefficients untouched", tol=1e-9)
    ctx.reach()


def kappas(ctx, L, B, j_min):
    import pys2let

    from sleplet import wavelet_methods as wm
    from sleplet.functions import AxisymmetricWavelets

    w = AxisymmetricWavelets(L, B=B, j_min=j_min).wavelets
    k0, k = pys2let.axisym_wav_l(B, L, j_min)
    k = np.vstack([np.asarray(k0)[None], np.asarray(k).T])
    want = np.array([[r[l] * math.sqrt((2 * l + 1) / (4 * math.pi)) if m == 0 else 0 for l, m in lms(L)] for r in k])
    ctx.close(w, want, "wavelets: scaling function first, then each scale", tol=1e-9)
    f = ctx.array("f", L * L, kind="c")
    c = wm.axisymmetric_wavelet_forward(L, f, w)
    for i, (l, m) in enumerate(lms(L)):
        ctx.close(c[:, i], arr(ctx, [f[i] * r[l] for r in k.tolist()]), "each scale filters the degrees", tol=1e-7)
    ctx.close(wm.axisymmetric_wavelet_inverse(L, c, w), f, "perfect reconstruction", tol=1e-7)
    ctx.reach()


def instances(tier):
    out = []
    for L in range(1, 7 if tier == "quick" else 9):
        for nw in (1, 2, 3):
            for wkind in "fc":
                out.append(inst(f"any L{L} w{nw} {wkind}", "any_wavelets", L=L, nw=nw, wkind=wkind))
    for L in (2, 3, 4, 5, 6, 8, 10) if tier == "quick" else (2, 3, 4, 5, 6, 7, 8, 10, 12, 16):
        for B in (2, 3):
            for j_min in (0, 1, 2):
                if B**j_min < L:
                    out.append(inst(f"kappas L{L} B{B} jmin{j_min}", "kappas", L=L, B=B, j_min=j_min))
    return out
