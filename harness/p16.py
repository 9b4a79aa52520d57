"""Slepian wavelet transform."""
import numpy as np

from harness.common import inst
from harness.p15 import arr, conj

META = dict(
    bounds="every signal of 1..4 (thorough: 5) Slepian coefficients (real or complex), every Shannon number, every set of 1..3 (thorough: 4) wavelets "
    "(real or complex), and the scale discretised wavelets of up to 25 (64) coefficients with nonzero real parts",
    outside="longer signals",
    assumptions=["float64 arithmetic is treated as exact, compared with tolerance 1e-7", "pys2let is the real library"],
)


def power(w, j, p):
    x = w[j, p]
    return (x * conj(x)).real


def any_wavelets(ctx, n, nw, kind, wkind):
    """Coefficients and reconstruction for any wavelets."""
    from sleplet import wavelet_methods as wm

    f = ctx.array("f", n, kind=kind)
    w = ctx.array("w", (nw, n), kind=wkind)
    f0, w0 = f.copy(), w.copy()
    N = ctx.choice("N", n) + 1
    c = wm.slepian_wavelet_forward(f, w, N)
    k = len(c)
    ctx.check(np.shape(c) == (k, N), "a row of coefficients for each wavelet")
    ctx.check(k <= nw, "not more than the wavelets")
    want = [[w0[j, p] * conj(f0[p]) for p in range(N)] for j in range(nw)]
    if k:
        ctx.close(c, arr(ctx, want[:k]), "wavelet coefficients", tol=1e-7)
        last = [ctx.Or(ctx.Not(x.real == 0), ctx.Not(x.imag == 0)) for x in map(lambda x: x + 0j, want[k - 1])]
        ctx.check(ctx.Or(*last), "the last scale kept is not zero")
    for j in range(k, nw):
        ctx.close(arr(ctx, want[j]), np.zeros(N), "only scales of zeros are left out", tol=1e-7, observe=False)
    ctx.close(f, f0, "signal untouched", tol=1e-9)
    ctx.close(w, w0, "wavelets untouched", tol=1e-9)
    r = wm.slepian_wavelet_inverse(c, w, N)
    ctx.check(np.shape(r) == (N,), "as many coefficients as the Shannon number")
    want = []
    for p in range(N):
        g = 0.0
        for j in range(nw):
            g = g + power(w0, j, p)
        want.append(f0[p] * g + 0j)
    ctx.close(r, arr(ctx, want), "reconstruction: signal times the power of the wavelets", tol=1e-7)
    ctx.reach()


def kappas(ctx, n, B, j_min, kind):
    """Perfect reconstruction with the scale discretised wavelets."""
    from sleplet import wavelet_methods as wm

    w = wm.create_kappas(n, B, j_min)
    f = ctx.array("f", n, kind=kind)
    if n > 9:
        # no scale vanishes
        ctx.assume(ctx.And(*[f[p].real >= 0.001 for p in range(n)]))
    for N in sorted({1, n // 2 or 1, n}):
        c = wm.slepian_wavelet_forward(f, w, N)
        r = wm.slepian_wavelet_inverse(c, w, N)
        ctx.close(r, f[:N], "perfect reconstruction", tol=1e-7)
    ctx.reach()


def zeros(ctx, n, nw, zero):
    """Scales that are zero within the Shannon number, in any position."""
    from sleplet import wavelet_methods as wm

    f = ctx.array("f", n, kind="c")
    w = ctx.array("w", (nw, n), kind="f", lo=0.1, hi=1)
    for j in range(nw):
        if zero[j]:
            w[j, :] = 0.0
    N = ctx.choice("N", n) + 1
    ctx.assume(ctx.And(*[ctx.Or(f[p].real > 0.1, f[p].imag > 0.1) for p in range(n)]))
    c = wm.slepian_wavelet_forward(f, w, N)
    last = max([j for j in range(nw) if not zero[j]], default=-1)
    ctx.check(len(c) == last + 1, "only the zero scales at the end are left out")
    for j in range(last + 1):
        ctx.close(c[j], arr(ctx, [w[j, p] * conj(f[p]) for p in range(N)]), "each row belongs to its wavelet", tol=1e-7)
    if last >= 0:
        r = wm.slepian_wavelet_inverse(c, w, N)
        ctx.close(r, arr(ctx, [f[p] * sum(power(w, j, p) for j in range(nw)) for p in range(N)]), "reconstruction", tol=1e-7)
    ctx.reach()


def instances(tier):
    out = []
    sizes = [(1, 1), (2, 2), (3, 3), (4, 2)] if tier == "quick" else [(1, 1), (2, 2), (3, 3), (4, 4)]
    for n, nw in sizes:
        for kind in "fc":
            for wkind in "fc":
                out.append(inst(f"any n{n} w{nw} {kind}{wkind}", "any_wavelets", n=n, nw=nw, kind=kind, wkind=wkind, max_paths=400))
    for n in (4, 9, 16, 25) if tier == "quick" else (4, 9, 16, 25, 36, 64):
        for B in (2, 3):
            for j_min in (0, 1, 2):
                if B**j_min < n:
                    out.append(inst(f"kappas n{n} B{B} jmin{j_min}", "kappas", n=n, B=B, j_min=j_min, kind="c"))
    for k in range(8):
        z = [bool(k >> i & 1) for i in range(3)]
        out.append(inst(f"zeros {z}", "zeros", n=3 if tier == "quick" else 5, nw=3, zero=z))
    return out
