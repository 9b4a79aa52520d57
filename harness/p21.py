"""Denoising by hard thresholding."""
import numpy as np

from harness.common import EighStub, flat, inst, library, small_mesh, sphere_grid
from harness.p11 import dot, slepian, values
from harness.p15 import arr
from harness.p19 import power

META = dict(
    bounds="bandlimits 1..2 with up to 3 scales, a four vertex mesh with 1..3 basis functions: every set of coefficients and every set of standard deviations, "
    "thresholds of 0..4 standard deviations, every signal, wavelet and signal-to-noise ratio in [-30, 30] dB for the standard deviations; any Slepian functions",
    outside="larger bandlimits and meshes; samples whose magnitude is within 1e-5 of the threshold",
    assumptions=["float64 arithmetic is treated as exact, compared with tolerance 1e-7",
                 "the field of a set of coefficients is the one the library's transforms give (their own properties say which)"],
)


def threshold(ctx, f, t):
    """Samples below the threshold set to zero, and the number of forked samples."""
    out = []
    ts = list(flat(t)) if np.ndim(t) else [t] * len(flat(f))
    for x, s in zip(flat(f), ts):
        m = abs(x)
        ctx.assume(ctx.Or(m - s > 1e-5, s - m > 1e-5), check=False)
        out.append(ctx.ite(m < s, 0.0, x) if ctx.symbolic else (0.0 if m < s else x))
    return arr(ctx, out, "c").reshape(np.shape(f))


def number(ctx):
    return ctx.choice("n_sigma", 5)


def harmonic(ctx, L, scales):
    import pyssht

    from sleplet import noise

    ssht = library(ctx, pyssht)

    w = ctx.array("w", (scales, L * L), kind="c")
    sig = ctx.array("sigma", scales - 1, lo=0, hi=2)
    k = number(ctx)
    want = [w[0].copy()]
    for j in range(1, scales):
        f = ssht.inverse(w[j], L, Method="MWSS")
        want.append(ssht.forward(threshold(ctx, f, sig[j - 1] * k), L, Method="MWSS"))
    got = noise.harmonic_hard_thresholding(L, w.copy(), sig, k)
    ctx.check(np.shape(got) == (scales, L * L), "as many coefficients")
    for j in range(scales):
        ctx.close(got[j], want[j], f"scale {j}", tol=1e-7, observe=False)
    ctx.reach()


def some(L, seed):
    r = np.random.default_rng(seed)
    return r.normal(size=(L * L, L * L)) + 1j * r.normal(size=(L * L, L * L))


def slepian_scales(ctx, L, scales, N, single):
    from sleplet import noise
    from sleplet import slepian_methods as sm

    s = slepian(ctx, L, n=N)
    s.eigenvectors = some(L, N)
    shape = sphere_grid(L)[0].shape
    k = number(ctx)
    if single:
        c = ctx.array("c", N, kind="c")
        sig = ctx.real("sigma", 0, 2)
        f = threshold(ctx, sm.slepian_inverse(c, L, s), sig * k)
        got = [noise.slepian_function_hard_thresholding(L, c.copy(), sig, k, s)]
        want = [sm.slepian_forward(L, s, f=f)]
    else:
        w = ctx.array("w", (scales, N), kind="c")
        sig = ctx.array("sigma", (scales, *shape), lo=0, hi=2)
        want = [sm.slepian_forward(L, s, f=threshold(ctx, sm.slepian_inverse(w[j], L, s), sig[j] * k)) for j in range(scales)]
        got = noise.slepian_wavelet_hard_thresholding(L, w.copy(), sig, k, s)
    ctx.check(len(got) == len(want), "as many scales")
    for j, x in enumerate(want):
        ctx.close(got[j], x, f"scale {j}", tol=1e-7, observe=False)
    ctx.reach()


def mesh_slepian(ctx, nb, n):
    """Slepian functions of a mesh."""
    from sleplet.meshes.mesh_slepian import MeshSlepian

    m, rot = small_mesh(ctx, nb, pairs=[(0, 1)] if nb < 3 else [])
    EighStub(ctx)
    s = MeshSlepian(m)
    s.slepian_functions = np.real(some(2, nb))[:nb, :nb]
    s.slepian_eigenvalues = np.linspace(0.9, 0.2, nb)
    s.N = n
    return s, rot


def mesh(ctx, nb, scales):
    from sleplet import noise
    from sleplet import slepian_methods as sm

    s, _ = mesh_slepian(ctx, nb, nb)
    w = ctx.array("w", (scales, nb))
    sig = ctx.array("sigma", (scales, 4), lo=0, hi=2)
    k = number(ctx)
    want = []
    for j in range(scales):
        f = threshold(ctx, sm.slepian_mesh_inverse(s, w[j]), sig[j] * k)
        want.append(sm.slepian_mesh_forward(s, u=f.real if not ctx.symbolic else arr(ctx, [x + 0.0 for x in flat(f)], "f")))
    got = noise.slepian_mesh_hard_thresholding(s, w.copy(), sig, k)
    for j in range(scales):
        ctx.close(got[j], want[j], f"scale {j}", tol=1e-7, observe=False)
    ctx.reach()


def sigmas(ctx, got, want, msg):
    g, w = list(flat(got)), list(flat(want))
    ctx.check(len(g) == len(w), "number of standard deviations")
    for a in g:
        ctx.check(a >= 0, "a standard deviation is not negative")
    ctx.close(arr(ctx, [a * a for a in g], "f"), arr(ctx, w, "f"), msg, tol=1e-7, observe=False)


def sigma_harmonic(ctx, n, scales):
    from sleplet import noise

    a, psi = ctx.array("a", n, kind="c"), ctx.array("psi", (scales, n), kind="c")
    s = ctx.real("snr", -30, 30)
    got = noise._compute_sigma_j(a, psi, s)
    ctx.check(np.shape(got) == (scales,), "one for each scale")
    v = ctx.pow10(-s / 10) * power(a) / n
    sigmas(ctx, got, [v * power(psi[j]) for j in range(scales)], "variance at each scale")
    ctx.reach()


def sq(x):
    return (x * x.conjugate()).real


def sigma_slepian(ctx, L, N, scales):
    from sleplet import noise

    s = slepian(ctx, L, n=N)
    s.eigenvectors = some(L, N)
    a, psi = ctx.array("a", L * L, kind="c"), ctx.array("psi", (scales, L * L))
    snr = ctx.real("snr", -30, 30)
    got = noise._compute_slepian_sigma_j(L, a, psi, snr, s)
    shape = sphere_grid(L)[0].shape
    ctx.check(np.shape(got) == (scales, *shape), "one for each scale and sample")
    v = ctx.pow10(-snr / 10) * power(a) / (L * L)
    sp = s.eigenvectors @ values(L, L)
    for j in range(scales):
        want = [v * dot([psi[j, p] * psi[j, p] for p in range(N)], [float(abs(sp[p, k]) ** 2) for p in range(N)]) for k in range(sp.shape[1])]
        sigmas(ctx, got[j], want, f"variance at each sample, scale {j}")
    ctx.reach()


def sigma_mesh(ctx, nb, N, scales):
    from sleplet import noise

    s, rot = mesh_slepian(ctx, nb, N)
    a, psi = ctx.array("a", N), ctx.array("psi", (scales, nb))
    snr = ctx.real("snr", -30, 30)
    got = noise.compute_slepian_mesh_sigma_j(s, a, psi, snr)
    ctx.check(np.shape(got) == (scales, 4), "one for each scale and vertex")
    v = ctx.pow10(-snr / 10) * power(a) / nb
    for j in range(scales):
        want = []
        for k in range(4):
            t = 0.0
            for p in range(N):
                x = dot([float(s.slepian_functions[p, i]) for i in range(nb)], rot[k][:nb])
                t = t + psi[j, p] * psi[j, p] * x * x
            want.append(v * t)
        sigmas(ctx, got[j], want, f"variance at each vertex, scale {j}")
    ctx.reach()


def instances(tier):
    out = []
    for L, sc in ((1, 1), (1, 2), (1, 3), (2, 2)) + ((2, 3), (3, 2)):
        out.append(inst(f"harmonic L{L} scales{sc}", "harmonic", L=L, scales=sc, weight=L**3))
    for L, N, sc in ((1, 1, 1), (1, 1, 2), (2, 1, 1), (2, 3, 2)) + ((2, 4, 3),):
        out.append(inst(f"slepian wavelets L{L} N{N} scales{sc}", "slepian_scales", L=L, N=N, scales=sc, single=False, weight=L**3 * sc))
        out.append(inst(f"slepian function L{L} N{N}", "slepian_scales", L=L, N=N, scales=1, single=True, weight=L**3))
        out.append(inst(f"sigma slepian L{L} N{N} scales{sc}", "sigma_slepian", L=L, N=N, scales=sc, weight=L**3))
    for nb, sc in ((1, 1), (2, 2), (3, 2)):
        out.append(inst(f"mesh b{nb} scales{sc}", "mesh", nb=nb, scales=sc))
        for N in range(1, nb + 1):
            out.append(inst(f"sigma mesh b{nb} N{N} scales{sc}", "sigma_mesh", nb=nb, N=N, scales=sc))
    for n, sc in ((1, 1), (4, 3)):
        out.append(inst(f"sigma harmonic n{n} scales{sc}", "sigma_harmonic", n=n, scales=sc))
    seen, res = set(), []
    for i in out:
        if i["name"] not in seen:
            seen.add(i["name"])
            res.append(i)
    return res
