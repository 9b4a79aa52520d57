"""The functions on the sphere which a formula defines."""
import math

import numpy as np

from harness.common import flat, inst, library, sphere_grid
from harness.p15 import arr, lms

META = dict(
    bounds="bandlimits 1..6 (quick) or 1..8: every width and frequency in [0.05, 100], every degree and order in [-1000, 1000], extra arguments in [-2, 2] "
    "(widths) or [-1000, 1000] (degrees and orders); ridgelets of spins -3..3 for every set of wavelet generators",
    outside="larger bandlimits; widths given as floats beyond the range",
    assumptions=["float64 arithmetic is treated as exact, compared with tolerance 1e-7", "pyssht is the real library; pys2let answers any generators"],
)


def width(ctx, name, extra):
    """(what is given, the width it stands for)"""
    if extra:
        k = ctx.int(name, -2, 2).__index__()
        return k, 10.0**k
    v = ctx.real(name, 0.05, 100)
    return v, v


def sq(x):
    return x * x


def formula(ctx, cls, L, extra):
    import pyssht

    import sleplet.functions as fs

    names = dict(Gaussian=["sigma"], HarmonicGaussian=["l_sigma", "m_sigma"], ElongatedGaussian=["t_sigma", "p_sigma"],
                 SquashedGaussian=["t_sigma", "freq"])[cls]
    given = [width(ctx, n, extra) for n in names]
    v = [g[1] for g in given]
    f = getattr(fs, cls)(L, extra_args=[g[0] for g in given]) if extra else getattr(fs, cls)(L, **{n: g[0] for n, g in zip(names, given)})
    ctx.check(f.L == L and f.spin == 0, "spin zero")
    if cls == "Gaussian":
        want = arr(ctx, [ctx.exp(-l * (l + 1) / (2 * sq(v[0]))) + 0j if m == 0 else 0j for l, m in lms(L)])
    elif cls == "HarmonicGaussian":
        want = arr(ctx, [ctx.exp(-sq(l / v[0]) / 2) * ctx.exp(-sq(m / v[1]) / 2) + 0j for l, m in lms(L)])
    else:
        t, p = sphere_grid(L)
        out = []
        for th, ph in zip(t.ravel(), p.ravel()):
            th, ph = float(th), float(ph)
            if cls == "ElongatedGaussian":
                out.append(ctx.exp(-(sq(th / v[0]) + sq((ph - math.pi) / v[1])) / 2))
            else:
                out.append(ctx.exp(-sq(th / v[0]) / 2) * ctx.sin(v[1] * ph))
        field = arr(ctx, [x + 0.0 for x in out], "f").reshape(t.shape)
        want = library(ctx, pyssht).forward(field, L, Method="MWSS", Reality=True)
    ctx.check(np.shape(f.coefficients) == (L * L,), "as many coefficients")
    ctx.close(f.coefficients, want, "coefficients", tol=1e-7, observe=False)
    ctx.reach()


def fixed(ctx, cls):
    """Functions without parameters, at any bandlimit."""
    import sleplet.functions as fs

    L = ctx.int("L", 1, 6).__index__()
    f = getattr(fs, cls)(L)
    if cls == "Identity":
        want = np.ones(L * L)
    else:
        want = np.array([math.sqrt((2 * l + 1) / (4 * math.pi)) if m == 0 else 0 for l, m in lms(L)])
    ctx.check(np.shape(f.coefficients) == (L * L,), "as many coefficients")
    ctx.close(f.coefficients, want, "coefficients", tol=1e-9)
    for extra in ([], [1]):
        e, _ = ctx.raises(Exception, lambda: getattr(fs, cls)(L, extra_args=extra))
        ctx.check(isinstance(e, TypeError), "extra arguments are rejected")
    ctx.reach()


def harmonic(ctx, L, extra):
    import sleplet.functions as fs

    ell, m = ctx.int("ell", -1000, 1000), ctx.int("m", -1000, 1000)
    e, f = ctx.raises(Exception, lambda: fs.SphericalHarmonic(L, extra_args=[ell, m]) if extra else fs.SphericalHarmonic(L, ell=ell, m=m))
    ok = ctx.And(ell >= 0, ell < L, m <= ell, -m <= ell)
    if e is not None:
        ctx.check(isinstance(e, ValueError), "rejected as invalid")
        ctx.check(ctx.Not(ok), "every degree and order of the bandlimit is accepted")
        ctx.reach()
        return
    ctx.check(ok, "degrees and orders out of range are rejected")
    want = np.array([ctx.ite(ctx.And(ell == l, m == k), 1.0, 0.0) for l, k in lms(L)])
    got = flat(f.coefficients)
    ctx.check(len(got) == L * L, "as many coefficients")
    for i, (l, k) in enumerate(lms(L)):
        here = ctx.And(ell == l, m == k)
        ctx.check(ctx.Or(ctx.Not(here), got[i] == 1), "one for the harmonic")
        ctx.check(ctx.Or(here, got[i] == 0), "zero for the others")
    ctx.reach()


def count(ctx, cls, n):
    """A wrong number of extra arguments is rejected."""
    import sleplet.functions as fs

    k = ctx.choice("count", 6)
    args = [2] * k
    if cls == "Ridgelets":
        args = [3, 0, 2, 0, 1, 1][:k]
    if cls == "SphericalHarmonic":
        args = [1] * k
    e, _ = ctx.raises(Exception, lambda: getattr(fs, cls)(4, extra_args=args))
    ctx.check((e is None) == (k == n), f"{n} extra arguments are needed")
    ctx.check(e is None or isinstance(e, (ValueError, TypeError)), "rejected as invalid")
    ctx.reach()


def ring(l, s):
    """Harmonic coefficient (l, 0) of the ring of spin s."""
    if l < abs(s) or (l + s) % 2:
        return 0.0
    a, b = (l + s) // 2, (l - s) // 2
    p = (-1) ** a * math.factorial(l + s) / (2**l * math.factorial(a) * math.factorial(b))
    return 2 * math.pi * math.sqrt((2 * l + 1) / (4 * math.pi)) * p * (-1) ** s * math.sqrt(math.factorial(l - s) / math.factorial(l + s))


def ridgelets(ctx, L, spin, extra):
    import pys2let

    import sleplet.functions as fs

    B, j_min = 2, 0
    n = pys2let.axisym_wav_l(B, L, j_min)[1].shape[1]
    k0, ks = ctx.array("scaling", L), ctx.array("wavelets", (L, n))
    called = []

    def generators(*a, **k):
        called.append(a)
        return k0.copy(), ks.copy()

    ctx.patch(pys2let, "axisym_wav_l", generators)
    j = ctx.int("j", -50, 50)
    make = (lambda: fs.Ridgelets(L, extra_args=[B, j_min, spin, j])) if extra else (lambda: fs.Ridgelets(L, B=B, j_min=j_min, spin=spin, j=j))
    if extra is None:
        make, j = (lambda: fs.Ridgelets(L, B=B, j_min=j_min, spin=spin)), None
    e, f = ctx.raises(Exception, make)
    if e is not None:
        ctx.check(isinstance(e, ValueError), "rejected as invalid")
        ctx.check(j is not None and ctx.Or(j < 0, j >= n), "every wavelet is accepted")
        ctx.reach()
        return
    if j is not None:
        ctx.check(ctx.And(j >= 0, j < n), "wavelets out of range are rejected")
    ctx.check(f.spin == spin, "spin of the ridgelets")
    if not called:
        ctx.reach()
        return
    rows = []
    for r in range(n + 1):
        row = []
        for l, m in lms(L):
            x = ring(l, spin) if m == 0 else 0.0
            g = k0[l] if r == 0 else ks[l, r - 1] * (1 / math.sqrt(2 * math.pi))
            row.append(g * x + 0j if x else 0j)
        rows.append(row)
    want = arr(ctx, rows)
    ctx.close(f.wavelets, want, "ridgelets at every scale", tol=1e-7, observe=False)
    r = 0 if j is None else j.__index__() + 1
    ctx.close(f.coefficients, want[r], "coefficients of the scale asked for", tol=1e-7, observe=False)
    ctx.reach()


def instances(tier):
    deep = tier == "thorough"
    out = []
    for extra in (False, True):
        for cls, top in (("Gaussian", 4), ("HarmonicGaussian", 3), ("ElongatedGaussian", 2), ("SquashedGaussian", 2)):
            for L in range(1, top + (3 if deep else 2)):
                out.append(inst(f"{cls} L{L} extra{int(extra)}", "formula", cls=cls, L=L, extra=extra, weight=L**2))
        for L in (1, 2, 3, 4, 6) + ((8,) if deep else ()):
            out.append(inst(f"SphericalHarmonic L{L} extra{int(extra)}", "harmonic", L=L, extra=extra, weight=L**2))
    for cls in ("Identity", "DiracDelta"):
        out.append(inst(f"{cls}", "fixed", cls=cls))
    for cls, n in (("Gaussian", 1), ("HarmonicGaussian", 2), ("ElongatedGaussian", 2), ("SquashedGaussian", 2), ("SphericalHarmonic", 2), ("Ridgelets", 4)):
        out.append(inst(f"count {cls}", "count", cls=cls, n=n))
    for L, spins in ((3, (0, 1, 2, -1)), (4, (2, 3, -2))) + ((6, (0, 1, 2, 3, -3)),) + (((8, (0, 2, 4, 5, -4)),) if deep else ()):
        for s in spins:
            for extra in (None, False, True):
                out.append(inst(f"Ridgelets L{L} spin{s} extra{extra}", "ridgelets", L=L, spin=s, extra=extra, weight=L))
    return out
