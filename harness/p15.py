"""Sifting convolution, translation and rotation."""
import math

import numpy as np

from harness.common import EighStub, any_mask, dlegendre, flat, inst, sphere_grid, ylm_grid

META = dict(
    bounds="every coefficient array (bandlimits 1..3 (quick) or 1..4), every Shannon number, every angle of translation and rotation; Slepian "
    "translation to every grid sample at bandlimits 1..2 (quick) or 1..3 with any set of Slepian functions, to every grid sample at bandlimits 6 and 8 (thorough: up to 11), "
    "and to any point, not half way between samples, at bandlimits 1..2; Slepian Dirac deltas of bandlimits 1..2",
    outside="larger bandlimits; points half way between two samples",
    assumptions=["rotate_flms and create_ylm are modelled by the Wigner D functions and spherical harmonics they implement",
                 "float64 arithmetic is treated as exact, compared with tolerance 1e-7"],
)


def conj(x):
    return x.conjugate()


def arr(ctx, x, kind="c"):
    return ctx.arr(x, kind) if ctx.symbolic else np.array(x, dtype={"c": complex, "f": float}[kind])


def function(ctx, L, cls="Gaussian"):
    import sleplet.functions as fs

    return getattr(fs, cls)(L)


def convolve(ctx, n, rows, grows, shannon, kind):
    fn = function(ctx, 2)
    f = ctx.array("f", (rows, n) if rows else n, kind=kind)
    g = ctx.array("g", (grows, n) if grows else n, kind="c")
    f0, g0 = f.copy(), g.copy()
    k = ctx.choice("shannon", n) + 1 if shannon else None
    r = fn.convolve(f, g, shannon=k)
    m = n if k is None else k
    ctx.check(np.shape(r) == ((rows, m) if rows else (m,)), "shape of the convolution")
    if rows:
        want = [[f0[i, p] * conj(g0[i, p] if grows else g0[p]) for p in range(m)] for i in range(rows)]
    else:
        want = [f0[p] * conj(g0[p]) for p in range(m)]
    ctx.close(r, arr(ctx, want), "products with the conjugate", tol=1e-7)
    ctx.close(f, f0, "first input untouched", tol=1e-9)
    ctx.close(g, g0, "second input untouched", tol=1e-9)
    ctx.check(ctx.Not(fn.reality) if ctx.symbolic else not fn.reality, "no longer taken as real")
    ctx.reach()


def ylm(ctx, l, m, theta, phi):
    """Y_lm at any point."""
    am = abs(m)
    x, s = ctx.cos(theta), ctx.sin(theta)
    p = 0.0
    for c in reversed([float(c) for c in dlegendre(l, am)]):
        p = p * x + c
    for _ in range(am):
        p = p * s
    p = p * ((-1) ** am * math.sqrt((2 * l + 1) / (4 * math.pi) * math.factorial(l - am) / math.factorial(l + am)))
    v = ctx.cos(am * phi) * p + 1j * (ctx.sin(am * phi) * p) if am else p + 0j
    if m < 0:
        v = conj(v) * (-1) ** am
    return v


def lms(L):
    return [(l, m) for l in range(L) for m in range(-l, l + 1)]


def translate(ctx, L, cls):
    fn = function(ctx, L, cls)
    f = ctx.array("f", L * L, kind="c")
    fn.coefficients = f
    alpha, beta = ctx.angle("alpha", 0, 2 * math.pi), ctx.angle("beta", 0, math.pi)
    r = fn.translate(alpha, beta)
    want = [f[i] * ylm(ctx, l, m, beta, alpha) for i, (l, m) in enumerate(lms(L))]
    ctx.close(r, arr(ctx, want), "translated: times the harmonics at the point", tol=1e-7)
    ctx.check(not bool(fn.reality), "a translated function is not taken as real")
    ctx.reach()


def dirac(ctx, L):
    """The translated Dirac delta is the rotated one."""
    fn = function(ctx, L, "DiracDelta")
    alpha, beta = ctx.angle("alpha", 0, 2 * math.pi), ctx.angle("beta", 0, math.pi)
    c = np.array([math.sqrt((2 * l + 1) / (4 * math.pi)) if m == 0 else 0.0 for l, m in lms(L)])
    ctx.close(fn.coefficients, c, "Dirac delta at the pole", tol=1e-9)
    t = fn.translate(alpha, beta)
    want = [conj(ylm(ctx, l, m, beta, alpha)) for l, m in lms(L)]
    ctx.close(t, arr(ctx, want), "Dirac delta at the point", tol=1e-7)
    ctx.close(fn.rotate(alpha, beta), arr(ctx, want), "rotated Dirac delta at the point", tol=1e-7)
    ctx.reach()


def rotate(ctx, which, gamma=True):
    """Any rotation at bandlimit 2, from the degree one Wigner matrices."""
    fn = function(ctx, 2)
    f = ctx.array("f", 4, kind="c")
    fn.coefficients = f
    a = {n: (ctx.angle(n, -math.pi, 2 * math.pi) if n in which else 0.3) for n in ("alpha", "beta", "gamma")}
    if gamma:
        r = fn.rotate(a["alpha"], a["beta"], gamma=a["gamma"])
    else:
        r = fn.rotate(a["alpha"], a["beta"])
        a["gamma"] = 0.0
    c, s = ctx.cos(a["beta"]), ctx.sin(a["beta"])
    q = math.sqrt(0.5)
    # d^1_{mn}, m, n = -1, 0, 1
    d = [[(c + 1) * 0.5, s * q, (1 - c) * 0.5], [s * -q, c + 0.0, s * q], [(1 - c) * 0.5, s * -q, (c + 1) * 0.5]]

    def turn(m, x):
        return ctx.cos(x) - 1j * (ctx.sin(x) * m) if m else 1.0

    want = [f[0] + 0j]
    for m in (-1, 0, 1):
        v = 0j
        for n in (-1, 0, 1):
            v = v + turn(m, a["alpha"]) * d[m + 1][n + 1] * (turn(n, a["gamma"]) * f[2 + n])
        want.append(v)
    ctx.close(r, arr(ctx, want), "rotated coefficients", tol=1e-7)
    ctx.close(fn.coefficients, f, "coefficients untouched", tol=1e-9)
    ctx.reach()


def slepian(ctx, L, n):
    """Slepian translation to a grid sample; the Slepian Dirac delta."""
    import sleplet.functions as fs
    from sleplet.slepian.region import Region

    fn = fs.SlepianIdentity(L, region=Region(theta_max=1.3))
    s = fn.slepian
    s.eigenvectors = ctx.array("S", (L * L, L * L), kind="c")
    s.N = n
    f = ctx.array("f", n, kind="c")
    fn.coefficients = f
    t, p = sphere_grid(L)
    i, j = ctx.choice("i", t.shape[0]), ctx.choice("j", t.shape[1])
    r = fn.translate(float(p[i, j]), float(t[i, j]), shannon=n)
    Y = ylm_grid(L, L)
    want = [f[q] * sum(s.eigenvectors[q, k] * complex(Y[k][i, j]) for k in range(L * L)) for q in range(n)]
    ctx.check(np.shape(r) == (n,), "Shannon number of coefficients")
    ctx.close(r, arr(ctx, want), "translated: times the Slepian functions at the point", tol=1e-7)
    ctx.close(fn.coefficients, f, "coefficients untouched", tol=1e-9)
    ctx.check(not bool(fn.reality), "a translated function is not taken as real")
    ctx.check(np.shape(fs.SlepianDiracDelta(L, region=Region(theta_max=1.3)).coefficients) == (L * L,), "a coefficient for each Slepian function")
    ctx.reach()


def slepian_grid(ctx, L, anywhere):
    """Slepian translation to a sample of a finer grid, or to the sample nearest to any point."""
    import sleplet.functions as fs
    from sleplet.slepian.region import Region

    fn = fs.SlepianIdentity(L, region=Region(theta_max=1.3))
    rng = np.random.default_rng(L)
    n = min(2, L * L)
    fn.slepian.eigenvectors = (rng.normal(size=(L * L, L * L)) + 1j * rng.normal(size=(L * L, L * L))).round(3)
    fn.slepian.N = n
    fn.coefficients = f = ctx.array("f", n, kind="c")
    t, p = sphere_grid(L)
    if anywhere:
        a, b = ctx.real("alpha", 0, float(p[0, -1])), ctx.real("beta", 0, math.pi)
        j, i = nearest(ctx, a, p[0]), nearest(ctx, b, t[:, 0])
        r = fn.translate(a, b, shannon=n)
    else:
        i, j = ctx.choice("i", t.shape[0]), ctx.choice("j", t.shape[1])
        r = fn.translate(float(p[i, j]), float(t[i, j]), shannon=n)
    Y = ylm_grid(L, L)
    at = np.array([Y[k][i, j] for k in range(L * L)])
    want = [f[q] * complex(fn.slepian.eigenvectors[q] @ at) for q in range(n)]
    ctx.close(r, arr(ctx, want), "translated: times the Slepian functions at the nearest sample", tol=1e-6)
    ctx.reach()


def nearest(ctx, x, samples):
    """Which sample is nearest to x (which is not half way between two)."""
    for i, s in enumerate(samples):
        near = [abs(x - s) < abs(x - t) - 1e-9 for k, t in enumerate(samples) if k != i]
        if not near or bool(ctx.And(*near)):
            return i
    ctx.assume(False)
    return None


def delta(ctx, L, kind):
    """The Slepian Dirac delta: at a sample where the first Slepian function is largest."""
    import sleplet.functions as fs
    from sleplet.slepian.region import Region

    if kind == "mask":
        any_mask("here", L)
        any_mask("here", 2 * L)
    region = dict(cap=lambda: Region(theta_max=1.9), lim=lambda: Region(theta_min=0.3, theta_max=1.9, phi_max=2.5), mask=lambda: Region(mask_name="here"))[kind]()
    EighStub(ctx, complex_vectors=kind != "cap", by_size=True, strict=True)
    f = fs.SlepianDiracDelta(L, region=region)
    S, N = f.slepian.eigenvectors, f.slepian.N
    Y = ylm_grid(L, L)
    at = [tuple(i) for i in np.ndindex(*Y[0].shape)]

    def value(p, i):
        t = 0j
        for k in range(L * L):
            t = t + S[p, k] * complex(Y[k][i])
        return t

    first = [value(0, i).real for i in at]
    c = flat(f.coefficients)
    ctx.check(len(c) == L * L, "a coefficient for each Slepian function")
    places = []
    for n, i in enumerate(at):
        near = []
        for p in range(min(N, len(S))):
            d = c[p] - conj(value(p, i) + 0j)
            near += [d.real <= 1e-7, d.real >= -1e-7, d.imag <= 1e-7, d.imag >= -1e-7]
        places.append(ctx.And(*[first[n] >= x - 1e-7 for x in first], *near))
    ctx.check(ctx.Or(*places), "the Slepian functions where the first is largest")
    for x in c[N:]:
        ctx.close(arr(ctx, [x + 0j]), np.zeros(1), "nothing beyond the Shannon number", tol=1e-9, observe=False)
    ctx.reach()


def instances(tier):
    out = []
    for n in (1, 4) if tier == "quick" else (1, 4, 9):
        for rows, grows in ((0, 0), (2, 0), (3, 0), (2, 2)):
            for shannon in (False, True):
                for kind in "cf":
                    out.append(inst(f"convolve n{n} {rows}x{grows} shannon={shannon} {kind}", "convolve", n=n, rows=rows, grows=grows,
                                    shannon=shannon, kind=kind))
    top = 3 if tier == "quick" else 4
    for L in range(1, top + 1):
        for cls in ("Gaussian", "Identity"):
            out.append(inst(f"translate {cls} L{L}", "translate", L=L, cls=cls))
        out.append(inst(f"dirac L{L}", "dirac", L=L))
    for which in ("alpha", "beta", "gamma", "alpha beta gamma"):
        out.append(inst(f"rotate {which}", "rotate", which=which.split()))
    out.append(inst("rotate alpha beta", "rotate", which=["alpha", "beta"], gamma=False))
    for L in (1, 2) if tier == "quick" else (1, 2, 3):
        for n in {1, (L * L + 1) // 2, L * L}:
            out.append(inst(f"slepian L{L} N{n}", "slepian", L=L, n=n))
    for L in (6, 8) if tier == "quick" else (4, 5, 6, 7, 8, 9, 11):
        out.append(inst(f"slepian grid L{L}", "slepian_grid", L=L, anywhere=False, weight=L**2))
    for L in (1, 2) if tier == "quick" else (1, 2, 3):
        out.append(inst(f"slepian anywhere L{L}", "slepian_grid", L=L, anywhere=True, weight=L**3))
    for kind in ("cap", "lim", "mask"):
        for L in (1, 2) if kind == "cap" else (1,):
            out.append(inst(f"delta {kind} L{L}", "delta", L=L, kind=kind, weight=L**3))
    return out
