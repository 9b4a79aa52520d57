"""Random signals and the variance of their wavelet coefficients."""
import numpy as np

from harness.common import flat, inst
from harness.p15 import arr, conj, lms
from harness.p18 import scales

META = dict(
    bounds="signals of bandlimit 1..5 (quick) or 1..6, every variance in [0, 100], every set of random numbers in [-3, 3]; scale discretised wavelets of parameters (2,0), (3,0), (3,1)",
    outside="larger bandlimits; the distribution of the random numbers themselves (standard normal by contract)",
    assumptions=["float64 arithmetic is treated as exact, compared with tolerance 1e-7"],
)


class Given:
    """A generator of given numbers, each asked for once."""

    def __init__(self, ctx):
        self.ctx, self.n, self.unit = ctx, 0, None

    def next(self):
        i, self.n = self.n, self.n + 1
        if self.unit is None:
            return self.ctx.real(f"g{i}", -3, 3)
        return 1.0 if i == self.unit else 0.0

    def standard_normal(self, size=None, *a, **k):
        if size is None:
            return self.next()
        size = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        x = [self.next() for _ in range(int(np.prod(size)))]
        return arr(self.ctx, x, "f").reshape(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)


def columns(ctx, make, n):
    """What each of the random numbers alone gives; the signal is their sum."""
    g = Given(ctx)
    f = make(g)
    K = g.n
    ctx.check(np.shape(f) == (n,), "as many coefficients")
    cols = []
    for k in range(K):
        u = Given(ctx)
        u.unit = k
        cols.append([x + 0j for x in flat(make(u))])
        ctx.check(u.n == K, "as many random numbers")
    want = []
    for i in range(n):
        t = 0j
        for k in range(K):
            t = t + ctx.real(f"g{k}", -3, 3) * cols[k][i]
        want.append(t)
    ctx.close(f, arr(ctx, want), "linear in the random numbers", tol=1e-7, observe=False)
    return cols


def covariance(ctx, cols, n, var, msg):
    for i in range(n):
        for j in range(i + 1):
            t, p = 0j, 0j
            for c in cols:
                t = t + c[i] * conj(c[j])
                p = p + c[i] * c[j]
            ctx.close(arr(ctx, [t]), arr(ctx, [(var(i) if i == j else 0.0) + 0j]), f"{msg}: covariance", tol=1e-7, observe=False)
            ctx.close(arr(ctx, [p]), np.zeros(1), f"{msg}: real and imaginary parts alike", tol=1e-7, observe=False)


def signal(ctx, L):
    from sleplet import harmonic_methods as hm

    var = ctx.real("var", 0, 100)
    cols = columns(ctx, lambda g: hm.compute_random_signal(L, g, var_signal=var), L * L)
    covariance(ctx, cols, L * L, lambda i: var, "signal")
    ctx.reach()


def slepian(ctx, L, B, j_min):
    """Wavelet coefficients of a random Slepian signal."""
    from sleplet import harmonic_methods as hm
    from sleplet import wavelet_methods as wm

    var = ctx.real("var", 0.01, 100)
    N = ctx.choice("N", L * L) + 1
    w = scales(L * L, B, j_min)
    ks = wm.create_kappas(L * L, B, j_min)
    ctx.close(ks, w, "wavelets", tol=1e-9)
    for row in range(len(w)):
        if not w[row, :N].any():
            continue

        def make(g):
            f = hm.compute_random_signal(L, g, var_signal=var)
            c = wm.slepian_wavelet_forward(f, ks, N)
            return c[row] if row < len(c) else arr(ctx, [0j] * N)

        cols = columns(ctx, make, N)
        covariance(ctx, cols, N, lambda p: var * abs(w[row, p]) ** 2, f"wavelet coefficients {row}")
    ctx.reach()


def axisymmetric(ctx, L, B, j_min):
    from sleplet import harmonic_methods as hm
    from sleplet import wavelet_methods as wm
    from sleplet.functions import AxisymmetricWavelets

    var = ctx.real("var", 0, 100)
    w = scales(L, B, j_min)
    wav = AxisymmetricWavelets(L, B=B, j_min=j_min).wavelets
    for row in range(len(w)):

        def make(g):
            f = hm.compute_random_signal(L, g, var_signal=var)
            return wm.axisymmetric_wavelet_forward(L, f, wav)[row]

        cols = columns(ctx, make, L * L)
        deg = [l for l, _ in lms(L)]
        covariance(ctx, cols, L * L, lambda i: var * abs(w[row, deg[i]]) ** 2, f"wavelet coefficients {row}")
    ctx.reach()


def instances(tier):
    deep = tier == "thorough"
    out = []
    for L in range(1, 7 if deep else 6):
        out.append(inst(f"signal L{L}", "signal", L=L, weight=L))
    for L, B, jm in ((1, 2, 0), (2, 2, 0), (2, 3, 1)) + (((3, 2, 0), (3, 3, 1)) if deep else ()):
        out.append(inst(f"slepian L{L} B{B} jmin{jm}", "slepian", L=L, B=B, j_min=jm, weight=L * L))
    for L, B, jm in ((2, 2, 0), (3, 3, 1), (4, 2, 1)) + (((5, 3, 0),) if deep else ()):
        out.append(inst(f"axisymmetric L{L} B{B} jmin{jm}", "axisymmetric", L=L, B=B, j_min=jm, weight=L * L))
    return out
