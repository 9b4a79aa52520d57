"""Noise added to signals on the sphere."""
import math

import numpy as np

from harness.common import any_mask, earth_data, flat, inst
from harness.p15 import arr, conj, lms

META = dict(
    bounds="every Earth signal of bandlimit 1..3 (quick) or 1..4, every signal-to-noise ratio in [-30, 30] dB, every outcome of the random numbers (the first one positive, all at most 3 in magnitude); "
    "Slepian signals of bandlimit 2 in a masked region and in a limited region",
    outside="larger bandlimits; the distribution of the random numbers themselves (standard normal by contract); noise which happens to be exactly zero",
    assumptions=["float64 arithmetic is treated as exact, compared with tolerance 1e-7",
                 "a generator with a given seed answers the same numbers again"],
)


class Draws:
    """Stands for numpy.random.default_rng: any standard normal numbers, the same for the same seed."""

    def __init__(self, ctx):
        self.ctx, self.unit, self.n, self.seeds = ctx, None, 0, []
        ctx.patch(np.random, "default_rng", self.make)

    def make(self, seed=None):
        self.seeds.append(seed)
        return Generator(self)

    def get(self, i):
        self.n = max(self.n, i + 1)
        if self.unit is not None:
            return 1.0 if i == self.unit else 0.0
        return draw(self.ctx, i)


def draw(ctx, i):
    return ctx.real(f"g{i}", 0.01 if i == 0 else -3, 3)


class Generator:
    def __init__(self, draws):
        self.d, self.i = draws, 0

    def _next(self):
        self.i += 1
        return self.d.get(self.i - 1)

    def standard_normal(self, size=None, dtype=None, out=None):
        if size is None:
            return self._next()
        size = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        x = [self._next() for _ in range(int(np.prod(size)))]
        return arr(self.d.ctx, x, "f").reshape(size) if x else np.zeros(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)


def power(a):
    r = 0.0
    for x in flat(a):
        x = x + 0j
        r = r + (x * conj(x)).real
    return r


def judge(ctx, d, make, cov):
    """make(): a vector of noise; its covariance must be the given matrix."""

    def noise():
        try:
            return make()
        except ArithmeticError:
            raise
        except Exception as e:  # noqa: BLE001
            if type(e).__name__ == "NonFinite":  # outside: noise which happens to be exactly zero
                ctx.assume(False)
            raise

    d.seeds.clear()
    n = noise()
    ctx.check(d.seeds and all(s is not None for s in d.seeds), "the noise can be created again")
    again = noise()
    ctx.close(again, n, "the same noise again", tol=1e-9, observe=False)
    K = d.n
    cols = []
    for k in range(K):
        d.unit = k
        cols.append(flat(noise()))
    d.unit = None
    size = len(flat(n))
    want = []
    for i in range(size):
        t = 0j
        for k in range(K):
            t = t + draw(ctx, k) * cols[k][i]
        want.append(t)
    ctx.close(n, arr(ctx, want), "noise is linear in the random numbers", tol=1e-7, observe=False)
    for i in range(size):
        for j in range(i + 1):
            t = 0j
            for k in range(K):
                t = t + cols[k][i] * conj(cols[k][j] + 0j)
            ctx.close(arr(ctx, [t]), arr(ctx, [cov(i, j) + 0j]), f"covariance of the noise {i},{j}", tol=1e-7, observe=False)
    return n


def real_field(ctx, L, n):
    for i, (l, m) in enumerate(lms(L)):
        k = l * l + l - m
        ctx.close(arr(ctx, [n[k] + 0j]), arr(ctx, [(-1) ** m * conj(n[i] + 0j)]), "noise of a real field", tol=1e-7, observe=False)


def snr_is(ctx, snr, signal, noise, msg="signal-to-noise ratio"):
    ctx.close(arr(ctx, [snr + 0.0]), arr(ctx, [(ctx.log(power(signal)) - ctx.log(power(noise))) * (10 / math.log(10))]), msg, tol=1e-6, observe=False)


def earth(ctx, L, reality=True):
    flm = ctx.array("flm", (L + 1) ** 2, kind="c")
    earth_data(ctx, flm)


def harmonic(ctx, L, cls):
    import sleplet.functions as fs

    earth(ctx, L)
    d = Draws(ctx)
    s = ctx.real("snr", -30, 30)
    name = "Earth" if cls == "NoiseEarth" else cls
    base = getattr(fs, name)(L)
    ctx.check(base.snr is None and base._unnoised_coefficients is None, "no noise unless asked for")
    ctx.check(d.n == 0, "no noise unless asked for")
    b = base.coefficients.copy()
    P = power(b)
    ctx.assume(P > 0.01)
    made = []

    def noise():
        if cls == "NoiseEarth":
            f = fs.NoiseEarth(L, SNR=s)
            return f.coefficients
        f = getattr(fs, name)(L, noise=s)
        made.append(f)
        return f.coefficients - b

    var = ctx.pow10(-s / 10) * P / (L * L)
    n = judge(ctx, d, noise, lambda i, j: var if i == j else 0.0)
    real_field(ctx, L, n)
    if made:
        f = made[0]
        ctx.close(f._unnoised_coefficients, b, "coefficients before the noise", tol=1e-9, observe=False)
        ctx.assume(power(n) > 1e-6)
        snr_is(ctx, f.snr, b, n)
    ctx.reach()


def slepian(ctx, L, cls, kind):
    import sleplet.functions as fs
    from sleplet.slepian.region import Region

    earth(ctx, L)
    for name in ("africa", "south_america"):
        any_mask(name, L)
        any_mask(name, 2 * L)
    d = Draws(ctx)
    s = ctx.real("snr", -30, 30)
    reg = Region(theta_min=0.4, theta_max=1.9, phi_min=0.7, phi_max=3.0) if kind == "lim" else Region(mask_name=kind)
    name = cls.replace("Noise", "")
    base = getattr(fs, name)(L, region=reg)
    b = base.coefficients.copy()
    N = base.slepian.N
    S = np.array([[complex(x) for x in flat(r)] for r in base.slepian.eigenvectors])
    flm = []
    for i in range(L * L):
        t = 0j
        for p in range(N):
            t = t + b[p] * S[p, i]
        flm.append(t)
    P = power(flm)
    if name != "SlepianDiracDelta" and kind != "lim":
        ctx.assume(P > 0.01)
    made = []

    def noise():
        if cls != name:
            return getattr(fs, cls)(L, region=reg, SNR=s).coefficients
        f = getattr(fs, name)(L, region=reg, noise=s)
        ctx.check(np.shape(f.coefficients) == np.shape(b), "as many coefficients as without noise")
        made.append(f)
        return (f.coefficients - b)[:N]

    var = ctx.pow10(-s / 10) * P / (L * L)
    gram = S @ S.conj().T
    n = judge(ctx, d, noise, lambda i, j: var * gram[i, j])
    ctx.check(np.shape(n) == (N,), "noise of each coefficient")
    if made:
        f = made[0]
        ctx.close(f._unnoised_coefficients, b, "coefficients before the noise", tol=1e-9, observe=False)
        ctx.assume(power(n) > 1e-6)
        snr_is(ctx, f.snr, b, f.coefficients - b)
    ctx.reach()


def ratio(ctx, n, kind):
    """The public functions."""
    from sleplet import noise

    a, b = ctx.array("a", n, kind=kind), ctx.array("b", n, kind=kind)
    s = ctx.real("s", -30, 30)
    ctx.assume(ctx.And(power(a) > 0.01, power(b) > 0.01))
    snr_is(ctx, noise.compute_snr(a, b, "Any"), a, b)
    for den in (None, 1, 5):
        got = noise.compute_sigma_noise(a, s, **({} if den is None else dict(denominator=den)))
        ctx.check(ctx.And(got >= 0), "a standard deviation is not negative")
        ctx.close(arr(ctx, [got * got]), arr(ctx, [ctx.pow10(-s / 10) * power(a) / (den or n)]), "variance of the noise", tol=1e-7, observe=False)
    ctx.reach()


def instances(tier):
    out = []
    for L in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        out.append(inst(f"Earth L{L}", "harmonic", L=L, cls="Earth", weight=L**3))
    for L in (1, 2) if tier == "quick" else (1, 2, 3):
        out.append(inst(f"NoiseEarth L{L}", "harmonic", L=L, cls="NoiseEarth", weight=L**3))
        out.append(inst(f"DiracDelta L{L}", "harmonic", L=L, cls="DiracDelta", weight=L**3))
    for cls, kind in (("SlepianAfrica", "africa"), ("SlepianNoiseAfrica", "africa"), ("SlepianSouthAmerica", "south_america"),
                      ("SlepianNoiseSouthAmerica", "south_america"), ("SlepianIdentity", "lim"), ("Slepian", "lim")):
        out.append(inst(f"{cls} {kind}", "slepian", L=2, cls=cls, kind=kind, weight=20))
    for n in (1, 4):
        for kind in ("f", "c"):
            out.append(inst(f"ratio {n} {kind}", "ratio", n=n, kind=kind))
    return out
