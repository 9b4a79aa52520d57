"""Fields drawn on the sphere."""
import contextlib
import math
import types

import numpy as np

from harness.common import flat, inst, library, sphere_grid, ylm_grid
from harness.p15 import arr

META = dict(
    bounds="plot resolution: every bandlimit 1..10^6; finer sampling: every signal of bandlimit 1..3, spins 0..2, resolutions up to 6; "
    "plots of every field of bandlimit 1..3 on its own grid (quick: up to 2), every amplitude in [0.1, 10]; largest amplitude: every set of "
    "coefficients of bandlimit 1..2",
    outside="larger bandlimits, what plotly draws from the surface it is given, NaN and infinities",
    assumptions=["float64 arithmetic is treated as exact, compared with tolerance 1e-6",
                 "pyssht is the real library (its transforms are applied as linear maps), plotly is replaced by a recorder"],
)


def resolution(ctx):
    from sleplet import plot_methods as pm

    L = ctx.int("L", 1, 10**6)
    r = pm.calc_plot_resolution(L)
    ctx.check(ctx.Or(*[r == L * 2**e for e in range(7)]), "resolution is a power of two times the bandlimit")
    ctx.check(r >= 64, "resolution of at least 64")
    ctx.check(ctx.Or(L >= 1024, r <= 2046), "resolution stays within reach")
    ctx.check(ctx.Or(L < 1024, r == L), "large bandlimits are not boosted")
    ctx.reach()


def spin_ylm(ctx, L, res, spin):
    """Spin harmonics on the grid of bandlimit res (rows), from the library at the same resolution."""
    import pyssht

    out = []
    for i in range(L * L):
        x = np.zeros(res * res, dtype=complex)
        x[i] = 1
        out.append(pyssht.inverse(x, res, Method="MWSS", Spin=spin))
    return out


def combine(ctx, flm, basis):
    shape = np.shape(basis[0])
    out = np.empty(shape, dtype=object if ctx.symbolic else complex)
    fl = flat(flm)
    for ij in np.ndindex(shape):
        t = 0j
        for c, b in zip(fl, basis):
            v = complex(b[ij])
            if abs(v) > 1e-15:
                t = t + c * v
        out[ij] = t
    return arr(ctx, out.tolist(), "c").reshape(shape)


def symmetric(ctx, L, name="flm"):
    """Coefficients of a real field."""
    out = [0j] * (L * L)
    for l in range(L):
        out[l * l + l] = ctx.real(f"{name}{l}", -1, 1) + 0j
        for m in range(1, l + 1):
            z = ctx.cplx(f"{name}{l}.{m}")
            out[l * l + l + m] = z
            out[l * l + l - m] = (-1) ** m * z.conjugate()
    return arr(ctx, out, "c")


def finer(ctx, L, res, spin, reality):
    from sleplet import harmonic_methods as hm
    from sleplet import plot_methods as pm

    flm = symmetric(ctx, L) if reality else ctx.array("flm", L * L, kind="c")
    basis = spin_ylm(ctx, L, res, spin) if spin else ylm_grid(L, res)
    if spin:
        for l in range(min(spin, L)):
            for i in range(l * l, (l + 1) ** 2):
                basis[i] = np.zeros_like(basis[i])
    want = combine(ctx, flm, basis)
    f0 = flm.copy()
    got = hm.invert_flm_boosted(flm, L, res, reality=reality, spin=spin)
    ctx.close(got, want.real if reality else want, "the signal sampled more finely", tol=1e-6, observe=False)
    ctx.close(flm, f0, "coefficients untouched", tol=1e-9)
    basis = spin_ylm(ctx, L, L, spin) if spin else ylm_grid(L, L)
    if spin:
        for l in range(min(spin, L)):
            for i in range(l * l, (l + 1) ** 2):
                basis[i] = np.zeros_like(basis[i])
    field = combine(ctx, flm, basis)
    if reality:
        field = field.real.copy()
    got = pm._boost_field(field, L, res, reality=reality, spin=spin, upsample=True)
    ctx.close(got, want.real if reality else want, "the field sampled more finely", tol=1e-6, observe=False)
    got = pm._boost_field(field, L, res, reality=reality, spin=spin, upsample=False)
    ctx.close(got, field, "no upsampling leaves the field", tol=1e-9, observe=False)
    ctx.reach()


def part(ctx, x, kind):
    if kind == "real":
        return x.real
    if kind == "imag":
        return x.imag
    if kind == "sum":
        return x.real + x.imag
    return abs(x)


class Recorder:
    """Stands for a plotly constructor."""

    def __init__(self, log, key):
        self.log, self.key = log, key

    def __call__(self, *a, **k):
        o = types.SimpleNamespace(args=a, kw=k)
        if a and isinstance(a[0], dict):
            k = {**a[0], **k}
            o.kw = k
        o.data = k.get("data", a[0] if a else ())
        o.layout = k.get("layout")
        self.log.setdefault(self.key, []).append(o)
        return o


def record(ctx):
    import plotly.graph_objects as go
    import plotly.io as pio

    log = {}
    for n in ("Surface", "Mesh3d", "Figure"):
        real = getattr(go, n)
        r = Recorder(log, n)
        ctx.patch(go, n, r)
    ctx.patch(pio, "show", lambda *a, **k: log.setdefault("show", []).append((a, k)))
    return log


def shown(ctx, log, kind):
    """The one surface that was drawn, and the name of the picture."""
    ctx.check(len(log.get(kind, [])) == 1 and len(log.get("show", [])) == 1, "one surface is drawn")
    a, k = log["show"][0]
    name = k.get("config", {}).get("toImageButtonOptions", {}).get("filename")
    return log[kind][0].kw, name


def normal(ctx, values):
    """What normalising makes of the values (as the normalisation property says)."""
    from sleplet import plot_methods as pm

    return pm._normalise_function(values, normalise=True)


def plot(ctx, L, kind, normalise, amplitude, region=None):
    from sleplet.plotting import PlotSphere

    f = ctx.array("f", sphere_grid(L)[0].shape, kind="c") if kind != "real" else ctx.array("f", sphere_grid(L)[0].shape)
    amp = ctx.real("amplitude", 0.1, 10) if amplitude else None
    f0 = f.copy()
    log = record(ctx)
    notes = [dict(text="A", x=0.25, y=-0.5, z=0.75, arrowside="start")][: ctx.choice("annotations", 2)]
    p = PlotSphere(f, L, "picture", annotations=notes, amplitude=amp, normalise=normalise, plot_type=kind, upsample=False, region=region)
    p.execute()
    kw, name = shown(ctx, log, "Surface")
    got = [(a.text, a.x, a.y, a.z) for a in log["Figure"][0].layout.scene.annotations or ()]
    ctx.check(got == [(a["text"], a["x"], a["y"], a["z"]) for a in notes], "annotations are shown")
    ctx.close(f, f0, "field untouched", tol=1e-9)
    t, ph = sphere_grid(L)
    want = part(ctx, f0 if kind == "real" else f0, kind)
    vals = flat(want)
    if normalise:
        want = normal(ctx, want)
    n = t.shape[1]
    got = kw["surfacecolor"]
    ctx.check(np.shape(got) == (t.shape[0], n + 1), "one colour for every sample, and a closing column")
    if np.shape(got) != (t.shape[0], n + 1):
        return
    ctx.close(got[:, :n], want, "colours", tol=1e-6, observe=False)
    ctx.close(got[:, n], want[:, 0], "the last meridian is the first", tol=1e-6, observe=False)
    cl = np.concatenate([np.arange(n), [0]])
    st = np.sin(t[:, cl])
    for key, w in (("x", st * np.cos(ph[:, cl])), ("y", st * np.sin(ph[:, cl])), ("z", np.cos(t[:, cl]))):
        if np.shape(kw.get(key)) != w.shape:
            ctx.check(False, f"{key} of the direction of each sample")
            continue
        ctx.close(kw[key], w, f"{key} of the direction of each sample", tol=1e-9, observe=False)
    scale(ctx, kw, normalise, amp, vals)
    ctx.check(name is not None and name.startswith("picture") and kind in name and ("norm" in name) == normalise, "name of the picture")
    ctx.reach()


def scale(ctx, kw, normalise, amp, vals):
    if normalise:
        ctx.check(ctx.And(kw["cmin"] == 0, kw["cmax"] == 1, kw["cmid"] == 0.5), "colours range over [0, 1]")
    else:
        if amp is not None:
            ctx.close(arr(ctx, [kw["cmax"]], "f"), arr(ctx, [amp], "f"), "largest colour", tol=1e-6, observe=False)
        else:
            judge_max(ctx, kw["cmax"], vals)
        ctx.close(arr(ctx, [kw["cmin"] + kw["cmax"]], "f"), arr(ctx, [0.0], "f"), "range of the colours", tol=1e-6, observe=False)
        ctx.check(kw["cmid"] == 0, "zero in the middle")


def plot_finer(ctx, L):
    """The plot of an upsampled field, at its real resolution (every 37th sample is compared)."""
    from sleplet import plot_methods as pm
    from sleplet.plotting import PlotSphere

    flm = symmetric(ctx, L)
    field = combine(ctx, flm, ylm_grid(L, L)).real.copy()
    log = record(ctx)
    p = PlotSphere(field, L, "picture", amplitude=1.0, normalise=False, reality=True)
    p.execute()
    kw, name = shown(ctx, log, "Surface")
    res = pm.calc_plot_resolution(L)
    t, ph = sphere_grid(res)
    got = kw["surfacecolor"]
    ctx.check(np.shape(got) == (t.shape[0], t.shape[1] + 1), "samples of the resolution of the plot")
    basis = ylm_grid(L, res)
    idx = list(range(0, t.size, 37))
    pick = [np.ravel(b)[idx][None, :] for b in basis]
    want = combine(ctx, flm, pick).real
    ctx.close(got[:, :-1].ravel()[idx], want.ravel(), "colours", tol=1e-6, observe=False)
    ctx.check(str(res) in name, "name of the picture tells the resolution")
    ctx.reach()


def function(ctx, L, spin, reality, cls="SphericalHarmonic"):
    import sleplet

    f = sleplet.functions.SphericalHarmonic(L)
    f.coefficients = symmetric(ctx, L) if reality else ctx.array("flm", L * L, kind="c")
    f.spin = spin
    f.reality = reality
    return f


def amplitude(ctx, L, spin, reality, kind, boost):
    """find_max_amplitude."""
    from sleplet import plot_methods as pm

    fun = function(ctx, L, spin, reality)
    flm = fun.coefficients.copy()
    res, called = L, []
    if boost:
        res = L + 1
        ctx.patch(pm, "calc_plot_resolution", lambda x: called.append(x) or res)
    got = pm.find_max_amplitude(fun, plot_type=kind, upsample=boost)
    if boost and not called:
        ctx.reach()
        return
    basis = spin_ylm(ctx, L, res, spin)
    for l in range(min(spin, L)):
        for i in range(l * l, (l + 1) ** 2):
            basis[i] = np.zeros_like(basis[i])
    want = combine(ctx, flm, basis)
    if reality:
        want = want.real
    judge_max(ctx, got, flat(part(ctx, want, kind)))
    ctx.reach()


def judge_max(ctx, got, vals):
    cplx = ctx.symbolic and any(hasattr(v, "im") for v in vals) or not ctx.symbolic and np.iscomplexobj(np.array(vals))
    if cplx:
        vals = [abs(v) for v in vals]
    for v in vals:
        ctx.check(ctx.And(v <= got + 1e-6, -v <= got + 1e-6), "no sample is larger than the amplitude")
    if len(vals) > 12:
        return  # which of many samples is the largest is out of the solver's reach
    ctx.check(ctx.Or(*[x >= got - 1e-6 for v in vals for x in ((v,) if cplx else (v, -v))]), "the amplitude is reached")


def noisy(ctx, L, spin, reality, noised):
    from sleplet import plot_methods as pm

    fun = function(ctx, L, spin, reality)
    flm = fun.coefficients.copy()
    if noised:
        fun._unnoised_coefficients = flm.copy()
        fun.coefficients = flm * 3.0
    else:
        fun._unnoised_coefficients = None
    got = pm.compute_amplitude_for_noisy_sphere_plots(fun)
    if not noised:
        ctx.check(got is None, "no amplitude is fixed without noise")
        ctx.reach()
        return
    basis = spin_ylm(ctx, L, L, spin)
    want = combine(ctx, flm, basis)
    judge_max(ctx, got, flat(want.real if reality else want))
    ctx.reach()


def instances(tier):
    deep = tier == "thorough"
    out = [inst("resolution", "resolution")]
    for L, res in ((1, 2), (2, 3), (2, 5), (3, 4)) + (((3, 6), (4, 8)) if deep else ()):
        for spin, reality in ((0, False), (0, True), (1, False), (2, False)):
            if spin < L or spin == 0:
                out.append(inst(f"finer L{L} res{res} spin{spin} real{int(reality)}", "finer", L=L, res=res, spin=spin, reality=reality, weight=res**2))
    for L in (1, 2) + ((3,) if deep else ()):
        for kind in ("real", "imag", "abs", "sum"):
            for amp in (False, True):
                if kind != "abs" or L == 1 or amp:
                    out.append(inst(f"plot L{L} {kind} amplitude{int(amp)}", "plot", L=L, kind=kind, normalise=False, amplitude=amp, weight=L**3))
    out.append(inst("plot L1 normalised", "plot", L=1, kind="real", normalise=True, amplitude=False, weight=8))
    for L in (1, 2):
        out.append(inst(f"plot upsampled L{L}", "plot_finer", L=L, weight=20))
    for L, spin, reality in ((1, 0, True), (1, 0, False), (2, 0, True), (2, 1, False)):
        for kind in ("real", "imag", "sum") + (("abs",) if L == 1 else ()):
            if not (reality and kind == "imag"):
                for boost in (False, True):
                    if L == 1 or deep or not boost or kind == "real":
                        out.append(inst(f"amplitude L{L} spin{spin} real{int(reality)} {kind} boost{int(boost)}", "amplitude", L=L, spin=spin,
                                        reality=reality, kind=kind, boost=boost, weight=L**4))
    for noised in (False, True):
        for L, spin, reality in ((1, 0, True), (1, 0, False), (2, 0, True)):
            out.append(inst(f"noisy L{L} spin{spin} real{int(reality)} noise{int(noised)}", "noisy", L=L, spin=spin, reality=reality, noised=noised, weight=L**3))
    return out
