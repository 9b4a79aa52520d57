"""Slepian coefficients on the sphere."""
import copy
import math

import numpy as np

from harness.common import flat, grid_weight, inst, sphere_grid, ylm_grid

META = dict(
    bounds="bandlimits 1..2 (quick) or 1..3 (thorough): every set of eigenvectors and eigenvalues, every signal and mask, every rank "
    "in [-1000, 1000], every Shannon number; bandlimits 3..4 (thorough: 5): every signal, given eigenvectors and mask",
    outside="larger bandlimits",
    assumptions=["float64 arithmetic is treated as exact, compared with tolerance 1e-7",
                 "the spherical harmonic transforms are modelled as the linear maps the library implements"],
)


def slepian(ctx, L, n=None, given=False):
    """A Slepian object with any eigenvectors and eigenvalues (or given ones)."""
    from sleplet.slepian.slepian_polar_cap import SlepianPolarCap

    s = SlepianPolarCap(L, 1.3)
    if given:
        s = copy.copy(s)
        rng = np.random.default_rng(L)
        s.eigenvectors = (rng.normal(size=(L * L, L * L)) + 1j * rng.normal(size=(L * L, L * L))).round(2)
        s.eigenvalues = np.sort(rng.uniform(0.1, 1, L * L).round(3))[::-1].copy()
        s.N = L * L - 3
        return s
    s.eigenvectors = ctx.array("S", (L * L, L * L), kind="c")
    s.eigenvalues = ctx.array("ev", L * L, lo=0.05, hi=1)
    s.N = ctx.choice("N", L * L) + 1 if n is None else n
    return s


def values(L, res):
    """Y_lm on the grid as an array (index, sample)."""
    return np.array([y.ravel() for y in ylm_grid(L, res)])


def dot(a, b):
    r = 0.0
    for x, y in zip(a, b):
        r = r + x * y
    return r


def s_p(ctx, s, p, Y):
    row = list(flat(s.eigenvectors[p]))
    return [dot(row, [complex(z) for z in Y[:, k]]) for k in range(Y.shape[1])]


def coefficients(ctx, L, how, n, given=False):
    from sleplet import slepian_methods as sm

    s = slepian(ctx, L, given=given)
    Y = values(L, L)
    shape = sphere_grid(L)[0].shape
    w = grid_weight(L).ravel()
    kw = {}
    f = flm = mask = None
    if how in ("flm", "all"):
        flm = ctx.array("flm", L * L, kind="c")
        kw["flm"] = flm
    if how in ("f", "region", "all"):
        f = ctx.array("f", shape, kind="c")
        kw["f"] = f
    if how in ("region", "all"):
        mask = ctx.array("mask", shape, lo=0, hi=1) if not given else np.random.default_rng(3).uniform(0, 1, shape).round(2)
        kw["mask"] = mask
    if n is not None:
        n = s.N if n == "N" else n
        kw["n_coeffs"] = n
    else:
        n = s.N
    before = {k: v.copy() for k, v in kw.items() if k != "n_coeffs"}
    got = sm.slepian_forward(L, s, **kw)
    for k, v in before.items():
        ctx.close(kw[k], v, "inputs left alone", tol=1e-12, observe=False)
    ctx.check(np.shape(got) == (n,), "number of coefficients")
    want = []
    for p in range(n):
        if flm is not None:
            want.append(dot(flat(flm), [np.conj(x) for x in flat(s.eigenvectors[p])]))
            continue
        sp = [np.conj(x) for x in s_p(ctx, s, p, Y)]
        ww = [float(x) for x in w]
        if mask is not None:
            ww = [a * b for a, b in zip(ww, flat(mask))]
        x = dot([a * b for a, b in zip(flat(f), ww)], sp)
        want.append(x / s.eigenvalues[p] if mask is not None else x)
    ctx.close(got, ctx.arr(want, "c") if ctx.symbolic else np.array(want, dtype=complex), f"coefficients ({how})", tol=1e-7)
    ctx.reach()


def rank(ctx, L, how):
    from sleplet.slepian._slepian_decomposition import SlepianDecomposition

    s = slepian(ctx, L, n=1)
    kw = dict(flm=np.ones(L * L, dtype=complex)) if how == "flm" else dict(f=np.ones(sphere_grid(L)[0].shape, dtype=complex))
    if how == "region":
        kw["mask"] = np.ones(sphere_grid(L)[0].shape)
    d = SlepianDecomposition(L, s, **kw)
    r = ctx.int("rank", -1000, 1000)
    err, _ = ctx.raises(ValueError, d.decompose, r)
    bad = ctx.Or(r < 0, r >= L * L)
    ctx.check(bad if err is not None else ctx.Not(bad), "ranks outside the bandlimit, and only those, are rejected")
    ctx.reach()


def nothing(ctx, L):
    from sleplet import slepian_methods as sm

    s = slepian(ctx, L, n=1)
    err, _ = ctx.raises(Exception, sm.slepian_forward, L, s)
    ctx.check(isinstance(err, RuntimeError), "no input is rejected")
    err, _ = ctx.raises(Exception, sm.slepian_forward, L, s, mask=np.ones(sphere_grid(L)[0].shape))
    ctx.check(isinstance(err, RuntimeError), "a mask alone is rejected")
    err, _ = ctx.raises(ValueError, sm.slepian_forward, L, s, flm=np.ones(L * L, dtype=complex), n_coeffs=L * L + 1)
    ctx.check(err is not None, "more coefficients than functions are rejected")
    ctx.reach()


def inverse(ctx, L, more, given=False):
    """The field of the first N coefficients; roundtrip for orthonormal functions."""
    from sleplet import slepian_methods as sm

    s = slepian(ctx, L, given=given)
    n = s.N
    Y = values(L, L)
    shape = sphere_grid(L)[0].shape
    size = min(n + more, L * L)
    fp = ctx.array("fp", size, kind="c")
    got = sm.slepian_inverse(fp, L, s)
    ctx.check(np.shape(got) == shape, "a value for every sample")
    sps = [s_p(ctx, s, p, Y) for p in range(n)]
    want = [dot([fp[p] for p in range(n)], [sp[k] for sp in sps]) for k in range(Y.shape[1])]
    w = np.empty(len(want), dtype=object)
    w[:] = want
    w = w.reshape(shape)
    ctx.close(got, ctx.arr(w, "c") if ctx.symbolic else w.astype(complex), "field of the first Shannon number of coefficients", tol=1e-7)
    sp = sm.compute_s_p_omega(L, s)
    ctx.check(np.shape(sp) == (n, *shape), "as many Slepian functions as the Shannon number")
    for p in range(n):
        w = np.empty(len(sps[p]), dtype=object)
        w[:] = sps[p]
        w = w.reshape(shape)
        ctx.close(sp[p], ctx.arr(w, "c") if ctx.symbolic else w.astype(complex), "Slepian functions on the grid", tol=1e-7, observe=False)
    ctx.reach()


def higher(ctx, L, res):
    """Samples of the functions at a higher resolution: boosted coefficients."""
    from sleplet import harmonic_methods as hm

    flm = ctx.array("flm", L * L, kind="c")
    got = hm.invert_flm_boosted(flm, L, res)
    Y = values(L, res)
    w = np.empty(Y.shape[1], dtype=object)
    w[:] = [dot(flat(flm), [complex(z) for z in Y[:, k]]) for k in range(Y.shape[1])]
    w = w.reshape(sphere_grid(res)[0].shape)
    ctx.close(got, ctx.arr(w, "c") if ctx.symbolic else w.astype(complex), "the same function on a finer grid", tol=1e-7)
    ctx.reach()


def selected(ctx, L, via, kind, values=None):
    """Selecting a Slepian function by its rank."""
    from sleplet.functions import Slepian
    from sleplet.slepian.region import Region

    from harness.common import EighStub

    stub = EighStub(ctx, complex_vectors=kind == "lim", by_size=True, values=values)
    reg = Region(theta_max=1.3) if kind == "cap" else Region(theta_min=0.4, theta_max=1.9, phi_min=0.7, phi_max=3.0)
    r = ctx.int("rank", -1000, 1000)
    err, f = ctx.raises(ValueError, lambda: Slepian(L, region=reg, **(dict(rank=r) if via == "argument" else dict(extra_args=[r]))))
    bad = ctx.Or(r < 0, r >= L * L)
    if err is not None:
        ctx.check(bad, "ranks of the functions are accepted")
        ctx.reach()
        return
    ctx.check(ctx.Not(bad), "ranks outside the bandlimit are rejected")
    k = r.__index__()
    ctx.same(f.rank, r, "rank")
    ctx.check(np.shape(f.coefficients) == (f.slepian.N,), "Shannon number of coefficients")
    ev = f.slepian.eigenvectors
    want = [dot(flat(ev[k]), [np.conj(x) for x in flat(ev[p])]) for p in range(f.slepian.N)]
    ctx.close(f.coefficients, ctx.arr(want, "c") if ctx.symbolic else np.array(want, dtype=complex), "coefficients of a Slepian function",
              tol=1e-7, observe=False)
    ctx.reach()


def instances(tier):
    out = []
    for kind in ("cap", "lim"):
        for via in ("argument", "extra"):
            out.append(inst(f"selected {kind} L2 via {via}", "selected", L=2, via=via, kind=kind, weight=3))
    for kind in ("cap", "lim"):
        out.append(inst(f"selected {kind} L3 values", "selected", L=3, via="argument", kind=kind, values=2, weight=9))
    for L in (3, 4) if tier == "quick" else (3, 4, 5):
        for how in ("flm", "f", "region"):
            for n in (None, L * L):
                out.append(inst(f"given functions {how} L{L} n={n}", "coefficients", L=L, how=how, n=n, given=True, weight=9))
        for more in (0, 2):
            out.append(inst(f"given functions inverse L{L} more={more}", "inverse", L=L, more=more, given=True, weight=9))
    for L in (1, 2, 3):
        for how in ("flm", "f", "region", "all") if L < 3 or tier == "thorough" else ("flm", "all"):
            for n in (None, L * L):
                out.append(inst(f"coefficients {how} L{L} n={n}", "coefficients", L=L, how=how, n=n, weight=L * L))
        for how in ("flm", "f", "region"):
            out.append(inst(f"rank {how} L{L}", "rank", L=L, how=how))
        out.append(inst(f"nothing L{L}", "nothing", L=L))
        for more in (0, 2):
            out.append(inst(f"inverse L{L} more={more}", "inverse", L=L, more=more, weight=L * L))
        for res in (L + 1, 2 * L):
            out.append(inst(f"finer L{L} res={res}", "higher", L=L, res=res))
    return out
