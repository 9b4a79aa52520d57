"""Saved eigensolutions: histories of constructions, interrupted writes, names."""
import math
import os

import numpy as np

from harness.common import EighStub, inst, object_solving, sphere_grid

PI = math.pi
META = dict(
    bounds="bandlimits 1..2; every eigendecomposition; bandlimits 3..4 (reading back, single orders): every set of eigenvectors with given eigenvalues; every pair of different angles (for the names); a failure before, within or "
    "after each of the first eight writes; histories of two or three constructions",
    outside="files damaged by something else than an interrupted write; concurrent processes; angles closer than 1e-7 rad",
    assumptions=["eigh answers eigenvalues in ascending order and arbitrary vectors, the same for the same matrix",
                 "renaming a file within a folder is atomic"],
)


class Crash(BaseException):
    """The process is killed."""


def build(kind, L, order=None):
    if kind in ("cap", "gap"):
        from sleplet.slepian.slepian_polar_cap import SlepianPolarCap

        return SlepianPolarCap(L, 1.1, gap=kind == "gap", order=order)
    if kind == "lim":
        from sleplet.slepian.slepian_limit_lat_lon import SlepianLimitLatLon

        return SlepianLimitLatLon(L, theta_min=0.4, theta_max=1.9, phi_min=0.7, phi_max=3.0)
    from sleplet.slepian.slepian_arbitrary import SlepianArbitrary

    return SlepianArbitrary(L, "africa")


def prepare(ctx, kind, L, save_all=True, values=None):
    polar = kind in ("cap", "gap")
    stub = EighStub(ctx, complex_vectors=not polar, by_size=True, values=values)
    if kind == "arb":
        from sleplet._data import setup_pooch

        t, p = sphere_grid(2 * L)
        setup_pooch.save_to_local(f"slepian_masks_africa_L{2 * L}.npy", (t <= 1.3) & (p < 3))
    if polar and not save_all:
        from sleplet.slepian import slepian_polar_cap

        if hasattr(slepian_polar_cap, "_L_SAVE_ALL"):
            ctx.patch(slepian_polar_cap, "_L_SAVE_ALL", 0)
    return stub


def equal(ctx, a, b, what, leading):
    """b says the same as the freshly solved a."""
    n = a.N if leading else len(a.eigenvectors)
    ctx.check(len(b.eigenvalues) == len(a.eigenvalues), f"{what}: number of eigenvalues")
    ctx.check(len(b.eigenvectors) >= n, f"{what}: at least the Shannon number of eigenvectors")
    ctx.close(b.eigenvalues, a.eigenvalues, f"{what}: eigenvalues", tol=1e-9, observe=False)
    ctx.close(b.eigenvectors[:n], a.eigenvectors[:n], f"{what}: eigenvectors", tol=1e-9, observe=False)
    if hasattr(a, "order"):
        ctx.check(np.shape(a.order) == np.shape(b.order), f"{what}: shape of the orders")
        ctx.check(bool(np.all(np.asarray(a.order) == np.asarray(b.order))), f"{what}: orders")
    ctx.check(ctx.And(a.N == b.N), f"{what}: Shannon number")


def reload(ctx, kind, L, save_all, values=None):
    stub = prepare(ctx, kind, L, save_all, values)
    a = build(kind, L)
    calls = len(stub.calls)
    b = build(kind, L)
    ctx.check(len(stub.calls) == calls, "saved solutions are used")
    equal(ctx, a, b, "solution read back", leading=True)
    c = build(kind, L)
    equal(ctx, b, c, "solution read back twice", leading=True)
    ctx.reach()


def single_order(ctx, kind, L, m, save_all, first, values=None):
    """A single order: the same whether or not the full solution was saved before."""
    stub = prepare(ctx, kind, L, save_all, values)
    stub.strict = True  # eigenvalues of an order are distinct
    if first:
        fresh = build(kind, L, order=m)
    full = build(kind, L)
    again = build(kind, L, order=m)
    idx = [i for i, o in enumerate(full.order) if int(o) == m]
    ctx.check(len(again.eigenvalues) == L - abs(m) == len(idx), "number of eigenvalues of the order")
    ctx.check(len(again.eigenvectors) == L - abs(m), "number of eigenvectors of the order")
    ctx.close(again.eigenvalues, full.eigenvalues[idx], "eigenvalues of the order", tol=1e-9, observe=False)
    ctx.close(again.eigenvectors, full.eigenvectors[idx], "eigenvectors of the order", tol=1e-9, observe=False)
    if first:
        ctx.close(again.eigenvectors, fresh.eigenvectors, "order solved before and after", tol=1e-9, observe=False)
    ctx.reach()


def crash(ctx, kind, L, hard):
    """A write is interrupted; the next construction still answers what a fresh one does."""
    from sleplet._data import setup_pooch

    prepare(ctx, kind, L)
    at = ctx.choice("write", 4)
    how = ctx.choice("how", 3)
    orig = np.save
    if ctx.symbolic:
        from engine import env

        orig = env._np_save
    count = [0]

    def save(file, arr, *a, **k):
        nonlocal at
        n, count[0] = count[0], count[0] + 1
        if n != at:
            return orig(file, arr, *a, **k)
        if how == 0:
            raise Crash if hard else OSError("disk full")
        if how == 1:
            junk = b"\x93NUMPY\x01\x00v\x00{'des"
            if hasattr(file, "write"):
                file.write(junk)
                file.flush()
            else:
                p = os.fspath(file)
                with open(p if p.endswith(".npy") else p + ".npy", "wb") as f:
                    f.write(junk)
            raise Crash if hard else OSError("disk full")
        orig(file, arr, *a, **k)
        raise Crash if hard else OSError("disk full")

    ctx.patch(np, "save", save)
    crashed = False
    try:
        build(kind, L)
    except (Crash, OSError):
        crashed = True
    at = -1
    b = build(kind, L)
    # what a fresh solution looks like
    for d in ("XDG_DATA_HOME",):
        old = os.environ[d]
        os.makedirs(old + "_2", exist_ok=True)
        ctx.patch(os.environ, d, old + "_2")
    if kind == "arb":
        t, p = sphere_grid(2 * L)
        setup_pooch.save_to_local(f"slepian_masks_africa_L{2 * L}.npy", (t <= 1.3) & (p < 3))
    a = build(kind, L)
    equal(ctx, a, b, "solution after an interrupted write" if crashed else "solution", leading=True)
    ctx.patch(os.environ, "XDG_DATA_HOME", old)
    c = build(kind, L)
    equal(ctx, a, c, "second solution after an interrupted write", leading=True)
    ctx.reach()


def location(ctx, kind, L, pre, **kw):
    """Where the solution of the region is saved: the names of the files looked up."""
    from sleplet._data import setup_pooch

    seen = []
    orig = setup_pooch.find_on_pooch_then_local

    def find(name):
        seen.append(name)
        return None

    ctx.patch(setup_pooch, "find_on_pooch_then_local", find)
    if kind in ("cap", "gap"):
        from sleplet.slepian.slepian_polar_cap import SlepianPolarCap as cls

        args = dict(theta_max=kw["theta_max"], gap=kind == "gap")
    elif kind == "lim":
        from sleplet.slepian.slepian_limit_lat_lon import SlepianLimitLatLon as cls

        args = dict(kw)
        if ctx.symbolic:
            ctx.patch(cls, "_slepian_integral", lambda self: np.zeros((4 * L - 3, 4 * L - 3), dtype=complex))
    object_solving(ctx, cls, L, **args)
    ctx.patch(setup_pooch, "find_on_pooch_then_local", orig)
    return [n for n in seen if "mask" not in str(n)]


def names(ctx, kind_a, kind_b, La, Lb, vary):
    """Two different regions never share a saved solution."""
    base = dict(theta_min=0.4, theta_max=1.9, phi_min=0.7, phi_max=3.0)
    ra, rb = dict(base), dict(base)
    differ = []
    for n in vary:
        top = 2 * PI if n.startswith("phi") else PI
        lo = 0.01
        ra[n], rb[n] = ctx.angle(f"{n}.a", lo, top - 0.01), ctx.angle(f"{n}.b", lo, top - 0.01)
        d = ra[n] - rb[n]
        differ.append(ctx.Or(d > 1e-7, d < -1e-7))
    if kind_a == kind_b and La == Lb:
        ctx.assume(ctx.Or(*differ))
    pick = lambda k, r: {"theta_max": r["theta_max"]} if k in ("cap", "gap") else r
    a = location(ctx, kind_a, La, "a", **pick(kind_a, ra))
    b = location(ctx, kind_b, Lb, "b", **pick(kind_b, rb))
    assert a and b
    for x in a:
        for y in b:
            ctx.check(ctx.Not(ctx.same_text(x, y)), "different regions use different files")
    ctx.reach()


def instances(tier):
    out = []
    for kind in ("cap", "gap", "lim", "arb"):
        for L in (1, 2):
            out.append(inst(f"reload {kind} L{L}", "reload", kind=kind, L=L, save_all=True, weight=L * 3, max_paths=200))
    out.append(inst("reload cap L2 truncated", "reload", kind="cap", L=2, save_all=False, weight=6, max_paths=200))
    for kind in ("cap", "gap", "lim", "arb"):
        for L in (3, 4) if kind in ("cap", "gap") else (3,):
            for save_all in (True, False) if kind in ("cap", "gap") else (True,):
                out.append(inst(f"reload {kind} L{L} saved={save_all} values", "reload", kind=kind, L=L, save_all=save_all, values=L, weight=L * 4))
    for kind in ("cap", "gap"):
        for m in (-3, -2, 0, 1, 3) if tier == "quick" else range(-3, 4):
            for save_all in (True, False):
                out.append(inst(f"order {m} {kind} L4 saved={save_all} values", "single_order", kind=kind, L=4, m=m, save_all=save_all, first=True, values=5, weight=9))
        for m in (-1, 0, 1):
            for save_all in (True, False):
                for first in (True, False):
                    if tier == "quick" and kind == "gap" and first:
                        continue
                    out.append(inst(f"order {m} {kind} saved={save_all} first={first}", "single_order", kind=kind, L=2, m=m,
                                    save_all=save_all, first=first, max_paths=200, weight=4))
    for kind in ("cap", "lim", "arb"):
        for hard in (True, False):
            out.append(inst(f"crash {kind} hard={hard}", "crash", kind=kind, L=1 if kind != "lim" else 2, hard=hard,
                            max_paths=200, weight=5))
    for k in ("cap", "gap"):
        out.append(inst(f"names {k}", "names", kind_a=k, kind_b=k, La=2, Lb=2, vary=["theta_max"], branch_ms=500))
        out.append(inst(f"names {k} L", "names", kind_a=k, kind_b=k, La=2, Lb=3, vary=["theta_max"], branch_ms=500))
    out.append(inst("names cap/gap", "names", kind_a="cap", kind_b="gap", La=2, Lb=2, vary=["theta_max"], branch_ms=500))
    out.append(inst("names cap/lim", "names", kind_a="cap", kind_b="lim", La=2, Lb=2, vary=["theta_max"], branch_ms=500))
    for n in ("theta_min", "theta_max", "phi_min", "phi_max"):
        out.append(inst(f"names lim {n}", "names", kind_a="lim", kind_b="lim", La=2, Lb=2, vary=[n], branch_ms=500))
    return out
