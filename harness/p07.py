"""Concentration matrix of an arbitrary mask."""
import math
import os

import numpy as np

from harness.common import flat, grid_weight, inst, matrix_solved, sphere_grid, use_executor, ylm_grid

META = dict(
    bounds="every mask on the sample grid for bandlimits 1..3; 1..5 workers in every order of their tasks (up to 3 workers)",
    outside="larger bandlimits; interleavings inside a task",
    assumptions=["float64 arithmetic is treated as exact, compared with tolerance 1e-7", "eigh is modelled by its contract"],
)


def matrix(ctx, L, ncpu, reorder):
    from sleplet._data import setup_pooch
    from sleplet.slepian.slepian_arbitrary import SlepianArbitrary

    ctx.patch(os.environ, "NCPU", str(ncpu))

    def order(n):
        left, out = list(range(n)), []
        while left:
            out.append(left.pop(ctx.choice(f"next{n}.{len(out)}", len(left)) if len(left) > 1 else 0))
        return out

    use_executor(ctx, order=order if reorder else None)
    res = 2 * L
    thetas, _ = sphere_grid(res)
    mask = ctx.array("mask", thetas.shape, kind="b")
    setup_pooch.save_to_local(f"slepian_masks_africa_L{res}.npy", mask)
    D = matrix_solved(ctx, SlepianArbitrary, L, "africa")
    ctx.check(np.shape(D) == (L * L, L * L), "size of the matrix")
    w = grid_weight(res)
    Y = ylm_grid(L, res)
    ms = [ctx.ite(b, 1.0, 0.0) for b in flat(mask)]
    want = []
    for i in range(L * L):
        row = []
        for j in range(L * L):
            f = (Y[i] * np.conj(Y[j]) * w).ravel()
            re, im = 0.0, 0.0
            for b, x in zip(ms, f):
                re = re + b * float(x.real)
                im = im + b * float(x.imag)
            row.append(re + 1j * im)
        want.append(row)
    ctx.close(D, ctx.arr(want, "c") if ctx.symbolic else np.array(want, dtype=complex), "concentration matrix", tol=1e-7)
    ctx.reach()


def instances(tier):
    out = []
    for ncpu in (1, 3):
        out.append(inst(f"L1 ncpu{ncpu}", "matrix", L=1, ncpu=ncpu, reorder=False))
    for ncpu in (1, 2, 4, 5):
        out.append(inst(f"L2 ncpu{ncpu}", "matrix", L=2, ncpu=ncpu, reorder=False, weight=3))
    for ncpu in (2, 3):
        out.append(inst(f"L2 ncpu{ncpu} any order", "matrix", L=2, ncpu=ncpu, reorder=True, weight=9))
    for ncpu in (3,) if tier == "quick" else (1, 3, 4):
        out.append(inst(f"L3 ncpu{ncpu}", "matrix", L=3, ncpu=ncpu, reorder=False, weight=30, budget=600))
    return out
