"""Polar cap / polar gap concentration matrix."""
import math
import os

import numpy as np

from harness.common import EighStub, horner, inst, ylm_product_antiderivative

META = dict(
    bounds="every opening angle in (0, pi] (cap) and (0, pi/2] (gap); bandlimits 1..6 (quick) or 1..8 (thorough), "
    "every order, 1..5 workers",
    outside="larger bandlimits, rounding of float64 beyond 1e-7",
    assumptions=[
        "eigh is modelled by its contract (real ascending eigenvalues, arbitrary eigenvectors)",
        "create_ylm is modelled by the exact associated Legendre polynomials in cos/sin of the angle",
        "float64 arithmetic is treated as exact, compared with tolerance 1e-7",
    ],
)


def oracle(L, m, c, gap):
    m = abs(m)
    n = L - m
    D = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            F = ylm_product_antiderivative(m + i, m + j, m)
            v = horner(F, 1.0) - horner(F, c)
            if gap:
                v = v + (horner(F, -c) - horner(F, -1.0))
            D[i][j] = v
    return D


def matrix(ctx, L, m, gap, ncpu):
    from sleplet.slepian.slepian_polar_cap import SlepianPolarCap

    ctx.patch(os.environ, "NCPU", str(ncpu))
    theta = ctx.angle("theta_max", 0.001, math.pi / 2 if gap else math.pi)
    if gap is False and ctx.symbolic:
        ctx.assume(theta < math.pi)
    if not ctx.symbolic and theta >= math.pi:
        theta = 3.14
    stub = EighStub(ctx)
    s = SlepianPolarCap(L, theta, gap=gap, order=m)
    assert len(stub.calls) == 1
    A, w, v = stub.calls[0]
    ctx.check(np.shape(A) == (L - abs(m), L - abs(m)), "size of the matrix of an order")
    ctx.close(A, ctx.arr(oracle(L, m, ctx.cos(theta), gap)), "concentration matrix", tol=1e-7)
    # the eigenpairs come back largest first, at the harmonic positions of the order
    n = L - abs(m)
    ctx.check(np.shape(s.eigenvalues) == (n,), "number of eigenvalues")
    ctx.check(np.shape(s.eigenvectors) == (n, L * L), "shape of the eigenvectors")
    ctx.close(s.eigenvalues, w[::-1], "eigenvalues in descending order", tol=1e-7, observe=False)
    for r in range(n):
        place = {(el * el + el + m): el - abs(m) for el in range(abs(m), L)}
        row = s.eigenvectors[r]
        # the phase of an eigenvector is free: compare the products with its own conjugate
        for a in range(L * L):
            if a not in place:
                ctx.close(row[a], 0.0, "no energy outside the order", tol=1e-7, observe=False)
        for a in place:
            for b in place:
                ctx.close(
                    row[a] * np.conj(row[b]), v[place[a], n - 1 - r] * v[place[b], n - 1 - r],
                    "eigenvector placed at the harmonics of its order", tol=1e-6,
                    observe=False,
                )
    ctx.reach()


def instances(tier):
    out = []
    top = 6 if tier == "quick" else 8
    k = 0
    for L in range(1, top + 1):
        for m in range(-(L - 1), L):
            for gap in (False, True):
                k += 1
                if tier == "quick" and L == top and m < 0 and m != -1:
                    continue
                out.append(inst(f"L{L} m{m} gap={gap}", "matrix", L=L, m=m, gap=gap, ncpu=1 + k % 5, weight=L - abs(m)))
    return out
