"""Eigenpairs of every region type: largest first, each vector with its eigenvalue."""
import math

import numpy as np

from harness.common import EighStub, inst, sphere_grid

META = dict(
    bounds="every eigendecomposition (arbitrary eigenvalues in [0, 1] including repeated ones, arbitrary vectors) of bandlimit 1..2 "
    "for polar caps and gaps over all orders, limited regions and masks; arbitrary vectors of bandlimits 3..4, with two sets of eigenvalues (thorough: four)",
    outside="larger bandlimits; the numerical accuracy of the eigensolver",
    assumptions=["eigh answers eigenvalues in ascending order (its contract) and arbitrary vectors"],
)


def near(ctx, a, b, tol=1e-7):
    if ctx.symbolic:
        return a == b
    return bool(abs(a - b) <= tol)


def same_up_to_phase(ctx, row, vec, n):
    """row = phase * vec, compared through the products with their own conjugates."""
    out = []
    for a in range(n):
        for b in range(n):
            x, y = row[a] * np.conj(row[b]), vec[a] * np.conj(vec[b])
            out.append(near(ctx, x.real, y.real, 1e-6))
            out.append(near(ctx, x.imag, y.imag, 1e-6))
    return ctx.And(*out)


def build(ctx, kind, L):
    if kind in ("cap", "gap"):
        from sleplet.slepian.slepian_polar_cap import SlepianPolarCap

        return SlepianPolarCap(L, 1.1, gap=kind == "gap")
    if kind == "lim":
        from sleplet.slepian.slepian_limit_lat_lon import SlepianLimitLatLon

        return SlepianLimitLatLon(L, theta_min=0.4, theta_max=1.9, phi_min=0.7, phi_max=3.0)
    from sleplet._data import setup_pooch
    from sleplet.slepian.slepian_arbitrary import SlepianArbitrary

    t, p = sphere_grid(2 * L)
    setup_pooch.save_to_local(f"slepian_masks_africa_L{2 * L}.npy", (t <= 1.3) & (p < (3 if kind == "arb" else 9)))
    return SlepianArbitrary(L, "africa")


def body(ctx, kind, L, values=None):
    polar = kind in ("cap", "gap")
    stub = EighStub(ctx, complex_vectors=not polar, by_size=polar, values=values)
    s = build(ctx, kind, L)
    n = L * L
    ctx.check(np.shape(s.eigenvalues) == (n,), "number of eigenvalues")
    ctx.check(np.shape(s.eigenvectors) == (n, n), "shape of the eigenvectors")
    ctx.check(ctx.And(*[s.eigenvalues[i] >= s.eigenvalues[i + 1] - 1e-12 for i in range(n - 1)]), "eigenvalues in descending order")
    pairs = []
    if polar:
        ms = list(range(-(L - 1), L))
        for m in ms:
            assert L - abs(m) in stub.memo
            w, v = stub.memo[L - abs(m)]
            for i in range(L - abs(m)):
                vec = [0.0] * n
                for el in range(abs(m), L):
                    vec[el * el + el + m] = v[el - abs(m), i]
                pairs.append((w[i], m, vec))
        ctx.check(np.shape(s.order) == (n,), "an order for every eigenvector")
    else:
        assert len(stub.calls) == 1
        A, w, v = stub.calls[0]
        pairs = [(w[i], None, [np.conj(v[a, i]) for a in range(n)]) for i in range(n)]
    table = [
        [
            False if values is not None and ctx.symbolic and not bool(near(ctx, s.eigenvalues[r], ev)) else
            ctx.And(near(ctx, s.eigenvalues[r], ev), m is None or s.order[r] == m,
                    same_up_to_phase(ctx, s.eigenvectors[r], vec, n))
            for ev, m, vec in pairs
        ]
        for r in range(n)
    ]
    for r in range(n):
        ctx.check(ctx.Or(*table[r]), "every row is an eigenvector of its eigenvalue (and order)")
    for k in range(n):
        ctx.check(ctx.Or(*[table[r][k] for r in range(n)]), "no eigenpair is lost")
    if polar:
        # rows of opposite orders are the paired real and imaginary functions: independent
        ctx.check(sorted(int(x) for x in s.order) == sorted(m for _, m, _ in pairs), "every order appears as often as it should")
    ctx.reach()


def instances(tier):
    out = []
    for kind in ("cap", "gap", "lim", "arb", "axisymmetric arb"):
        for L in (1, 2):
            out.append(inst(f"{kind} L{L}", "body", kind=kind, L=L, weight=L * 3, budget=300, max_paths=200))
    for kind in ("cap", "gap", "lim", "arb"):
        for L in (3, 4) if kind in ("cap", "gap") else (3,):
            for k in (1, 2) if tier == "quick" else (1, 2, 3, 4):
                out.append(inst(f"{kind} L{L} values {k}", "body", kind=kind, L=L, values=k, weight=L * 6, budget=300))
    return out
