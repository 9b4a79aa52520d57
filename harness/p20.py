"""Noise added to signals on a mesh."""
import numpy as np

from harness.common import flat, inst
from harness.p11 import dot
from harness.p14 import arr, build
from harness.p19 import Draws, draw, power, snr_is

META = dict(
    bounds="a four vertex mesh with 1..4 basis functions: every field, every signal-to-noise ratio in [-30, 30] dB, every outcome of the random numbers (the first "
    "one positive, all at most 3 in magnitude), any region and any set of Slepian functions",
    outside="larger meshes; the distribution of the random numbers themselves (standard normal by contract); noise which happens to be exactly zero",
    assumptions=["float64 arithmetic is treated as exact, compared with tolerance 1e-7",
                 "a generator with a given seed answers the same numbers again"],
)


def judge(ctx, d, make, cov, n=None):
    """make(): a vector of real noise; its covariance must be the given matrix."""

    def noise():
        try:
            return make()
        except ArithmeticError:
            raise
        except Exception as e:  # noqa: BLE001
            if type(e).__name__ == "NonFinite":
                ctx.assume(False)
            raise

    d.seeds.clear()
    n = noise()
    ctx.check(len(d.seeds) > 0 and all(s is not None for s in d.seeds), "the noise can be created again")
    ctx.close(noise(), n, "the same noise again", tol=1e-9, observe=False)
    K, cols = d.n, []
    for k in range(K):
        d.unit = k
        cols.append(flat(noise()))
    d.unit = None
    size = len(flat(n))
    want = [sum((draw(ctx, k) * cols[k][i] for k in range(K)), 0.0) for i in range(size)]
    ctx.close(n, arr(ctx, want), "noise is linear in the random numbers", tol=1e-7, observe=False)
    for i in range(size):
        for j in range(i + 1):
            t = sum((cols[k][i] * cols[k][j] for k in range(K)), 0.0)
            ctx.close(arr(ctx, [t]), arr(ctx, [cov(i, j) + 0.0]), f"covariance of the noise {i},{j}", tol=1e-7, observe=False)
    return n


def noisy(ctx, cls, nb, pairs, **kw):
    import igl

    import sleplet.meshes as ms

    nrm = ctx.array("normal", (4, 3))
    ctx.patch(igl, "per_vertex_normals", lambda *a, **k: nrm)
    name = cls.replace("Noise", "")
    mesh, rot, make = build(ctx, name, nb, pairs=pairs, **kw)
    d = Draws(ctx)
    s = ctx.real("snr", -30, 30)
    base = make()
    ctx.check(base.snr is None and base._unnoised_coefficients is None, "no noise unless asked for")
    ctx.check(d.n == 0, "no noise unless asked for")
    b = base.coefficients.copy()
    slepian = hasattr(base, "mesh_slepian")
    if slepian:
        S, N = base.mesh_slepian.slepian_functions, base.mesh_slepian.N
        ui = [dot([b[p] for p in range(N)], [S[p][i] for p in range(N)]) for i in range(nb)]
    else:
        N, ui = nb, list(flat(b))
    P = power(ui)
    if cls not in ("MeshBasisFunctions",):
        ctx.assume(P > 0.01)
    made = []

    def noise():
        if cls != name:
            f = getattr(ms, cls)(mesh, SNR=s)
            ctx.check(np.shape(f.coefficients) == np.shape(b), "as many coefficients as the field")
            return f.coefficients
        f = getattr(ms, cls)(mesh, noise=s, **kw)
        ctx.check(np.shape(f.coefficients) == np.shape(b), "as many coefficients as without noise")
        made.append(f)
        return (f.coefficients - b)[:N]

    var = ctx.pow10(-s / 10) * P / nb
    if slepian:
        gram = [[dot(flat(S[p]), flat(S[q])) for q in range(N)] for p in range(N)]
    n = judge(ctx, d, noise, lambda i, j: var * gram[i][j] if slepian else (var if i == j else 0.0))
    if made:
        f = made[0]
        ctx.close(f._unnoised_coefficients, b, "coefficients before the noise", tol=1e-9, observe=False)
        ctx.close(f.coefficients[N:], b[N:], "no noise beyond the Shannon number", tol=1e-9, observe=False)
        ctx.assume(power(n) > 1e-6)
        snr_is(ctx, f.snr, b, n)
    ctx.reach()


def instances(tier):
    out = []

    def add(cls, nb, pairs=(), **kw):
        out.append(inst(f"{cls} b{nb} pairs={len(pairs)} {kw or ''}".strip(), "noisy", cls=cls, nb=nb, pairs=[list(p) for p in pairs], weight=nb * 2, **kw))

    for cls in ("MeshField", "MeshNoiseField"):
        for nb in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            add(cls, nb)
        add(cls, 2, [(0, 1), (1, 2)])
    add("MeshBasisFunctions", 3, rank=1)
    for cls in ("MeshSlepianField", "MeshSlepianNoiseField"):
        for nb in (2,) if tier == "quick" else (2, 3):
            add(cls, nb)
    add("MeshSlepianFunctions", 2, rank=0)
    add("MeshSlepianWavelets", 4, B=2, j_min=0)
    return out
