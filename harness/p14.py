"""Slepian coefficients on a mesh."""
import numpy as np

from harness.common import EighStub, TETRA, flat, inst, small_mesh
from harness.p11 import dot

META = dict(
    bounds="a four vertex mesh with 1..4 basis functions: every orthonormal set of basis functions, every region, every set of Slepian functions "
    "and eigenvalues, every signal, every rank in [-1000, 1000], every Shannon number",
    outside="larger meshes",
    assumptions=["float64 arithmetic is treated as exact, compared with tolerance 1e-7"],
)


def slepian(ctx, nb, n=None):
    from sleplet.meshes.mesh_slepian import MeshSlepian

    mesh, rot = small_mesh(ctx, nb, pairs=[(0, 1), (1, 2), (2, 3)])
    EighStub(ctx)
    s = MeshSlepian(mesh)
    mesh.mesh_region = ctx.array("region", 4, kind="b")
    s.slepian_functions = ctx.array("S", (nb, nb))
    s.slepian_eigenvalues = ctx.array("ev", nb, lo=0.05, hi=1)
    s.N = ctx.choice("N", nb) + 1 if n is None else n
    return s, rot


def field(s, rot, p, nb):
    """Values of Slepian function p on the vertices."""
    return [dot([s.slepian_functions[p][i] for i in range(nb)], rot[v][:nb]) for v in range(4)]


def arr(ctx, x):
    return ctx.arr(x, "f") if ctx.symbolic else np.array(x, dtype=float)


def coefficients(ctx, nb, how, n):
    from sleplet import slepian_methods as sm

    s, rot = slepian(ctx, nb)
    kw = {}
    if how in ("u_i", "both"):
        kw["u_i"] = ctx.array("u_i", nb)
    if how in ("u", "region", "both"):
        kw["u"] = ctx.array("u", 4)
    if how == "region":
        kw["mask"] = True
    given = dict(kw)
    if n is not None:
        given["n_coeffs"] = n
    before = {k: v.copy() for k, v in kw.items() if k != "mask"}
    got = sm.slepian_mesh_forward(s, **given)
    for k, v in before.items():
        ctx.close(kw[k], v, "inputs left alone", tol=1e-12, observe=False)
    n = s.N if n is None else n
    ctx.check(np.shape(got) == (n,), "number of coefficients")
    want = []
    for p in range(n):
        if "u_i" in kw:
            want.append(dot(flat(kw["u_i"]), flat(s.slepian_functions[p])))
            continue
        f = field(s, rot, p, nb)
        u = list(flat(kw["u"]))
        if how == "region":
            ms = [ctx.ite(b, 1.0, 0.0) for b in list(s.mesh.mesh_region)]
            want.append(dot([a * b for a, b in zip(u, ms)], f) / s.slepian_eigenvalues[p])
        else:
            want.append(dot(u, f))
    ctx.close(got, arr(ctx, want), f"coefficients ({how})", tol=1e-7)
    ctx.reach()


def rank(ctx, nb, how):
    from sleplet.meshes._mesh_slepian_decomposition import MeshSlepianDecomposition

    s, rot = slepian(ctx, nb, n=1)
    d = MeshSlepianDecomposition(s, mask=how == "region", **({"u_i": np.ones(nb)} if how == "u_i" else {"u": np.ones(4)}))
    r = ctx.int("rank", -1000, 1000)
    err, _ = ctx.raises(ValueError, d.decompose, r)
    bad = ctx.Or(r < 0, r >= nb)
    ctx.check(bad if err is not None else ctx.Not(bad), "ranks outside the number of functions, and only those, are rejected")
    ctx.reach()


def nothing(ctx, nb):
    from sleplet import slepian_methods as sm

    s, _ = slepian(ctx, nb, n=1)
    for kw in ({}, {"mask": True}):
        err, _ = ctx.raises(Exception, sm.slepian_mesh_forward, s, **kw)
        ctx.check(isinstance(err, RuntimeError), "no signal is rejected")
    err, _ = ctx.raises(ValueError, sm.slepian_mesh_forward, s, u_i=np.ones(nb), n_coeffs=nb + 1)
    ctx.check(err is not None, "more coefficients than functions are rejected")
    ctx.reach()


def inverse(ctx, nb, more):
    from sleplet import slepian_methods as sm

    s, rot = slepian(ctx, nb)
    fp = ctx.array("fp", min(s.N + more, nb))
    got = sm.slepian_mesh_inverse(s, fp)
    fs = [field(s, rot, p, nb) for p in range(s.N)]
    want = [dot([fp[p] for p in range(s.N)], [f[v] for f in fs]) for v in range(4)]
    ctx.close(got, arr(ctx, want), "field of the first Shannon number of coefficients", tol=1e-7)
    ctx.reach()


def roundtrip(ctx, nb):
    """Orthonormal Slepian functions: the coefficients of a sum of the first N are recovered."""
    from harness.common import rotation

    from sleplet import slepian_methods as sm

    s, rot = slepian(ctx, nb)
    q = rotation(ctx, nb, "slep")
    s.slepian_functions = arr(ctx, q)
    fp = ctx.array("fp", s.N)
    u = sm.slepian_mesh_inverse(s, fp)
    ctx.close(sm.slepian_mesh_forward(s, u=u), fp, "coefficients recovered from the field", tol=1e-7)
    ctx.reach()


def build(ctx, cls, nb, pairs=((0, 1), (1, 2), (2, 3)), **kw):
    import sleplet.meshes as ms

    mesh, rot = small_mesh(ctx, nb, pairs=list(pairs))
    EighStub(ctx, by_size=True)
    return mesh, rot, lambda: getattr(ms, cls)(mesh, **kw)


def selected(ctx, cls, nb, via):
    """Selecting a function by its rank."""
    r = ctx.int("rank", -1000, 1000)
    mesh, rot, make = build(ctx, cls, nb, **(dict(rank=r) if via == "argument" else dict(extra_args=[r])))
    err, f = ctx.raises(ValueError, make)
    bad = ctx.Or(r < 0, r >= nb)
    if err is not None:
        ctx.check(bad, "ranks of the functions are accepted")
        ctx.reach()
        return
    ctx.check(ctx.Not(bad), "ranks outside the number of functions are rejected")
    k = r.__index__()
    ctx.same(f.rank, r, "rank")
    if cls == "MeshBasisFunctions":
        ctx.close(f.coefficients, arr(ctx, [1.0 if i == k else 0.0 for i in range(nb)]), "coefficients of a basis function", tol=1e-7)
    else:
        fn = f.mesh_slepian.slepian_functions
        ctx.check(np.shape(f.coefficients) == (f.mesh_slepian.N,), "Shannon number of coefficients")
        want = [dot(flat(fn[k]), flat(fn[p])) for p in range(f.mesh_slepian.N)]
        ctx.close(f.coefficients, arr(ctx, want), "coefficients of a Slepian function", tol=1e-7, observe=False)
    ctx.reach()


def normals(ctx, nb):
    """The default field of a mesh and its Slepian coefficients."""
    import igl

    import sleplet.meshes as ms

    nrm = ctx.array("normal", (4, 3))
    ctx.patch(igl, "per_vertex_normals", lambda *a, **k: nrm)
    mesh, rot, make = build(ctx, "MeshField", nb)
    f = make()
    want = [dot([nrm[v, 1] for v in range(4)], [rot[v][i] for v in range(4)]) for i in range(nb)]
    ctx.close(f.coefficients, arr(ctx, want), "coefficients of the field", tol=1e-7)
    s = ms.MeshSlepianField(mesh)
    fn = s.mesh_slepian.slepian_functions
    want = [dot(want, flat(fn[p])) for p in range(s.mesh_slepian.N)]
    ctx.close(s.coefficients, arr(ctx, want), "Slepian coefficients of the field", tol=1e-7, observe=False)
    ctx.reach()


def instances(tier):
    out = []
    for cls in ("MeshBasisFunctions", "MeshSlepianFunctions"):
        for nb in (1, 3, 4) if cls == "MeshBasisFunctions" else (2, 3, 4):
            for via in ("argument", "extra"):
                out.append(inst(f"{cls} b{nb} via {via}", "selected", cls=cls, nb=nb, via=via, weight=2))
    out.append(inst("normals b2", "normals", nb=2))
    for nb in (1, 2, 3, 4):
        for how in ("u_i", "u", "region", "both"):
            for n in (None, nb):
                out.append(inst(f"coefficients {how} b{nb} n={n}", "coefficients", nb=nb, how=how, n=n))
        for how in ("u_i", "u", "region"):
            out.append(inst(f"rank {how} b{nb}", "rank", nb=nb, how=how))
        out.append(inst(f"nothing b{nb}", "nothing", nb=nb))
        for more in (0, 1):
            out.append(inst(f"inverse b{nb} more={more}", "inverse", nb=nb, more=more))
        out.append(inst(f"roundtrip b{nb}", "roundtrip", nb=nb))
    return out
