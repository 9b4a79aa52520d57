"""Mesh regions and the Slepian functions of a mesh."""
import math
import os

import numpy as np

from harness.common import EighStub, OCTA, TETRA, inst, mesh_files, matrix_solved, rotation, small_mesh, use_executor

META = dict(
    bounds="four and six vertex meshes with 1..4 basis functions: every vertex position and box, every region, every orthonormal set of "
    "basis functions, every eigendecomposition, 1..3 workers in every order of their tasks",
    outside="larger meshes",
    assumptions=["eigsh answers orthonormal columns, eigh ascending eigenvalues (their contracts)"],
)
BOX = ["XMIN", "XMAX", "YMIN", "YMAX", "ZMIN", "ZMAX"]


def region(ctx, nv, axis):
    import tomli

    from sleplet.meshes.mesh import Mesh

    orig = tomli.load
    lim = {k: ctx.real(k, -2, 2) if k[0] == axis or axis == "all" else (-3.0 if k.endswith("MIN") else 3.0) for k in BOX}

    def load(f, *a, **k):
        c = dict(orig(f, *a, **k))
        assert all(b in c for b in BOX)
        c.update(lim)
        return c

    ctx.patch(tomli, "load", load)
    shape = TETRA if nv == 4 else OCTA
    if axis == "all":
        # one free vertex, the others as they are
        v = [[float(y) for y in x] for x in shape[0]]
        v[1] = [ctx.real(f"v{j}", -2, 2) for j in range(3)]
    else:
        v = [[ctx.real(f"v{i}", -2, 2) if "XYZ"[j] == axis else float(x[j]) for j in range(3)] for i, x in enumerate(shape[0])]
    vs = ctx.arr(v, "f") if ctx.symbolic else np.array(v, dtype=float)
    mesh_files(ctx, shape, np.eye(nv), np.arange(float(nv)), vertices=vs)
    mesh = Mesh("cube", number_basis_functions=2)
    ctx.check(np.shape(mesh.mesh_region) == (nv,), "a flag for every vertex")
    for i in range(nv):
        inside = ctx.And(*[ctx.And(v[i][j] >= lim["XYZ"[j] + "MIN"], v[i][j] <= lim["XYZ"[j] + "MAX"]) for j in range(3)])
        got = mesh.mesh_region[i]
        ctx.check(ctx.Or(ctx.And(got, inside), ctx.And(ctx.Not(got), ctx.Not(inside))), "in the region exactly when in the box")
    # the same selection offered next to the masks of the sphere
    import sleplet._mask_methods

    other = getattr(sleplet._mask_methods, "create_mesh_region", None)
    if other is not None:
        ctx.same(list(other(lim, vs)), list(mesh.mesh_region), "both selections of a box agree")
    ctx.close(mesh.vertices, vs, "vertices untouched", tol=1e-12)
    ctx.reach()


def count(ctx, mesh):
    n = 0.0
    for x in list(mesh.mesh_region):
        n = n + ctx.ite(x, 1.0, 0.0)
    return n


def matrix(ctx, nb, shape, ncpu, reorder):
    from sleplet.meshes.mesh_slepian import MeshSlepian

    ctx.patch(os.environ, "NCPU", str(ncpu))

    def order(n):
        left, out = list(range(n)), []
        while left:
            out.append(left.pop(ctx.choice(f"next{len(out)}", len(left)) if len(left) > 1 else 0))
        return out

    use_executor(ctx, order=order if reorder else None)
    shape = {"tetra": TETRA, "octa": OCTA}[shape]
    nv = len(shape[0])
    mesh, rot = small_mesh(ctx, nb, shape=shape, region="any", pairs=[(i, i + 1) for i in range(nv - 1)])
    D = matrix_solved(ctx, MeshSlepian, mesh)
    ctx.check(np.shape(D) == (nb, nb), "size of the matrix")
    ms = [ctx.ite(b, 1.0, 0.0) for b in list(mesh.mesh_region)]
    want = [[sum(ms[v] * rot[v][i] * rot[v][j] for v in range(nv)) for j in range(nb)] for i in range(nb)]
    ctx.close(D, ctx.arr(want, "f") if ctx.symbolic else np.array(want), "concentration matrix of the mesh", tol=1e-7)
    ctx.reach()


def near(ctx, a, b):
    return a == b if ctx.symbolic else bool(abs(a - b) <= 1e-7)


def solution(ctx, nb, ncpu):
    from sleplet.meshes.mesh_slepian import MeshSlepian

    ctx.patch(os.environ, "NCPU", str(ncpu))
    mesh, rot = small_mesh(ctx, nb, region="any", pairs=[(0, 1), (1, 2)])
    stub = EighStub(ctx, by_size=True)
    s = MeshSlepian(mesh)
    x = count(ctx, mesh) * (nb / 4)
    ctx.check(ctx.And(s.N - x <= 0.5, x - s.N <= 0.5), "Shannon number: fraction of the vertices times the number of basis functions")
    w, v = stub.memo[nb]
    ctx.check(np.shape(s.slepian_eigenvalues) == (nb,), "number of eigenvalues")
    ctx.check(np.shape(s.slepian_functions) == (nb, nb), "shape of the Slepian functions")
    e = s.slepian_eigenvalues
    ctx.check(ctx.And(*[e[i] >= e[i + 1] - 1e-12 for i in range(nb - 1)]), "eigenvalues in descending order")

    def same(row, vec):
        return ctx.And(*[near(ctx, row[a] * row[b], vec[a] * vec[b]) for a in range(nb) for b in range(nb)])

    table = [[ctx.And(near(ctx, e[r], w[k]), same(s.slepian_functions[r], [v[a, k] for a in range(nb)])) for k in range(nb)]
             for r in range(nb)]
    for r in range(nb):
        ctx.check(ctx.Or(*table[r]), "every row is an eigenvector of its eigenvalue")
        ctx.check(ctx.Or(*[t[r] for t in table]), "no eigenpair is lost")
    again = MeshSlepian(mesh)
    n = s.N.__index__() if ctx.symbolic else s.N
    ctx.check(ctx.And(again.N == s.N), "Shannon number when read back")
    ctx.close(again.slepian_eigenvalues, e, "eigenvalues read back", tol=1e-9, observe=False)
    ctx.check(len(again.slepian_functions) >= n, "leading functions read back")
    ctx.close(again.slepian_functions[:n], s.slepian_functions[:n], "functions read back", tol=1e-9, observe=False)
    ctx.reach()


def masked(ctx, nb):
    """The masked signal, as far as the basis functions reach."""
    from sleplet import _mask_methods as mm

    mesh, rot = small_mesh(ctx, nb, region="any", pairs=[(0, 1), (1, 2), (2, 3)])
    c = ctx.array("c", nb)
    c0 = c.copy()
    got = mm.ensure_masked_bandlimit_mesh_signal(mesh, c)
    want = []
    for i in range(nb):
        t = 0.0
        for v in range(4):
            u = sum(rot[v][k] * c0[k] for k in range(nb))
            t = t + ctx.ite(mesh.mesh_region[v], u * rot[v][i], 0.0)
        want.append(t)
    ctx.close(got, ctx.arr(want, "f") if ctx.symbolic else np.array(want), "coefficients of the masked signal", tol=1e-7)
    ctx.close(c, c0, "signal untouched", tol=1e-9)
    ctx.reach()


def instances(tier):
    out = []
    for nv in (4, 6):
        for axis in ("X", "Y", "Z", "all"):
            out.append(inst(f"region {axis} v{nv}", "region", nv=nv, axis=axis))
    for nb in (1, 2, 3, 4):
        for ncpu in (1, 2, 4):
            out.append(inst(f"matrix tetra b{nb} ncpu{ncpu}", "matrix", nb=nb, shape="tetra", ncpu=ncpu, reorder=False))
    out.append(inst("matrix octa b3 ncpu2", "matrix", nb=3, shape="octa", ncpu=2, reorder=True, weight=3))
    out.append(inst("matrix tetra b3 ncpu3 any order", "matrix", nb=3, shape="tetra", ncpu=3, reorder=True, weight=3))
    for nb in (1, 2, 3, 4):
        out.append(inst(f"solution b{nb}", "solution", nb=nb, ncpu=2, max_paths=300, weight=4))
        out.append(inst(f"masked b{nb}", "masked", nb=nb, weight=2))
    return out
