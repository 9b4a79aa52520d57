"""Mesh Fourier transforms."""
import numpy as np

from harness.common import OCTA, TETRA, inst, small_mesh

META = dict(
    bounds="a four vertex mesh with 1..4 basis functions and a six vertex mesh with 1..5: every orthonormal set of basis functions "
    "(plane rotations by arbitrary angles), every signal and every coefficient array in [-1, 1]",
    outside="larger meshes; the accuracy of the sparse eigensolver",
    assumptions=["eigsh answers orthonormal eigenvectors as columns (its contract)"],
)


def roundtrip(ctx, nb, shape, pairs=None):
    from sleplet import harmonic_methods as hm

    shape = {"tetra": TETRA, "octa": OCTA}[shape]
    mesh, rot = small_mesh(ctx, nb, shape=shape, pairs=pairs)
    nv = len(shape[0])
    ctx.check(np.shape(mesh.basis_functions) == (nb, nv), "a row for every basis function")
    for i in range(nb):
        for j in range(i, nb):
            ctx.close((mesh.basis_functions[i] * mesh.basis_functions[j]).sum(), 1.0 if i == j else 0.0,
                      "orthonormal basis functions", tol=1e-7, observe=False)
    c = ctx.array("c", nb)
    u = hm.mesh_inverse(mesh, c)
    ctx.check(np.shape(u) == (nv,), "a value for every vertex")
    want = [sum(rot[v][i] * c[i] for i in range(nb)) for v in range(nv)]
    ctx.close(u, ctx.arr(want, "f") if ctx.symbolic else np.array(want), "inverse: sum of the basis functions", tol=1e-7)
    back = hm.mesh_forward(mesh, u)
    ctx.close(back, c, "forward undoes the inverse", tol=1e-7)
    # projection: the transform of any signal is the best approximation
    f = ctx.array("f", nv)
    fi = hm.mesh_forward(mesh, f)
    want = [sum(rot[v][i] * f[v] for v in range(nv)) for i in range(nb)]
    ctx.close(fi, ctx.arr(want, "f") if ctx.symbolic else np.array(want), "forward: products with the basis functions", tol=1e-7)
    ctx.reach()


def normalised(ctx, nb):
    """Basis functions are unit vectors whatever the scale of the solver's."""
    from sleplet.meshes.mesh import Mesh

    from harness.common import mesh_files, rotation

    rot = rotation(ctx, 4, "basis", [(0, 1), (2, 3), (1, 2)])
    k = [ctx.real(f"k{i}", 0.5, 4) for i in range(nb)]
    cols = [[rot[r][c] * (k[c] if c < nb else 1.0) for c in range(4)] for r in range(4)]
    mesh_files(ctx, TETRA, ctx.arr(cols, "f") if ctx.symbolic else np.array(cols), np.arange(4.0))
    mesh = Mesh("cube", number_basis_functions=nb)
    want = [[rot[v][i] for v in range(4)] for i in range(nb)]
    ctx.close(mesh.basis_functions, ctx.arr(want, "f") if ctx.symbolic else np.array(want), "unit basis functions", tol=1e-6)
    again = Mesh("cube", number_basis_functions=nb)
    ctx.close(again.basis_functions, mesh.basis_functions, "basis functions read back", tol=1e-9, observe=False)
    ctx.close(again.mesh_eigenvalues, mesh.mesh_eigenvalues, "eigenvalues read back", tol=1e-9, observe=False)
    ctx.reach()


def instances(tier):
    out = []
    for nb in (1, 2, 3, 4):
        out.append(inst(f"tetra b{nb}", "roundtrip", nb=nb, shape="tetra", pairs=None if nb < 3 or tier == "thorough" else [(0, 1), (1, 2), (2, 3), (0, 2)]))
    for nb in (1, 2, 3, 4, 5):
        out.append(inst(f"octa b{nb}", "roundtrip", nb=nb, shape="octa", pairs=[(0, 1), (1, 2), (2, 3), (3, 4), (4, 5)]))
    for nb in (1, 2, 3):
        out.append(inst(f"normalised b{nb}", "normalised", nb=nb))
    return out
