"""Saved mesh solutions: histories of constructions, interrupted writes, no sharing."""
import os
import pathlib

import numpy as np

from harness.common import inst, rotation
from harness.p09 import Crash
from harness.p31 import CUBE

META = dict(
    bounds="meshes of eight vertices with 2..6 basis functions, pairs of names and numbers of basis functions, every orthonormal set of basis functions for each mesh and every "
    "eigendecomposition; a failure before, within or after each write",
    outside="files damaged by something else than an interrupted write; a mesh whose files change between runs; concurrent processes",
    assumptions=["eigsh and eigh answer the same for the same matrix (their contracts)", "renaming a file within a folder is atomic"],
)
NAMES = ("bird", "cheetah", "cube", "dragon", "homer", "teapot")


class Eigh:
    """Same answer for the same matrix."""

    def __init__(self, ctx):
        self.ctx, self.calls, self.memo, self.real = ctx, 0, {}, np.linalg.eigh
        if ctx.symbolic:
            ctx.Y.HOOKS["eigh"] = self
        else:
            ctx.patch(np.linalg, "eigh", self)

    def key(self, a):
        if not self.ctx.symbolic:
            return np.round(a, 9).tobytes()
        Y = self.ctx.Y
        return tuple(tuple(sorted(Y.to_poly(x).items())) for x in Y.base(Y.as_sym(a)).ravel())

    def __call__(self, a, *r, **k):
        self.calls += 1
        if not self.ctx.symbolic:
            return self.real(a, *r, **k)
        key = self.key(a)
        if key not in self.memo:
            n, size = len(self.memo), a.shape[0]
            w = self.ctx.array(f"e{n}.val", size, lo=0, hi=1)
            v = self.ctx.array(f"e{n}.vec", (size, size))
            for i in range(size - 1):
                d = w[i + 1] - w[i]
                self.ctx.path.assert_(d.z() >= 0 if hasattr(d, "z") else True)
            self.memo[key] = w, v
        w, v = self.memo[key]
        return w.copy(), v.copy()


def library(ctx):
    """A mesh for each name, with a Laplacian and eigenvectors of its own."""
    import igl
    import scipy.sparse.linalg as sla

    v0, f = np.array(CUBE[0], dtype=float), np.array(CUBE[1], dtype=np.int64)
    calls, vectors = [], {}

    def read(path, *a, **k):
        i = [n for n in range(len(NAMES)) if pathlib.Path(str(path)).name == "meshes_polygons_" + NAMES[n] + ".off"]
        assert len(i) == 1, path
        return v0 * (1.0 + 0.1 * i[0]), f

    def cot(v, _):
        return -np.eye(8) * float(np.max(v))

    def eigsh(a, *r, **k):
        n = k["k"] if "k" in k else (r[0] if r else 6)
        i = round((abs(float(a[0, 0])) - 1) * 10)
        calls.append((i, n))
        if i not in vectors:
            rot = rotation(ctx, 8, f"basis{i}", [(0, 1)])
            cols = [[rot[x][(y + i) % 8] for y in range(8)] for x in range(8)]
            vectors[i] = ctx.arr(cols, "f") if ctx.symbolic else np.array(cols, dtype=float)
        return np.arange(8.0)[:n] + 10 * i, vectors[i][:, :n].copy()

    ctx.patch(igl, "read_triangle_mesh", read)
    ctx.patch(igl, "upsample", lambda V, F, *a, **k: (V, F))
    ctx.patch(igl, "cotmatrix", cot)
    ctx.patch(sla, "eigsh", eigsh)
    return calls, Eigh(ctx)


def build(kind, name, nb):
    from sleplet.meshes.mesh import Mesh
    from sleplet.meshes.mesh_slepian import MeshSlepian

    m = Mesh(name, number_basis_functions=nb)
    return MeshSlepian(m) if kind == "slepian" else m


def equal(ctx, a, b, what):
    ma, mb = getattr(a, "mesh", a), getattr(b, "mesh", b)
    ctx.check(np.shape(ma.basis_functions) == np.shape(mb.basis_functions), f"{what}: number of basis functions")
    ctx.check(ma.number_basis_functions == mb.number_basis_functions, f"{what}: number of basis functions")
    ctx.close(mb.mesh_eigenvalues, ma.mesh_eigenvalues, f"{what}: mesh eigenvalues", tol=1e-9, observe=False)
    ctx.close(mb.basis_functions, ma.basis_functions, f"{what}: basis functions", tol=1e-9, observe=False)
    if hasattr(a, "slepian_functions"):
        ctx.check(a.N == b.N, f"{what}: Shannon number")
        ctx.check(len(b.slepian_functions) >= a.N, f"{what}: at least the Shannon number of functions")
        ctx.close(b.slepian_eigenvalues, a.slepian_eigenvalues, f"{what}: eigenvalues", tol=1e-9, observe=False)
        ctx.close(b.slepian_functions[: a.N], a.slepian_functions[: a.N], f"{what}: Slepian functions", tol=1e-9, observe=False)


def afresh(ctx, kind, name, nb):
    """What a construction answers with nothing saved."""
    old = os.environ["XDG_DATA_HOME"]
    os.makedirs(old + "_2", exist_ok=True)
    ctx.patch(os.environ, "XDG_DATA_HOME", old + "_2")
    a = build(kind, name, nb)
    ctx.patch(os.environ, "XDG_DATA_HOME", old)
    return a


def reload(ctx, kind, mesh, nb):
    calls, eigh = library(ctx)
    a = build(kind, mesh, nb)
    n = len(calls), eigh.calls
    b = build(kind, mesh, nb)
    ctx.check((len(calls), eigh.calls) == n, "saved solutions are used")
    equal(ctx, a, b, "solution read back")
    ctx.reach()


def crash(ctx, kind, hard):
    calls, eigh = library(ctx)
    at = ctx.choice("write", 4 if kind == "slepian" else 2)
    how = ctx.choice("how", 3)
    orig = np.save
    if ctx.symbolic:
        from engine import env

        orig = env._np_save
    count = [0]

    def save(file, arr, *a, **k):
        n, count[0] = count[0], count[0] + 1
        if n != at:
            return orig(file, arr, *a, **k)
        if how == 1:
            junk = b"\x93NUMPY\x01\x00v\x00{'des"
            if hasattr(file, "write"):
                file.write(junk)
                file.flush()
            else:
                p = os.fspath(file)
                with open(p if p.endswith(".npy") else p + ".npy", "wb") as f:
                    f.write(junk)
        elif how == 2:
            orig(file, arr, *a, **k)
        raise Crash if hard else OSError("disk full")

    ctx.patch(np, "save", save)
    try:
        build(kind, "cube", 5)
    except (Crash, OSError):
        pass
    at = -1
    b = build(kind, "cube", 5)
    a = afresh(ctx, kind, "cube", 5)
    equal(ctx, a, b, "solution after an interrupted write")
    equal(ctx, a, build(kind, "cube", 5), "second solution after an interrupted write")
    ctx.reach()


def history(ctx, kind, names, numbers):
    """Two meshes of different names or numbers of basis functions."""
    library(ctx)
    i, j = ctx.choice("first name", len(names)), ctx.choice("second name", len(names))
    k, l = ctx.choice("first number", len(numbers)), ctx.choice("second number", len(numbers))
    if (i, k) == (j, l):
        ctx.assume(False)
    build(kind, names[i], numbers[k])
    b = build(kind, names[j], numbers[l])
    equal(ctx, afresh(ctx, kind, names[j], numbers[l]), b, "solution after that of another mesh")
    ctx.reach()


def instances(tier):
    deep = tier == "thorough"
    out = []
    for kind in ("mesh", "slepian"):
        for name, nb in (("cube", 2), ("cube", 5), ("teapot", None)):
            out.append(inst(f"reload {kind} {name} {nb}", "reload", kind=kind, mesh=name, nb=nb))
        for hard in (False, True):
            out.append(inst(f"crash {kind} {'killed' if hard else 'failed'}", "crash", kind=kind, hard=hard, weight=4))
        out.append(inst(f"history {kind}", "history", kind=kind, names=NAMES if deep else ("cube", "teapot"), numbers=(2, 3, 4, 5, 6) if deep else (3, 4, 5), weight=6, max_paths=3000))
        if not deep:
            out.append(inst(f"history {kind} names", "history", kind=kind, names=NAMES, numbers=(4,), weight=4))
    return out
