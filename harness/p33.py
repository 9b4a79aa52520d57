"""Data published with the package come before local files, and those before computing."""
import math
import os
import pathlib

import numpy as np

from engine.published import SERVICE
from harness.common import EighStub, earth_data, inst, library, small_mesh, sphere_grid
from harness.p09 import build, equal, prepare

META = dict(
    bounds="every content of the published files, each of the files of a solution published only, published and local, or local only; bandlimits 1..2, masks and Earth "
    "data of bandlimit 2, a mesh of four vertices",
    outside="failing downloads; damaged files; solutions of which some file is neither published nor local (computed again, as the property of saved solutions says)",
    assumptions=["pooch answers the files registered under the DOI (its contract)"],
)


def folder():
    import platformdirs

    return pathlib.Path(platformdirs.user_data_path())


def files():
    return sorted(p.name for p in folder().iterdir()) if folder().exists() else []


def load(ctx, path):
    if ctx.symbolic:
        from engine import env

        return env._np_load(path)
    return np.load(path)


def place(ctx, names, only=None):
    """Each file published, local or both, with another content where both; what applies stays in a folder of its own."""
    from sleplet._data import setup_pooch

    ctx.patch(SERVICE, "files", {})
    ctx.patch(SERVICE, "fetched", [])
    other = str(folder()) + "_2"
    os.makedirs(other, exist_ok=True)
    where = {}
    for n in names:
        a = load(ctx, folder() / n)
        b = a if a.dtype.kind in "iub" or "order" in n else a * 0.5
        k = where[n] = ctx.choice(f"where {n}", 3) if only is None else only
        if k != 2:  # published
            setup_pooch.save_to_local(n, b)
            SERVICE.publish(folder() / n)
            with open(SERVICE.files[n], "rb") as f:
                data = f.read()
            with open(os.path.join(other, n), "wb") as f:
                f.write(data)
        if k == 1:
            setup_pooch.save_to_local(n, a)
        if k == 2:
            with open(folder() / n, "rb") as f, open(os.path.join(other, n), "wb") as g:
                g.write(f.read())
    return where, other


def solution(ctx, kind, L):
    stub = prepare(ctx, kind, L)
    build(kind, L)
    names = [n for n in files() if "mask" not in n]
    ctx.check(len(names) > 1, "solutions are saved")
    where, other = place(ctx, names)
    before, calls = files(), len(stub.calls)
    a = build(kind, L)
    ctx.check(len(stub.calls) == calls, "nothing is computed which is there")
    ctx.check(files() == before, "nothing is saved which is there")
    ctx.check(sorted(set(SERVICE.fetched)) == sorted(n for n, k in where.items() if k != 2), "published files are fetched")
    old = os.environ["XDG_DATA_HOME"]
    for f in os.listdir(folder()):
        if "mask" in f:
            os.link(folder() / f, os.path.join(other, f))
    ctx.patch(SERVICE, "files", {})
    real = folder()
    os.rename(real, str(real) + "_3")
    os.rename(other, real)
    b = build(kind, L)
    ctx.check(len(stub.calls) == calls, "local files are used")
    equal(ctx, a, b, "each file from where it is published, else local", leading=True)
    ctx.check(os.environ["XDG_DATA_HOME"] == old, "same folder")
    ctx.reach()


def mesh(ctx, kind):
    import sleplet.meshes as ms

    m, _ = small_mesh(ctx, 3, pairs=[(0, 1)])
    stub = EighStub(ctx, by_size=True)

    def make():
        if kind == "basis":
            x = ms.Mesh("cube", number_basis_functions=3)
            return x.mesh_eigenvalues, x.basis_functions
        x = ms.MeshSlepian(m)
        return x.slepian_eigenvalues, x.slepian_functions

    first = files()
    make()
    names = [n for n in files() if kind == "basis" or n not in first]
    ctx.check(len(names) == 2, "solutions are saved")
    where, other = place(ctx, names)
    before, calls = files(), len(stub.calls)
    a = make()
    ctx.check(len(stub.calls) == calls, "nothing is computed which is there")
    ctx.check(files() == before, "nothing is saved which is there")
    want = {n: load(ctx, os.path.join(other, n)) for n in names}
    for got, n in zip(a, sorted(names)):
        ctx.close(got, want[n], "each file from where it is published, else local", tol=1e-9, observe=False)
    ctx.reach()


def mask(ctx, via):
    """Masks of named regions."""
    from sleplet._data import setup_pooch
    from sleplet.slepian.region import Region

    L = 2
    shape = sphere_grid(L)[0].shape
    pub, loc = ctx.array("published", shape, kind="b"), ctx.array("local", shape, kind="b")
    n = f"slepian_masks_africa_L{L}.npy"
    ctx.patch(SERVICE, "files", {})
    k = ctx.choice("where", 3)
    if k != 2:
        setup_pooch.save_to_local(n, pub)
        SERVICE.publish(folder() / n)
    if k != 0:
        setup_pooch.save_to_local(n, loc)
    want = loc if k == 2 else pub
    if via == "region":
        from sleplet._mask_methods import create_mask_region

        got = create_mask_region(L, Region(mask_name="africa"))
    else:
        import sleplet.functions as fs

        flm = np.zeros(16, dtype=complex)
        flm[0] = 1.0
        import pyssht

        earth_data(ctx, flm)
        got = None
        c = fs.Africa(L).coefficients
        field = [[ctx.ite(w, 1 / math.sqrt(4 * math.pi), 0.0) for w in row] for row in want]
        field = ctx.arr(field, "f") if ctx.symbolic else np.array(field, dtype=float)
        ctx.close(c, library(ctx, pyssht).forward(field, L, Method="MWSS", Reality=True), "the published mask, else the local one", tol=1e-7, observe=False)
    if got is not None:
        ctx.check(np.shape(got) == shape, "as many samples")
        for x, w in zip(got.ravel(), want.ravel()):
            ctx.check(ctx.Or(ctx.And(x, w), ctx.And(ctx.Not(x), ctx.Not(w))), "the published mask, else the local one")
    ctx.reach()


def maps(ctx, cls):
    """Earth and microwave background data."""
    import scipy.io as sio

    import sleplet.functions as fs
    from harness.p19 import Draws

    L = 2
    a, b = np.arange(1, 17) + 0j, ctx.array("published", 16, kind="c")
    earth_data(ctx, a, np.arange(1.0, 17.0))
    Draws(ctx)
    alone = fs.Earth(L).coefficients if cls == "Earth" else fs.Wmap(L).coefficients
    which = ctx.choice("where", 3)
    ctx.patch(SERVICE, "files", {})
    local = files()
    scale = ctx.real("scale", 0.5, 4)
    for n in local:
        if which != 2:
            with open(folder() / n, "rb") as f:
                data = f.read()
            SERVICE.publish(folder() / n)
            if which == 1:
                with open(folder() / n, "wb") as f:
                    f.write(data)

    def loadmat(file, *args, **k):
        file = pathlib.Path(str(file))
        published = file.parent.name == "published"
        ctx.check(published == (which != 2), "published files come first")
        s = scale * scale if published and cls != "Earth" else scale if published else 1.0
        if file.name.startswith("EGM2008"):
            return {"flm": (a * s).reshape(-1, 1)}
        return {"cl": (np.arange(1.0, 17.0) * s).reshape(-1, 1)}

    ctx.patch(sio, "loadmat", loadmat)
    got = fs.Earth(L).coefficients if cls == "Earth" else fs.Wmap(L).coefficients
    ctx.close(got, alone * scale if which != 2 else alone, "the published data", tol=1e-7, observe=False)
    ctx.reach()


def instances(tier):
    out = []
    for kind in ("cap", "gap", "lim", "arb"):
        for L in (1, 2):
            out.append(inst(f"{kind} L{L}", "solution", kind=kind, L=L, weight=4 * L))
    for kind in ("basis", "slepian"):
        out.append(inst(f"mesh {kind}", "mesh", kind=kind, weight=3))
    for via in ("region", "africa"):
        out.append(inst(f"mask {via}", "mask", via=via, weight=2))
    for cls in ("Earth", "Wmap"):
        out.append(inst(f"maps {cls}", "maps", cls=cls, weight=2))
    return out
