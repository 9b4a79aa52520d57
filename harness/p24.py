"""Fields drawn on meshes, and regions in plots."""
import numpy as np

from harness.common import OCTA, TETRA, EighStub, any_mask, flat, inst, mesh_files, rotation, small_mesh, sphere_grid
from harness.p15 import arr
from harness.p22 import judge_max, normal, record, scale, shown

UNSEEN = -1e4
LEAF = (TETRA[0], TETRA[1][:2])
META = dict(
    bounds="meshes of 4 vertices and 4 faces, and of 6 and 8: every field on the vertices, every region of the mesh, every amplitude in [0.1, 10]; "
    "spherical plots of bandlimit 1..5 (quick) or 1..6 with any mask (up to 3 in quick), any polar cap, gap and latitude-longitude limits",
    outside="larger meshes and bandlimits, what plotly draws from the mesh it is given",
    assumptions=["float64 arithmetic is treated as exact, compared with tolerance 1e-6", "plotly is replaced by a recorder; igl averages vertices onto faces"],
)


def faces_of(shape):
    return np.array(shape[1])


def mesh_plot(ctx, shape, normalise, amplitude, region):
    from sleplet.plotting import PlotMesh

    shape = dict(tetra=TETRA, octa=OCTA, leaf=LEAF)[shape]
    n = len(shape[0])
    mesh, _ = small_mesh(ctx, 1, shape=shape, pairs=[])
    mesh.mesh_region = ctx.array("region", n, kind="b")
    f = ctx.array("f", n)
    amp = ctx.real("amplitude", 0.1, 10) if amplitude else None
    f0, r0 = f.copy(), mesh.mesh_region.copy()
    log = record(ctx)
    PlotMesh(mesh, "picture", f, amplitude=amp, normalise=normalise, region=region).execute()
    kw, name = shown(ctx, log, "Mesh3d")
    ctx.close(f, f0, "field untouched", tol=1e-9)
    fs = faces_of(shape)
    v = np.array(shape[0], dtype=float)
    mean = arr(ctx, [f0[a] * (1 / 3) + f0[b] * (1 / 3) + f0[c] * (1 / 3) for a, b, c in fs.tolist()], "f")
    want = normal(ctx, mean) if normalise else mean
    got = kw["intensity"]
    ctx.check(np.shape(got) == (len(fs),), "one colour for each face")
    for t, (g, w) in enumerate(zip(flat(got), flat(want))):
        if not region:
            ctx.close(arr(ctx, [g], "f"), arr(ctx, [w], "f"), "colour of a face is the mean over its corners", tol=1e-6, observe=False)
            continue
        inside = ctx.And(*[r0[i] for i in fs[t].tolist()])
        ctx.check(ctx.Or(ctx.Not(inside), ctx.And(g - w <= 1e-6, w - g <= 1e-6)), "faces of the region keep their colour")
        ctx.check(ctx.Or(inside, g <= UNSEEN), "faces with a corner outside the region are not coloured")
    scale(ctx, kw, normalise, amp, flat(f0))
    tri = np.array([kw["i"], kw["j"], kw["k"]]).T
    pos = np.array([kw["x"], kw["y"], kw["z"]], dtype=float).T
    ctx.check(tri.shape == fs.shape and all(set(a) == set(b) for a, b in zip(tri.tolist(), fs.tolist())), "faces of the mesh, in order")
    ctx.check(pos.shape == v.shape and np.allclose(pos, v[:, [0, 2, 1]]), "vertices, upright")
    ctx.check(kw["intensitymode"] == "cell", "colours belong to faces")
    ctx.check(name is not None and name.startswith("picture") and ("norm" in name) == normalise, "name of the picture")
    ctx.reach()


def faces_in_region(ctx, shape):
    from sleplet import _mask_methods as mm

    shape = dict(tetra=TETRA, octa=OCTA, leaf=LEAF)[shape]
    mesh, _ = small_mesh(ctx, 1, shape=shape, pairs=[])
    mesh.mesh_region = ctx.array("region", len(shape[0]), kind="b")
    r0 = mesh.mesh_region.copy()
    got = mm.convert_region_on_vertices_to_faces(mesh)
    ctx.check(np.shape(got) == (len(shape[1]),), "one value for each face")
    for g, corners in zip(flat(got), shape[1]):
        inside = ctx.And(*[r0[i] for i in corners])
        ctx.check(ctx.And(ctx.Or(ctx.Not(inside), g == 1), ctx.Or(inside, g == 0)), "a face is in the region when its corners are")
    ctx.reach()


def amplitude_noise(ctx, shape, nb, noised):
    from sleplet import plot_methods as pm
    from sleplet.meshes.mesh_basis_functions import MeshBasisFunctions

    sh = dict(tetra=TETRA, octa=OCTA, leaf=LEAF)[shape]
    mesh, _ = small_mesh(ctx, nb, shape=sh, pairs=[])
    rot = np.linalg.qr(np.random.default_rng(5).normal(size=(len(sh[0]), len(sh[0]))))[0]
    mesh.basis_functions = np.ascontiguousarray(rot[:, :nb].T)
    f = MeshBasisFunctions(mesh)
    c = ctx.array("c", nb)
    f._unnoised_coefficients = c if noised else None
    f.coefficients = c * 2.0
    got = pm.compute_amplitude_for_noisy_mesh_plots(f)
    if not noised:
        ctx.check(got is None, "no amplitude is fixed without noise")
    else:
        vals = []
        for k in range(len(sh[0])):
            t = 0.0
            for i in range(nb):
                t = t + c[i] * float(rot[k][i])
            vals.append(t)
        judge_max(ctx, got, vals)
    ctx.reach()


def amplitude_slepian(ctx, nb, noised):
    """The same, of a function given by Slepian coefficients."""
    from sleplet import plot_methods as pm
    from sleplet.meshes.mesh_slepian_functions import MeshSlepianFunctions

    mesh, _ = small_mesh(ctx, nb, pairs=[])
    rot = np.linalg.qr(np.random.default_rng(5).normal(size=(4, 4)))[0]
    mesh.basis_functions = np.ascontiguousarray(rot[:, :nb].T)
    EighStub(ctx, by_size=True)
    f = MeshSlepianFunctions(mesh)
    N, S = f.mesh_slepian.N, np.array(f.mesh_slepian.slepian_functions, dtype=object if ctx.symbolic else float)
    c = ctx.array("c", nb)
    f._unnoised_coefficients = c if noised else None
    f.coefficients = c * 2.0
    got = pm.compute_amplitude_for_noisy_mesh_plots(f)
    if not noised:
        ctx.check(got is None, "no amplitude is fixed without noise")
    else:
        vals = [sum((c[p] * (S[p][i] * float(rot[v][i])) for p in range(N) for i in range(nb)), 0.0) for v in range(len(rot))]
        judge_max(ctx, got, vals)
    ctx.reach()


def region_of(ctx, kind, L):
    from sleplet.slepian.region import Region

    if kind == "mask":
        return Region(mask_name="island"), None
    if kind == "box":
        a = ctx.real("theta_min", 0.01, 3.1)
        b = ctx.real("theta_max", 0.01, 3.1)
        c = ctx.real("phi_min", 0.01, 6.2)
        d = ctx.real("phi_max", 0.01, 6.2)
        t, p = sphere_grid(L)
        return Region(theta_min=a, theta_max=b, phi_min=c, phi_max=d), (a, b, c, d)
    a = ctx.real("theta_max", 0.01, 1.5)
    return Region(theta_max=a, gap=kind == "gap"), a


def inside_region(ctx, kind, L, spec, mask):
    t, p = sphere_grid(L)
    out = np.empty(t.shape, dtype=object)
    for ij in np.ndindex(t.shape):
        th, ph = float(t[ij]), float(p[ij])
        if kind == "mask":
            out[ij] = mask[ij]
        elif kind == "box":
            a, b, c, d = spec
            out[ij] = ctx.And(th >= a, th <= b, ph >= c, ph <= d)
        elif kind == "cap":
            out[ij] = th <= spec
        else:
            out[ij] = ctx.Or(th <= spec, th >= np.pi - spec)
    return out


def sphere_plot(ctx, L, kind, plot):
    """Outside the region nothing is coloured."""
    from sleplet import plot_methods as pm
    from sleplet._data import setup_pooch
    from sleplet.plotting import PlotSphere

    t, _ = sphere_grid(L)
    mask = None
    if kind == "mask":
        mask = ctx.array("mask", t.shape, kind="b")
        setup_pooch.save_to_local(f"slepian_masks_island_L{L}.npy", mask)
    region, spec = region_of(ctx, kind, L)
    f = ctx.array("f", t.shape)
    f0 = f.copy()
    if plot:
        log = record(ctx)
        PlotSphere(f, L, "picture", amplitude=1.0, normalise=False, upsample=False, region=region).execute()
        kw, _ = shown(ctx, log, "Surface")
        got = kw["surfacecolor"]
    else:
        closed = np.concatenate([np.arange(t.shape[1]), [0]])
        got = pm._set_outside_region_to_minimum(f[:, closed], L, region)
    ctx.check(np.shape(got) == (t.shape[0], t.shape[1] + 1), "closed grid")
    ins = inside_region(ctx, kind, L, spec, mask)
    for i in range(t.shape[0]):
        for j in range(t.shape[1] + 1):
            jj = j % t.shape[1]
            g, w, z = got[i, j], f0[i, jj], ins[i, jj]
            ctx.check(ctx.Or(ctx.Not(z), ctx.And(g - w <= 1e-6, w - g <= 1e-6)), "samples of the region keep their colour")
            ctx.check(ctx.Or(z, g <= UNSEEN), "samples outside the region are not coloured")
    ctx.reach()


def instances(tier):
    deep = tier == "thorough"
    out = []
    for shape in ("tetra", "octa"):
        out.append(inst(f"faces {shape}", "faces_in_region", shape=shape, max_paths=600))
        for region in (False, True):
            if shape == "octa" and region and not deep:
                continue
            for amp in (False, True):
                out.append(inst(f"mesh {shape} region{int(region)} amplitude{int(amp)}", "mesh_plot", shape=shape, normalise=False, amplitude=amp, region=region,
                                weight=20, max_paths=600))
    out.append(inst("mesh leaf normalised", "mesh_plot", shape="leaf", normalise=True, amplitude=False, region=False, weight=20))
    for nb in (1, 2):
        for noised in (False, True):
            out.append(inst(f"amplitude mesh b{nb} noise{int(noised)}", "amplitude_noise", shape="tetra", nb=nb, noised=noised))
            out.append(inst(f"amplitude slepian mesh b{nb} noise{int(noised)}", "amplitude_slepian", nb=nb, noised=noised))
    for L in (1, 2, 3, 4, 5) + ((6,) if deep else ()):
        for kind in ("mask", "box", "cap", "gap"):
            if kind != "mask" or L < 4 or deep:
                out.append(inst(f"sphere L{L} {kind}", "sphere_plot", L=L, kind=kind, plot=False, weight=L**2))
            if L < 3:
                out.append(inst(f"sphere plot L{L} {kind}", "sphere_plot", L=L, kind=kind, plot=True, weight=L**2))
    return out
