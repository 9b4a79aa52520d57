"""The plotting commands draw what they are asked for."""
import math
import os
import sys

import numpy as np

from harness.common import EighStub, earth_data, flat, inst, library, sphere_grid, small_mesh
from harness.p15 import arr, conj, lms, ylm
from harness.p19 import Draws, power
from harness.p29 import VIEW, data, earth

META = dict(
    bounds="bandlimits 2..3 (noise and smoothing: 2): every set of Earth data and power spectrum, every rotation and translation angle between the first and last sample (not half way between "
    "two samples), every extra argument, noise level and smoothing factor, every region of Slepian functions; a mesh of eight vertices with any basis functions and any signal",
    outside="larger bandlimits; the picture itself (what is drawn from the field is the subject of P22 and P23); the name suggested for the picture",
    assumptions=["float64 arithmetic is treated as exact, compared with tolerance 1e-7", "pyssht is the real library, its rotations and harmonics are those of their definitions"],
)


def command(ctx, module, *args):
    """Run a command with these arguments (symbolic numbers stand for their decimal text); answers the plots."""
    import importlib

    import sleplet.plotting as pl

    plots = []
    ctx.patch(pl.PlotSphere, "execute", lambda self: plots.append(self))
    ctx.patch(pl.PlotMesh, "execute", lambda self: plots.append(self))
    m = importlib.import_module(f"sleplet._scripts.{module}")
    argv = [module] + [a if isinstance(a, str) else ctx.text(a) for a in args]
    ctx.patch(sys, "argv", argv)
    m.main()
    ctx.check(len(plots) == 1, "one plot")
    return plots[0]


def inverse(ctx, flm, L):
    import pyssht

    return library(ctx, pyssht).inverse(flm, L, Method="MWSS")


def nearest(ctx, x, samples):
    """The sample nearest to x times pi (x is not half way between two)."""
    x = x * math.pi
    for i, s in enumerate(samples):
        near = [ctx.Or(abs(x - s) < abs(x - t) - 1e-9) for k, t in enumerate(samples) if k != i]
        if not near or bool(ctx.And(*near)):
            return float(s)
    ctx.assume(False)
    return None


def point(ctx, L):
    t, p = sphere_grid(L)
    a, b = ctx.real("alpha", 0, float(p[0, -1]) / math.pi), ctx.real("beta", 0, 1)
    return a, b, nearest(ctx, a, p[0]), nearest(ctx, b, t[:, 0])


def judge(ctx, f, L, want, msg):
    ctx.check(np.shape(f.f) == sphere_grid(L)[0].shape, "a value for each sample")
    ctx.close(arr(ctx, [x + 0j for x in flat(f.f)]), arr(ctx, [x + 0j for x in flat(want)]), msg, tol=1e-7, observe=False)
    ctx.check(f.L == L, "bandlimit of the plot")
    if bool(f.reality):
        for x in flat(want):
            ctx.close(arr(ctx, [(x + 0j).imag + 0.0], "f"), np.zeros(1), "plots taken as real are real", tol=1e-7, observe=False)


def function(ctx, cls, L):
    """(arguments, coefficients as they should be)"""
    flm = data(ctx, L, 0)
    cl = ctx.array("cl", max(L, 3), lo=0.01, hi=10)
    earth_data(ctx, flm, cl)
    if cls == "earth":
        return ["earth"], earth(ctx, L, flm)
    if cls == "dirac_delta":
        return ["dirac_delta"], arr(ctx, [math.sqrt((2 * l + 1) / (4 * math.pi)) + 0j if m == 0 else 0j for l, m in lms(L)])
    k = ctx.int("extra", -1, 1)
    sigma = 10.0 ** k.__index__()
    return ["gaussian", "-e", k], arr(ctx, [math.exp(-l * (l + 1) / (2 * sigma**2)) + 0j if m == 0 else 0j for l, m in lms(L)])


def view(ctx, want, L, place):
    import pyssht

    return library(ctx, pyssht).rotate_flms(want, *[float(np.deg2rad(a)) for a in VIEW[place]], L)


def drawn(ctx, cls, L, place):
    args, want = function(ctx, cls, L)
    f = command(ctx, "plotting_on_sphere", *args, "-L", str(L), *(["-p", place] if place else []), *(["-r"] if ctx.choice("region", 2) else []))
    if cls == "earth":
        want = view(ctx, want, L, place or "south_america")
    judge(ctx, f, L, inverse(ctx, want, L), "the function asked for")
    ctx.check(list(f.annotations) == [], "no annotations unless translated")
    ctx.check(f.region is None, "no region for functions on the whole sphere")
    ctx.check(f.amplitude is None, "no amplitude but for noise")
    ctx.reach()


def turned(ctx, cls, L):
    import pyssht

    args, want = function(ctx, cls, L)
    a, b, alpha, beta = point(ctx, L)
    g = ctx.real("gamma", -2, 2)
    f = command(ctx, "plotting_on_sphere", *args, "-L", str(L), "--method", "rotate", "-a", a, "-b", b, "-g", g)
    want = library(ctx, pyssht).rotate_flms(want, alpha, beta, g * math.pi, L)
    if cls == "earth":
        want = view(ctx, want, L, "south_america")
    judge(ctx, f, L, inverse(ctx, want, L), "the function turned by the angles")
    ctx.check(list(f.annotations) == [], "no annotations unless translated")
    ctx.reach()


def moved(ctx, cls, L, outline):
    import plotly.graph_objects as go

    args, want = function(ctx, cls, L)
    a, b, alpha, beta = point(ctx, L)
    f = command(ctx, "plotting_on_sphere", *args, "-L", str(L), "-m", "translate", "-a", a, "-b", b, *([] if outline else ["-o"]))
    at = [ylm(ctx, l, m, beta, alpha) for l, m in lms(L)]
    want = arr(ctx, [conj(y) + 0j if cls == "dirac_delta" else c * y for c, y in zip(flat(want), at)])
    if cls == "earth":
        want = view(ctx, want, L, "south_america")
    judge(ctx, f, L, inverse(ctx, want, L), "the function translated to the point")
    notes = list(f.annotations)
    if outline:
        ctx.check(len(notes) == 1, "the point is annotated")
        e, _ = ctx.raises(ValueError, lambda: go.layout.scene.Annotation({k: 0.5 if hasattr(v, "z") else v for k, v in notes[0].items()}))
        ctx.check(e is None, "the annotation can be drawn")
        xyz = math.sin(beta) * math.cos(alpha), math.sin(beta) * math.sin(alpha), math.cos(beta)
        ctx.close(arr(ctx, [notes[0][k] + 0.0 for k in "xyz"], "f"), np.array(xyz), "where the annotation is", tol=1e-7)
    else:
        ctx.check(notes == [], "annotations can be turned off")
    ctx.reach()


def convolved(ctx, cls, L, other):
    args, want = function(ctx, cls, L)
    f = command(ctx, "plotting_on_sphere", *args, "-L", str(L), "-c", other)
    import sleplet.functions as fs

    g = dict(earth=fs.Earth, wmap=fs.Wmap)[other](L).coefficients
    want = arr(ctx, [(x + 0j) * conj(y + 0j) for x, y in zip(flat(g), flat(want))])
    if "earth" in (cls, other):
        want = view(ctx, want, L, "south_america")
    judge(ctx, f, L, inverse(ctx, want, L), "the sifting convolution")
    ctx.reach()


def flags(ctx, L):
    kind = ["real", "imag", "abs", "sum"][ctx.choice("type", 4)]
    norm, up = bool(ctx.choice("normalise", 2)), bool(ctx.choice("upsample", 2))
    args, want = function(ctx, "gaussian", L)
    f = command(ctx, "plotting_on_sphere", *args, "-L", str(L), "-t", kind, *([] if norm else ["-u"]), *([] if up else ["-z"]))
    judge(ctx, f, L, inverse(ctx, want, L), "the function asked for")
    ctx.check(f.plot_type == kind and f.normalise == norm and f.upsample == up, "options of the plot")
    ctx.reach()


def defaults(ctx):
    f = command(ctx, "plotting_on_sphere", "spherical_harmonic")
    ctx.check(f.plot_type == "real" and f.normalise is True and f.upsample is True and f.L == 16, "options of the plot")
    f = command(ctx, "plotting_on_sphere", "ridgelets", "-L", "4")
    ctx.check(f.spin == 2 and not f.reality, "ridgelets keep their spin")
    ctx.reach()


SPELLED = [
    (["-m"], []), (["-p"], []), (["-t"], []), (["-m", "north"], []), (["-a", "0.5", "-m", "translate"], ["--alpha", "0.5", "--method", "translate"]),
    (["-b", "0.5", "-m", "rotate"], ["--beta", "0.5", "--method", "rotate"]), (["-g", "0.5", "-m", "rotate"], ["--gamma", "0.5", "--method", "rotate"]),
    (["-p", "africa"], ["--perspective", "africa"]), (["-t", "abs"], ["--type", "abs"]), (["-u"], ["--unnormalise"]), (["-z"], ["--unzeropad"]),
    (["-c", "earth"], ["--convolve", "earth"]), (["-s", "20"], ["--smoothing", "20"]), (["-o", "-m", "translate"], ["--outline", "--method", "translate"]),
    (["-m", "translate"], ["-a", "0.75", "-b", "0.125", "-m", "translate"]), (["-m", "rotate"], ["-a", "0.75", "-b", "0.125", "-g", "0", "-m", "rotate"]),
]


def alike(ctx, f, g):
    ctx.close(arr(ctx, [x + 0j for x in flat(f.f)]), arr(ctx, [x + 0j for x in flat(g.f)]), "the same picture", tol=1e-7, observe=False)
    for a in ("plot_type", "normalise", "upsample", "L", "spin", "reality", "amplitude", "filename", "method", "zoom"):
        x, y = (getattr(h, a, None) for h in (f, g))
        ctx.check(type(x) is type(y) and (hasattr(x, "z") or x == y), f"the same {a}")
    ctx.check(len(getattr(f, "annotations", [])) == len(getattr(g, "annotations", [])), "the same annotations")


def spelled(ctx, L):
    """Short and long names of the options, options without a value, and defaults."""
    args, _ = function(ctx, "earth", L)
    one, two = SPELLED[ctx.choice("option", len(SPELLED))]
    alike(ctx, command(ctx, "plotting_on_sphere", *args, "-L", str(L), *one), command(ctx, "plotting_on_sphere", *args, "--bandlimit", str(L), *two))
    ctx.reach()


def spelled_mesh(ctx):
    import igl

    small_mesh(ctx, 2, shape=CUBE, pairs=[(0, 1), (1, 2), (2, 5)])
    EighStub(ctx, by_size=True)
    n = ctx.array("normals", (8, 3))
    ctx.patch(igl, "per_vertex_normals", lambda V, F, *a, **k: n.copy())
    pairs = [(["-m"], []), (["-m", "basis_functions"], []), (["-e", "1"], ["--extra_args", "1"]), (["-m", "field"], ["--method", "field"]), (["-u"], ["--unnormalise"]),
             (["-z"], ["--zoom"]), (["-r", "-m", "field"], ["--region", "-m", "field"])]
    one, two = pairs[ctx.choice("option", len(pairs))]
    f, g = (command(ctx, "plotting_on_mesh", "cube", *a) for a in (one, two))
    alike(ctx, f, g)
    ctx.check(f.mesh.zoom == g.mesh.zoom, "the same view")
    ctx.reach()


def noisy(ctx, L, smooth):
    import sleplet.functions as fs

    args, want = function(ctx, "earth", L)
    Draws(ctx)
    ctx.assume(power(want) > 0.01)
    s = ctx.int("snr", -30, 30)
    k = ctx.int("smoothing", 1, 1000)
    f = command(ctx, "plotting_on_sphere", *args, "-L", str(L), "-n", s, *(["-s", k] if smooth else []))
    kw = dict(smoothing=k) if smooth else {}
    base, g = fs.Earth(L, **kw), fs.Earth(L, noise=s, **kw)
    judge(ctx, f, L, inverse(ctx, view(ctx, g.coefficients, L, "south_america"), L), "the noisy function")
    top = f.amplitude
    at = [abs(x) for x in flat(inverse(ctx, base.coefficients, L))]
    ctx.check(ctx.And(*[top >= x - 1e-7 for x in at]), "no value of the signal exceeds the amplitude")
    ctx.check(ctx.Or(*[top <= x + 1e-7 for x in at]), "the amplitude is a value of the signal")
    ctx.reach()


def smoothed(ctx, L):
    import sleplet.functions as fs

    args, want = function(ctx, "earth", L)
    k = ctx.int("smoothing", 1, 1000)
    f = command(ctx, "plotting_on_sphere", *args, "-L", str(L), "-s", k)
    g = fs.Earth(L, smoothing=k)
    judge(ctx, f, L, inverse(ctx, view(ctx, g.coefficients, L, "south_america"), L), "the smoothed function")
    ctx.reach()


def rejected(ctx):
    k = ctx.choice("what", 6)
    bad = [["moon"], ["earth", "-c", "moon"], ["earth", "-m", "south"], ["earth", "-t", "phase"], ["earth", "-p", "asia"], ["slepian_moon"]][k]
    import contextlib
    import io

    with contextlib.redirect_stderr(io.StringIO()):
        e, _ = ctx.raises((SystemExit, ValueError), lambda: command(ctx, "plotting_on_sphere", *bad))
    ctx.check(e is not None, "unknown names are rejected")
    ctx.reach()


def region(ctx, L, act, kind):
    """Slepian functions of the region which the environment names."""
    import sleplet.functions as fs
    from sleplet.slepian.region import Region

    function(ctx, "earth", L)
    env = dict(lim=dict(THETA_MIN="20", THETA_MAX="130", PHI_MIN="40", PHI_MAX="200"), polar=dict(THETA_MAX="130"))[kind]
    kw = {k.lower(): float(np.deg2rad(int(v))) for k, v in env.items()}
    old = {k: v for k, v in os.environ.items() if k not in ("THETA_MIN", "THETA_MAX", "PHI_MIN", "PHI_MAX", "POLAR_GAP")}
    ctx.patch(os, "environ", {**old, **env})
    reg = Region(**kw)
    h = fs.Slepian(L, region=reg)
    N, S = h.slepian.N, h.slepian.eigenvectors
    r = ctx.int("rank", 0, min(N, len(S)) - 1)
    S = [[complex(x) for x in flat(row)] for row in S]
    fp = [ctx.ite(r == p, 1.0, 0.0) + 0j for p in range(len(S))]
    args = ["slepian", "-L", str(L), "-r", "-e", r]
    if act == "convolve":
        import sleplet.functions.earth

        g = flat(sleplet.functions.earth.Earth(L).coefficients)
        gp = [sum(((x + 0j) * y.conjugate() for x, y in zip(g, row)), 0j) for row in S]
        fp = [x * conj(y) for x, y in zip(gp, fp)]
        args += ["-c", "earth"]
    f = command(ctx, "plotting_on_sphere", *args)
    want = [sum((fp[p] * S[p][i] for p in range(N)), 0j) for i in range(L * L)]
    judge(ctx, f, L, inverse(ctx, arr(ctx, want), L), "the field of the Slepian coefficients")
    ctx.check(isinstance(f.region, Region), "the region is shown")
    for k, v in kw.items():
        ctx.close(arr(ctx, [getattr(f.region, k) + 0.0], "f"), np.array([v]), "the region asked for", tol=1e-9)
    ctx.reach()


CUBE = ([[x, y, z] for x in (0, 1) for y in (0, 1) for z in (0, 1)],
        [[0, 1, 3], [0, 3, 2], [4, 6, 7], [4, 7, 5], [0, 4, 5], [0, 5, 1], [2, 3, 7], [2, 7, 6], [0, 2, 6], [0, 6, 4], [1, 5, 7], [1, 7, 3]])


def mesh(ctx, method):
    """Functions of a small mesh, with the default number of basis functions (a quarter of the vertices)."""
    import igl

    norm, zoom = bool(ctx.choice("normalise", 2)), bool(ctx.choice("zoom", 2))
    _, rot = small_mesh(ctx, 2, shape=CUBE, pairs=[(0, 1), (1, 2), (2, 5)])
    EighStub(ctx, by_size=True)
    n = ctx.array("normals", (8, 3))
    ctx.patch(igl, "per_vertex_normals", lambda V, F, *a, **k: n.copy())
    args = ["cube"] + ([] if method is None else ["-m", method])
    r = 0
    if method in ("basis_functions", "slepian_functions"):
        r = ctx.int("rank", 0, 1)
        args += ["-e", r]
    if method == "field":
        coef = [sum((n[w, 1] * rot[w][i] for w in range(8)), 0.0) for i in range(2)]
    else:
        coef = [ctx.ite(r == i, 1.0, 0.0) for i in range(2)]
    want = [sum((coef[i] * rot[v][i] for i in range(2)), 0.0) for v in range(8)]
    f = command(ctx, "plotting_on_mesh", *args, *([] if norm else ["-u"]), *(["-z"] if zoom else []))
    if method == "slepian_functions":
        from sleplet.meshes.mesh_slepian import MeshSlepian

        ms = MeshSlepian(f.mesh)
        S = ms.slepian_functions
        ctx.assume(r < len(S))
        # (the eigenvectors of the stand-in are not orthonormal)
        coef = [sum((S[r.__index__()][i] * S[p][i] for i in range(2)), 0.0) for p in range(min(ms.N, 2))]
        want = [sum((coef[p] * (ms.slepian_functions[p][i] * rot[v][i]) for p in range(min(ms.N, 2)) for i in range(2)), 0.0) for v in range(8)]
    ctx.close(arr(ctx, [x + 0.0 for x in flat(f.f)], "f"), arr(ctx, [x + 0.0 for x in want], "f"), "the function on the mesh", tol=1e-7, observe=False)
    ctx.check(np.shape(f.f) == (8,), "a value for each vertex")
    ctx.check(f.normalise == norm, "normalised unless turned off")
    ctx.check(bool(f.region) == (method == "slepian_functions"), "only Slepian functions are shown in their region")
    ctx.check(f.amplitude is None, "no amplitude but for noise")
    ctx.check(f.mesh.zoom == zoom and f.mesh.name == "cube", "the mesh asked for")
    ctx.reach()


def rejected_mesh(ctx):
    import contextlib
    import io

    k = ctx.choice("what", 3)
    bad = [["sphere"], ["cube", "-m", "mesh_field"], ["cube", "-m", "earth"]][k]
    with contextlib.redirect_stderr(io.StringIO()):
        e, _ = ctx.raises((SystemExit, ValueError), lambda: command(ctx, "plotting_on_mesh", *bad))
    ctx.check(e is not None, "unknown names are rejected")
    ctx.reach()


def instances(tier):
    deep = tier == "thorough"
    out = []
    for L in (2, 3):
        for cls in ("earth", "gaussian", "dirac_delta"):
            for place in (None, "africa", "south_america") if cls == "earth" else (None,):
                out.append(inst(f"{cls} L{L} {place}", "drawn", cls=cls, L=L, place=place, weight=L**3))
            if L == 2 or deep or cls != "earth":
                out.append(inst(f"rotate {cls} L{L}", "turned", cls=cls, L=L, weight=L**4))
            out.append(inst(f"translate {cls} L{L}", "moved", cls=cls, L=L, outline=True, weight=L**4))
            for other in ("earth", "wmap"):
                out.append(inst(f"convolve {cls} {other} L{L}", "convolved", cls=cls, L=L, other=other, weight=L**4))
        out.append(inst(f"translate plain L{L}", "moved", cls="earth", L=L, outline=False, weight=L**4))
        out.append(inst(f"flags L{L}", "flags", L=L, weight=L**3))
        for smooth in (False, True) if L == 2 else ():
            out.append(inst(f"noise L{L} smooth{int(smooth)}", "noisy", L=L, smooth=smooth, weight=L**4))
        if L == 2:
            out.append(inst(f"smoothing L{L}", "smoothed", L=L, weight=L**3))
        for kind in ("lim", "polar"):
            for act in ("north", "convolve"):
                out.append(inst(f"slepian {kind} {act} L{L}", "region", L=L, act=act, kind=kind, weight=L**4))
    out.append(inst("defaults", "defaults"))
    out.append(inst("rejected", "rejected"))
    for method in (None, "basis_functions", "field", "slepian_functions"):
        out.append(inst(f"mesh {method}", "mesh", method=method))
    out.append(inst("rejected mesh", "rejected_mesh"))
    out.append(inst("spellings L2", "spelled", L=2, weight=8))
    out.append(inst("mesh spellings", "spelled_mesh", weight=3))
    return out
