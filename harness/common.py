"""Helpers shared by the harnesses (used in symbolic and in concrete runs)."""
import math

import numpy as np


def inst(name, fn, weight=1, budget=200, **params):
    opts = {}
    for k in ("max_paths", "timeout_ms", "witnesses", "kill", "branch_ms"):
        if k in params:
            opts[k] = params.pop(k)
    return dict(name=name, fn=fn, params=params, weight=weight, budget=budget, **opts)


def flat(a):
    """Flat python list of the elements of any array (symbolic or not)."""
    try:
        from engine import sym as Y
    except ImportError:  # pragma: no cover
        Y = None
    if Y is not None and isinstance(a, Y.SymArray):
        return list(Y.base(a).ravel())
    return list(np.ravel(a))


def library(ctx, module):
    """A library module as the code under test sees it."""
    if not ctx.symbolic:
        return module
    from engine import env

    return env.REPL.get(id(module), module)


class EighStub:
    """Stands for numpy.linalg.eigh.

    Symbolic run: records the matrix and answers fresh symbols for the eigenvalues
    (ascending, the contract of eigh) and eigenvectors.  Concrete run: records the matrix
    and answers what the real eigh answers.
    """

    def __init__(self, ctx, tag="e", complex_vectors=False, by_size=False, strict=False, values=None):
        """by_size: a matrix of a size seen before gets the same answer (polar caps: the orders m and -m have the
        same matrix, and no two others have that size).  values: seed of given distinct eigenvalues."""
        self.values = values
        self.memo = {}
        self.by_size = by_size
        self.ctx, self.tag, self.cv, self.strict = ctx, tag, complex_vectors, strict
        self.calls = []
        self.real = np.linalg.eigh
        if ctx.symbolic:
            ctx.Y.HOOKS["eigh"] = self
        else:
            ctx.patch(np.linalg, "eigh", self)

    def __call__(self, a, *args, **kw):
        n = len(self.calls)
        size = a.shape[0]
        if self.by_size and size in self.memo:
            w, v = self.memo[size]
            self.calls.append((a.copy(), w, v))
            return w.copy(), v.copy()
        if not self.ctx.symbolic:
            w, v = self.real(a, *args, **kw)
            self.memo[size] = w, v
            self.calls.append((np.array(a), w, v))
            return w.copy(), v.copy()
        if self.values is None:
            w = self.ctx.array(f"{self.tag}{n}.val", size, lo=0, hi=1)
        else:
            w = self.ctx.arr(np.sort(np.random.default_rng([self.values, n, size]).random(size)).tolist(), "f")
        v = self.ctx.array(f"{self.tag}{n}.vec", (size, size), kind="c" if self.cv else "f")
        for i in range(size - 1) if self.values is None else ():
            self.ctx.path.assert_((w[i + 1] - w[i]).z() >= (0.001 if self.strict else 0) if hasattr(w[i + 1] - w[i], "z") else True)
        self.memo[size] = w, v
        self.calls.append((a.copy(), w, v))
        return w.copy(), v.copy()


def dlegendre(l, m):
    """d^m/dx^m P_l(x): Fractions, lowest power first."""
    from fractions import Fraction

    a, b = [Fraction(1)], [Fraction(0), Fraction(1)]
    if l == 0:
        p = a
    else:
        for n in range(1, l):
            nxt = [Fraction(0)] + [Fraction(2 * n + 1, n + 1) * x for x in b]
            for i, x in enumerate(a):
                nxt[i] -= Fraction(n, n + 1) * x
            a, b = b, nxt
        p = b
    for _ in range(m):
        p = [i * x for i, x in enumerate(p)][1:] or [Fraction(0)]
    return p


def pmul(p, q):
    r = [0] * (len(p) + len(q) - 1)
    for i, x in enumerate(p):
        for j, y in enumerate(q):
            r[i + j] += x * y
    return r


def ylm_product_antiderivative(l1, l2, m):
    """Antiderivative (in x = cos theta) of 2 pi N N' P_l1^m P_l2^m, coefficients in x."""
    from fractions import Fraction

    m = abs(m)
    p = pmul(dlegendre(l1, m), dlegendre(l2, m))
    for _ in range(m):
        p = pmul(p, [Fraction(1), Fraction(0), Fraction(-1)])
    anti = [Fraction(0)] + [x / (i + 1) for i, x in enumerate(p)]
    n2 = Fraction((2 * l1 + 1) * (2 * l2 + 1)) * Fraction(
        math.factorial(l1 - m) * math.factorial(l2 - m), math.factorial(l1 + m) * math.factorial(l2 + m)
    )
    scale = math.sqrt(n2) / 2  # 2 pi * sqrt(...)/(4 pi)
    return [float(x) * scale for x in anti]


def horner(coef, x):
    r = 0.0
    for c in reversed(coef):
        r = r * x + c
    return r


class _Stop(Exception):
    pass


def object_solving(ctx, build, *args, **kw):
    """(object under construction, matrix) when build(*args, **kw) asks for an eigendecomposition."""
    from sleplet.slepian.slepian_functions import SlepianFunctions

    seen = []

    def stub(a, *r, **k):
        seen.append(a)
        raise _Stop

    if ctx.symbolic:
        ctx.Y.HOOKS["eigh"] = stub
    else:
        ctx.patch(np.linalg, "eigh", stub)
    obj = None
    try:
        build(*args, **kw)
    except _Stop as e:
        tb = e.__traceback__
        while tb is not None:
            o = tb.tb_frame.f_locals.get("self")
            if isinstance(o, SlepianFunctions):
                obj = o
                break
            tb = tb.tb_next
    if ctx.symbolic:
        ctx.Y.HOOKS.pop("eigh", None)
    assert seen and obj is not None, "no eigenproblem was solved"
    return obj, seen[0]


def matrix_solved(ctx, build, *args, **kw):
    """The matrix handed to eigh while build(*args, **kw) runs (the run stops there)."""
    seen = []

    def stub(a, *r, **k):
        seen.append(a.copy() if hasattr(a, "copy") else a)
        raise _Stop

    if ctx.symbolic:
        ctx.Y.HOOKS["eigh"] = stub
    else:
        ctx.patch(np.linalg, "eigh", stub)
    try:
        build(*args, **kw)
    except _Stop:
        pass
    if ctx.symbolic:
        ctx.Y.HOOKS.pop("eigh", None)
    assert seen, "no eigenproblem was solved"
    return seen[0]


def ylm_theta(l, m, x):
    """Normalised theta part of Y_lm (Condon-Shortley), numerically, any sign of m."""
    am = abs(m)
    s = np.sqrt(np.maximum(0.0, 1 - x * x))
    p = np.zeros_like(x)
    for c in reversed([float(c) for c in dlegendre(l, am)]):
        p = p * x + c
    v = (-1) ** am * s**am * p * math.sqrt((2 * l + 1) / (4 * math.pi) * math.factorial(l - am) / math.factorial(l + am))
    return v if m >= 0 else (-1) ** am * v


def theta_fourier(l, m, p, q):
    """Fourier coefficients {k: c_k} of theta -> Y_l^m Y_p^q sin(theta) (theta parts, extended to the circle)."""
    n = 4 * (l + p + 4)
    t = 2 * math.pi * np.arange(n) / n

    def part(l, m):
        # polynomial in cos and sin, valid on the whole circle (the sign of sin is kept)
        am = abs(m)
        x, s = np.cos(t), np.sin(t)
        v = np.zeros_like(x)
        for c in reversed([float(c) for c in dlegendre(l, am)]):
            v = v * x + c
        v = (-1) ** am * s**am * v * math.sqrt(
            (2 * l + 1) / (4 * math.pi) * math.factorial(l - am) / math.factorial(l + am))
        return v if m >= 0 else (-1) ** am * v

    f = part(l, m) * part(p, q) * np.sin(t)
    c = np.fft.fft(f) / n
    out = {}
    for k in range(-(l + p + 1), l + p + 2):
        if abs(c[k % n]) > 1e-13:
            out[k] = complex(c[k % n])
    return out


def rect_integral(ctx, l, m, p, q, tm, tx, pm, px):
    """Integral of Y_lm conj(Y_pq) over the rectangle, from the antiderivatives."""
    th = 0.0
    for k, c in theta_fourier(l, m, p, q).items():
        if k == 0:
            th = th + c.real * (tx - tm)
            continue
        if k < 0:
            continue
        # c_k e^{ik t} + conj -> 2 Re
        a, b = 2 * c.real, -2 * c.imag  # a cos kt + b sin kt
        th = th + (a / k) * (ctx.sin(k * tx) - ctx.sin(k * tm)) - (b / k) * (ctx.cos(k * tx) - ctx.cos(k * tm))
    r = m - q
    if r == 0:
        return th * (px - pm) + 0j
    re = (ctx.sin(r * px) - ctx.sin(r * pm)) / r
    im = -(ctx.cos(r * px) - ctx.cos(r * pm)) / r
    return th * re + 1j * (th * im)


def make_executor(order=None, fail=None, log=None, fired=None):
    """A ThreadPoolExecutor that runs its tasks one after another, in a chosen order.

    `order(n)`: the order in which n tasks run; `fail`: the task that dies instead of running.
    """
    import concurrent.futures as cf

    class Executor:
        def __init__(self, *a, **k):
            self.pending = []

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.shutdown()
            return False

        def _run_all(self):
            todo, self.pending = self.pending, []
            idx = list(range(len(todo)))
            if order is not None and len(todo) > 1:
                idx = order(len(todo))
            if log is not None:
                log.append(len(todo))
            for i in idx:
                fut, fn, a, k = todo[i]
                try:
                    if fail is not None and i == fail:
                        if fired is not None:
                            fired.append(i)
                        raise MemoryError("worker died")
                    fut.set_result(fn(*a, **k))
                except Exception as e:  # noqa: BLE001
                    fut.set_exception(e)

        def submit(self, fn, *a, **k):
            ex = self

            class Fut(cf.Future):
                def result(self, timeout=None):
                    ex._run_all()
                    return super().result(timeout)

                def exception(self, timeout=None):
                    ex._run_all()
                    return super().exception(timeout)

            f = Fut()
            self.pending.append((f, fn, a, k))
            return f

        def map(self, fn, *its, **k):
            futs = [self.submit(fn, *a) for a in zip(*its)]

            def gen():
                for f in futs:
                    yield f.result()

            return gen()

        def shutdown(self, *a, **k):
            self._run_all()

    return Executor


def use_executor(ctx, **kw):
    import concurrent.futures as cf

    ctx.patch(cf, "ThreadPoolExecutor", make_executor(**kw))


def sphere_grid(L):
    import pyssht as ssht

    t, p = ssht.sample_positions(L, Grid=True, Method="MWSS")
    return np.asarray(t, dtype=float), np.asarray(p, dtype=float)


def grid_weight(L):
    """Quadrature weights of the code's grids: sin(theta) times the sample spacings."""
    t, _ = sphere_grid(L)
    return np.sin(t) * (math.pi / (t.shape[0] - 1)) * (2 * math.pi / t.shape[1])


def ylm_grid(L, res):
    """Y_lm for every index below L^2 on the grid of bandlimit res."""
    t, p = sphere_grid(res)
    out = []
    for i in range(L * L):
        l = math.isqrt(i)
        m = i - l * l - l
        out.append(ylm_theta(l, m, np.cos(t)) * np.exp(1j * m * p))
    return out


def rotation(ctx, n, name="r", pairs=None):
    """An n x n orthogonal matrix: plane rotations by arbitrary angles (list of rows)."""
    m = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    for k, (a, b) in enumerate([(i, j) for i in range(n) for j in range(i + 1, n)] if pairs is None else pairs):
        t = ctx.angle(f"{name}{k}", -math.pi, math.pi)
        c, s = ctx.cos(t), ctx.sin(t)
        for r in range(n):
            x, y = m[r][a], m[r][b]
            m[r][a], m[r][b] = c * x - s * y, s * x + c * y
    return m


OCTA = ([[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0, -1, 0], [0, 0, -1]],
        [[0, 1, 2], [1, 3, 2], [3, 4, 2], [4, 0, 2], [1, 0, 5], [3, 1, 5], [4, 3, 5], [0, 4, 5]])
TETRA = ([[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]], [[0, 1, 2], [0, 3, 1], [0, 2, 3], [1, 3, 2]])


def mesh_files(ctx, shape, vectors, values, vertices=None):
    """Small mesh in place of the one on disc; eigsh answers the given (orthonormal) columns."""
    import igl
    import scipy.sparse.linalg as sla

    v, f = shape
    v = np.array(v, dtype=float) if vertices is None else vertices
    f = np.array(f, dtype=np.int64)
    calls = []

    def eigsh(a, *r, **k):
        calls.append(k)
        n = k["k"] if "k" in k else (r[0] if r else 6)
        return values[:n].copy(), vectors[:, :n].copy()

    ctx.patch(igl, "read_triangle_mesh", lambda *a, **k: (v, f))
    ctx.patch(igl, "upsample", lambda V, F, *a, **k: (V, F))
    ctx.patch(igl, "cotmatrix", lambda V, F: np.eye(len(f)))
    ctx.patch(sla, "eigsh", eigsh)
    return calls


def small_mesh(ctx, nb, name="cube", shape=TETRA, region=None, pairs=None, scale=False, zoom=False):
    """Mesh with nb basis functions: any orthonormal set; region: None (as configured) or 'any'."""
    from sleplet.meshes.mesh import Mesh

    nv = len(shape[0])
    rot = rotation(ctx, nv, "basis", pairs)
    cols = [[rot[r][c] for c in range(nv)] for r in range(nv)]
    vec = ctx.arr(cols, "f") if ctx.symbolic else np.array(cols, dtype=float)
    val = np.arange(nv, dtype=float)
    calls = mesh_files(ctx, shape, vec, val)
    mesh = Mesh(name, number_basis_functions=nb, zoom=zoom)
    if region == "any":
        mesh.mesh_region = ctx.array("region", nv, kind="b")
    return mesh, rot


def earth_data(ctx, flm, cl=None):
    """The Earth (and CMB) data files hold the given values."""
    import pathlib

    import platformdirs
    import scipy.io as sio

    d = pathlib.Path(platformdirs.user_data_path())
    d.mkdir(parents=True, exist_ok=True)
    for name in ("EGM2008_Topography_flms_L2190.mat", "wmap_lcdm_pl_model_wmap7baoh0.mat", "wmap_lcdm_pl_model_yr1_v1.mat",
                 "wmap_tt_spectrum_7yr_v4p1.mat"):
        (d / name).write_bytes(b"")

    def loadmat(file, *a, **k):
        name = pathlib.Path(str(file)).name
        if name.startswith("EGM2008"):
            return {"flm": flm.copy().reshape(-1, 1)}
        assert "7yr" not in name and "yr1" not in name or cl is not None
        return {"cl": cl.copy().reshape(-1, 1)}

    ctx.patch(sio, "loadmat", loadmat)


def any_mask(name, L, seed=0):
    """Save a mask of a named region for the bandlimit, and answer it."""
    from sleplet._data import setup_pooch

    t, p = sphere_grid(L)
    m = (t <= 1.5) & (np.random.default_rng(seed + L).random(t.shape) < 0.8)
    m[0, :] = True
    setup_pooch.save_to_local(f"slepian_masks_{name}_L{L}.npy", m)
    return m
