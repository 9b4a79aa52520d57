"""Rows shared out among workers; a worker that fails."""
import os

import numpy as np

from harness.common import inst, sphere_grid, use_executor, small_mesh

META = dict(
    bounds="1..14 rows (quick) or 1..30 (thorough), 1..9 workers; every worker of 1..4 failing, before it starts or at any of its accesses to "
    "shared memory, for polar caps and gaps, masks and meshes",
    outside="a worker that never ends",
    assumptions=["tasks of a pool run one after another in an arbitrary order (they share nothing but the rows of the matrix)"],
)


def partition(ctx, nmax, pmax):
    from sleplet import _parallel_methods as pm

    n, p = ctx.choice("rows", nmax) + 1, ctx.choice("workers", pmax) + 1
    chunks = pm.split_arr_into_chunks(n, p)
    rows = [int(i) for c in chunks for i in c]
    r = ctx.int("row", 0, n - 1)
    ctx.check(sum(r == i for i in rows) == 1, "every row in exactly one share")
    ctx.check(all(0 <= i < n for i in rows), "a share holds rows only")
    ctx.reach()


class Solver:
    """Counts the eigenproblems, answers fixed distinct eigenvalues."""

    def __init__(self, ctx, kind):
        self.calls, self.dtype = 0, complex if kind == "mask" else float
        if ctx.symbolic:
            ctx.Y.HOOKS["eigh"] = self
        else:
            ctx.patch(np.linalg, "eigh", self)

    def __call__(self, a, *r, **k):
        self.calls += 1
        n = a.shape[0]
        return np.arange(n) / 10 + self.calls / 1000, np.eye(n, dtype=self.dtype)


class Dead(MemoryError):
    pass


def target(ctx, kind, L=2):
    if kind in ("cap", "gap"):
        from sleplet.slepian.slepian_polar_cap import SlepianPolarCap

        return lambda: SlepianPolarCap(3, 1.1, gap=kind == "gap")
    if kind == "mask":
        from sleplet._data import setup_pooch
        from sleplet.slepian.slepian_arbitrary import SlepianArbitrary

        t, p = sphere_grid(2 * L)
        setup_pooch.save_to_local(f"slepian_masks_africa_L{2 * L}.npy", (t <= 1.3) & (p < 3))
        return lambda: SlepianArbitrary(L, "africa")
    from sleplet.meshes.mesh_slepian import MeshSlepian

    mesh, _ = small_mesh(ctx, 3, pairs=[(0, 1), (1, 2), (2, 3)])
    return lambda: MeshSlepian(mesh)


def files():
    out = []
    for d, _, fs in os.walk(os.environ["XDG_DATA_HOME"]):
        out += [f for f in fs]
    return sorted(out)


def failing(ctx, kind, ncpu, how):
    """The construction fails too, and leaves nothing behind that a later one would use."""
    import multiprocess.shared_memory as shm

    ctx.patch(os.environ, "NCPU", str(ncpu))
    build = target(ctx, kind)
    stub = Solver(ctx, kind)
    k = ctx.choice("task", ncpu)
    fired, count = [], [0]
    orig = shm.SharedMemory
    if how == "start":
        use_executor(ctx, fail=k, fired=fired)
    else:
        use_executor(ctx)
        if ctx.symbolic:
            from engine import env

            orig = env.FakeSHM

        def attach(*a, create=False, **kw):
            if not create:
                count[0] += 1
                if count[0] == k + 1:
                    fired.append(k)
                    raise Dead("too many open files")
            return orig(*a, create=create, **kw)

        ctx.patch(shm, "SharedMemory", attach)
    before = files()
    err, _ = ctx.raises(MemoryError, build)
    if not fired:
        # fewer tasks or accesses than that
        ctx.check(err is None, "no failure is reported when none happened")
        ctx.reach()
        return
    ctx.check(err is not None, "the failure of a worker is reported")
    ctx.check(stub.calls == 0, "no eigenproblem of an incomplete matrix is solved")
    ctx.check(files() == before, "nothing is saved")
    # the machine recovers
    use_executor(ctx)
    ctx.patch(shm, "SharedMemory", orig)
    build()
    ctx.check(stub.calls >= 1, "the next construction solves the problem afresh")
    ctx.reach()


def released(ctx, kind, ncpu):
    """Shared memory is given back."""
    import multiprocess.shared_memory as shm

    ctx.patch(os.environ, "NCPU", str(ncpu))
    build = target(ctx, kind)
    Solver(ctx, kind)
    use_executor(ctx)
    orig = shm.SharedMemory
    if ctx.symbolic:
        from engine import env

        orig = env.FakeSHM
    made, gone = [], []

    def create(*a, **kw):
        b = orig(*a, **kw)
        if kw.get("create") or (len(a) > 1 and a[1]):
            made.append(b.name)
        u = b.unlink

        def unlink():
            gone.append(b.name)
            return u()

        b.unlink = unlink
        return b

    ctx.patch(shm, "SharedMemory", create)
    build()
    ctx.check(sorted(set(made)) == sorted(set(gone)), "shared memory is released")
    ctx.reach()


def instances(tier):
    n, p = (14, 9) if tier == "quick" else (30, 12)
    out = [inst("partition", "partition", nmax=n, pmax=p, weight=9)]
    for kind in ("cap", "gap", "mask", "mesh"):
        for ncpu in (1, 2, 3):
            for how in ("start", "memory"):
                out.append(inst(f"failing {kind} ncpu{ncpu} {how}", "failing", kind=kind, ncpu=ncpu, how=how))
        for ncpu in (1, 3):
            out.append(inst(f"released {kind} ncpu{ncpu}", "released", kind=kind, ncpu=ncpu))
    return out
