"""The symbolic environment: real sleplet modules, with the *libraries they look up*
replaced by proxies that understand symbolic values.

Nothing of sleplet is rewritten.  After import, every module global of sleplet that is
one of the library modules / functions below is replaced by a proxy with the same
interface; on concrete values the proxies call the real library.
"""
from __future__ import annotations

import builtins
import importlib
import fractions
import logging
import math
import operator
import os
import pkgutil
import sys
import tempfile
import types

os.environ.setdefault("NUMBA_DISABLE_JIT", "1")
os.environ.setdefault("MPLBACKEND", "Agg")

import numpy as np

from . import sym as Y

REPO_SRC = os.environ.get("VERIF_DEV_SRC", "/repo/src")  # the variable is for trying planted bugs in a copy
REPL = {}  # id(real object) -> replacement
KEEP = []  # keep the originals alive (ids stay valid)


def register(real, repl):
    REPL[id(real)] = repl
    KEEP.append(real)


class Proxy(types.ModuleType):
    def __init__(self, real):
        super().__init__(real.__name__)
        object.__setattr__(self, "_real", real)

    def __getattribute__(self, n):
        real = object.__getattribute__(self, "_real")
        if n == "_real":
            return real
        v = getattr(real, n)
        try:
            return REPL.get(id(v), v)
        except Exception:  # pragma: no cover
            return v

    def __setattr__(self, n, v):
        setattr(object.__getattribute__(self, "_real"), n, v)

    def __dir__(self):
        return dir(object.__getattribute__(self, "_real"))


def demote(x):
    """SymArray without symbolic entries -> plain array of the modelled dtype."""
    if isinstance(x, Y.SymArray):
        b = Y.base(x)
        if any(isinstance(v, Y.SymBase) for v in b.flat):
            return x
        dt = {"f": float, "c": complex, "i": int, "b": bool}.get(x.kind)
        return b.astype(dt) if dt else b
    if isinstance(x, tuple):
        return tuple(demote(i) for i in x)
    if isinstance(x, list):
        return [demote(i) for i in x]
    if isinstance(x, Y.KDtype):
        return x.real
    return x


def promote(x):
    """Plain float/complex array -> SymArray (so that symbolic values can be stored)."""
    if isinstance(x, np.ndarray) and not isinstance(x, Y.SymArray) and x.dtype.kind in "fcbO":
        return Y.as_sym(x)
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(promote(i) for i in x)
    return x


def has_sym(*xs):
    for x in xs:
        if isinstance(x, Y.SymArray):
            if any(isinstance(v, Y.SymBase) for v in Y.base(x).flat):
                return True
        elif isinstance(x, Y.SymBase):
            return True
        elif isinstance(x, (list, tuple)) and has_sym(*x):
            return True
        elif isinstance(x, np.ndarray) and x.dtype == object:
            if any(isinstance(v, Y.SymBase) for v in x.flat):
                return True
    return False


def conc_ints(x):
    if isinstance(x, Y.SymInt):
        return x.__index__()
    if isinstance(x, (tuple, list)):
        return type(x)(conc_ints(i) for i in x)
    return x


# --------------------------------------------------------------------------- numpy
def _creation(name, fill):
    real = getattr(np, name)

    def f(shape, *a, **k):
        shape = conc_ints(shape)
        if name == "full":
            fv = a[0] if a else k["fill_value"]
            dt = a[1] if len(a) > 1 else k.get("dtype")
            kk = Y.kind_of_dtype(dt) if dt is not None else Y.kind_of_array(fv)
            if isinstance(fv, (Y.SymArray, np.ndarray)):
                r = Y.new_array(shape, 0.0, kk)
                r[...] = fv
                return r
        else:
            dt = a[0] if a else k.get("dtype")
            kk = Y.kind_of_dtype(dt)
            fv = fill
        if kk == "i" and not has_sym(fv):
            return real(shape, *[demote(i) for i in a], **{x: demote(v) for x, v in k.items()})
        if kk == "o":
            return real(shape, *a, **k)
        return Y.new_array(shape, Y.coerce_kind(fv, kk), kk)

    f.__name__ = name
    register(real, f)


for _n, _f in (("zeros", 0), ("empty", 0), ("ones", 1), ("full", None)):
    _creation(_n, _f)


def _wrap_result(name):
    real = getattr(np, name)

    def f(*a, **k):
        return promote(real(*[conc_ints(x) if isinstance(x, Y.SymInt) else x for x in a], **k))

    f.__name__ = name
    register(real, f)


for _n in ("eye", "identity", "concatenate", "stack", "vstack", "hstack", "column_stack", "tile", "repeat",
           "zeros_like", "ones_like", "empty_like", "full_like", "copy", "append", "linspace", "diag", "fromiter",
           "meshgrid", "broadcast_to"):
    if _n in ("meshgrid", "broadcast_to"):
        continue
    _wrap_result(_n)


def _asarray(name):
    real = getattr(np, name)

    def f(x, dtype=None, *a, **k):
        if isinstance(dtype, Y.KDtype):
            dtype = dtype.real
        if isinstance(x, Y.SymBase) or has_sym(x) or isinstance(x, Y.SymArray) or (
            isinstance(x, (list, tuple)) and any(isinstance(i, Y.SymArray) for i in x)
        ):
            kk = Y.kind_of_dtype(dtype) if dtype is not None else Y.kind_of_array(x)
            if isinstance(x, Y.SymArray):
                r = Y.base(x)
                r = r.copy() if name == "array" else r
                if dtype is None or kk == x.kind:
                    return Y.wrap(r, x.kind) if name == "array" else x
                return x.astype(dtype)
            if isinstance(x, Y.SymBase):
                r = np.empty((), dtype=object)
                r[()] = x
            else:
                r = np.array(Y.unwrap(x), dtype=object)
            return Y.emap(lambda v: Y.coerce_kind(v, kk), r, kk)
        if not isinstance(x, (np.ndarray, list, tuple, int, float, complex, bool, range, np.generic)) and hasattr(
            x, "__iter__"
        ):
            x = list(x)
            return f(x, dtype, *a, **k)
        r = real(x, dtype, *a, **k) if dtype is not None else real(x, *a, **k)
        return promote(r) if r.ndim and r.dtype.kind in "fc" else r

    f.__name__ = name
    register(real, f)


for _n in ("array", "asarray", "ascontiguousarray", "asanyarray", "asfarray"):
    if hasattr(np, _n):
        _asarray(_n)


def _arange(*a, **k):
    a = [x.__index__() if isinstance(x, Y.SymInt) else x for x in a]
    if has_sym(*a):
        raise Y.Unsupported("arange with symbolic real bounds")
    return np.arange(*a, **{x: demote(v) for x, v in k.items()})


register(np.arange, _arange)


def _scalar_cast(name, kk):
    real = getattr(np, name)

    class Meta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, real)

        def __subclasscheck__(cls, o):
            return issubclass(o, real)

        def __eq__(cls, o):
            return o is real or o is cls

        def __hash__(cls):
            return hash(real)

    return real


def _lift_scalar(name):
    """numpy functions called with bare symbolic scalars reach __array_function__ /
    __array_ufunc__ by themselves; nothing to do."""


# random: symbolic draws are installed by harnesses (ctx.patch on numpy.random).


# -- linear algebra hooks (set by harnesses)
def _eigh(a, *r, **k):
    h = Y.HOOKS.get("eigh")
    if h is not None:
        return h(a, *r, **k)
    if has_sym(a):
        raise Y.Unsupported("eigh of a symbolic matrix")
    return promote(tuple(np.linalg.eigh(demote(a), *r, **k)))


register(np.linalg.eigh, _eigh)


# -- files: symbolic arrays are stored as a token in a real (scratch) file
VFS = {}
_REAL_SAVE, _REAL_LOAD = np.save, np.load


def _np_save(file, arr, *a, **k):
    if has_sym(arr):
        tok = f"SYMARR:{len(VFS)}".encode()
        VFS[tok] = (Y.as_sym(arr).copy())
        if hasattr(file, "write"):
            file.write(tok)
        else:
            p = os.fspath(file)
            if not p.endswith(".npy"):
                p += ".npy"
            with open(p, "wb") as f:
                f.write(tok)
        return None
    return _REAL_SAVE(file, demote(arr), *a, **k)


def _np_load(file, *a, **k):
    if not hasattr(file, "read"):
        with open(file, "rb") as f:
            data = f.read(64)
        if data.startswith(b"SYMARR:"):
            return VFS[data].copy()
    return promote(_REAL_LOAD(file, *a, **k))


register(np.save, _np_save)
register(np.load, _np_load)


# -- np.ndarray(shape, dtype, buffer=...) over modelled shared memory
class FakeBuf:
    """Shared memory block: one cell store shared by every attached array."""

    def __init__(self, size):
        self.size = size
        self.store = None

    def __len__(self):
        return self.size

    def release(self):
        pass


class FakeSHM:
    blocks = {}

    def __init__(self, name=None, create=False, size=0, **k):
        if create:
            name = name or f"blk{len(FakeSHM.blocks)}"
            FakeSHM.blocks[name] = FakeBuf(int(conc_ints(size)))
        elif name not in FakeSHM.blocks:
            raise FileNotFoundError(name)
        self.name = name
        self.buf = FakeSHM.blocks[name]
        self.size = self.buf.size
        self.closed = False

    def close(self):
        self.closed = True

    def unlink(self):
        FakeSHM.blocks.pop(self.name, None)


class _NdMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, np.ndarray)

    def __subclasscheck__(cls, o):
        return issubclass(o, np.ndarray)

    def __getattr__(cls, n):
        return getattr(np.ndarray, n)

    def __getitem__(cls, i):
        return np.ndarray[i]

    def __call__(cls, shape, dtype=float, buffer=None, offset=0, strides=None, order=None):
        if isinstance(buffer, FakeBuf):
            kk = Y.kind_of_dtype(dtype)
            shape = conc_ints(shape)
            shape = (shape,) if isinstance(shape, int) else tuple(shape)
            n = 1
            for s in shape:
                n *= s
            isz = {"f": 8, "c": 16, "i": 8, "b": 1}[kk]
            if n * isz + offset > buffer.size:
                raise TypeError("buffer is too small for requested array")
            if buffer.store is None:
                buffer.store = {}
            kkey = kk
            if kkey not in buffer.store:
                a = np.empty(buffer.size // isz, dtype=object)
                a.fill(Y.ZEROV[kk])
                buffer.store[kkey] = a
            if offset:
                raise Y.Unsupported("offset in shared memory")
            v = buffer.store[kkey][:n].reshape(shape).view(Y.SymArray)
            v.kind = kk
            return v
        return np.ndarray(shape, dtype.real if isinstance(dtype, Y.KDtype) else dtype, buffer, offset, strides, order)


class NdShim(metaclass=_NdMeta):
    pass


# ------------------------------------------------------------------- scalars, math
class SymStr(str):
    """Decimal text of a symbolic integer or real (an environment variable, an argument)."""

    def __new__(cls, sym):
        r = super().__new__(cls, Y.token(sym) if hasattr(Y, "token") else f"<{sym!r}>")
        r.sym = sym
        return r

    def strip(self, *a):
        return self


def _shim(name, real, conv, also):
    class Meta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, real) or isinstance(o, also)

        def __subclasscheck__(cls, o):
            return issubclass(o, real)

        def __call__(cls, *a, **k):
            if a and isinstance(a[0], SymStr):
                return conv(a[0].sym)
            if a and isinstance(a[0], (Y.SymBase, Y.SymArray)):
                x = a[0]
                if isinstance(x, Y.SymArray):
                    if x.size != 1 or x.ndim > 0:
                        raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
                    x = Y.base(x).reshape(-1)[0]
                    if not isinstance(x, Y.SymBase):
                        return real(x)
                return conv(x)
            return real(*a, **k)

        def __eq__(cls, o):
            return o is real or o is cls

        def __hash__(cls):
            return hash(real)

        def __getattr__(cls, n):
            return getattr(real, n)

        def __or__(cls, o):
            return real | o

        def __ror__(cls, o):
            return o | real

    return Meta(name, (), {})


def _to_float(x):
    if isinstance(x, Y.SymBool):
        return x.real_()
    if isinstance(x, Y.SymInt):
        return x.as_real()
    if isinstance(x, Y.SymComplex):
        raise TypeError("float() argument must be a string or a real number, not 'complex'")
    return x


def _to_int(x):
    if isinstance(x, Y.SymComplex):
        raise TypeError("int() argument must be a string or a real number, not 'complex'")
    return Y.coerce_kind(x, "i")


def _to_cplx(x):
    return Y.to_complex(x)


def _to_bool(x):
    return bool(x)


SHIMS = {
    "float": _shim("float", builtins.float, _to_float, (Y.SymReal,)),
    "int": _shim("int", builtins.int, _to_int, (Y.SymInt,)),
    "complex": _shim("complex", builtins.complex, _to_cplx, (Y.SymComplex,)),
}
REPL_TYPES = {}

# numpy scalar constructors used as casts: np.float64(x) on a symbolic value.  The types
# double as dtypes, so they are only shimmed for calls through a proxy attribute when the
# value is symbolic -- done by subclassing is not possible; harnesses do not need it.


def _math(name, f):
    real = getattr(math, name)

    def g(*a):
        if has_sym(*a):
            return f(*a)
        return real(*[demote(x) if isinstance(x, Y.SymArray) else x for x in a])

    g.__name__ = name
    register(real, g)


for _n, _f in (
    ("sqrt", Y.f_sqrt), ("cos", Y.f_cos), ("sin", Y.f_sin), ("exp", Y.f_exp), ("tan", lambda a: Y.f_sin(a) / Y.f_cos(a)),
    ("floor", lambda a: Y.as_symint(Y.f_floor(a))), ("ceil", lambda a: -Y.as_symint(Y.f_floor(-a))),
    ("fabs", Y.f_abs), ("log", Y.UF["log"]), ("log10", Y.UF["log10"]), ("log2", Y.UF["log2"]),
    ("radians", lambda a: a * (math.pi / 180)), ("degrees", lambda a: a * (180 / math.pi)),
    ("isclose", lambda a, b: np.isclose(a, b)), ("isfinite", lambda a: True), ("isnan", lambda a: False),
    ("trunc", lambda a: a.__trunc__()), ("atan2", Y.f_atan2), ("acos", Y.UF["arccos"]), ("asin", Y.UF["arcsin"]),
    ("pow", Y.f_pow), ("hypot", lambda a, b: Y.f_sqrt(a * a + b * b)),
):
    _math(_n, _f)


# ---------------------------------------------------------------------------- ssht
import pyssht as _ssht  # noqa: E402

_PROBE = {}
_CLEAN = 5e-14


def _clean(m):
    m = np.array(m)
    if np.iscomplexobj(m):
        re, im = m.real.copy(), m.imag.copy()
        re[np.abs(re) < _CLEAN] = 0
        im[np.abs(im) < _CLEAN] = 0
        return re + 1j * im
    m[np.abs(m) < _CLEAN] = 0
    return m


def real_linear(key, fn, shape, kind, complex_linear=False):
    """Matrices (A, B) with fn(x) = A re(x) + B im(x), from the real function."""
    if key in _PROBE:
        return _PROBE[key]
    n = int(np.prod(shape))
    cols_r, cols_i = [], []
    osh = None
    for j in range(n):
        e = np.zeros(n, dtype=complex if kind == "c" else float)
        e[j] = 1
        o = np.asarray(fn(e.reshape(shape)))
        osh, okind = o.shape, o.dtype.kind
        cols_r.append(o.ravel())
        if kind == "c":
            if complex_linear:
                cols_i.append(1j * o.ravel())
            else:
                e = e * 1j
                cols_i.append(np.asarray(fn(e.reshape(shape))).ravel())
    A = _clean(np.array(cols_r).T)
    B = _clean(np.array(cols_i).T) if kind == "c" else None
    # affine part must be zero for the probe to be a model
    z = np.asarray(fn(np.zeros(shape, dtype=complex if kind == "c" else float)))
    if np.any(np.abs(z) > 1e-12):
        raise Y.Unsupported("probed function is not linear")
    # linearity cross check on one generic point
    rng = np.random.Generator(np.random.PCG64(7))
    x = rng.standard_normal(n) + (1j * rng.standard_normal(n) if kind == "c" else 0)
    want = np.asarray(fn(x.reshape(shape))).ravel()
    got = A @ x.real + (B @ x.imag if kind == "c" else 0)
    if not np.allclose(want, got, atol=1e-8):
        raise Y.Unsupported("probed function is not linear")
    _PROBE[key] = (A, B, osh, okind)
    return _PROBE[key]


def apply_linear(key, fn, x, kind, complex_linear=False):
    x = Y.as_sym(x)
    A, B, osh, okind = real_linear(key, fn, x.shape, kind, complex_linear)
    b = Y.base(x).reshape(-1)
    res, ims = [v.real for v in b], [v.imag for v in b]
    n = A.shape[0]
    out = np.empty(n, dtype=object)
    polr = [Y.to_poly(v) for v in res]
    poli = [Y.to_poly(v) for v in ims]

    def lin(rowA, rowB):
        acc = {}
        for c, p in ((rowA, polr), (rowB, poli)):
            if c is None:
                continue
            for cj, pj in zip(c, p):
                if cj == 0 or not pj:
                    continue
                cj = Y.mpq(float(cj))
                for m, v in pj.items():
                    t = acc.get(m)
                    t = v * cj if t is None else t + v * cj
                    if t == 0:
                        acc.pop(m, None)
                    else:
                        acc[m] = t
        return Y.mk(acc)

    for i in range(n):
        if okind == "c":
            out[i] = Y.mkc(
                lin(A[i].real, None if B is None else B[i].real), lin(A[i].imag, None if B is None else B[i].imag)
            )
        else:
            out[i] = lin(A[i].real, None if B is None else B[i].real)
    return Y.wrap(out.reshape(osh), okind)


def _ssht_transform(name):
    real = getattr(_ssht, name)

    def f(x, L, *a, **k):
        L = conc_ints(L)
        a = [conc_ints(i) for i in a]
        k = {n: conc_ints(v) for n, v in k.items()}
        x = demote(x)
        reality = k.get("Reality", a[2] if len(a) > 2 else False)
        if isinstance(reality, Y.SymBool):
            reality = bool(reality)
            k["Reality"] = reality
        if not has_sym(x):
            if isinstance(x, np.ndarray) and x.dtype == object:
                x = x.astype(complex)
            return promote(real(np.ascontiguousarray(x), L, *a, **k))
        kind = Y.kind_of_array(x)
        if reality and name == "forward":
            if kind == "c":
                # the imaginary part is ignored
                x = Y.as_sym(x).real
            kind = "f"
        else:
            if kind != "c":
                x = Y.as_sym(x).astype(complex)
            kind = "c"
        key = (name, L, tuple(a), tuple(sorted(k.items(), key=str)), np.shape(Y.unwrap(x)), kind)
        return apply_linear(key, lambda v: real(np.ascontiguousarray(v), L, *a, **k), x, kind, not reality)

    f.__name__ = name
    register(real, f)


for _n in ("inverse", "forward"):
    _ssht_transform(_n)


def _generic(mod, name, handler=None):
    real = getattr(mod, name)

    def f(*a, **k):
        a = [demote(conc_ints(x)) for x in a]
        k = {n: demote(conc_ints(v)) for n, v in k.items()}
        if has_sym(*a, *k.values()):
            if handler is None:
                raise Y.Unsupported(f"{mod.__name__}.{name} on symbolic arguments")
            return handler(real, *a, **k)
        return promote(real(*a, **k))

    f.__name__ = name
    register(real, f)


def _rotate(real, flms, alpha, beta, gamma, L, *a, **k):
    if has_sym(alpha, beta, gamma):
        return _rotate_symbolic(flms, alpha, beta, gamma, L)
    key = ("rotate", alpha, beta, gamma, L, tuple(sorted((n, str(v)) for n, v in k.items())))
    return apply_linear(key, lambda v: real(v, alpha, beta, gamma, L, *a, **k), Y.as_sym(flms).astype(complex), "c", True)


def _rotate_symbolic(flms, alpha, beta, gamma, L):
    """Wigner D matrices of symbolic angles, from the d matrices at pi/2 (as rotate_flms)."""
    dl = _ssht.generate_dl.__wrapped__(np.pi / 2, L) if hasattr(_ssht.generate_dl, "__wrapped__") else _real_dl(np.pi / 2, L)
    ph = {}

    def phase(name, x, k):
        if (name, k) not in ph:
            ph[name, k] = Y.mkc(*Y.cos_sin(k * x)) if k else 1.0
        return ph[name, k]

    f = Y.base(Y.as_sym(flms)).reshape(-1)
    out = np.empty(L * L, dtype=object)
    for el in range(L):
        for m in range(-el, el + 1):
            acc = 0.0
            for n in range(-el, el + 1):
                d = 0.0
                for k in range(-el, el + 1):
                    c = dl[el, L - 1 + k, L - 1 + m] * dl[el, L - 1 + k, L - 1 + n]
                    if abs(c) > 1e-14:
                        d = d + phase("b", beta, k) * float(c)
                d = d * [1, 1j, -1, -1j][(n - m) % 4]
                acc = acc + d * phase("g", gamma, -n) * f[el * el + el + n]
            out[el * el + el + m] = Y.to_complex(phase("a", alpha, -m) * acc)
    return Y.wrap(out, "c")


def legendre_ylm(theta, phi, L, recursion=None):
    """Spherical harmonics (Condon-Shortley) for symbolic angles, as ssht.create_ylm."""
    theta = Y.as_sym(theta).reshape(-1) if isinstance(theta, np.ndarray) else [theta]
    phi = Y.as_sym(phi).reshape(-1) if isinstance(phi, np.ndarray) else [phi]
    out = np.empty((L * L, len(theta), len(phi)) if len(phi) > 1 or True else None, dtype=object)
    for ti, t in enumerate(theta):
        c, s = Y.cos_sin(t)
        P = assoc_legendre(c, s, L)
        for pi_, ph in enumerate(phi):
            for el in range(L):
                for m in range(el + 1):
                    if m:
                        cc, ss = Y.cos_sin(m * ph)
                    else:
                        cc, ss = 1.0, 0.0
                    v = Y.mkc(cc, ss) * P[el][m]
                    out[el * el + el + m, ti, pi_] = v
                    if m:
                        v = Y.f_conj(v)
                        out[el * el + el - m, ti, pi_] = v if m % 2 == 0 else -v
    return Y.wrap(out, "c")


def assoc_legendre(c, s, L):
    """Normalised P_el^m(cos theta) with Condon-Shortley phase, polynomial in c and s."""
    P = [[None] * (el + 1) for el in range(L)]
    for m in range(L):
        if m == 0:
            pmm = math.sqrt(1 / (4 * math.pi))
        else:
            pmm = P[m - 1][m - 1] * s * (-math.sqrt((2 * m + 1) / (2 * m)))
        P[m][m] = pmm
        if m + 1 < L:
            P[m + 1][m] = c * pmm * math.sqrt(2 * m + 3)
        for el in range(m + 2, L):
            a = math.sqrt((4 * el * el - 1) / (el * el - m * m))
            b = math.sqrt(((el - 1) ** 2 - m * m) / (4 * (el - 1) ** 2 - 1))
            P[el][m] = (c * P[el - 1][m] - P[el - 2][m] * b) * a
    return P


def _create_ylm(real, theta, phi, L, recursion="NumericalRecipes", **k):
    return legendre_ylm(theta, phi, L)


def _smooth(real, flm, L, sigma_in=None, bl_in=None):
    """exp(-l^2 sigma^2) at degree l."""
    if sigma_in is None or bl_in is not None:
        raise Y.Unsupported("gaussian_smoothing without sigma")
    f = Y.base(Y.as_sym(flm)).reshape(-1)
    out = np.empty(len(f), dtype=object)
    for i in range(len(f)):
        l = math.isqrt(i)
        out[i] = f[i] * (Y.f_exp(-(l * l) * sigma_in * sigma_in) if l else 1.0) + 0j
    return Y.wrap(out, "c")


_real_dl = _ssht.generate_dl
_generic(_ssht, "gaussian_smoothing", _smooth)
_generic(_ssht, "rotate_flms", _rotate)
_generic(_ssht, "create_ylm", _create_ylm)
for _n in ("sample_positions", "sample_shape", "s2_to_cart", "spherical_to_cart", "theta_to_index", "phi_to_index",
           "generate_dl", "elm2ind", "ind2elm", "sample_length"):
    if hasattr(_ssht, _n):
        _generic(_ssht, _n)

import pys2let as _s2let  # noqa: E402

for _n in ("pys2let_j_max", "axisym_wav_l"):
    _generic(_s2let, _n)

import scipy.special  # noqa: E402
import scipy.sparse.linalg  # noqa: E402


def _gammaln(x):
    x = demote(x)
    if not has_sym(x):
        return scipy.special.gammaln.__wrapped__(x) if hasattr(scipy.special.gammaln, "__wrapped__") else _real_gammaln(x)
    raise Y.Unsupported("gammaln of a symbolic value")


_real_gammaln = scipy.special.gammaln
register(_real_gammaln, _gammaln)

import igl as _igl  # noqa: E402


def _avg_faces(real, F, S):
    """igl.average_onto_faces: linear in S."""
    S = Y.as_sym(S)
    F = demote(F)
    key = ("avg", F.tobytes(), S.shape)
    return apply_linear(key, lambda v: real(F, v), S, "f")


for _n in ("upsample", "read_triangle_mesh", "per_vertex_normals", "cotmatrix", "average_onto_faces", "doublearea"):
    if hasattr(_igl, _n):
        _generic(_igl, _n, _avg_faces if _n == "average_onto_faces" else None)

# ------------------------------------------------------------- threads, processes
import concurrent.futures  # noqa: E402
import multiprocess.shared_memory  # noqa: E402


class FakeFuture:
    def __init__(self, fn, a, k):
        self.exc = None
        self.val = None
        try:
            self.val = fn(*a, **k)
        except Exception as e:  # noqa: BLE001
            self.exc = e

    def result(self, timeout=None):
        if self.exc is not None:
            raise self.exc
        return self.val

    def exception(self, timeout=None):
        return self.exc

    def done(self):
        return True

    def add_done_callback(self, f):
        f(self)


class FakeExecutor:
    """Runs tasks one after another (a harness may reorder them through `order`)."""

    order = None

    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def shutdown(self, *a, **k):
        pass

    def submit(self, fn, *a, **k):
        return FakeFuture(fn, a, k)

    def map(self, fn, *its, **k):
        args = list(zip(*its))
        idx = list(range(len(args)))
        if FakeExecutor.order is not None:
            idx = FakeExecutor.order(len(args))
        futs = [None] * len(args)
        for i in idx:
            futs[i] = FakeFuture(fn, args[i], {})

        def gen():
            for f in futs:
                yield f.result()

        return gen()


# ------------------------------------------------------------------------ pydantic
def patch_pydantic():
    import typing

    import pydantic
    import pydantic.dataclasses as pd

    real_dc = pd.dataclass
    if getattr(real_dc, "_sym", False):
        return

    def passthrough(v, handler):
        if isinstance(v, (Y.SymBase, Y.SymArray)):
            return v
        return handler(v)

    def wrapper_for(ann):
        def f(v, handler):
            if isinstance(v, Y.SymBase):
                ok = True
                if ann in (int,) and isinstance(v, Y.SymReal):
                    ok = False
                if ann is float and isinstance(v, Y.SymInt):
                    return v.as_real()
                if ok:
                    return v
            if isinstance(v, Y.SymArray):
                return v
            if isinstance(v, (list, tuple)) and any(isinstance(x, Y.SymBase) for x in v):
                return v
            return handler(v)

        return f

    def annotate(cls):
        ann = cls.__dict__.get("__annotations__", {})
        mod = sys.modules[cls.__module__].__dict__
        import dataclasses

        for n, a in list(ann.items()):
            if a is dataclasses.KW_ONLY or (isinstance(a, str) and ("KW_ONLY" in a or "ClassVar" in a or "InitVar" in a)):
                continue
            if typing.get_origin(a) is typing.ClassVar or isinstance(a, dataclasses.InitVar):
                continue
            if isinstance(a, str):
                try:
                    a = eval(a, mod)  # noqa: S307
                except Exception:  # noqa: BLE001
                    continue
            ann[n] = typing.Annotated[a, pydantic.WrapValidator(wrapper_for(a))]
        return cls

    def dataclass(_cls=None, **kw):
        def deco(cls):
            annotate(cls)
            return real_dc(**kw)(cls)

        return deco if _cls is None else deco(_cls)

    dataclass._sym = True
    pd.dataclass = dataclass


# -------------------------------------------------------------------------- install
PROXIES = {}


class SymFraction:
    """fractions.Fraction of a symbolic number.

    HOOKS["denominators"]: the denominators (in ascending order) a real number may have, one path each; any other
    real number stands for itself over one.
    """

    def __init__(self, x):
        self.x = x
        self.nd = None

    def limit_denominator(self, max_denominator=10**6):
        return self

    def _split(self):
        if self.nd is None:
            self.nd = (self.x, 1)
            if not isinstance(self.x, Y.SymInt):
                for d in Y.HOOKS.get("denominators", ()):
                    n = Y.f_floor(self.x * d)
                    if bool(self.x * d == n):
                        self.nd = (Y.as_symint(n), d)
                        break
        return self.nd

    numerator = property(lambda self: self._split()[0])
    denominator = property(lambda self: self._split()[1])

    def __float__(self):
        return self.x

    def __eq__(self, o):
        return self.x == (o.x if isinstance(o, SymFraction) else o)

    __hash__ = None


class FractionShim:
    def __new__(cls, numerator=0, denominator=None):
        if Y.is_sym(numerator):
            if denominator is not None:
                numerator = numerator / denominator
            return SymFraction(numerator)
        return fractions.Fraction(numerator, denominator)

    from_float = staticmethod(lambda x: FractionShim(x))


def proxy(mod):
    if mod.__name__ not in PROXIES:
        PROXIES[mod.__name__] = Proxy(mod)
        register(mod, PROXIES[mod.__name__])
    return PROXIES[mod.__name__]


def _os_shim():
    pass


_installed = False
DATA_DIR = None


def scratch_env():
    """A data folder of our own: nothing of the real one is read or written."""
    global DATA_DIR
    DATA_DIR = tempfile.mkdtemp(prefix="sleplet_verif_")
    for v in ("XDG_DATA_HOME", "XDG_CACHE_HOME", "XDG_CONFIG_HOME"):
        os.environ[v] = os.path.join(DATA_DIR, v.lower())
        os.makedirs(os.environ[v], exist_ok=True)
    for v in list(os.environ):
        if v in ("NCPU", "POLAR_GAP", "THETA_MAX", "THETA_MIN", "PHI_MAX", "PHI_MIN", "SLEPIAN_MASK", "HTTP_PROXY"):
            os.environ.pop(v, None)
    for v in ("http_proxy", "https_proxy", "HTTPS_PROXY"):
        os.environ[v] = "http://127.0.0.1:9"
    return DATA_DIR


_path_dir = None


def fresh_data_dir():
    """An empty data folder for the next path (one at a time in this process)."""
    global _path_dir
    import shutil

    if _path_dir and os.path.basename(_path_dir).startswith("path_"):
        shutil.rmtree(_path_dir, ignore_errors=True)
    VFS.clear()
    _path_dir = tempfile.mkdtemp(prefix="path_", dir=DATA_DIR)
    for v in ("XDG_DATA_HOME", "XDG_CACHE_HOME", "XDG_CONFIG_HOME"):
        os.environ[v] = os.path.join(_path_dir, v.lower())
        os.makedirs(os.environ[v], exist_ok=True)
    os.chdir(_path_dir)


def import_sleplet():
    logging.disable(logging.CRITICAL)
    sys.dont_write_bytecode = True
    if REPO_SRC not in sys.path:
        sys.path.insert(0, REPO_SRC)
    from engine import published

    published.install()
    import sleplet

    mods = []
    for m in pkgutil.walk_packages(sleplet.__path__, "sleplet."):
        try:
            mods.append(importlib.import_module(m.name))
        except ImportError:
            continue
    mods.append(sleplet)
    return mods


def install():
    """Import sleplet and put the proxies in place (symbolic process only)."""
    global _installed
    if _installed:
        return
    _installed = True
    patch_pydantic()
    mods = import_sleplet()
    import cmath

    for m in (fractions, np, np.linalg, np.random, math, _ssht, _s2let, _igl, scipy, scipy.special, scipy.sparse,
              scipy.sparse.linalg, concurrent, concurrent.futures, multiprocess, multiprocess.shared_memory):
        proxy(m)
    register(concurrent.futures.ThreadPoolExecutor, FakeExecutor)
    register(concurrent.futures.ProcessPoolExecutor, FakeExecutor)
    register(multiprocess.shared_memory.SharedMemory, FakeSHM)
    import multiprocessing.shared_memory

    proxy(multiprocessing)
    proxy(multiprocessing.shared_memory)
    register(multiprocessing.shared_memory.SharedMemory, FakeSHM)
    register(fractions.Fraction, FractionShim)
    register(np.ndarray, NdShim)
    for mod in mods:
        d = mod.__dict__
        for n, v in list(d.items()):
            if n.startswith("__"):
                continue
            try:
                r = REPL.get(id(v))
            except Exception:  # noqa: BLE001
                continue
            if r is not None:
                d[n] = r
        for n, s in SHIMS.items():
            if n not in d:
                d[n] = s


# ----------------------------------------------------------------- functions reached
def start_coverage(store):
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, "verif")
    except ValueError:
        return

    def cb(code, off):
        fn = code.co_filename
        if "/sleplet/" in fn and "/verif/" not in fn and not code.co_name.startswith("<"):
            store.add(f"{fn.split('/src/')[-1]}:{code.co_qualname}")
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, cb)
    events = mon.events.PY_START
    lines = os.environ.get("VERIF_LINES")  # development: which lines are executed at all

    if lines:

        def line(code, n):
            fn = code.co_filename
            if "/sleplet/" in fn and "/verif/" not in fn:
                with open(lines, "a") as f:
                    f.write(f"{fn.split('/src/')[-1]}:{n}\t{os.environ.get('VERIF_INST', '')}\n")
            return mon.DISABLE

        mon.register_callback(tool, mon.events.LINE, line)
        events |= mon.events.LINE
    mon.set_events(tool, events)
