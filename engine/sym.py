"""Symbolic scalars and arrays.

Reals are kept as polynomials (monomial -> exact rational) over *atoms*; an atom is
an input variable or an application of an operation that is not polynomial (sqrt,
1/x, exp, pow, cos/sin of an angle, a boolean used as 0/1, an integer used as a
real).  The code under test runs unmodified on these values: Python operators and
numpy's ufunc / array-function protocols are overloaded.
"""
from __future__ import annotations

import builtins
import functools
import math
import operator

import gmpy2
import numpy as np
import z3

mpq = gmpy2.mpq


class Unsupported(Exception):
    """The engine cannot encode an operation."""


class NonFinite(Exception):
    """A division by zero (inf/nan in floating point) on this path."""


class PathAbort(BaseException):
    """Abandon the current path (infeasible or assumption failed)."""


# --------------------------------------------------------------------------- state
class State:
    def __init__(self):
        self.reset()

    def reset(self):
        self.atoms = []  # list of Atom
        self.by_key = {}
        self.brancher = None  # callable z3Bool -> bool
        self.tokens = {}
        self.ncounter = 0
        self.int_enum = None


S = State()


class Atom:
    __slots__ = ("id", "kind", "name", "z3", "lo", "hi", "defs", "data", "deps")

    def __init__(self, kind, name, zexpr, lo=None, hi=None, data=None):
        self.id = len(S.atoms)
        self.kind = kind
        self.name = name
        self.z3 = zexpr
        self.lo = lo
        self.hi = hi
        self.defs = []
        self.data = data
        self.deps = ()
        S.atoms.append(self)


def q(x):
    if isinstance(x, mpq().__class__):
        return x
    if isinstance(x, (bool, np.bool_)):
        return mpq(int(x))
    if isinstance(x, (builtins.int, np.integer)):
        return mpq(builtins.int(x))
    if isinstance(x, (builtins.float, np.floating)):
        f = builtins.float(x)
        if not math.isfinite(f):
            raise NonFinite(f"non finite constant {f}")
        return mpq(f)
    if type(x).__name__ in ("mpfr", "mpz"):
        return mpq(x)
    if type(x).__name__ == "Fraction":
        return mpq(x.numerator, x.denominator)
    raise Unsupported(f"cannot convert {type(x)} to a rational")


def zq(c):
    return z3.RealVal(f"{c.numerator}/{c.denominator}") if c.denominator != 1 else z3.RealVal(str(c.numerator))


ONE = mpq(1)
ZERO = mpq(0)


def is_concrete_num(x):
    return isinstance(x, (builtins.int, builtins.float, builtins.complex, bool, np.number, np.bool_)) or type(
        x
    ).__name__ in ("mpfr", "mpz", "mpq", "Fraction")


# ------------------------------------------------------------------- polynomials
def p_add(a, b, sb=ONE):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        c = c * sb
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v == 0:
                del r[m]
            else:
                r[m] = v
    return r


def p_scale(a, c):
    if c == 0:
        return {}
    return {m: v * c for m, v in a.items()}


def _mono_mul(m1, m2):
    """Multiply two monomials, returns (mono, list of extra polynomials)."""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    extra = None
    out = []
    for a, e in sorted(d.items()):
        if e == 0:
            continue
        at = S.atoms[a]
        k = at.kind
        if k == "bool" and e > 1:
            e = 1
        elif k == "sqrt" and (e >= 2 or e <= -2):
            n = builtins.abs(e) // 2
            rad = at.data
            if e < 0:
                inv = div_poly({(): ONE}, rad)
                fac = inv
                e = e + 2 * n
            else:
                fac = rad
                e = e - 2 * n
            for _ in range(n):
                extra = fac if extra is None else p_mul(extra, fac)
        elif k == "sin" and e >= 2:
            n = e // 2
            c = at.data  # cos atom id
            fac = {(): ONE, ((c, 2),): -ONE}
            e = e - 2 * n
            for _ in range(n):
                extra = fac if extra is None else p_mul(extra, fac)
        if e:
            out.append((a, e))
    return tuple(out), extra


def p_mul(a, b):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    extras = []
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m, ex = _mono_mul(m1, m2)
            c = c1 * c2
            if ex is not None:
                extras.append(p_mul({m: c}, ex))
                continue
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v == 0:
                    del r[m]
                else:
                    r[m] = v
    for e in extras:
        r = p_add(r, e)
    if len(r) > 400000:
        raise Unsupported("polynomial too large")
    return r


def p_key(a):
    return tuple(sorted(a.items()))


def p_const(a):
    """Constant value or None."""
    if not a:
        return ZERO
    if len(a) == 1 and () in a:
        return a[()]
    return None


def p_proportional(a, b):
    if len(a) != len(b) or not a:
        return None
    m = next(iter(a))
    if m not in b:
        return None
    k = a[m] / b[m]
    for mm, c in a.items():
        d = b.get(mm)
        if d is None or d * k != c:
            return None
    return k


def mono_z3(m):
    fs = []
    for a, e in m:
        z = S.atoms[a].z3
        if e > 0:
            fs.extend([z] * e)
        else:
            inv = _inv_atom_of_single(a)
            fs.extend([inv.z3] * (-e))
    if not fs:
        return None
    r = fs[0]
    for f in fs[1:]:
        r = r * f
    return r


def p_z3(a):
    ts = []
    for m, c in a.items():
        z = mono_z3(m)
        if z is None:
            ts.append(zq(c))
        else:
            ts.append(z if c == 1 else zq(c) * z)
    if not ts:
        return z3.RealVal(0)
    return ts[0] if len(ts) == 1 else z3.Sum(ts)


def p_atoms(a, acc=None):
    acc = set() if acc is None else acc
    for m in a:
        for t, _ in m:
            acc.add(t)
    return acc


def close_atoms(ids):
    """All atoms whose definitions are needed for the given ones."""
    out = set()
    todo = list(ids)
    while todo:
        i = todo.pop()
        if i in out:
            continue
        out.add(i)
        todo.extend(S.atoms[i].deps)
    return out


def fresh(kind, name, lo=None, hi=None, data=None, key=None, deps=()):
    if key is not None and key in S.by_key:
        return S.by_key[key]
    S.ncounter += 1
    z = z3.Real(f"{name}!{S.ncounter}" if key is not None or kind != "var" else name)
    at = Atom(kind, name, z, lo, hi, data)
    at.deps = tuple(deps)
    if lo is not None:
        at.defs.append(z >= zq(q(lo)))
    if hi is not None:
        at.defs.append(z <= zq(q(hi)))
    if key is not None:
        S.by_key[key] = at
    return at


def _inv_atom_of_single(aid):
    key = ("inv1", aid)
    if key in S.by_key:
        return S.by_key[key]
    at = S.atoms[aid]
    r = fresh("inv", f"inv_{at.name}", key=key, deps=(aid,), data={((aid, 1),): ONE})
    r.defs.append(r.z3 * at.z3 == 1)
    return r


def div_poly(num, den):
    """num/den as polynomial; den assumed non-zero on the path."""
    c = p_const(den)
    if c is not None:
        if c == 0:
            raise NonFinite("division by zero")
        return p_scale(num, 1 / c)
    k = p_proportional(num, den)
    if k is not None:
        return {(): k}
    if len(den) == 1:
        (m, c), = den.items()
        inv = {tuple((a, -e) for a, e in m if S.atoms[a].kind != "bool"): 1 / c}
        if all(S.atoms[a].kind != "bool" for a, _ in m):
            # register inverse atoms so that z3 knows them
            for a, _ in m:
                _inv_atom_of_single(a)
            return p_mul(num, inv)
    # general denominator: normalise by the leading coefficient
    lead = builtins.min(den.items())[1]
    nden = p_scale(den, 1 / lead)
    key = ("inv", p_key(nden))
    if key in S.by_key:
        at = S.by_key[key]
    else:
        at = fresh("inv", "inv", key=key, deps=tuple(p_atoms(nden)), data=nden)
        at.defs.append(at.z3 * p_z3(nden) == 1)
    return p_mul(num, {((at.id, 1),): 1 / lead})


# ------------------------------------------------------------------------ scalars
def mk(p):
    """SymReal from polynomial, python float if constant."""
    c = p_const(p)
    if c is not None:
        return float(c)
    return SymReal(p)


def to_poly(x):
    if isinstance(x, SymReal):
        return x.p
    if isinstance(x, SymBool):
        return x.poly()
    if isinstance(x, SymInt):
        return x.poly()
    c = q(x)
    return {(): c} if c != 0 else {}


def branch(zcond):
    if z3.is_true(zcond):
        return True
    if z3.is_false(zcond):
        return False
    if S.brancher is None:
        raise Unsupported("branch on a symbolic condition outside exploration")
    return S.brancher(zcond)


class SymBase:
    __array_priority__ = 1000

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return array_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, args, kwargs)

    def token(self, spec=""):
        k = (self.tkey(), spec)
        t = S.tokens.get(k)
        if t is None:
            t = f"\ue000{len(S.tokens)}\ue001"
            S.tokens[k] = t
            S.tokens[t] = (self, spec)
        return t

    def __format__(self, spec):
        return self.token(spec)

    def __str__(self):
        return self.token("")

    # numpy scalar look-alike API
    shape = ()
    ndim = 0
    size = 1

    def item(self):
        return self

    def copy(self):
        return self

    def sum(self, *a, **k):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymBool(SymBase):
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __repr__(self):
        return f"SymBool({self.z})"

    def tkey(self):
        return ("b", self.z.get_id())

    def __bool__(self):
        return branch(self.z)

    def __hash__(self):
        return hash(self.z)

    def poly(self):
        z = z3.simplify(self.z)
        if z3.is_true(z):
            return {(): ONE}
        if z3.is_false(z):
            return {}
        if z3.is_not(z):
            return p_add({(): ONE}, SymBool(z.arg(0)).poly(), -ONE)
        key = ("bool", z.get_id())
        if key in S.by_key:
            at = S.by_key[key]
        else:
            at = fresh("bool", "b", lo=0, hi=1, key=key, data=z, deps=tuple(atoms_of_z3(z)))
            at.defs = [at.z3 == z3.If(z, z3.RealVal(1), z3.RealVal(0))]
        return {((at.id, 1),): ONE}

    def real_(self):
        return mk(self.poly())

    def __and__(self, o):
        return mkbool(z3.And(self.z, zbool(o)))

    def __or__(self, o):
        return mkbool(z3.Or(self.z, zbool(o)))

    def __xor__(self, o):
        return mkbool(z3.Xor(self.z, zbool(o)))

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.z))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return mkbool(self.z == zbool(o))
        return self.real_() == o

    def __ne__(self, o):
        return f_not(self == o)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def astype(self, dt):
        return self.real_()

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self


def _barith(name):
    def f(self, o):
        return getattr(operator, name)(self.real_(), o)

    def r(self, o):
        return getattr(operator, name)(o, self.real_())

    return f, r


for _n in ("add", "sub", "mul", "truediv"):
    _f, _r = _barith(_n)
    setattr(SymBool, f"__{_n}__", _f)
    setattr(SymBool, f"__r{_n}__", _r)
for _n in ("lt", "le", "gt", "ge"):
    setattr(SymBool, f"__{_n}__", _barith(_n)[0])
SymBool.__neg__ = lambda self: -self.real_()
SymBool.__abs__ = lambda self: self


def mkbool(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


def zbool(o):
    if isinstance(o, SymBool):
        return o.z
    if isinstance(o, (bool, np.bool_)):
        return z3.BoolVal(bool(o))
    if isinstance(o, (SymReal, SymComplex, SymInt)):
        return zbool(o != 0)
    if is_concrete_num(o):
        return z3.BoolVal(bool(o))
    if isinstance(o, z3.BoolRef):
        return o
    if o is None or isinstance(o, (list, tuple, dict, set, str)):
        return z3.BoolVal(bool(o))
    raise Unsupported(f"not a boolean: {type(o)}")


def f_not(x):
    if isinstance(x, SymBool):
        return mkbool(z3.Not(x.z))
    if isinstance(x, SymBase):
        return mkbool(z3.Not(zbool(x)))
    return not x


_zatom_cache = {}


def atoms_of_z3(e):
    """Ids of the atoms whose z3 constant occurs in e."""
    seen = set()
    out = set()
    names = S.by_key.setdefault("__names__", {})
    if len(names) != len(S.atoms):
        for a in S.atoms[len(names):]:
            names[a.z3.decl().name()] = a.id
    todo = [e]
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if t.num_args() == 0:
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                a = names.get(t.decl().name())
                if a is not None:
                    out.add(a)
        else:
            todo.extend(t.children())
    return out


def defs_for(ids):
    out = []
    for i in close_atoms(ids):
        out.extend(S.atoms[i].defs)
    return out


def cmp_real(a, b, op):
    p = p_add(to_poly(a), to_poly(b), -ONE)
    c = p_const(p)
    if c is not None:
        return bool(op(c, 0))
    z = p_z3(p)
    return mkbool(op(z, z3.RealVal(0)))


def _is_scalar_operand(o):
    return isinstance(o, SymBase) or is_concrete_num(o)


class SymReal(SymBase):
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return "SymReal(" + " + ".join(
            f"{float(c):g}*" + ".".join(f"{S.atoms[a].name}^{e}" for a, e in m) for m, c in list(self.p.items())[:8]
        ) + ("..." if len(self.p) > 8 else "") + ")"

    def tkey(self):
        return ("r", p_key(self.p))

    def __hash__(self):
        return hash(p_key(self.p))

    def z(self):
        return p_z3(self.p)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def conjugate(self):
        return self

    conj = conjugate

    def astype(self, dt, *a, **k):
        return coerce_kind(self, kind_of_dtype(dt))

    def __add__(self, o):
        if not _is_scalar_operand(o):
            return NotImplemented
        if is_cplx(o):
            return to_complex(self) + o
        return mk(p_add(self.p, to_poly(o)))

    __radd__ = __add__

    def __sub__(self, o):
        if not _is_scalar_operand(o):
            return NotImplemented
        if is_cplx(o):
            return to_complex(self) - o
        return mk(p_add(self.p, to_poly(o), -ONE))

    def __rsub__(self, o):
        if not _is_scalar_operand(o):
            return NotImplemented
        return -(self - o)

    def __mul__(self, o):
        if not _is_scalar_operand(o):
            return NotImplemented
        if is_cplx(o):
            return to_complex(self) * o
        return mk(p_mul(self.p, to_poly(o)))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not _is_scalar_operand(o):
            return NotImplemented
        if is_cplx(o):
            return to_complex(self) / o
        return f_div(self, o)

    def __rtruediv__(self, o):
        if not _is_scalar_operand(o):
            return NotImplemented
        if is_cplx(o):
            return to_complex(o) / self
        return f_div(o, self)

    def __floordiv__(self, o):
        return f_floor(self / o)

    def __rfloordiv__(self, o):
        return f_floor(o / self)

    def __mod__(self, o):
        return self - o * f_floor(self / o)

    def __rmod__(self, o):
        return o - self * f_floor(o / self)

    def __neg__(self):
        return SymReal(p_scale(self.p, -ONE))

    def __pos__(self):
        return self

    def __abs__(self):
        return f_abs(self)

    def __pow__(self, o, mod=None):
        return f_pow(self, o)

    def __rpow__(self, o):
        return f_pow(o, self)

    def __lt__(self, o):
        return cmp_real(self, o, operator.lt) if _is_scalar_operand(o) else NotImplemented

    def __le__(self, o):
        return cmp_real(self, o, operator.le) if _is_scalar_operand(o) else NotImplemented

    def __gt__(self, o):
        return cmp_real(self, o, operator.gt) if _is_scalar_operand(o) else NotImplemented

    def __ge__(self, o):
        return cmp_real(self, o, operator.ge) if _is_scalar_operand(o) else NotImplemented

    def __eq__(self, o):
        if not _is_scalar_operand(o):
            return False if o is None or isinstance(o, str) else NotImplemented
        if is_cplx(o):
            return to_complex(self) == o
        return cmp_real(self, o, operator.eq)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else f_not(r)

    def __bool__(self):
        return branch(zbool(self != 0))

    def __float__(self):
        raise Unsupported("float() of a symbolic real")

    def __round__(self, nd=None):
        if nd not in (None, 0):
            raise Unsupported("round with digits")
        return f_round_int(self)

    def __floor__(self):
        return f_floor(self)

    def __ceil__(self):
        return -f_floor(-self)

    def __trunc__(self):
        if self >= 0:
            return as_symint(f_floor(self))
        return -as_symint(f_floor(-self))

    def is_integer(self):
        return self == f_floor(self)

    def any(self, *a, **k):
        return self != 0

    def all(self, *a, **k):
        return self != 0

    def max(self, *a, **k):
        return self

    min = mean = max


class SymInt(SymBase):
    """Integer: z3 Int expression."""

    __slots__ = ("e", "lo", "hi")

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"SymInt({self.e})"

    def tkey(self):
        return ("i", self.e.get_id())

    def __hash__(self):
        return hash(self.e)

    real = property(lambda self: self)
    imag = property(lambda self: 0)

    def conjugate(self):
        return self

    def poly(self):
        e = z3.simplify(self.e)
        if z3.is_int_value(e):
            c = mpq(e.as_long())
            return {(): c} if c else {}
        key = ("int", e.get_id())
        if key in S.by_key:
            at = S.by_key[key]
        else:
            at = fresh("int", "i", key=key, data=e, deps=tuple(int_deps(e)))
            at.defs = [at.z3 == z3.ToReal(e)] + [c for n, c in INT_DEFS() if n in int_names(e)]
        return {((at.id, 1),): ONE}

    def as_real(self):
        return mk(self.poly())

    def _c(self, o):
        if isinstance(o, SymInt):
            return o.e
        if isinstance(o, (bool, np.bool_, builtins.int, np.integer)):
            return z3.IntVal(builtins.int(o))
        if isinstance(o, SymBool):
            return z3.If(o.z, z3.IntVal(1), z3.IntVal(0))
        return None

    def _bin(self, o, fi, fr):
        c = self._c(o)
        if c is not None:
            return mkint(fi(self.e, c))
        if not _is_scalar_operand(o):
            return NotImplemented
        return fr(self.as_real(), o)

    def _rbin(self, o, fi, fr):
        c = self._c(o)
        if c is not None:
            return mkint(fi(c, self.e))
        if not _is_scalar_operand(o):
            return NotImplemented
        return fr(o, self.as_real())

    def __add__(self, o):
        return self._bin(o, operator.add, operator.add)

    def __radd__(self, o):
        return self._rbin(o, operator.add, operator.add)

    def __sub__(self, o):
        return self._bin(o, operator.sub, operator.sub)

    def __rsub__(self, o):
        return self._rbin(o, operator.sub, operator.sub)

    def __mul__(self, o):
        return self._bin(o, operator.mul, operator.mul)

    def __rmul__(self, o):
        return self._rbin(o, operator.mul, operator.mul)

    def __truediv__(self, o):
        if not _is_scalar_operand(o):
            return NotImplemented
        return self.as_real() / (o.as_real() if isinstance(o, SymInt) else o)

    def __rtruediv__(self, o):
        if not _is_scalar_operand(o):
            return NotImplemented
        return o / self.as_real()

    @staticmethod
    def _fd(a, b):
        # python floor division; z3 div rounds so that 0 <= mod < |b|
        return z3.If(b > 0, a / b, -((a) / (-b)) + z3.If(a % b == 0, 0, -1)) if not z3.is_int_value(b) else (
            a / b if b.as_long() > 0 else z3.If(a % b == 0, a / b, a / b - 1)
        )

    def __floordiv__(self, o):
        c = self._c(o)
        if c is None:
            return f_floor(self.as_real() / o)
        if bool(mkbool(c == 0)):
            raise ZeroDivisionError("integer division by zero")
        return mkint(self._fd(self.e, c))

    def __rfloordiv__(self, o):
        c = self._c(o)
        if bool(mkbool(self.e == 0)):
            raise ZeroDivisionError("integer division by zero")
        return mkint(self._fd(c, self.e))

    def __mod__(self, o):
        return self - o * (self // o)

    def __rmod__(self, o):
        return o - self * (o // self)

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, o, mod=None):
        if isinstance(o, builtins.int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        if isinstance(o, SymInt):
            o = o.__index__()
            return self**o
        return f_pow(self.as_real(), o)

    def __rpow__(self, o):
        if isinstance(o, builtins.int) and o == -1:
            return mkint(z3.If(self.e % 2 == 0, z3.IntVal(1), z3.IntVal(-1)))
        return o ** self.__index__()

    def _cmp(self, o, op):
        c = self._c(o)
        if c is not None:
            return mkbool(op(self.e, c))
        if o is None or isinstance(o, str):
            return op is operator.ne
        if not _is_scalar_operand(o):
            return NotImplemented
        return op(self.as_real(), o)

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)

    def __eq__(self, o):
        return self._cmp(o, operator.eq)

    def __ne__(self, o):
        return self._cmp(o, operator.ne)

    def __bool__(self):
        return branch(z3.simplify(self.e != 0))

    def __round__(self, nd=None):
        return self

    def __trunc__(self):
        return self

    def __index__(self):
        e = z3.simplify(self.e)
        if z3.is_int_value(e):
            return e.as_long()
        if S.int_enum is None:
            raise Unsupported("concretising a symbolic integer outside exploration")
        return S.int_enum(e)

    __int__ = __index__

    def bit_length(self):
        return self.__index__().bit_length()

    def __and__(self, o):
        return self.__index__() & o

    def __lshift__(self, o):
        return self.__index__() << o

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        return self // (2 ** (o if isinstance(o, builtins.int) else o.__index__()))

    def any(self, *a, **k):
        return self != 0

    all = any


def INT_DEFS():
    return S.by_key.setdefault("__intdefs__", [])


def int_names(e):
    out = set()
    todo = [e]
    while todo:
        t = todo.pop()
        if t.num_args() == 0:
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
        else:
            todo.extend(t.children())
    return out


def int_deps(e):
    names = {a.z3.decl().name(): a.id for a in S.atoms}
    return [names[n] for n in int_names(e) if n in names]


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def as_symint(x):
    """Real known to be integral -> SymInt (or python int)."""
    if isinstance(x, (builtins.int, SymInt)):
        return x
    if isinstance(x, builtins.float):
        return builtins.int(x)
    p = x.p
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and S.atoms[m[0][0]].kind == "int":
            return SymInt(S.atoms[m[0][0]].data)
    S.ncounter += 1
    n = z3.Int(f"n!{S.ncounter}")
    # register as an int atom tied to the real
    at = fresh("int", "n", key=("intof", p_key(p)), deps=tuple(p_atoms(p)), data=n)
    if at.data is n:
        at.defs = [at.z3 == z3.ToReal(n), at.z3 == p_z3(p)]
        S.by_key[("int", n.get_id())] = at
        INT_DEFS().append((n.decl().name(), at.z3 == z3.ToReal(n)))
        link_int(n, at)
    return SymInt(at.data)


def link_int(n, at):
    """Make the definition of at follow the int constant n wherever it occurs."""
    names = S.by_key.setdefault("__intlinks__", {})
    names[n.decl().name()] = at.id


def is_cplx(o):
    return isinstance(o, (SymComplex, builtins.complex, np.complexfloating))


def to_complex(o):
    if isinstance(o, SymComplex):
        return o
    if isinstance(o, (builtins.complex, np.complexfloating)):
        return SymComplex(builtins.float(o.real), builtins.float(o.imag))
    return SymComplex(o, 0.0)


def mkc(re, im):
    if is_concrete_num(re) and is_concrete_num(im):
        return builtins.complex(builtins.float(re), builtins.float(im))
    return SymComplex(re, im)


def r_add(a, b):
    return mk(p_add(to_poly(a), to_poly(b)))


def r_sub(a, b):
    return mk(p_add(to_poly(a), to_poly(b), -ONE))


def r_mul(a, b):
    if not isinstance(a, SymBase) and a == 0:
        return 0.0
    if not isinstance(b, SymBase) and b == 0:
        return 0.0
    return mk(p_mul(to_poly(a), to_poly(b)))


class SymComplex(SymBase):
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re = re
        self.im = im

    def __repr__(self):
        return f"SymComplex({self.re!r}, {self.im!r})"

    def tkey(self):
        return ("c", p_key(to_poly(self.re)), p_key(to_poly(self.im)))

    def __hash__(self):
        return hash(self.tkey())

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return mkc(self.re, r_sub(0, self.im))

    conj = conjugate

    def astype(self, dt, *a, **k):
        return coerce_kind(self, kind_of_dtype(dt))

    def __add__(self, o):
        if not _is_scalar_operand(o):
            return NotImplemented
        o = to_complex(o)
        return mkc(r_add(self.re, o.re), r_add(self.im, o.im))

    __radd__ = __add__

    def __sub__(self, o):
        if not _is_scalar_operand(o):
            return NotImplemented
        o = to_complex(o)
        return mkc(r_sub(self.re, o.re), r_sub(self.im, o.im))

    def __rsub__(self, o):
        if not _is_scalar_operand(o):
            return NotImplemented
        return -(self - o)

    def __mul__(self, o):
        if not _is_scalar_operand(o):
            return NotImplemented
        o = to_complex(o)
        return mkc(
            r_sub(r_mul(self.re, o.re), r_mul(self.im, o.im)),
            r_add(r_mul(self.re, o.im), r_mul(self.im, o.re)),
        )

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not _is_scalar_operand(o):
            return NotImplemented
        if not is_cplx(o):
            return mkc(f_div(self.re, o), f_div(self.im, o))
        o = to_complex(o)
        d = r_add(r_mul(o.re, o.re), r_mul(o.im, o.im))
        n = self * o.conjugate()
        n = to_complex(n)
        return mkc(f_div(n.re, d), f_div(n.im, d))

    def __rtruediv__(self, o):
        if not _is_scalar_operand(o):
            return NotImplemented
        return to_complex(o) / self

    def __neg__(self):
        return mkc(r_sub(0, self.re), r_sub(0, self.im))

    def __pos__(self):
        return self

    def __abs__(self):
        return f_abs(self)

    def __pow__(self, o, mod=None):
        return f_pow(self, o)

    def __rpow__(self, o):
        return f_pow(o, self)

    def __eq__(self, o):
        if not _is_scalar_operand(o):
            return False if o is None or isinstance(o, str) else NotImplemented
        o = to_complex(o)
        return f_and(cmp_real(self.re, o.re, operator.eq), cmp_real(self.im, o.im, operator.eq))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else f_not(r)

    # numpy orders complex numbers lexicographically
    def _lex(self, o, strict):
        o = to_complex(o)
        lt = cmp_real(self.re, o.re, operator.lt)
        eq = cmp_real(self.re, o.re, operator.eq)
        im = cmp_real(self.im, o.im, operator.lt if strict else operator.le)
        return f_or(lt, f_and(eq, im))

    def __lt__(self, o):
        return self._lex(o, True)

    def __le__(self, o):
        return self._lex(o, False)

    def __gt__(self, o):
        return to_complex(o)._lex(self, True)

    def __ge__(self, o):
        return to_complex(o)._lex(self, False)

    def __bool__(self):
        return branch(zbool(self != 0))

    def __complex__(self):
        raise Unsupported("complex() of a symbolic value")

    def any(self, *a, **k):
        return self != 0

    all = any


def f_and(a, b):
    if isinstance(a, SymBase) or isinstance(b, SymBase):
        return mkbool(z3.And(zbool(a), zbool(b)))
    return bool(a) and bool(b)


def f_or(a, b):
    if isinstance(a, SymBase) or isinstance(b, SymBase):
        return mkbool(z3.Or(zbool(a), zbool(b)))
    return bool(a) or bool(b)


def f_xor(a, b):
    if isinstance(a, SymBase) or isinstance(b, SymBase):
        return mkbool(z3.Xor(zbool(a), zbool(b)))
    return bool(a) != bool(b)


def is_sym(x):
    return isinstance(x, SymBase)


def f_div(a, b):
    if not is_sym(a) and not is_sym(b):
        return a / b
    if is_cplx(a) or is_cplx(b):
        return to_complex(a) / b
    pb = to_poly(b)
    c = p_const(pb)
    if c is None:
        if branch(z3.simplify(p_z3(pb) == 0)):
            raise NonFinite("division by zero")
    return mk(div_poly(to_poly(a), pb))


def sqrt_atom(p):
    """sqrt of a polynomial (assumed >= 0 on the path)."""
    # pull a perfect square single monomial of known sign out
    key = ("sqrt", p_key(p))
    at = S.by_key.get(key)
    if at is None:
        at = fresh("sqrt", "sqrt", lo=0, key=key, data=dict(p), deps=tuple(p_atoms(p)))
        at.defs.append(at.z3 * at.z3 == p_z3(p))
    return at


def isqrt_exact(c):
    if c < 0:
        return None
    n, d = c.numerator, c.denominator
    if gmpy2.is_square(n) and gmpy2.is_square(d):
        return mpq(gmpy2.isqrt(n), gmpy2.isqrt(d))
    return None


def f_sqrt(x):
    if not is_sym(x):
        return np.sqrt(x)
    if isinstance(x, SymComplex):
        raise Unsupported("sqrt of complex")
    p = to_poly(x)
    # common positive constant factor: sqrt(c*y) = sqrt(c)*sqrt(y) with monic y
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0 and all(e % 2 == 0 for _, e in m):
            half = SymReal({tuple((a, e // 2) for a, e in m): ONE})
            r = f_abs(half)
            s = isqrt_exact(c)
            return r * (float(s) if s is None else s) if s is not None else r * math.sqrt(c)
    pull = None
    for m in p:
        d = {a: e for a, e in m if S.atoms[a].kind == "exp"}
        pull = d if pull is None else {a: builtins.min(e, d[a]) for a, e in pull.items() if a in d}
    pull = {a: 2 * (e // 2) for a, e in (pull or {}).items() if e // 2}
    if pull:
        rest = {}
        for m, c in p.items():
            d = dict(m)
            for a, e in pull.items():
                d[a] -= e
            rest[tuple((a, e) for a, e in sorted(d.items()) if e)] = c
        return f_sqrt(mk(rest)) * mk({tuple((a, e // 2) for a, e in sorted(pull.items())): ONE})
    if branch(z3.simplify(p_z3(p) < 0)):
        raise NonFinite("sqrt of a negative number")
    lead = builtins.min(p.items())[1]
    if lead > 0 and lead != 1:
        s = isqrt_exact(lead)
        at = sqrt_atom(p_scale(p, 1 / lead))
        return mk({((at.id, 1),): s if s is not None else mpq(math.sqrt(lead))})
    at = sqrt_atom(p)
    return SymReal({((at.id, 1),): ONE})


def nonneg_syntactic(p):
    for m, c in p.items():
        if c < 0:
            return False
        for a, e in m:
            at = S.atoms[a]
            if e % 2 and not (at.kind in ("sqrt", "bool", "exp") or (at.lo is not None and at.lo >= 0)):
                return False
    return True


def f_abs(x):
    if not is_sym(x):
        return builtins.abs(x)
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return x.__abs__()
    if isinstance(x, SymComplex):
        if not is_sym(x.im) and x.im == 0:
            return f_abs(x.re)
        if not is_sym(x.re) and x.re == 0:
            return f_abs(x.im)
        p = p_add(p_mul(to_poly(x.re), to_poly(x.re)), p_mul(to_poly(x.im), to_poly(x.im)))
        c = p_const(p)
        if c is not None:
            return math.sqrt(c)
        lead = builtins.min(p.items())[1]
        if lead > 0 and lead != 1:
            s = isqrt_exact(lead)
            at = sqrt_atom(p_scale(p, 1 / lead))
            return mk({((at.id, 1),): s if s is not None else mpq(math.sqrt(lead))})
        return SymReal({((sqrt_atom(p).id, 1),): ONE})
    if nonneg_syntactic(x.p):
        return x
    if nonneg_syntactic(p_scale(x.p, -ONE)):
        return -x
    # |x| = sqrt(x^2): keeps |x|^2 = x^2 automatic; x and -x share the atom
    at = sqrt_atom(p_mul(x.p, x.p))
    if len(at.defs) == 2:
        # the same without squares
        z = p_z3(x.p)
        at.defs[:] = [at.z3 >= 0, at.z3 >= z, at.z3 >= -z, z3.Or(at.z3 == z, at.z3 == -z)]
    return SymReal({((at.id, 1),): ONE})


def f_floor(x):
    if not is_sym(x):
        return np.floor(x)
    if isinstance(x, SymInt):
        return x
    p = to_poly(x)
    key = ("floor", p_key(p))
    at = S.by_key.get(key)
    if at is None:
        S.ncounter += 1
        n = z3.Int(f"fl!{S.ncounter}")
        at = fresh("int", "floor", key=key, data=n, deps=tuple(p_atoms(p)))
        zx = p_z3(p)
        at.defs = [at.z3 == z3.ToReal(n), at.z3 <= zx, zx < at.z3 + 1]
        S.by_key[("int", n.get_id())] = at
        link_int(n, at)
    return SymReal({((at.id, 1),): ONE})


def f_round_int(x):
    """Round half to even -> SymInt."""
    if not is_sym(x):
        return round(x)
    if isinstance(x, SymInt):
        return x
    p = to_poly(x)
    key = ("round", p_key(p))
    at = S.by_key.get(key)
    if at is None:
        S.ncounter += 1
        n = z3.Int(f"rd!{S.ncounter}")
        at = fresh("int", "round", key=key, data=n, deps=tuple(p_atoms(p)))
        zx = p_z3(p)
        d = zx - at.z3
        half = z3.RealVal("1/2")
        at.defs = [
            at.z3 == z3.ToReal(n),
            d <= half,
            d >= -half,
            z3.Implies(z3.Or(d == half, d == -half), n % 2 == 0),
        ]
        S.by_key[("int", n.get_id())] = at
        link_int(n, at)
    return SymInt(at.data)


def f_pow(a, b):
    if not is_sym(a) and not is_sym(b):
        return a**b
    if isinstance(b, SymInt):
        if not is_sym(a) and a in (-1, -1.0):
            return b.__rpow__(-1)
        b = b.__index__()
    if not is_sym(b) and not is_cplx(b):
        fb = builtins.float(b)
        if fb == builtins.int(fb):
            n = builtins.int(fb)
            r = 1
            base = a
            for _ in range(builtins.abs(n)):
                r = base * r
            return r if n >= 0 else 1 / r
        if fb * 2 == builtins.int(fb * 2):
            r = f_sqrt(a)
            return f_pow(r, builtins.int(fb * 2))
        return uf("pow", a, b, lo=0)
    if not is_sym(a) and not is_cplx(a):
        if not is_cplx(b) and a > 0:
            return exp_poly(to_poly(b * builtins.float(np.log(a))))
    raise Unsupported(f"power {type(a)} ** {type(b)}")


def uf(name, *args, lo=None, hi=None, concrete=None):
    """Uninterpreted real function of real arguments (congruent on normal forms and in z3)."""
    polys = [to_poly(a) for a in args]
    key = ("uf", name, tuple(p_key(p) for p in polys))
    at = S.by_key.get(key)
    if at is None:
        deps = set()
        for p in polys:
            p_atoms(p, deps)
        kind = "exp" if lo == 0 else "uf"
        at = fresh(kind, name, lo=lo, hi=hi, key=key, deps=tuple(deps), data=(name, polys))
        f = z3.Function("uf_" + name, *([z3.RealSort()] * len(polys)), z3.RealSort())
        at.defs.append(at.z3 == f(*[p_z3(p) for p in polys]))
        if lo == 0:
            at.defs.append(at.z3 > 0)
        for extra in S.by_key.get("__ufaxioms__", {}).get(name, ()):  # optional axioms
            at.defs.extend(extra(at, polys))
    return SymReal({((at.id, 1),): ONE})


def angle_atoms(aid):
    """cos/sin atoms of an angle (keyed by atom id)."""
    key = ("cos", aid)
    if key in S.by_key:
        return S.by_key[key], S.by_key[("sin", aid)]
    base = S.atoms[aid] if isinstance(aid, builtins.int) else None
    nm = base.name if base else "arg"
    deps = (aid,) if base else aid[1]
    c = fresh("cos", f"cos({nm})", lo=-1, hi=1, key=key, deps=deps, data=aid)
    s = fresh("sin", f"sin({nm})", lo=-1, hi=1, key=("sin", aid), data=c.id, deps=(c.id,))
    s.defs.append(s.z3 * s.z3 + c.z3 * c.z3 == 1)
    c.deps = deps
    if base is not None and base.lo is not None and base.lo >= 0 and base.hi is not None and base.hi <= math.pi:
        s.defs.append(s.z3 >= 0)
        s.lo = mpq(0)
        c.lo = q(math.cos(base.hi)) - mpq(1, 10**15)
        c.hi = q(math.cos(base.lo)) + mpq(1, 10**15)
        c.defs += [c.z3 >= zq(c.lo), c.z3 <= zq(c.hi)]
    return c, s


def cos_sin(x):
    """(cos x, sin x) for a symbolic real."""
    if not is_sym(x):
        return math.cos(x), math.sin(x)
    p = to_poly(x)
    off = p.get((), ZERO)
    rest = {m: c for m, c in p.items() if m != ()}
    re, im = 1.0, 0.0
    if off != 0:
        re, im = math.cos(off), math.sin(off)
    simple = all(
        len(m) == 1 and m[0][1] == 1 and S.atoms[m[0][0]].kind == "var" and c.denominator == 1 and builtins.abs(c) <= 64
        for m, c in rest.items()
    )
    if simple:
        z = mkc(re, im)
        for m, c in sorted(rest.items()):
            ca, sa = angle_atoms(m[0][0])
            n = builtins.int(c)
            u = SymComplex(
                SymReal({((ca.id, 1),): ONE}),
                SymReal({((sa.id, 1),): ONE if n > 0 else -ONE}),
            )
            for _ in range(builtins.abs(n)):
                z = u * z
        z = to_complex(z)
        return z.re, z.im
    # general argument: canonical sign, shared atoms
    lead = builtins.min(rest.items())[1]
    sgn = 1 if lead > 0 else -1
    np_ = p_scale(rest, mpq(sgn))
    c, s = angle_atoms((p_key(np_), tuple(p_atoms(np_))))
    z = SymComplex(SymReal({((c.id, 1),): ONE}), SymReal({((s.id, 1),): mpq(sgn)}))
    z = to_complex(z * mkc(re, im))
    return z.re, z.im


def f_exp(x):
    if not is_sym(x):
        return np.exp(x)
    if isinstance(x, SymComplex):
        c, s = cos_sin(x.im)
        if not is_sym(x.re) and x.re == 0:
            return mkc(c, s)
        return mkc(c, s) * f_exp(x.re)
    return exp_poly(to_poly(x))


def exp_poly(p):
    """exp of a polynomial: a product of powers of exp(m |c|/4) over its monomials m."""
    r = builtins.float(np.exp(builtins.float(p.get((), ZERO))))
    for m, c in p.items():
        if m == ():
            continue
        key = ("expbase", m)
        c0 = S.by_key.setdefault(key, c / 4)
        k = c / c0
        n = builtins.round(builtins.float(k))
        if n == 0 or builtins.abs(n) > 400 or builtins.abs(builtins.float(k) - n) > 1e-9 * builtins.abs(n):
            c0, n = c, 1
        a = uf("exp", mk({m: c0}), lo=0)
        (mono, _), = a.p.items()
        at = S.atoms[mono[0][0]]
        if len(at.defs) == 2:
            x = p_z3({m: c0})
            at.defs += [z3.Implies(x >= 0, at.z3 >= 1), z3.Implies(x <= 0, at.z3 <= 1), at.z3 >= 1 + x]
        r = mk({((at.id, n),): ONE}) * r
        if n < 0:
            _inv_atom_of_single(at.id)
    return r


def ln(x):
    """Natural logarithm: a sum over positive factors."""
    if not is_sym(x):
        return np.log(x)
    p = to_poly(x)
    common = None
    for m in p:
        d = {a: e for a, e in m if S.atoms[a].kind in ("exp", "inv", "sqrt", "var") and S.atoms[a].kind != "bool"}
        common = d if common is None else {a: builtins.min(e, d[a]) if e > 0 else builtins.max(e, d[a]) for a, e in common.items()
                                           if a in d and (d[a] > 0) == (e > 0)}
    r = 0.0
    rest = p
    if common:
        rest = {}
        for m, c in p.items():
            d = dict(m)
            for a, e in common.items():
                d[a] -= e
            rest[tuple((a, e) for a, e in sorted(d.items()) if e)] = c
        for a, e in common.items():
            at = S.atoms[a]
            if at.kind == "exp" and at.data[0] == "exp":
                t = mk(at.data[1][0])
            elif at.kind == "inv":
                t = -ln(mk(at.data))
            elif at.kind == "sqrt" and at.data is not None:
                t = ln(mk(at.data)) / 2
            else:
                t = _logatom(mk({((a, 1),): ONE}))
            r = r + t * e
    c = p_const(rest)
    if c is not None:
        return r + (builtins.float(np.log(builtins.float(c))) if c != 1 else 0.0)
    lead = builtins.min(rest.items())[1]  # log |.|: the leading coefficient is one
    if lead != 1:
        if builtins.abs(lead) != 1:
            r = r + builtins.float(np.log(builtins.float(builtins.abs(lead))))
        rest = p_scale(rest, 1 / lead)
    return r + _logatom(mk(rest))


def _logatom(x):
    # of a positive float64; polynomials alike up to rounding errors share an atom
    p = to_poly(x)
    big = builtins.max(builtins.abs(c) for c in p.values())
    main = {m: c for m, c in p.items() if builtins.abs(c) > 1e-10 * big}
    known = S.by_key.setdefault("__logs__", {}).setdefault(len(p) // 8, [])
    near = [k for i in (-1, 0, 1) for k in S.by_key["__logs__"].get(len(p) // 8 + i, ())]
    for q_, r in near:
        if builtins.all(builtins.abs(c - q_.get(m, ZERO)) <= 1e-9 * builtins.abs(c) for m, c in main.items()) and builtins.all(
            m in main or builtins.abs(c) <= 1e-9 * big for m, c in q_.items()
        ):
            return r
    r = uf("log", x, lo=-750, hi=750)
    known.append((p, r))
    return r


def lexical(x):
    """numpy orders complex numbers by their parts."""
    return (x.real, x.imag) if isinstance(x, (complex, np.complexfloating)) else x


def f_max(a, b):
    if not is_sym(a) and not is_sym(b):
        return builtins.max(a, b, key=lexical)
    return bounding(ite_atom(a >= b, a, b), a, b, 1)


def f_min(a, b):
    if not is_sym(a) and not is_sym(b):
        return builtins.min(a, b, key=lexical)
    return bounding(ite_atom(a <= b, a, b), a, b, -1)


def bounding(r, a, b, sign):
    """Tell the solver what a maximum (sign 1) or minimum (sign -1) of two values is, without cases."""
    if isinstance(r, SymReal) and len(r.p) == 1:
        ((mon, _),) = r.p.items()
        at = S.atoms[mon[0][0]] if len(mon) == 1 and mon[0][1] == 1 else None
        if at is not None and at.kind == "ite" and len(at.defs) == 1:
            for x in (a, b):
                p = p_z3(to_poly(x))
                at.defs.append(at.z3 >= p if sign > 0 else at.z3 <= p)
    return r


def ite_atom(c, a, b):
    """Selection as a fresh real tied by an if-then-else (keeps polynomials small)."""
    if not isinstance(c, SymBool) or is_cplx(a) or is_cplx(b):
        return ite(c, a, b)
    if isinstance(a, (SymInt, builtins.int)) and isinstance(b, (SymInt, builtins.int)):
        return ite(c, a, b)
    pa, pb = to_poly(a), to_poly(b)
    if pa == pb:
        return mk(pa)
    key = ("ite", c.z.get_id(), p_key(pa), p_key(pb))
    at = S.by_key.get(key)
    if at is None:
        deps = p_atoms(pa)
        p_atoms(pb, deps)
        deps |= atoms_of_z3(c.z)
        at = fresh("ite", "ite", key=key, data=(c.z, pa, pb), deps=tuple(deps))
        at.defs.append(at.z3 == z3.If(c.z, p_z3(pa), p_z3(pb)))
    return SymReal({((at.id, 1),): ONE})


def ite(c, a, b):
    if not isinstance(c, SymBool):
        if is_sym(c):
            c = mkbool(zbool(c))
            if not isinstance(c, SymBool):
                return a if c else b
        else:
            return a if c else b
    if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)):
        return mkbool(z3.If(c.z, zbool(a), zbool(b)))
    if isinstance(a, (SymInt, builtins.int, np.integer)) and isinstance(b, (SymInt, builtins.int, np.integer)) and (
        isinstance(a, SymInt) or isinstance(b, SymInt)
    ):
        ea = a.e if isinstance(a, SymInt) else z3.IntVal(builtins.int(a))
        eb = b.e if isinstance(b, SymInt) else z3.IntVal(builtins.int(b))
        return mkint(z3.If(c.z, ea, eb))
    for v in (a, b):
        if not is_sym(v) and not np.isfinite(v):
            raise Unsupported("non finite value in a symbolic selection")
    bp = c.poly()
    if is_cplx(a) or is_cplx(b):
        a, b = to_complex(a), to_complex(b)
        return mkc(_ite_r(bp, a.re, b.re), _ite_r(bp, a.im, b.im))
    return _ite_r(bp, a, b)


def _ite_r(bp, a, b):
    pa, pb = to_poly(a), to_poly(b)
    return mk(p_add(pb, p_mul(bp, p_add(pa, pb, -ONE))))


def f_sign(x):
    if not is_sym(x):
        return np.sign(x)
    return ite(x > 0, 1.0, ite(x < 0, -1.0, 0.0))


def f_real(x):
    return x.real if is_sym(x) or is_concrete_num(x) and hasattr(x, "real") else x


def f_imag(x):
    return x.imag


def f_conj(x):
    return x.conjugate() if hasattr(x, "conjugate") else x


def f_cos(x):
    return cos_sin(x)[0] if is_sym(x) else np.cos(x)


def f_sin(x):
    return cos_sin(x)[1] if is_sym(x) else np.sin(x)


def _log(name, fn):
    def f(x):
        if not is_sym(x):
            return fn(x)
        if name.startswith("log"):
            return ln(x) / {"log": 1.0, "log10": builtins.float(np.log(10)), "log2": builtins.float(np.log(2))}[name]
        return uf(name, x)

    return f


def f_sub(a, b):
    if isinstance(a, (bool, np.bool_)) and is_sym(b):
        a = builtins.int(a)
    return a - b


def f_mulb(a, b):
    return a * b


def f_add(a, b):
    # numpy: bool + bool is logical or
    if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)):
        return f_or(a, b)
    return a + b


def f_mul(a, b):
    if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)):
        return f_and(a, b)
    if not is_sym(a) and is_sym(b) and not is_cplx(a) and a == 0 and not isinstance(b, SymComplex):
        return 0.0
    return a * b


def _cmpf(op):
    def f(a, b):
        if isinstance(a, builtins.complex) or (isinstance(b, builtins.complex) and not is_sym(a)):
            # numpy's order of complex numbers
            if op in (operator.eq, operator.ne) or is_sym(b):
                return op(to_complex(a) if is_sym(b) else a, b)
            a, b = builtins.complex(a), builtins.complex(b)
            return op((a.real, a.imag), (b.real, b.imag))
        return op(a, b)

    return f


def _bitop(fb, fi):
    def f(a, b):
        if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)):
            return fb(a, b)
        return fi(a, b)

    return f


def f_invert(a):
    if isinstance(a, (SymBool, bool, np.bool_)):
        return f_not(a)
    return ~a


def f_isfinite(a):
    return True if is_sym(a) else bool(np.isfinite(a))


def f_isnan(a):
    return False if is_sym(a) else bool(np.isnan(a))


def f_atan2(a, b):
    if not is_sym(a) and not is_sym(b):
        return np.arctan2(a, b)
    return uf("atan2", a, b)


UF = {
    "add": f_add,
    "subtract": f_sub,
    "multiply": f_mul,
    "divide": lambda a, b: a / b if (is_sym(a) or is_sym(b)) else np.true_divide(a, b),
    "true_divide": lambda a, b: a / b if (is_sym(a) or is_sym(b)) else np.true_divide(a, b),
    "floor_divide": operator.floordiv,
    "remainder": operator.mod,
    "power": f_pow,
    "float_power": f_pow,
    "negative": operator.neg,
    "positive": operator.pos,
    "absolute": f_abs,
    "fabs": f_abs,
    "sqrt": f_sqrt,
    "square": lambda a: a * a,
    "exp": f_exp,
    "cos": f_cos,
    "sin": f_sin,
    "tan": lambda a: f_sin(a) / f_cos(a),
    "arccos": _log("arccos", np.arccos),
    "arcsin": _log("arcsin", np.arcsin),
    "arctan": _log("arctan", np.arctan),
    "arctan2": f_atan2,
    "log": _log("log", np.log),
    "log10": _log("log10", np.log10),
    "log2": _log("log2", np.log2),
    "conjugate": f_conj,
    "less": _cmpf(operator.lt),
    "less_equal": _cmpf(operator.le),
    "greater": _cmpf(operator.gt),
    "greater_equal": _cmpf(operator.ge),
    "equal": _cmpf(operator.eq),
    "not_equal": _cmpf(operator.ne),
    "logical_and": f_and,
    "logical_or": f_or,
    "logical_xor": f_xor,
    "logical_not": f_not,
    "bitwise_and": _bitop(f_and, operator.and_),
    "bitwise_or": _bitop(f_or, operator.or_),
    "bitwise_xor": _bitop(f_xor, operator.xor),
    "invert": f_invert,
    "maximum": f_max,
    "minimum": f_min,
    "fmax": f_max,
    "fmin": f_min,
    "sign": f_sign,
    "floor": f_floor,
    "ceil": lambda a: -f_floor(-a),
    "rint": lambda a: f_round_int(a) if is_sym(a) else np.rint(a),
    "trunc": lambda a: a.__trunc__() if is_sym(a) else np.trunc(a),
    "deg2rad": lambda a: a * (math.pi / 180),
    "radians": lambda a: a * (math.pi / 180),
    "rad2deg": lambda a: a * (180 / math.pi),
    "degrees": lambda a: a * (180 / math.pi),
    "reciprocal": lambda a: 1 / a,
    "isfinite": f_isfinite,
    "isnan": f_isnan,
    "isinf": lambda a: False if is_sym(a) else bool(np.isinf(a)),
    "hypot": lambda a, b: f_sqrt(a * a + b * b),
}
BOOL_UF = {
    "less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "logical_and", "logical_or",
    "logical_xor", "logical_not", "isfinite", "isnan", "isinf",
}
FLOAT_UF = {
    "divide", "true_divide", "float_power", "sqrt", "exp", "cos", "sin", "tan", "arccos", "arcsin", "arctan", "log",
    "log10", "log2", "deg2rad", "radians", "rad2deg", "degrees", "reciprocal", "hypot", "arctan2",
}
_PYF = {k: np.frompyfunc(f, f.__code__.co_argcount if hasattr(f, "__code__") else 2, 1) for k, f in UF.items() if k not in ("negative", "positive")}
_PYF["negative"] = np.frompyfunc(lambda a: -a, 1, 1)
_PYF["positive"] = np.frompyfunc(lambda a: +a, 1, 1)
for _k in ("log", "log10", "log2", "arccos", "arcsin", "arctan"):
    _PYF[_k] = np.frompyfunc(UF[_k], 1, 1)
_RED = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False, "maximum": None, "minimum": None,
        "bitwise_or": False, "bitwise_and": True}


# ------------------------------------------------------------------------- arrays
KORDER = {"b": 0, "i": 1, "f": 2, "c": 3}


def kind_of_value(x):
    if isinstance(x, (bool, np.bool_, SymBool)):
        return "b"
    if isinstance(x, (SymInt, builtins.int, np.integer)):
        return "i"
    if is_cplx(x):
        return "c"
    return "f"


def kind_of_dtype(dt):
    if dt is None:
        return "f"
    if dt is object:
        return "o"
    if isinstance(dt, KDtype):
        return dt.k
    k = np.dtype(dt).kind
    return {"b": "b", "i": "i", "u": "i", "f": "f", "c": "c", "O": "o"}.get(k, "o")


def kind_of_array(a):
    if isinstance(a, SymArray):
        return a.kind
    if isinstance(a, np.ndarray):
        k = a.dtype.kind
        if k == "O":
            r = "b"
            for x in a.flat:
                r = kmax(r, kind_of_value(x))
            return r
        return {"b": "b", "i": "i", "u": "i", "f": "f", "c": "c"}.get(k, "o")
    if isinstance(a, (list, tuple)):
        r = "b"
        for x in a:
            r = kmax(r, kind_of_array(x))
        return r
    return kind_of_value(a)


def kmax(a, b):
    if a == "o" or b == "o":
        return "o"
    return a if KORDER[a] >= KORDER[b] else b


def coerce_kind(x, k):
    """Value as stored in an array of kind k."""
    if k == "o":
        return x
    if k == "c":
        if isinstance(x, SymBool):
            return x.real_()
        if isinstance(x, SymInt):
            return x.as_real()
        return x
    if k == "f":
        if is_cplx(x):
            # numpy drops the imaginary part (ComplexWarning) or raises for python scalars
            if is_sym(x):
                if not is_sym(x.im) and x.im == 0:
                    return x.re
                raise TypeError("float() argument must be a real number, not 'complex'")
            raise TypeError("float() argument must be a real number, not 'complex'")
        if isinstance(x, SymBool):
            return x.real_()
        if isinstance(x, SymInt):
            return x.as_real()
        if isinstance(x, (bool, np.bool_, builtins.int, np.integer)):
            return builtins.float(x)
        return x
    if k == "b":
        if isinstance(x, (SymBool, bool, np.bool_)):
            return x
        return mkbool(zbool(x)) if is_sym(x) else bool(x)
    if k == "i":
        if isinstance(x, (SymInt, builtins.int, np.integer)):
            return x
        if isinstance(x, (bool, np.bool_)):
            return builtins.int(x)
        if isinstance(x, SymBool):
            return mkint(z3.If(x.z, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(x, SymReal):
            return x.__trunc__()
        return builtins.int(x)
    return x


class KDtype:
    """What .dtype answers for a SymArray: looks like the dtype of the real array."""

    def __init__(self, k):
        self.k = k

    @property
    def real(self):
        return {"f": np.dtype(float), "c": np.dtype(complex), "i": np.dtype(int), "b": np.dtype(bool)}.get(
            self.k, np.dtype(object)
        )

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.real, n)

    def __eq__(self, o):
        try:
            return self.real == (o.real if isinstance(o, KDtype) else np.dtype(o))
        except TypeError:
            return False

    def __hash__(self):
        return hash(self.real)

    def __repr__(self):
        return repr(self.real)


class SymArray(np.ndarray):
    def __array_finalize__(self, obj):
        self.kind = getattr(obj, "kind", None) or "f"

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")

    # -- protocol
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return array_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, args, kwargs)

    # -- attributes
    @property
    def real(self):
        return emap(f_real, self, "f" if self.kind == "c" else self.kind)

    @real.setter
    def real(self, v):
        self[...] = self.imag * 1j + v

    @property
    def imag(self):
        return emap(f_imag, self, "f" if self.kind == "c" else self.kind)

    @imag.setter
    def imag(self, v):
        self[...] = self.real + as_sym(v) * 1j

    def conj(self):
        return emap(f_conj, self, self.kind)

    def conjugate(self):
        return self.conj()

    def any(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(f_or, emap(truth, self, "b"), axis, keepdims, False, "b")

    def all(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(f_and, emap(truth, self, "b"), axis, keepdims, True, "b")

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        a = self
        kk = self.kind
        if kk == "b":
            a = emap(lambda x: coerce_kind(x, "i"), self, "i")
            kk = "i"
        if axis is None and kk in "fc":
            return sum_all(a)
        return reduce_(lambda x, y: x + y, a, axis, keepdims, 0.0 if kk in "fc" else 0, kk)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_(lambda x, y: x * y, self, axis, keepdims, 1, self.kind)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        n = self.size if axis is None else np.prod([self.shape[i] for i in (axis if isinstance(axis, tuple) else (axis,))])
        return self.sum(axis=axis, keepdims=keepdims) / builtins.int(n)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(f_max, self, axis, keepdims, None, self.kind)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(f_min, self, axis, keepdims, None, self.kind)

    def ptp(self, axis=None, **k):
        return self.max(axis=axis) - self.min(axis=axis)

    def cumsum(self, axis=None, **k):
        a = base(self)
        if axis is None:
            a = a.reshape(-1)
        return wrap(np.cumsum(a, axis=axis), self.kind)

    def argsort(self, axis=-1, kind=None, order=None, **k):
        if self.ndim != 1:
            raise Unsupported("argsort of a symbolic matrix")
        return np.array(sort_idx(list(base(self))), dtype=builtins.int)

    def sort(self, axis=-1, **k):
        idx = self.argsort()
        self[...] = self[idx]

    def argmax(self, axis=None, **k):
        if axis is not None and self.ndim != 1:
            raise Unsupported("argmax with an axis")
        fl = list(base(self).reshape(-1))
        j = 0
        for i in range(1, len(fl)):
            if fl[i] > fl[j]:
                j = i
        return j

    def argmin(self, axis=None, **k):
        if axis is not None and self.ndim != 1:
            raise Unsupported("argmin with an axis")
        fl = list(base(self).reshape(-1))
        j = 0
        for i in range(1, len(fl)):
            if fl[i] < fl[j]:
                j = i
        return j

    def nonzero(self):
        b = conc_bool(self)
        return np.nonzero(b)

    def astype(self, dtype, *a, **k):
        kk = kind_of_dtype(dtype)
        if kk == "f" and self.kind == "c":
            return emap(f_real, self, "f")
        return emap(lambda x: coerce_kind(x, kk), self, kk)

    def copy(self, order="C"):
        return wrap(base(self).copy(), self.kind)

    def dot(self, o):
        return matmul(self, o)

    def trace(self, *a, **k):
        return wrap(np.trace(base(self)), self.kind)

    def round(self, decimals=0, out=None):
        if decimals:
            raise Unsupported("round with digits")
        return emap(lambda x: coerce_kind(f_round_int(x), "f"), self, "f")

    def clip(self, a_min=None, a_max=None, **k):
        r = self
        if a_min is not None:
            r = array_ufunc(np.maximum, "__call__", (r, a_min), {})
        if a_max is not None:
            r = array_ufunc(np.minimum, "__call__", (r, a_max), {})
        return r

    def tolist(self):
        return base(self).tolist()

    def item(self, *a):
        return base(self).item(*a)

    def fill(self, v):
        self[...] = v

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def __bool__(self):
        if self.size == 1:
            return bool(base(self).reshape(-1)[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __index__(self):
        if self.size == 1 and self.kind == "i":
            return operator.index(base(self).reshape(-1)[0])
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __float__(self):
        if self.ndim == 0:
            raise Unsupported("float() of a symbolic array")
        raise TypeError("only 0-dimensional arrays can be converted to Python scalars")

    def __getitem__(self, idx):
        idx = fix_index(idx)
        r = base(self)[idx]
        if isinstance(r, np.ndarray):
            v = r.view(SymArray)
            v.kind = self.kind
            return v
        t = type(r)
        if t is float:
            return np.float64(r)
        if t is complex:
            return np.complex128(r)
        if t is bool:
            return np.bool_(r)
        return r

    def __setitem__(self, idx, val):
        k = self.kind
        sel = sym_mask_index(idx, self)
        if sel is not None:
            # masked assignment with a symbolic mask
            b = base(self)
            vals = np.broadcast_to(np.asarray(unwrap(val), dtype=object), ()) if np.ndim(unwrap(val)) == 0 else None
            if vals is None:
                idx = fix_index(idx)
            else:
                v = coerce_kind(vals.item() if isinstance(vals, np.ndarray) else vals, k)
                bm = np.broadcast_to(sel.reshape(sel.shape + (1,) * (b.ndim - sel.ndim)), b.shape)
                for i in np.ndindex(b.shape):
                    b[i] = ite(bm[i], v, b[i])
                return
        idx = fix_index(idx)
        if isinstance(val, (SymBase,)) or is_concrete_num(val):
            base(self)[idx] = coerce_kind(val, k) if not _elementwise_target(self, idx) else coerce_kind(val, k)
            return
        v = unwrap(val)
        if isinstance(v, (list, tuple)):
            v = np.array(v, dtype=object) if _has_sym(v) else np.array(v)
        if isinstance(v, np.ndarray):
            if v.dtype != object:
                v = v.astype(object)
            tgt = base(self)[idx]
            if not isinstance(tgt, np.ndarray) and v.ndim > 0:
                # numpy >= 2.5: a sequence cannot be stored in a single element
                raise ValueError("setting an array element with a sequence.")
            vk = "c" if k == "c" else k
            if k == "f" and kind_of_array(v) == "c":
                v = np.frompyfunc(f_real, 1, 1)(v)  # ComplexWarning: imaginary part discarded
            v = np.frompyfunc(lambda x: coerce_kind(x, vk), 1, 1)(v) if v.size else v
        base(self)[idx] = v


def _elementwise_target(a, idx):
    return False


def _has_sym(v):
    for x in v:
        if isinstance(x, (SymBase, SymArray)):
            return True
        if isinstance(x, (list, tuple)) and _has_sym(x):
            return True
    return False


# .dtype must answer the modelled dtype, but numpy itself needs the object dtype, so it is
# a Python level property only.
def _dtype(self):
    return KDtype(self.kind)


SymArray.dtype = property(_dtype)
_ITEMSIZE = {"f": 8, "c": 16, "i": 8, "b": 1, "o": 8}
SymArray.itemsize = property(lambda self: _ITEMSIZE[self.kind])
SymArray.nbytes = property(lambda self: _ITEMSIZE[self.kind] * self.size)


def base(a):
    return a.view(np.ndarray) if isinstance(a, SymArray) else a


def unwrap(x):
    if isinstance(x, SymArray):
        return base(x)
    if isinstance(x, tuple):
        return tuple(unwrap(i) for i in x)
    if isinstance(x, list):
        return [unwrap(i) for i in x]
    if isinstance(x, dict):
        return {k: unwrap(v) for k, v in x.items()}
    return x


def wrap(x, kind=None):
    if isinstance(x, SymArray):
        if kind:
            x.kind = kind
        return x
    if isinstance(x, np.ndarray) and x.dtype == object:
        k = kind if kind is not None else kind_of_array(x)
        v = x.view(SymArray)
        v.kind = k
        return v
    return x


def as_sym(x):
    if isinstance(x, SymArray):
        return x
    k = kind_of_array(x)
    a = np.asarray(unwrap(x))
    return wrap(a.astype(object) if a.dtype != object else a, k)


def new_array(shape, fill, kind):
    a = np.empty(shape, dtype=object)
    a.fill(fill)
    v = a.view(SymArray)
    v.kind = kind
    return v


def emap(f, a, kind):
    b = base(a)
    r = np.frompyfunc(f, 1, 1)(b)
    if not isinstance(r, np.ndarray):
        r_ = np.empty((), dtype=object)
        r_[()] = r
        r = r_
    return wrap(r, kind)


def truth(x):
    if isinstance(x, SymBool):
        return x
    if is_sym(x):
        return mkbool(zbool(x))
    return bool(x)


def sum_all(a):
    re, im = {}, {}
    cplx = False
    for x in base(a).flat:
        if is_cplx(x):
            cplx = True
            re = _acc(re, x.real)
            im = _acc(im, x.imag)
        else:
            re = _acc(re, x)
    if cplx:
        return mkc(mk(re), mk(im))
    return mk(re)


def _acc(d, x):
    p = to_poly(x)
    for m, c in p.items():
        v = d.get(m)
        if v is None:
            d[m] = c
        else:
            v = v + c
            if v == 0:
                del d[m]
            else:
                d[m] = v
    return d


def reduce_(f, a, axis, keepdims, init, kind):
    b = base(a)
    if axis is None:
        axes = tuple(range(b.ndim))
    elif isinstance(axis, tuple):
        axes = tuple(x % b.ndim for x in axis)
    else:
        axes = (operator.index(axis) % b.ndim,)
    keep = [i for i in range(b.ndim) if i not in axes]
    t = b.transpose(keep + list(axes)).reshape([b.shape[i] for i in keep] + [-1])
    out = np.empty([b.shape[i] for i in keep], dtype=object)
    for i in np.ndindex(out.shape):
        row = t[i]
        if len(row) == 0:
            if init is None:
                raise ValueError("zero-size array to reduction operation which has no identity")
            out[i] = init
        else:
            acc = row[0]
            for x in row[1:]:
                acc = f(acc, x)
            out[i] = acc
    if keepdims:
        out = out.reshape([1 if i in axes else b.shape[i] for i in range(b.ndim)])
    if out.ndim == 0 and not keepdims:
        return out[()]
    return wrap(out, kind)


def sort_idx(vals):
    """Stable ascending order (forks on the comparisons)."""
    out = []
    for i, v in enumerate(vals):
        j = len(out)
        while j > 0 and bool(v < vals[out[j - 1]]):
            j -= 1
        out.insert(j, i)
    return out


def conc_bool(a):
    """Concretise a boolean array by branching on each element."""
    b = base(a)
    out = np.empty(b.shape, dtype=bool)
    for i in np.ndindex(b.shape):
        out[i] = bool(b[i])
    return out


def sym_mask_index(idx, arr):
    if isinstance(idx, SymArray) and idx.kind == "b" and any(isinstance(x, SymBool) for x in base(idx).flat):
        return base(idx)
    return None


def fix_index(idx):
    if isinstance(idx, tuple):
        return tuple(_fix1(i) for i in idx)
    return _fix1(idx)


def _fix1(i):
    if isinstance(i, SymBool):
        return bool(i)
    if isinstance(i, SymInt):
        return i.__index__()
    if isinstance(i, slice):
        f = lambda v: v.__index__() if isinstance(v, SymInt) else v
        return slice(f(i.start), f(i.stop), f(i.step))
    if isinstance(i, SymArray):
        if i.kind == "b":
            return conc_bool(i)
        if i.kind == "i":
            b = base(i)
            out = np.empty(b.shape, dtype=builtins.int)
            for j in np.ndindex(b.shape):
                out[j] = operator.index(b[j])
            return out
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if isinstance(i, list) and i and any(isinstance(x, SymBase) for x in i):
        return _fix1(as_sym(i))
    return i


def array_ufunc(ufunc, method, inputs, kwargs):
    name = ufunc.__name__
    out = kwargs.pop("out", None)
    kwargs.pop("dtype", None)
    kwargs.pop("casting", None)
    kwargs.pop("subok", None)
    where = kwargs.pop("where", True)
    if where is not True:
        raise Unsupported("ufunc where=")
    if name in ("matmul", "vecdot") and method == "__call__":
        r = matmul(*inputs)
    elif method == "__call__":
        if name not in _PYF:
            raise Unsupported(f"ufunc {name}")
        raw = []
        for x in inputs:
            if isinstance(x, SymArray):
                raw.append(base(x))
            elif isinstance(x, np.ndarray):
                raw.append(x.astype(object))
            elif isinstance(x, (list, tuple)):
                a = np.array(unwrap(x), dtype=object)
                raw.append(a)
            elif isinstance(x, np.generic):
                raw.append(x.item())
            elif isinstance(x, SymBase):
                z = np.empty((), dtype=object)
                z[()] = x
                raw.append(z)
            else:
                raw.append(x)
        r = _PYF[name](*raw)
        kinds = [kind_of_array(x) for x in inputs]
        k = functools.reduce(kmax, kinds)
        if name in BOOL_UF:
            k = "b"
        elif name in FLOAT_UF and KORDER.get(k, 3) < 2:
            k = "f"
        elif name in ("absolute",) and k == "c":
            k = "f"
        if isinstance(r, np.ndarray):
            r = wrap(r, k)
        elif any(isinstance(x, np.ndarray) and x.ndim > 0 for x in inputs):
            pass
    elif method == "reduce":
        a = as_sym(inputs[0])
        axis = kwargs.get("axis", 0)
        keep = kwargs.get("keepdims", False)
        if name == "add":
            r = a.sum(axis=axis, keepdims=keep)
        elif name == "multiply":
            r = a.prod(axis=axis, keepdims=keep)
        elif name == "logical_or":
            r = a.any(axis=axis, keepdims=keep)
        elif name == "logical_and":
            r = a.all(axis=axis, keepdims=keep)
        elif name == "maximum":
            r = a.max(axis=axis, keepdims=keep)
        elif name == "minimum":
            r = a.min(axis=axis, keepdims=keep)
        else:
            raise Unsupported(f"{name}.reduce")
    elif method == "outer":
        a, b = as_sym(inputs[0]), as_sym(inputs[1])
        return array_ufunc(ufunc, "__call__", (a.reshape(a.shape + (1,) * b.ndim), b), {})
    elif method == "accumulate" and name == "add":
        return as_sym(inputs[0]).cumsum(axis=kwargs.get("axis", 0))
    elif method == "at":
        raise Unsupported("ufunc.at")
    else:
        raise Unsupported(f"ufunc {name}.{method}")
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if not isinstance(o, SymArray):
            raise Unsupported("symbolic result written in place to a concrete array")
        if kind_of_array(r) != o.kind and KORDER.get(kind_of_array(r), 3) > KORDER.get(o.kind, 3) and o.kind != "o":
            if not (name in ("multiply", "add") and False):
                raise TypeError(f"Cannot cast ufunc '{name}' output from {kind_of_array(r)} to {o.kind}")
        o[...] = r
        return o
    return r


def matmul(a, b):
    a, b = as_sym(a), as_sym(b)
    k = kmax(a.kind, b.kind)
    A, B = base(a), base(b)
    if A.ndim == 1 and B.ndim == 1:
        return sum_all(wrap(np.frompyfunc(f_mul, 2, 1)(A, B), k))
    if A.ndim <= 2 and B.ndim <= 2:
        A2 = A[None] if A.ndim == 1 else A
        B2 = B[:, None] if B.ndim == 1 else B
        if A2.shape[1] != B2.shape[0]:
            raise ValueError("matmul: dimension mismatch")
        out = np.empty((A2.shape[0], B2.shape[1]), dtype=object)
        for i in range(A2.shape[0]):
            for j in range(B2.shape[1]):
                out[i, j] = sum_all([f_mul(x, y) for x, y in zip(A2[i], B2[:, j])]) if False else _dot(A2[i], B2[:, j])
        if A.ndim == 1:
            out = out[0]
        elif B.ndim == 1:
            out = out[:, 0]
        return wrap(out, k)
    return wrap(np.matmul(A, B), k)


def _dot(u, v):
    re, im, cplx = {}, {}, False
    for x, y in zip(u, v):
        z = f_mul(x, y)
        if is_cplx(z):
            cplx = True
            _acc(re, z.real)
            _acc(im, z.imag)
        else:
            _acc(re, z)
    return mkc(mk(re), mk(im)) if cplx else mk(re)


# ---- __array_function__ -----------------------------------------------------------
AF = {}


def af(*names):
    def d(f):
        for n in names:
            AF[n] = f
        return f

    return d


def _axis(kw):
    return kw.get("axis")


@af("sum")
def _(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return as_sym(a).sum(axis=axis, keepdims=keepdims)


@af("prod")
def _(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return as_sym(a).prod(axis=axis, keepdims=keepdims)


@af("nansum")
def _(a, axis=None, **k):
    return as_sym(a).sum(axis=axis)


@af("mean", "average")
def _(a, axis=None, weights=None, **k):
    if weights is not None:
        w = as_sym(weights)
        return (as_sym(a) * w).sum(axis=axis) / w.sum(axis=axis)
    return as_sym(a).mean(axis=axis)


@af("any")
def _(a, axis=None, out=None, keepdims=False, **k):
    return as_sym(a).any(axis=axis, keepdims=keepdims)


@af("all")
def _(a, axis=None, out=None, keepdims=False, **k):
    return as_sym(a).all(axis=axis, keepdims=keepdims)


@af("max", "amax", "nanmax")
def _(a, axis=None, out=None, keepdims=False, **k):
    return as_sym(a).max(axis=axis, keepdims=keepdims)


@af("min", "amin", "nanmin")
def _(a, axis=None, out=None, keepdims=False, **k):
    return as_sym(a).min(axis=axis, keepdims=keepdims)


@af("ptp")
def _(a, axis=None, **k):
    return as_sym(a).ptp(axis=axis)


@af("real")
def _(a):
    return a.real


@af("imag")
def _(a):
    return a.imag


@af("argsort")
def _(a, axis=-1, **k):
    return as_sym(a).argsort()


@af("sort")
def _(a, axis=-1, **k):
    a = as_sym(a)
    return a[a.argsort()]


@af("argmax", "nanargmax")
def _(a, axis=None, **k):
    return as_sym(a).argmax(axis)


@af("argmin", "nanargmin")
def _(a, axis=None, **k):
    return as_sym(a).argmin(axis)


@af("where")
def _(cond, x=None, y=None):
    if x is None:
        return as_sym(cond).nonzero() if isinstance(cond, (SymArray, SymBase)) else np.nonzero(cond)
    c, x, y = as_sym(cond), as_sym(x), as_sym(y)
    k = kmax(x.kind, y.kind)
    r = np.frompyfunc(ite, 3, 1)(base(c), base(x), base(y))
    if not isinstance(r, np.ndarray):
        return r
    return wrap(r, k)


@af("nonzero")
def _(a):
    return as_sym(a).nonzero()


@af("flatnonzero")
def _(a):
    return as_sym(a).reshape(-1).nonzero()[0]


@af("argwhere")
def _(a):
    return np.argwhere(conc_bool(emap(truth, as_sym(a), "b")))


@af("count_nonzero")
def _(a, axis=None, **k):
    return emap(truth, as_sym(a), "b").sum(axis=axis)


@af("isclose")
def _(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = as_sym(a), as_sym(b)
    return as_sym(np.abs(a - b)) <= atol + rtol * as_sym(np.abs(b))


@af("allclose")
def _(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = as_sym(a), as_sym(b)
    d = a - b
    return as_sym(as_sym(np.abs(d)) <= atol + rtol * as_sym(np.abs(b))).all()


@af("array_equal")
def _(a, b, **k):
    a, b = as_sym(a), as_sym(b)
    if a.shape != b.shape:
        return False
    return as_sym(a == b).all()


@af("dot", "matmul")
def _(a, b, *r, **k):
    return matmul(a, b)


@af("inner")
def _(a, b):
    if np.ndim(unwrap(a)) == 1 and np.ndim(unwrap(b)) == 1:
        return matmul(a, b)
    return matmul(a, as_sym(b).T)


@af("vdot")
def _(a, b):
    return matmul(as_sym(a).reshape(-1).conj(), as_sym(b).reshape(-1))


@af("outer")
def _(a, b, out=None):
    a, b = as_sym(a).reshape(-1), as_sym(b).reshape(-1)
    return a[:, None] * b[None]


@af("linalg.norm", "norm")
def _(x, ord=None, axis=None, keepdims=False):
    x = as_sym(x)
    a = as_sym(np.abs(x))
    return np.sqrt((a * a).sum(axis=axis, keepdims=keepdims))


@af("diff")
def _(a, n=1, axis=-1, **k):
    if n != 1:
        raise Unsupported("diff n")
    a = as_sym(a)
    ax = axis % a.ndim
    s1 = [slice(None)] * a.ndim
    s2 = [slice(None)] * a.ndim
    s1[ax], s2[ax] = slice(1, None), slice(None, -1)
    return a[tuple(s1)] - a[tuple(s2)]


@af("ediff1d")
def _(a, *r, **k):
    a = as_sym(a).reshape(-1)
    return a[1:] - a[:-1]


@af("zeros_like", "empty_like")
def _(a, dtype=None, order=None, subok=None, shape=None, **k):
    kk = kind_of_dtype(dtype) if dtype is not None else kind_of_array(a)
    return new_array(np.shape(unwrap(a)) if shape is None else shape, ZEROV[kk], kk)


@af("ones_like")
def _(a, dtype=None, order=None, subok=None, shape=None, **k):
    kk = kind_of_dtype(dtype) if dtype is not None else kind_of_array(a)
    return new_array(np.shape(unwrap(a)) if shape is None else shape, coerce_kind(1, kk), kk)


@af("full_like")
def _(a, fill_value, dtype=None, order=None, subok=None, shape=None, **k):
    kk = kind_of_dtype(dtype) if dtype is not None else kind_of_array(a)
    return new_array(np.shape(unwrap(a)) if shape is None else shape, coerce_kind(fill_value, kk), kk)


ZEROV = {"f": 0.0, "c": 0.0, "i": 0, "b": False, "o": None}


@af("clip")
def _(a, a_min=None, a_max=None, out=None, **k):
    return as_sym(a).clip(k.get("min", a_min), k.get("max", a_max))


@af("round", "around")
def _(a, decimals=0, out=None):
    return as_sym(a).round(decimals)


@af("copy")
def _(a, *r, **k):
    return as_sym(a).copy()


@af("iscomplexobj")
def _(x):
    return kind_of_array(x) == "c"


@af("isrealobj")
def _(x):
    return kind_of_array(x) != "c"


@af("iscomplex")
def _(x):
    return emap(lambda v: v.imag != 0 if is_cplx(v) else False, as_sym(x), "b")


@af("angle")
def _(z, deg=False):
    return emap(lambda v: f_atan2(v.imag, v.real), as_sym(z), "f")


@af("einsum")
def _(sub, *ops, **k):
    kk = functools.reduce(kmax, [kind_of_array(o) for o in ops])
    r = np.einsum(sub, *[np.asarray(unwrap(o)).astype(object) for o in ops])
    if isinstance(r, np.ndarray) and r.ndim == 0:
        return r[()]
    return wrap(r, kk)


@af("tensordot")
def _(a, b, axes=2):
    a, b = as_sym(a), as_sym(b)
    r = np.tensordot(base(a), base(b), axes=axes)
    return wrap(r, kmax(a.kind, b.kind)) if r.ndim else r[()]


@af("trace")
def _(a, *r, **k):
    return as_sym(a).trace()


@af("cumsum")
def _(a, axis=None, **k):
    return as_sym(a).cumsum(axis=axis)


@af("isin")
def _(el, test, **k):
    raise Unsupported("isin on symbolic values")


@af("shape")
def _(a):
    return a.shape


@af("ndim")
def _(a):
    return a.ndim


@af("size")
def _(a, axis=None):
    return a.size if axis is None else a.shape[axis]


@af("insert")
def _(arr, obj, values, axis=None):
    arr = as_sym(arr)
    k = arr.kind
    if isinstance(obj, SymInt):
        obj = obj.__index__()
    v = unwrap(as_sym(values))
    v = np.frompyfunc(lambda x: coerce_kind(x, k), 1, 1)(v) if isinstance(v, np.ndarray) else coerce_kind(v, k)
    return wrap(np.insert(base(arr), obj, v, axis=axis), k)


@af("pad")
def _(array, pad_width, mode="constant", **kw):
    a = as_sym(array)
    pw = np.asarray(unwrap(pad_width)) if not isinstance(pad_width, (builtins.int, SymInt)) else pad_width

    def conc(v):
        if isinstance(v, SymInt):
            return v.__index__()
        if isinstance(v, (tuple, list)):
            return tuple(conc(i) for i in v)
        return v

    r = np.pad(base(a), conc(pad_width), mode, **{k_: unwrap(v) for k_, v in kw.items()})
    z = ZEROV[a.kind]
    if mode == "constant":
        r = np.frompyfunc(lambda x: coerce_kind(x, a.kind), 1, 1)(r) if r.size else r
    return wrap(r, a.kind)


@af("save", "savez")
def _(*a, **k):
    raise Unsupported("np.save of a symbolic array outside the file model")


def array_function(func, args, kwargs):
    name = func.__name__
    mod = getattr(func, "__module__", "") or ""
    hook = HOOKS.get(name)
    if hook is not None:
        r = hook(*args, **kwargs)
        if r is not NotImplemented:
            return r
    f = AF.get(name)
    if f is not None:
        return f(*args, **kwargs)
    if "linalg" in mod or "fft" in mod:
        raise Unsupported(f"{mod}.{name}")
    # structural function: run on plain object arrays
    kinds = []

    def kinds_of(x):
        if isinstance(x, np.ndarray):
            kinds.append(kind_of_array(x))
        elif isinstance(x, (list, tuple)):
            for i in x:
                kinds_of(i)
        elif is_sym(x):
            kinds.append(kind_of_value(x))

    for a in args:
        kinds_of(a)
    for a in kwargs.values():
        kinds_of(a)

    def conv(x):
        if isinstance(x, SymArray):
            return base(x)
        if isinstance(x, SymInt):
            return x.__index__()
        if is_sym(x):
            a = np.empty((), dtype=object)
            a[()] = x
            return a
        if isinstance(x, KDtype):
            return x.real
        if isinstance(x, tuple):
            return tuple(conv(i) for i in x)
        if isinstance(x, list):
            return [conv(i) for i in x]
        return x

    r = func(*[conv(a) for a in args], **{k: conv(v) for k, v in kwargs.items() if k != "dtype"})
    k = functools.reduce(kmax, kinds) if kinds else None

    def rw(x):
        if isinstance(x, tuple):
            return tuple(rw(i) for i in x)
        if isinstance(x, list):
            return [rw(i) for i in x]
        return wrap(x, k) if isinstance(x, np.ndarray) and x.dtype == object else x

    return rw(r)


HOOKS = {}


# ----------------------------------------------------------------------- variables
def real_var(name, lo=None, hi=None):
    at = Atom("var", name, z3.Real(name), None if lo is None else q(lo), None if hi is None else q(hi))
    if lo is not None:
        at.defs.append(at.z3 >= zq(q(lo)))
    if hi is not None:
        at.defs.append(at.z3 <= zq(q(hi)))
    return SymReal({((at.id, 1),): ONE})


def int_var(name):
    return SymInt(z3.Int(name))


def bool_var(name):
    return SymBool(z3.Bool(name))
