"""The two faces of a harness: symbolic (SymCtx) and concrete (ConcCtx).

A harness is one Python function fn(ctx, **params).  It draws its inputs from ctx,
calls the code of /repo and states the property with ctx.check / ctx.close.  Run with
SymCtx the inputs are symbolic and every check becomes solver queries; run with ConcCtx
(in a fresh process, real libraries) it replays one assignment on the real code.
"""
from __future__ import annotations

import collections.abc
import contextlib
import math
import random
import re
import time
import traceback
from fractions import Fraction

import numpy as np


class Violation(Exception):
    pass


class Skip(BaseException):
    """Concrete run: an assumption does not hold for these inputs."""


_MISSING = object()


class _Base:
    symbolic = False

    def __init__(self):
        self._undo = []

    def patch(self, obj, name, value):
        """Replace an attribute for the duration of this run (a declared stub)."""
        if isinstance(obj, collections.abc.MutableMapping):
            old = obj.get(name, _MISSING)
            self._undo.append((obj, name, old))
            obj[name] = value
            return
        old = obj.__dict__.get(name, _MISSING) if hasattr(obj, "__dict__") else getattr(obj, name)
        self._undo.append((obj, name, old))
        setattr(obj, name, value)

    def unpatch(self):
        while self._undo:
            obj, name, old = self._undo.pop()
            if isinstance(obj, collections.abc.MutableMapping):
                if old is _MISSING:
                    obj.pop(name, None)
                else:
                    obj[name] = old
            elif old is _MISSING:
                with contextlib.suppress(AttributeError):
                    delattr(obj, name)
            else:
                setattr(obj, name, old)

    def raises(self, exc, fn, *a, **k):
        """(exception or None, value)"""
        try:
            return None, fn(*a, **k)
        except exc as e:
            return e, None


# ------------------------------------------------------------------------- concrete
class ConcCtx(_Base):
    def __init__(self, inputs, seed=0):
        super().__init__()
        self.inputs = inputs
        self.failures = []
        self.observed = {}
        self.nchecks = 0
        self.reached = False
        self.rng = random.Random(seed)

    def _get(self, name, default):
        return self.inputs.get(name, default)

    def real(self, name, lo=None, hi=None):
        d = (lo + hi) / 2 if lo is not None and hi is not None else (lo if lo is not None else 0.0)
        v = float(self._get(name, d))
        if lo is not None:
            v = max(v, float(lo))
        if hi is not None:
            v = min(v, float(hi))
        return v

    angle = real

    def int(self, name, lo, hi):
        return int(self._get(name, lo))

    def bool(self, name):
        return bool(self._get(name, False))

    def choice(self, name, n):
        return int(self._get(name, 0))

    def cplx(self, name, lo=-1, hi=1):
        return complex(self.real(name + ".re", lo, hi), self.real(name + ".im", lo, hi))

    def array(self, name, shape, kind="f", lo=-1, hi=1):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        dt = {"f": float, "c": complex, "b": bool, "i": int}[kind]
        a = np.empty(shape, dtype=dt)
        for i in np.ndindex(shape):
            n = name + "".join(f"[{j}]" for j in i)
            a[i] = {
                "f": lambda n: self.real(n, lo, hi),
                "c": lambda n: self.cplx(n, lo, hi),
                "b": self.bool,
                "i": lambda n: self.int(n, lo, hi),
            }[kind](n)
        return a

    def assume(self, cond, check=True):
        if not bool(np.all(cond)):
            raise Skip

    def check(self, cond, msg):
        self.nchecks += 1
        if not bool(np.all(cond)):
            self.failures.append(msg)

    def close(self, a, b, msg, tol=1e-6, observe=True):
        self.nchecks += 1
        a_, b_ = np.asarray(a), np.asarray(b)
        if a_.dtype == object:
            a_ = a_.astype(complex)
        if b_.dtype == object:
            b_ = b_.astype(complex)
        self.observed[f"{msg}#{self.nchecks}"] = [] if not observe else [
            [float(np.real(x)), float(np.imag(x))] for x in np.ravel(a_)[:400]
        ]
        try:
            np.broadcast_shapes(a_.shape, b_.shape)
            bad_shape = a_.shape != b_.shape and b_.ndim > 0
        except ValueError:
            bad_shape = True
        if bad_shape:
            self.failures.append(f"{msg}: shape {a_.shape} instead of {b_.shape}")
            return
        d = np.abs(a_ - b_)
        # double precision: the code's rounding errors are below 1e-14 times the magnitude
        if a_.size and not bool(np.all(d <= min(tol / 2, 1e-10 * (1 + np.max(np.abs(b_), initial=0.0))))):
            i = int(np.argmax(np.where(np.isnan(d), np.inf, d))) if d.size else 0
            av, bv = np.broadcast_to(a_, d.shape).flat[i], np.broadcast_to(b_, d.shape).flat[i]
            self.failures.append(f"{msg}: got {av!r}, expected {bv!r} at flat index {i}")

    def same(self, a, b, msg):
        self.check(a == b, f"{msg}: got {a!r}, expected {b!r}")

    def reach(self):
        self.reached = True

    # helpers shared by harnesses (concrete versions)
    def ite(self, c, a, b):
        return a if c else b

    def And(self, *c):
        return all(bool(x) for x in c)

    def Or(self, *c):
        return any(bool(x) for x in c)

    def Not(self, c):
        return not c

    def cos(self, x):
        return math.cos(x)

    def sin(self, x):
        return math.sin(x)

    def sqrt(self, x):
        return math.sqrt(x)

    def exp(self, x):
        return math.exp(x)

    def log(self, x):
        return math.log(x)

    def pow10(self, x):
        return 10.0**x

    def is_true(self, c):
        return bool(c)

    def text(self, x):
        """x as the decimal text a user would write."""
        return repr(x)

    def same_text(self, a, b):
        return str(a) == str(b)

    def arr(self, x, kind=None):
        return np.array(x)


# ------------------------------------------------------------------------- symbolic
class SymCtx(_Base):
    symbolic = True

    def __init__(self, path, stats, check_timeout_ms=10000, seed=1):
        super().__init__()
        from . import sym as Y

        self.Y = Y
        self.path = path
        self.stats = stats
        self.timeout = check_timeout_ms
        self.vars = {}  # name -> (kind, value)
        self.candidates = []  # (msg, inputs)
        self.incon = []
        self.decided = 0
        self.reached = False
        self.observed = {}
        self.nchecks = 0
        self.rng = random.Random(seed)
        self.failed = set()

    # -- inputs
    def real(self, name, lo=None, hi=None):
        if name in self.vars:
            return self.vars[name][1]
        v = self.Y.real_var(name, lo, hi)
        self.vars[name] = ("real", v, lo, hi)
        return v

    def angle(self, name, lo=None, hi=None):
        if name in self.vars:
            return self.vars[name][1]
        v = self.Y.real_var(name, lo, hi)
        self.vars[name] = ("angle", v, lo, hi)
        return v

    def int(self, name, lo, hi):
        import z3

        if name in self.vars:
            return self.vars[name][1]
        v = self.Y.int_var(name)
        self.vars[name] = ("int", v, lo, hi)
        self.path.assert_(z3.And(v.e >= lo, v.e <= hi))
        return v

    def bool(self, name):
        if name in self.vars:
            return self.vars[name][1]
        v = self.Y.bool_var(name)
        self.vars[name] = ("bool", v, None, None)
        return v

    def choice(self, name, n):
        return self.int(name, 0, n - 1).__index__()

    def cplx(self, name, lo=-1, hi=1):
        return self.Y.SymComplex(self.real(name + ".re", lo, hi), self.real(name + ".im", lo, hi))

    def array(self, name, shape, kind="f", lo=-1, hi=1):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(shape):
            n = name + "".join(f"[{j}]" for j in i)
            a[i] = {
                "f": lambda n: self.real(n, lo, hi),
                "c": lambda n: self.cplx(n, lo, hi),
                "b": self.bool,
                "i": lambda n: self.int(n, lo, hi),
            }[kind](n)
        return self.Y.wrap(a, kind)

    # -- logic
    def _z(self, c):
        if isinstance(c, self.Y.SymArray):
            c = c.all()
        if isinstance(c, np.ndarray):
            if c.dtype == object:
                c = self.Y.as_sym(c).all()
            else:
                c = bool(c.all())
        return self.Y.zbool(c)

    def assume(self, cond, check=True):
        """check=False: do not look for paths which the assumption rules out."""
        import z3

        z = z3.simplify(self._z(cond))
        if z3.is_true(z):
            return
        self.path.assert_(z)
        if check and self.path.check() == z3.unsat:
            raise self.Y.PathAbort("assumption unsatisfiable on this path")

    def And(self, *c):
        r = True
        for x in c:
            r = self.Y.f_and(r, self.Y.truth(x))
        return r

    def Or(self, *c):
        r = False
        for x in c:
            r = self.Y.f_or(r, self.Y.truth(x))
        return r

    def Not(self, c):
        return self.Y.f_not(c)

    def ite(self, c, a, b):
        return self.Y.ite(c, a, b)

    def cos(self, x):
        return self.Y.f_cos(x)

    def sin(self, x):
        return self.Y.f_sin(x)

    def sqrt(self, x):
        return self.Y.f_sqrt(x)

    def exp(self, x):
        return self.Y.f_exp(x)

    def log(self, x):
        return self.Y.ln(x)

    def pow10(self, x):
        return self.Y.f_pow(10.0, x)

    def is_true(self, c):
        """Fork on a condition."""
        return bool(c)

    def text(self, x):
        from .env import SymStr

        return SymStr(x)

    def same_text(self, a, b):
        """Condition under which two texts made of symbolic numbers read the same."""
        Y = self.Y

        def items(t):
            out = []
            for m in re.finditer("(\ue000\\d+\ue001)|(\\d+(?:\\.\\d+)?)|([^\ue000\\d]+)", str(t)):
                tok, num, lit = m.groups()
                if tok:
                    v, spec = Y.S.tokens[tok]
                    out.append(("n", v, spec))
                elif num:
                    out.append(("n", float(num) if "." in num else int(num), ""))
                else:
                    out.append(("l", lit, ""))
            return out

        x, y = items(a), items(b)
        if len(x) != len(y) or [i[0] for i in x] != [i[0] for i in y]:
            return False
        r = True
        for (k, u, su), (_, v, sv) in zip(x, y):
            if k == "l":
                if u != v:
                    return False
                continue
            spec = su or sv
            if spec in ("", "d", "s"):
                r = self.And(r, u == v)
                continue
            m = re.fullmatch(r"0?\d*\.(\d+)f", spec)
            if not m:
                raise Y.Unsupported(f"format {spec!r} of a symbolic number")
            n = 10 ** int(m.group(1))
            r = self.And(r, Y.f_round_int(u * n) == Y.f_round_int(v * n))
        return r

    def arr(self, x, kind=None):
        a = np.array(x, dtype=object)
        return self.Y.wrap(a, kind)

    # -- the property
    def _query(self, extra, timeout=None):
        """Full query: path condition, definitions and extra constraints."""
        import z3

        s = z3.Solver()
        s.set("timeout", timeout or self.timeout)
        p = self.path
        for e in extra:
            p.add_defs_of(e)
        for i in p.added:
            for d in self.Y.S.atoms[i].defs:
                s.add(d)
        for e in p.pc:
            s.add(e)
        for e in extra:
            s.add(e)
        t = time.time()
        r = s.check()
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        setattr(self.stats, str(r), getattr(self.stats, str(r)) + 1)
        return r, (s.model() if r == z3.sat else None)

    def check(self, cond, msg):
        import z3

        self.nchecks += 1
        if msg in self.failed:
            return
        z = z3.simplify(self._z(cond))
        if z3.is_true(z):
            self.stats.trivial += 1
            self.decided += 1
            return
        r, m = self._query([z3.Not(z)])
        if r == z3.unsat:
            self.decided += 1
        elif r == z3.sat:
            self.failed.add(msg)
            self.add_candidate(msg, self.variants(m))
        else:
            self.incon.append(f"{msg}: solver gave no answer")
            # the rest of the path assumes nothing; try an arbitrary model of the path
            self._guess(msg)

    def same(self, a, b, msg):
        c = a == b
        self.check(c, msg)

    def _guess(self, msg):
        import z3

        r, m = self._query([])
        if r == z3.sat:
            self.candidates.append((msg + " (guess)", self.inputs_of(m)))

    def close(self, a, b, msg, tol=1e-6, observe=True):
        """|a - b| <= tol elementwise, real and imaginary part."""
        import z3

        Y = self.Y
        self.nchecks += 1
        if msg in self.failed:
            return
        sa, sb = np.shape(Y.unwrap(a)), np.shape(Y.unwrap(b))
        if sa != sb and sb != ():
            self.failed.add(msg)
            self.candidates.append((msg + f": shape {sa} instead of {sb}", self.any_inputs()))
            return
        A, B = Y.base(Y.as_sym(a)), Y.base(Y.as_sym(b))
        try:
            A, B = np.broadcast_arrays(A, B)
        except ValueError:
            self.failed.add(msg)
            self.candidates.append((msg + f": shape {sa} instead of {sb}", self.any_inputs()))
            return
        if observe:
            self.observed[f"{msg}#{self.nchecks}"] = list(A.ravel()[:400])
        res = []
        for x, y in zip(A.ravel(), B.ravel()):
            bad = [v for v in (x, y) if not Y.is_sym(v) and not np.isfinite(v)]
            if bad:
                self.failed.add(msg)
                self.candidates.append((msg + ": not finite", self.any_inputs()))
                return
            if Y.is_cplx(x) or Y.is_cplx(y):
                d = Y.to_complex(x) - Y.to_complex(y)
                d = Y.to_complex(d)
                ps = [Y.to_poly(d.re), Y.to_poly(d.im)]
            else:
                ps = [Y.p_add(Y.to_poly(x), Y.to_poly(y), -Y.ONE)]
            for p in ps:
                if not p:
                    self.stats.trivial += 1
                else:
                    res.append(p)
        self.decided += 1
        if not res:
            return
        out = self.box_refute(res, tol)
        left = out
        if not left:
            return
        hard = 0
        for p in left[:40]:
            zp = Y.p_z3(p)
            t = Y.zq(Y.q(tol))
            r, m = self._query([z3.Or(zp > t, zp < -t)], timeout=self.timeout if hard < 3 else self.timeout // 5)
            if r == z3.sat:
                self.failed.add(msg)
                self.add_candidate(msg, self.variants(m, p, tol))
                return
            if r == z3.unknown:
                hard += 1
                g = self.numeric_guess(p, tol)
                if g is not None:
                    self.failed.add(msg)
                    self.candidates.append((msg + " (numeric model)", g))
                    return
                if hard > 6:
                    break
        rest = left[40:] if not hard else []
        while rest:
            part, rest = rest[:40], rest[40:]
            t = Y.zq(Y.q(tol))
            r, m = self._query([z3.Or(*[z3.Or(Y.p_z3(p) > t, Y.p_z3(p) < -t) for p in part])])
            if r == z3.sat:
                self.failed.add(msg)
                self.add_candidate(msg, self.variants(m, None, tol))
                return
            if r == z3.unknown:
                hard += 1
                break
        if hard:
            self.incon.append(f"{msg}: {hard} of {len(left)} residuals undecided")
            self.decided -= 1

    def intervals(self):
        """Interval of an atom (None = unbounded), memoised per call."""
        Y = self.Y
        memo = {}

        def iv_atom(i):
            if i in memo:
                return memo[i]
            memo[i] = (None, None)
            at = Y.S.atoms[i]
            lo, hi = at.lo, at.hi
            if at.kind == "sqrt" and at.data is not None:
                l2, h2 = iv_poly(at.data)
                lo = Y.ZERO if l2 is None or l2 <= 0 else Y.mpq(math.sqrt(l2)) * Y.mpq(999999, 1000000)
                hi = None if h2 is None or h2 < 0 else Y.mpq(math.sqrt(h2)) * Y.mpq(1000001, 1000000) + Y.mpq(1, 10**12)
            elif at.kind == "ite":
                (l2, h2), (l3, h3) = iv_poly(at.data[1]), iv_poly(at.data[2])
                if l2 is not None and l3 is not None:
                    lo, hi = min(l2, l3), max(h2, h3)
            elif at.kind == "exp" and at.data[0] == "exp":
                l2, h2 = iv_poly(at.data[1][0])
                if l2 is not None and abs(l2) < 500 and abs(h2) < 500:
                    lo, hi = Y.mpq(math.exp(l2)) * Y.mpq(999999, 1000000), Y.mpq(math.exp(h2)) * Y.mpq(1000001, 1000000)
            elif at.kind == "inv":
                l2, h2 = iv_poly(at.data)
                if l2 is not None and l2 > 0:
                    hi = 1 / l2
                    lo = 1 / h2 if h2 is not None else Y.ZERO
                elif h2 is not None and h2 < 0:
                    lo = 1 / h2
                    hi = 1 / l2 if l2 is not None else Y.ZERO
            memo[i] = (lo, hi)
            return memo[i]

        def iv_mono(m):
            lo, hi = Y.ONE, Y.ONE
            for a, e in m:
                l, h = iv_atom(a)
                if e < 0:
                    if l is not None and l > 0:
                        l, h = (Y.ZERO if h is None else 1 / h), 1 / l
                    else:
                        return None, None
                    e = -e
                if l is None or h is None:
                    return None, None
                if e % 2 == 0:
                    c = sorted([abs(l) ** e, abs(h) ** e])
                    l2, h2 = (Y.ZERO if l <= 0 <= h else c[0]), c[1]
                else:
                    l2, h2 = l**e, h**e
                c = [lo * l2, lo * h2, hi * l2, hi * h2]
                lo, hi = min(c), max(c)
            return lo, hi

        def iv_poly(p):
            lo = hi = Y.ZERO
            for m, c in p.items():
                l, h = iv_mono(m)
                if l is None:
                    return None, None
                a, b = l * c, h * c
                lo, hi = lo + min(a, b), hi + max(a, b)
            return lo, hi

        return iv_mono, iv_poly, iv_atom

    def box_refute(self, res, tol):
        """Residuals whose |.|>tol is refuted by z3 over the monomial box relaxation."""
        import z3

        Y = self.Y
        iv_mono, iv_poly, iv_atom = self.intervals()
        left = []
        t = Y.q(tol)
        batch = []
        for p in res:
            ok = True
            cons, terms = {}, []
            for m, c in p.items():
                if m == ():
                    terms.append(Y.zq(c))
                    continue
                l, h = iv_mono(m)
                if l is None:
                    ok = False
                    break
                v = z3.Real("m" + "_".join(f"{a}e{e}" for a, e in m))
                cons[v] = (l, h)
                terms.append(Y.zq(c) * v)
            if not ok:
                left.append(p)
                continue
            batch.append((p, cons, z3.Sum(terms) if len(terms) > 1 else terms[0]))
        for i in range(0, len(batch), 64):
            grp = batch[i:i + 64]
            s = z3.SolverFor("QF_LRA")
            s.set("timeout", 10000)
            ors = []
            allc = {}
            for p, cons, zp in grp:
                allc.update(cons)
                ors.append(z3.Or(zp > Y.zq(t), zp < -Y.zq(t)))
            for v, (l, h) in allc.items():
                s.add(v >= Y.zq(l), v <= Y.zq(h))
            s.add(z3.Or(ors))
            tt = time.time()
            r = s.check()
            self.stats.solver_s += time.time() - tt
            self.stats.queries += 1
            setattr(self.stats, str(r), getattr(self.stats, str(r)) + 1)
            if r == z3.unsat:
                continue
            # one by one
            for p, cons, zp in grp:
                s = z3.SolverFor("QF_LRA")
                s.set("timeout", 10000)
                for v, (l, h) in cons.items():
                    s.add(v >= Y.zq(l), v <= Y.zq(h))
                s.add(z3.Or(zp > Y.zq(t), zp < -Y.zq(t)))
                tt = time.time()
                r = s.check()
                self.stats.solver_s += time.time() - tt
                self.stats.queries += 1
                setattr(self.stats, str(r), getattr(self.stats, str(r)) + 1)
                if r != z3.unsat:
                    left.append(p)
        return left

    # -- models
    def any_inputs(self):
        import z3

        r, m = self._query([])
        return self.inputs_of(m) if r == z3.sat else self.random_inputs()

    def variants(self, model, p=None, tol=None):
        """Concrete assignments to try for one model (angles: from cos/sin or as they are)."""
        out = [self.inputs_of(model)]
        if any(k[0] == "angle" for k in self.vars.values()):
            raw = self.inputs_of(model, raw=True)
            if raw != out[0]:
                out.append(raw)
        if p is not None:
            g = self.numeric_guess(p, tol)
            if g is not None:
                out.append(g)
        return out

    def add_candidate(self, msg, inputs):
        for i in inputs if isinstance(inputs, list) else [inputs]:
            self.candidates.append((msg, i))

    def inputs_of(self, model, raw=False):
        import z3

        Y = self.Y
        out = {}

        def val(e):
            v = model.eval(e, model_completion=True)
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            if z3.is_int_value(v):
                return v.as_long()
            if z3.is_rational_value(v):
                return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
            if z3.is_true(v):
                return True
            if z3.is_false(v):
                return False
            return 0.0

        for name, (kind, v, lo, hi) in self.vars.items():
            if kind == "int":
                out[name] = val(v.e)
            elif kind == "bool":
                out[name] = val(v.z)
            else:
                (m, _), = v.p.items()
                aid = m[0][0]
                if kind == "angle" and not raw and ("cos", aid) in Y.S.by_key:
                    c = val(Y.S.by_key[("cos", aid)].z3)
                    s = val(Y.S.by_key[("sin", aid)].z3)
                    a = math.atan2(s, c)
                    while lo is not None and a < float(lo) - 1e-12:
                        a += 2 * math.pi
                    out[name] = a
                else:
                    out[name] = val(Y.S.atoms[aid].z3)
        return out

    def random_inputs(self):
        out = {}
        for name, (kind, v, lo, hi) in self.vars.items():
            if kind == "int":
                out[name] = self.rng.randint(lo, hi)
            elif kind == "bool":
                out[name] = self.rng.random() < 0.5
            else:
                l = -1.0 if lo is None else float(lo)
                h = l + 2.0 if hi is None else float(hi)
                out[name] = self.rng.uniform(l, h)
        return out

    def assignment_ok(self, inp):
        """Does the concrete assignment satisfy the path condition (numerically)?"""
        ev = Evaluator(self.Y, self.vars, inp)
        try:
            return all(ev.zbool(e) for e in self.path.pc)
        except (ZeroDivisionError, ValueError, KeyError, OverflowError):
            return False

    def numeric_guess(self, p, tol, n=60):
        """A concrete assignment on this path with |p|>tol (only a candidate: it is replayed)."""
        for _ in range(n):
            inp = self.random_inputs()
            if not self.assignment_ok(inp):
                continue
            try:
                v = Evaluator(self.Y, self.vars, inp).poly(p)
            except (ZeroDivisionError, ValueError, KeyError, OverflowError):
                continue
            if abs(v) > tol:
                return inp
        return None

    def witness(self):
        """Inputs that follow this path (reachability twin)."""
        import z3

        end = time.time() + 2
        for _ in range(200):
            inp = self.random_inputs()
            if self.assignment_ok(inp):
                return inp, True
            if time.time() > end:
                break
        # mix: pin as many as possible is too slow; any model will do
        r, m = self._query([])
        if r == z3.sat:
            v = self.variants(m)
            for i in v:
                if self.assignment_ok(i):
                    return i, True
            return v[0], False
        return None, r != z3.unsat

    def guess(self):
        """Inputs, for want of ones known to follow this path."""
        return self.random_inputs()

    def reach(self):
        self.reached = True


class Evaluator:
    """Numerical value of symbolic terms under concrete inputs."""

    def __init__(self, Y, vars_, inp):
        self.Y = Y
        self.memo = {}
        self.zmemo = {}
        self.vals = {}
        for name, (kind, v, lo, hi) in vars_.items():
            x = inp.get(name)
            self.vals[name] = x

    def atom(self, i):
        if i in self.memo:
            return self.memo[i]
        Y = self.Y
        at = Y.S.atoms[i]
        k = at.kind
        if k == "var":
            v = float(self.vals.get(at.name, 0.0) if self.vals.get(at.name) is not None else 0.0)
        elif k == "sqrt":
            v = math.sqrt(max(self.poly(at.data), 0.0))
        elif k == "inv":
            v = 1.0 / self.poly(at.data)
        elif k in ("cos", "sin"):
            ref = at.data if k == "cos" else Y.S.atoms[at.data].data
            if isinstance(ref, int):
                x = self.atom(ref)
            else:
                x = self.poly(dict(ref[0]))
            v = math.cos(x) if k == "cos" else math.sin(x)
        elif k == "bool":
            v = 1.0 if self.zbool(at.data) else 0.0
        elif k == "int":
            v = float(self.zint(at.data, at))
        elif k == "ite":
            v = self.poly(at.data[1]) if self.zbool(at.data[0]) else self.poly(at.data[2])
        elif k in ("exp", "uf"):
            name, polys = at.data
            a = [self.poly(p) for p in polys]
            if name.startswith("pow") and name != "pow":
                v = float(Fraction(name[3:])) ** a[0]
            else:
                v = {
                    "exp": math.exp, "log": math.log, "log10": math.log10, "log2": math.log2,
                    "arccos": math.acos, "arcsin": math.asin, "arctan": math.atan, "atan2": math.atan2,
                    "pow": lambda x, y: x**y,
                }[name](*a)
        else:
            raise KeyError(k)
        self.memo[i] = v
        return v

    def poly(self, p):
        t = 0.0
        for m, c in p.items():
            x = float(c)
            for a, e in m:
                x *= self.atom(a) ** e
            t += x
        return t

    def zint(self, e, at=None):
        return round(self.zval(e))

    def zbool(self, e):
        return bool(self.zval(e))

    def zval(self, e):
        import z3

        i = e.get_id()
        if i in self.zmemo:
            return self.zmemo[i]
        v = self._zval(e)
        self.zmemo[i] = v
        return v

    def _zval(self, e):
        import z3

        Y = self.Y
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_rational_value(e):
            return float(Fraction(e.numerator_as_long(), e.denominator_as_long()))
        k = e.decl().kind()
        ch = e.children()
        if not ch:
            n = e.decl().name()
            if n in self.vals:
                x = self.vals[n]
                return x if x is not None else 0
            names = Y.S.by_key.setdefault("__names__", {})
            if len(names) != len(Y.S.atoms):
                for a in Y.S.atoms[len(names):]:
                    names[a.z3.decl().name()] = a.id
            if n in names:
                return self.atom(names[n])
            links = Y.S.by_key.get("__intlinks__", {})
            if n in links:
                return self._linked(links[n])
            raise KeyError(n)
        if k == z3.Z3_OP_AND:
            return all(self.zval(c) for c in ch)
        if k == z3.Z3_OP_OR:
            return any(self.zval(c) for c in ch)
        if k == z3.Z3_OP_NOT:
            return not self.zval(ch[0])
        if k == z3.Z3_OP_IMPLIES:
            return (not self.zval(ch[0])) or self.zval(ch[1])
        if k == z3.Z3_OP_XOR:
            return bool(self.zval(ch[0])) != bool(self.zval(ch[1]))
        if k == z3.Z3_OP_ITE:
            return self.zval(ch[1]) if self.zval(ch[0]) else self.zval(ch[2])
        v = [self.zval(c) for c in ch]
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
            if isinstance(v[0], float) or isinstance(v[1], float):
                return abs(v[0] - v[1]) <= 1e-12 * max(1.0, abs(v[0]))
            return v[0] == v[1]
        if k == z3.Z3_OP_DISTINCT:
            return v[0] != v[1]
        if k == z3.Z3_OP_LE:
            return v[0] <= v[1]
        if k == z3.Z3_OP_LT:
            return v[0] < v[1]
        if k == z3.Z3_OP_GE:
            return v[0] >= v[1]
        if k == z3.Z3_OP_GT:
            return v[0] > v[1]
        if k == z3.Z3_OP_ADD:
            return sum(v)
        if k == z3.Z3_OP_SUB:
            r = v[0]
            for x in v[1:]:
                r -= x
            return r
        if k == z3.Z3_OP_MUL:
            r = 1
            for x in v:
                r *= x
            return r
        if k == z3.Z3_OP_UMINUS:
            return -v[0]
        if k == z3.Z3_OP_DIV:
            return v[0] / v[1]
        if k == z3.Z3_OP_POWER:
            return v[0] ** v[1]
        if k == z3.Z3_OP_IDIV:
            return v[0] // v[1] if v[1] > 0 else -(v[0] // -v[1])
        if k == z3.Z3_OP_MOD:
            return v[0] % abs(v[1])
        if k == z3.Z3_OP_TO_REAL:
            return float(v[0])
        if k == z3.Z3_OP_TO_INT:
            return math.floor(v[0])
        raise KeyError(f"z3 op {e.decl()}")

    def _linked(self, aid):
        at = self.Y.S.atoms[aid]
        # floor / round / trunc atoms: recover from their key
        for key, a in self.Y.S.by_key.items():
            if a is at and isinstance(key, tuple):
                if key[0] == "floor":
                    return math.floor(self.poly(dict(key[1])))
                if key[0] in ("round", "intof"):
                    return round(self.poly(dict(key[1])))
        raise KeyError("linked int")

    def value(self, x):
        Y = self.Y
        if isinstance(x, Y.SymBool):
            return complex(1.0 if self.zbool(x.z) else 0.0)
        if isinstance(x, Y.SymInt):
            return complex(self.zval(x.e))
        if isinstance(x, Y.SymReal):
            return complex(self.poly(x.p))
        if isinstance(x, Y.SymComplex):
            return complex(self.value(x.re).real, self.value(x.im).real)
        return complex(x)
