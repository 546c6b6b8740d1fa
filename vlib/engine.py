"""Symbolic scalars for lifted execution.

The real menpofit code is executed on numpy object arrays whose elements are
the classes below.  A real scalar ``R`` is a quotient  n / (f1^k1 ... fm^km)
of a z3 term by z3 terms known (assumed) to be non-zero; square roots,
logarithms, trigonometric functions, absolute values ... become fresh z3
variables with their defining constraints.  Boolean conditions become z3
terms; Python control flow on them forks the execution (``Ctx.decide``).
"""
import sys
import time
import random
import hashlib
from fractions import Fraction

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)

import numpy as np  # noqa: E402  (from /opt/venv)
import z3  # noqa: E402

P = (1 << 61) - 1


class EngineAbort(BaseException):
    """Control-flow exceptions of the engine (never caught by real code)."""


class PathInfeasible(EngineAbort):
    pass


class PathBudget(EngineAbort):
    pass


class Unsupported(Exception):
    """The lifted execution met an operation the engine cannot encode."""


def h61(*parts):
    d = hashlib.blake2b(repr(parts).encode(), digest_size=8).digest()
    return int.from_bytes(d, 'little') % P


CTX = None


def ctx():
    if CTX is None:
        raise Unsupported('symbolic value used outside of a symbolic run')
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


def _q(fr):
    return z3.RealVal(fr)


_CONST_TYPES = (int, float, Fraction, np.integer, np.floating, bool, np.bool_)


def to_fraction(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    x = float(x)
    if x != x or x in (float('inf'), float('-inf')):
        raise Unsupported('non finite constant in symbolic arithmetic')
    return Fraction(x)


# --------------------------------------------------------------------------
class B(object):
    """Symbolic boolean."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().decide(self.t)

    def __and__(self, o):
        return B(z3.And(self.t, bt(o)))
    __rand__ = __and__

    def __or__(self, o):
        return B(z3.Or(self.t, bt(o)))
    __ror__ = __or__

    def __invert__(self):
        return B(z3.Not(self.t))

    def logical_not(self):
        return B(z3.Not(self.t))

    def __eq__(self, o):
        return B(self.t == bt(o))

    def __ne__(self, o):
        return B(self.t != bt(o))
    __hash__ = None

    def ravel(self):
        a = np.empty(1, dtype=object)
        a[0] = self
        return a

    def any(self, *a, **k):
        return self

    all = any

    # arithmetic use of booleans (np.sum of conditions, bool / float)
    def as_real(self):
        return R.make(z3.If(self.t, _q(1), _q(0)),
                      h61('ite01', z3.Z3_get_ast_hash(self.t.ctx_ref(), self.t.as_ast()), self.t.get_id()))

    def __add__(self, o):
        return self.as_real() + (o.as_real() if isinstance(o, B) else o)
    __radd__ = __add__

    def __mul__(self, o):
        return self.as_real() * (o.as_real() if isinstance(o, B) else o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self.as_real() / o

    def __repr__(self):
        return 'B(%s)' % (self.t,)


def bt(x):
    if isinstance(x, B):
        return x.t
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, R):
        return (x != 0).t
    return z3.BoolVal(bool(x))


def band(*xs):
    return B(z3.And([bt(x) for x in xs]))


def bor(*xs):
    return B(z3.Or([bt(x) for x in xs]))


def bnot(x):
    return B(z3.Not(bt(x)))


def implies(a, b):
    return B(z3.Implies(bt(a), bt(b)))


# --------------------------------------------------------------------------
# denominators: dict  fp -> (term, fp, positive?)  with exponents
class R(object):
    """Symbolic real  n / prod(f^k)."""
    __slots__ = ('n', 'fp', 'c', 'den', 'isint')

    def __init__(self, n, fp, c=None, den=(), isint=False):
        self.n = n
        self.fp = fp          # fingerprint of the numerator (mod P)
        self.c = c            # Fraction when constant (then n is None)
        self.den = den        # tuple of (key, exp), sorted by key
        self.isint = isint

    # -- constructors
    @staticmethod
    def const(x):
        f = to_fraction(x)
        return R(None, f.numerator * pow(f.denominator, -1, P) % P, f)

    @staticmethod
    def make(t, fp, den=(), isint=False):
        return R(t, fp % P, None, den, isint)

    def t_n(self):
        return _q(self.c) if self.c is not None else self.n

    @property
    def is_const(self):
        return self.c is not None

    # -- helpers
    def den_term(self):
        fac = ctx().factors
        t = None
        for k, e in self.den:
            f = fac[k][0]
            for _ in range(e):
                t = f if t is None else t * f
        return t

    def den_fp(self):
        r = 1
        for k, e in self.den:
            r = r * pow(k, e, P) % P
        return r

    def full_fp(self):
        if not self.den:
            return self.fp
        return self.fp * pow(self.den_fp(), -1, P) % P

    def term(self):
        """z3 term of the value (may contain a division)."""
        if self.c is not None:
            return _q(self.c)
        if not self.den:
            return self.n
        return self.n / self.den_term()

    @staticmethod
    def _lcm(a, b):
        if a == b:
            return a
        d = dict(a)
        for k, e in b:
            if d.get(k, 0) < e:
                d[k] = e
        return tuple(sorted(d.items()))

    @staticmethod
    def _missing(full, part):
        d = dict(full)
        for k, e in part:
            d[k] -= e
        return [(k, e) for k, e in d.items() if e]

    def _scaled(self, full):
        """numerator term/fp over the denominator ``full``."""
        t, fp = self.t_n(), self.fp
        if self.den == full:
            return t, fp
        fac = ctx().factors
        for k, e in self._missing(full, self.den):
            for _ in range(e):
                f = fac[k][0]
                if self.c is not None and self.c == 1 and t is not None and z3.is_rational_value(t):
                    t = f
                else:
                    t = t * f
                fp = fp * k % P
        return t, fp

    # -- arithmetic
    def _co(self, o):
        if isinstance(o, R):
            return o
        if isinstance(o, _CONST_TYPES):
            return R.const(o)
        if isinstance(o, B):
            return o.as_real()
        return None

    def __add__(self, o):
        if isinstance(o, (complex, np.complexfloating)):
            return Cx(self, 0) + o
        o = self._co(o)
        if o is None:
            return NotImplemented
        if self.c is not None:
            if o.c is not None:
                return R.const(self.c + o.c)
            if self.c == 0:
                return o
        elif o.c is not None and o.c == 0:
            return self
        isint = self.is_int() and o.is_int()
        full = R._lcm(self.den, o.den)
        ta, fa = self._scaled(full)
        tb, fb = o._scaled(full)
        fp = (fa + fb) % P
        if self.c is None and o.c is None and self.den == o.den and fp == 0:
            t = z3.simplify(ta + tb, som=True)
            if z3.is_rational_value(t) and t.as_fraction() == 0:
                return R.const(0)
        return R(ta + tb, fp, None, full, isint)

    __radd__ = __add__

    def is_int(self):
        return self.isint or (self.c is not None and self.c.denominator == 1)

    def __neg__(self):
        if self.c is not None:
            return R.const(-self.c)
        return R(-self.n, (-self.fp) % P, None, self.den, self.isint)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, (complex, np.complexfloating)):
            return Cx(self, 0) - o
        o = self._co(o)
        if o is None:
            return NotImplemented
        if self.c is None and (o is self or (
                o.c is None and o.fp == self.fp and o.den == self.den and o.n.eq(self.n))):
            return R.const(0)
        return self + (-o)

    def __rsub__(self, o):
        if isinstance(o, (complex, np.complexfloating)):
            return Cx(-self, 0) + o
        if isinstance(o, list):   # list - numpy scalar broadcasts
            from .symnp import obj
            return obj(o) - self
        o = self._co(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        if isinstance(o, (complex, np.complexfloating)):
            return Cx(self, 0) * o
        o = self._co(o)
        if o is None:
            return NotImplemented
        if self.c is not None and o.c is not None:
            return R.const(self.c * o.c)
        if self.c is not None:
            self, o = o, self
        if o.c is not None:
            if o.c == 0:
                return R.const(0)
            if o.c == 1:
                return self
            return R(self.n * _q(o.c), self.fp * o.fp % P, None, self.den,
                     self.isint and o.is_int())
        # cancel a numerator that is exactly a denominator factor
        a, b = self, o
        r = _cancel(a, b)
        if r is not None:
            return r
        r = _cancel(b, a)
        if r is not None:
            return r
        d = dict(a.den)
        for k, e in b.den:
            d[k] = d.get(k, 0) + e
        return R(a.n * b.n, a.fp * b.fp % P, None, tuple(sorted(d.items())),
                 a.isint and b.isint)

    __rmul__ = __mul__

    def reciprocal(self):
        if self.c is not None:
            if self.c == 0:
                raise ZeroDivisionError('division by zero')
            return R.const(1 / self.c)
        C = ctx()
        k = C.factor(self.n, self.fp)
        t, fp = None, 1
        for kk, e in self.den:
            for _ in range(e):
                f = C.factors[kk][0]
                t = f if t is None else t * f
                fp = fp * kk % P
        den = ((k, 1),)
        if t is None:
            return R(_q(1), 1, None, den)
        return R(t, fp, None, den)

    def __truediv__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if o is self and self.c is None:
            ctx().factor(self.n, self.fp)
            return R.const(1)
        return self * o.reciprocal()

    def __rtruediv__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return o * self.reciprocal()

    def __floordiv__(self, o):
        return (self / o).floor()

    def __rfloordiv__(self, o):
        return (o / self).floor()

    def __mod__(self, o):
        o = self._co(o)
        return self - o * (self / o).floor()

    def __pow__(self, o):
        if isinstance(o, R):
            if o.c is None:
                raise Unsupported('symbolic exponent')
            o = o.c
        o = to_fraction(o)
        if o.denominator == 2:
            return self.sqrt() ** int(o * 2)
        if o.denominator != 1:
            raise Unsupported('fractional power')
        n = int(o)
        if n < 0:
            return self.reciprocal() ** (-n)
        r = R.const(1)
        for _ in range(n):
            r = r * self
        return r

    def __rpow__(self, o):
        raise Unsupported('symbolic exponent')

    def __abs__(self):
        if self.c is not None:
            return R.const(abs(self.c))
        C = ctx()
        if not self.den and self.fp in C.pos_fps:
            return self
        fp = h61('abs', min(self.full_fp(), P - self.full_fp()))
        if self.den:
            num = R(self.n, self.fp)
            d = R.const(1)
            for k, e in self.den:
                f, pos = C.factors[k]
                ff = R(f, k)
                if e % 2 and not pos:
                    ff2 = abs(ff)
                    d = d * ff2
                    for _ in range(e - 1):
                        d = d * ff
                else:
                    for _ in range(e):
                        d = d * ff
            return abs(num) / d
        hit = C.memo.get(('abs', fp))
        if hit is not None:
            return hit
        v = C.fresh('abs')
        C.side_add(v, z3.And(v >= 0, z3.Or(v == self.n, v == -self.n)))
        r = R(v, fp, isint=self.isint)
        C.memo[('abs', fp)] = r
        return r

    # -- comparisons
    def _cmp(self, o):
        """(term of self - o with positive multiplier)"""
        d = self - o
        if d.c is not None:
            return d.c
        t = d.n
        fac = ctx().factors
        for k, e in d.den:
            f, pos = fac[k]
            if e % 2 and not pos:
                t = t * f
        return t

    def __lt__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        t = self._cmp(o)
        return (t < 0) if isinstance(t, Fraction) else B(t < 0)

    def __le__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        t = self._cmp(o)
        return (t <= 0) if isinstance(t, Fraction) else B(t <= 0)

    def __gt__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        t = self._cmp(o)
        return (t > 0) if isinstance(t, Fraction) else B(t > 0)

    def __ge__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        t = self._cmp(o)
        return (t >= 0) if isinstance(t, Fraction) else B(t >= 0)

    def __eq__(self, o):
        o = self._co(o)
        if o is None:
            return False
        d = self - o
        if d.c is not None:
            return d.c == 0
        return B(d.n == 0)

    def __ne__(self, o):
        o = self._co(o)
        if o is None:
            return True
        d = self - o
        if d.c is not None:
            return d.c != 0
        return B(d.n != 0)

    __hash__ = object.__hash__

    def __bool__(self):
        if self.c is not None:
            return self.c != 0
        return ctx().decide(self.n != 0)

    def __float__(self):
        if self.c is not None:
            return float(self.c)
        raise Unsupported('float() of a symbolic value')

    def __int__(self):
        if self.c is not None:
            return int(self.c)
        f = self.trunc()
        return ctx().concretise_int(f)

    def __index__(self):
        if self.c is not None and self.c.denominator == 1:
            return int(self.c)
        if self.isint:
            return ctx().concretise_int(self)
        raise TypeError('non integer symbolic value used as an index')

    def __complex__(self):
        return complex(float(self))

    def __ceil__(self):
        return int(self.ceil())

    def __floor__(self):
        return int(self.floor())

    def __trunc__(self):
        return int(self)

    def __divmod__(self, o):
        return self // o, self % o

    def __round__(self, n=None):
        if n:
            raise Unsupported('round to digits')
        return self.rint()

    # -- numpy object ufunc hooks
    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return R.const(0)

    def sqrt(self):
        C = ctx()
        if self.c is not None:
            c = self.c
            if c < 0:
                raise Unsupported('sqrt of a negative constant')
            import math
            p, q = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if p * p == c.numerator and q * q == c.denominator:
                return R.const(Fraction(p, q))
            if getattr(C, 'round_constants', False):
                return R.const(Fraction(math.sqrt(c)))
        full = self.full_fp()
        key = ('sqrt', full)
        hit = C.memo.get(key)
        if hit is not None:
            return hit
        # sqrt(n/d): s>=0, s*s*d == n
        v = C.fresh('sqrt')
        d = self.den_term()
        n = self.t_n()
        C.side_add(v, z3.And(v >= 0, (v * v if d is None else v * v * d) == n))
        r = R(v, h61('sqrt', full))
        C.memo[key] = r
        C.pos_fps.add(r.fp)
        C.opaque[r.fp] = ('sqrt', self)
        return r

    def _opaque(self, name, axioms=None):
        C = ctx()
        full = self.full_fp()
        key = (name, full)
        hit = C.memo.get(key)
        if hit is not None:
            return hit
        v = C.fresh(name)
        r = R(v, h61(name, full))
        C.memo[key] = r
        C.opaque[r.fp] = (name, self)
        C.partial_opaque = True
        if axioms is not None:
            C.side_add(v, axioms(v))
        return r

    def log(self):
        if self.c is not None and self.c == 1:
            return R.const(0)
        return self._opaque('log')

    def exp(self):
        if self.c is not None and self.c == 0:
            return R.const(1)
        r = self._opaque('exp', lambda v: v > 0)
        ctx().pos_fps.add(r.fp)
        return r

    def _trig(self):
        C = ctx()
        if self.c is not None and self.c == 0:
            return R.const(1), R.const(0)
        full = self.full_fp()
        neg = (-full) % P
        hit = C.memo.get(('trig', full))
        if hit is not None:
            return hit
        hit = C.memo.get(('trig', neg))
        if hit is not None:
            return hit[0], -hit[1]
        c, s = C.fresh('cos'), C.fresh('sin')
        C.side_add(c, c * c + s * s == 1)
        C.side_add(s, c * c + s * s == 1)
        out = (R(c, h61('cos', full)), R(s, h61('sin', full)))
        C.memo[('trig', full)] = out
        C.opaque[out[0].fp] = ('cos', self)
        C.opaque[out[1].fp] = ('sin', self)
        C.partial_opaque = True
        return out

    def cos(self):
        return self._trig()[0]

    def sin(self):
        return self._trig()[1]

    def floor(self):
        C = ctx()
        if self.c is not None:
            return R.const(self.c.numerator // self.c.denominator)
        if self.isint:
            return self
        full = self.full_fp()
        hit = C.memo.get(('floor', full))
        if hit is not None:
            return hit
        i = z3.Int('floor!%d' % C.next_id())
        v = z3.ToReal(i)
        d = self - R(v, h61('floor', full))
        t = d.n
        den = d.den
        if den:
            raise Unsupported('floor of a quotient')
        C.side_add(i, z3.And(t >= 0, t < 1))
        r = R(v, h61('floor', full), isint=True)
        C.memo[('floor', full)] = r
        return r

    def ceil(self):
        return -((-self).floor())

    def trunc(self):
        if self.c is not None:
            return R.const(int(self.c))
        if self.isint:
            return self
        f = self.floor()
        return ite(self >= 0, f, self.ceil())

    def rint(self):
        """round half to even"""
        if self.c is not None:
            return R.const(round(self.c))
        if self.isint:
            return self
        C = ctx()
        f = (self + Fraction(1, 2)).floor()
        full = self.full_fp()
        # if exactly half and f odd -> f-1
        half = z3.Int('half!%d' % C.next_id())
        C.side_add(half, z3.And((f.n - 2 * z3.ToReal(half)) >= 0,
                                (f.n - 2 * z3.ToReal(half)) <= 1))
        tie = z3.And((self + Fraction(1, 2) - f).t_n() == 0,
                     (f.n - 2 * z3.ToReal(half)) == 1)
        r = R(z3.If(tie, f.n - 1, f.n), h61('rint', full), isint=True)
        return r

    def isfinite(self):
        return True

    def isnan(self):
        return False

    def __repr__(self):
        if self.c is not None:
            return 'R(%s)' % self.c
        s = str(self.n)
        if len(s) > 60:
            s = s[:57] + '...'
        return 'R(%s)' % s

    def __format__(self, spec):
        if self.c is not None:
            if spec == '' and self.c.denominator == 1:
                return str(int(self.c))
            return format(float(self.c), spec)
        return repr(self)

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _cancel(a, b):
    """a.n is a denominator factor of b -> cancel."""
    if b.den and not a.den:
        for idx, (k, e) in enumerate(b.den):
            if k == a.fp:
                nd = list(b.den)
                if e == 1:
                    nd.pop(idx)
                else:
                    nd[idx] = (k, e - 1)
                # (numerator 1 folds to a constant when possible)
                if not nd and z3.is_rational_value(b.n):
                    return R.const(Fraction(b.n.as_fraction()))
                return R(b.n, b.fp, None, tuple(nd))
            if (P - k) % P == a.fp:
                r = _cancel(R(-a.n, k), b)
                return -r
    return None


def ite(c, a, b):
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    t = z3.simplify(c.t)
    if z3.is_true(t):
        return a
    if z3.is_false(t):
        return b
    if isinstance(a, Dual) or isinstance(b, Dual):
        a, b = Dual.lift(a), Dual.lift(b)
        return Dual(ite(c, a.v, b.v), ite(c, a.d, b.d))
    a = a if isinstance(a, R) else R.const(a)
    b = b if isinstance(b, R) else R.const(b)
    full = R._lcm(a.den, b.den)
    ta, fa = a._scaled(full)
    tb, fb = b._scaled(full)
    return R(z3.If(t, ta, tb), h61('ite', t.get_id(), fa, fb), None, full,
             a.is_int() and b.is_int())


def smax(a, b):
    return ite(as_b(a >= b), a, b)


def smin(a, b):
    return ite(as_b(a <= b), a, b)


def as_b(x):
    return x if isinstance(x, B) else B(z3.BoolVal(bool(x)))


class FloatR(R):
    """a symbolic real that passes for a float in type checks"""
    __slots__ = ()
    __class__ = property(lambda self: float)

    def __new__(cls, r):
        return object.__new__(cls)

    def __init__(self, r):
        R.__init__(self, r.n, r.fp, r.c, r.den, r.isint)


# --------------------------------------------------------------------------
class Cx(object):
    """Symbolic complex number."""
    __slots__ = ('re', 'im')

    def __init__(self, re, im=0):
        self.re = re
        self.im = im

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    @staticmethod
    def lift(o):
        if isinstance(o, Cx):
            return o
        if isinstance(o, (complex, np.complexfloating)):
            return Cx(R.const(float(o.real)), R.const(float(o.imag)))
        if isinstance(o, _CONST_TYPES) or isinstance(o, (R, Dual)):
            return Cx(o, 0)
        return None

    def conjugate(self):
        return Cx(self.re, -self.im)

    def __add__(self, o):
        o = Cx.lift(o)
        if o is None:
            return NotImplemented
        return Cx(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __sub__(self, o):
        o = Cx.lift(o)
        if o is None:
            return NotImplemented
        return Cx(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        return (-self) + o

    def __neg__(self):
        return Cx(-self.re, -self.im)

    def __mul__(self, o):
        o = Cx.lift(o)
        if o is None:
            return NotImplemented
        return Cx(self.re * o.re - self.im * o.im,
                  self.re * o.im + self.im * o.re)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Cx.lift(o)
        if o is None:
            return NotImplemented
        if (isinstance(o.im, (int, float)) and o.im == 0) or \
                (isinstance(o.im, R) and o.im.c is not None and o.im.c == 0):
            return Cx(self.re / o.re, self.im / o.re)
        m = o.re * o.re + o.im * o.im
        x = self * o.conjugate()
        return Cx(x.re / m, x.im / m)

    def __rtruediv__(self, o):
        return Cx.lift(o) / self

    def __abs__(self):
        m = self.re * self.re + self.im * self.im
        return m.sqrt() if isinstance(m, R) else R.const(m).sqrt()

    def __pow__(self, n):
        r = Cx(1, 0)
        for _ in range(int(n)):
            r = r * self
        return r

    def __eq__(self, o):
        o = Cx.lift(o)
        if o is None:
            return False
        return B(z3.And(bt(self.re == o.re), bt(self.im == o.im)))

    def __ne__(self, o):
        return ~(self == o)
    __hash__ = object.__hash__

    def __repr__(self):
        return 'Cx(%r,%r)' % (self.re, self.im)


# --------------------------------------------------------------------------
class Dual(object):
    """Forward-mode derivative v + d*eps (eps^2 = 0)."""
    __slots__ = ('v', 'd')

    def __init__(self, v, d=0):
        self.v = v
        self.d = d

    @staticmethod
    def lift(o):
        if isinstance(o, Dual):
            return o
        if isinstance(o, R) or isinstance(o, _CONST_TYPES):
            return Dual(o, 0)
        return None

    def __add__(self, o):
        o = Dual.lift(o)
        if o is None:
            return NotImplemented
        return Dual(self.v + o.v, self.d + o.d)
    __radd__ = __add__

    def __neg__(self):
        return Dual(-self.v, -self.d)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = Dual.lift(o)
        if o is None:
            return NotImplemented
        return Dual(self.v - o.v, self.d - o.d)

    def __rsub__(self, o):
        o = Dual.lift(o)
        if o is None:
            return NotImplemented
        return Dual(o.v - self.v, o.d - self.d)

    def __mul__(self, o):
        o = Dual.lift(o)
        if o is None:
            return NotImplemented
        return Dual(self.v * o.v, self.v * o.d + self.d * o.v)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Dual.lift(o)
        if o is None:
            return NotImplemented
        q = self.v / o.v
        return Dual(q, (self.d - q * o.d) / o.v)

    def __rtruediv__(self, o):
        return Dual.lift(o) / self

    def __pow__(self, n):
        if isinstance(n, (float, np.floating)) and n == 0.5:
            return self.sqrt()
        n = to_fraction(n if not isinstance(n, R) else n.c)
        if n.denominator != 1:
            raise Unsupported('fractional power of a dual')
        n = int(n)
        if n == 0:
            return Dual(1, 0)
        return Dual(self.v ** n, n * self.v ** (n - 1) * self.d)

    def sqrt(self):
        s = _np1(self.v, 'sqrt')
        if isinstance(self.d, (int, float)) and self.d == 0:
            return Dual(s, 0)
        return Dual(s, self.d / (2 * s))

    def log(self):
        return Dual(_np1(self.v, 'log'), self.d / self.v)

    def exp(self):
        e = _np1(self.v, 'exp')
        return Dual(e, self.d * e)

    def cos(self):
        return Dual(_np1(self.v, 'cos'), -self.d * _np1(self.v, 'sin'))

    def sin(self):
        return Dual(_np1(self.v, 'sin'), self.d * _np1(self.v, 'cos'))

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def __abs__(self):
        if self.v >= 0:
            return self
        return -self

    def _val(self, o):
        o = Dual.lift(o)
        return o.v

    def __lt__(self, o):
        return self.v < self._val(o)

    def __le__(self, o):
        return self.v <= self._val(o)

    def __gt__(self, o):
        return self.v > self._val(o)

    def __ge__(self, o):
        return self.v >= self._val(o)

    def __eq__(self, o):
        o = Dual.lift(o)
        return o is not None and self.v == o.v

    def __ne__(self, o):
        o = Dual.lift(o)
        return o is None or self.v != o.v
    __hash__ = object.__hash__

    def __bool__(self):
        return bool(self.v != 0)

    def __float__(self):
        return float(self.v)

    def __repr__(self):
        return 'Dual(%r,%r)' % (self.v, self.d)


def _np1(x, name):
    if hasattr(x, name):
        return getattr(x, name)()
    if isinstance(x, Fraction):
        x = float(x)
    return getattr(np, name)(x)


def is_sym(x):
    return isinstance(x, (R, B, Cx, Dual))


# --------------------------------------------------------------------------
class Claim(object):
    def __init__(self, name, status, detail='', model=None, how=''):
        self.name, self.status, self.detail = name, status, detail
        self.model, self.how = model, how


class Ctx(object):
    """One symbolic path."""

    def __init__(self, trail=(), seed=1, feas_timeout=2000,
                 claim_timeout=8000, stats=None):
        self.trail = list(trail)
        self.pos = 0
        self.pending = []          # alternative trails to explore
        self.vars = {}             # name -> (R, lo, hi)
        self.path = []             # path constraints (z3)
        self.side = []             # (defining var or None, constraint)
        self.assumed = []
        self.factors = {}          # fp -> (term, positive)
        self.pos_fps = set()
        self.memo = {}
        self.opaque = {}
        self.partial_opaque = False
        self._id = 0
        self.seed = seed
        self.feas_timeout = feas_timeout
        self.claim_timeout = claim_timeout
        self.stats = stats if stats is not None else Stats()
        self.claims = []
        self._feas = None
        self._feas_n = 0

    # -- variables
    def next_id(self):
        self._id += 1
        return self._id

    def fresh(self, base):
        return z3.Real('%s!%d' % (base, self.next_id()))

    def real(self, name, lo=None, hi=None, nz=False):
        if name in self.vars:
            raise ValueError('duplicate variable ' + name)
        v = z3.Real(name)
        r = R(v, h61('var', name))
        self.vars[name] = (r, lo, hi)
        if lo is not None:
            self.assume_t(v >= _q(to_fraction(lo)))
            if lo > 0:
                self.pos_fps.add(r.fp)
        if hi is not None:
            self.assume_t(v <= _q(to_fraction(hi)))
        if nz:
            self.assume_t(v != 0)
        return r

    def integer(self, name, lo, hi):
        i = z3.Int(name)
        r = R(z3.ToReal(i), h61('var', name), isint=True)
        self.vars[name] = (r, lo, hi)
        self.assume_t(z3.And(i >= int(lo), i <= int(hi)))
        return r

    def assume_t(self, t):
        self.assumed.append(t)
        self.path.append(t)

    def side_add(self, v, t):
        self.side.append((v, t))

    def factor(self, term, fp):
        """register ``term`` as an (assumed non-zero) denominator"""
        fp %= P
        if fp not in self.factors:
            if fp == 0 and z3.is_rational_value(z3.simplify(term, som=True)):
                raise ZeroDivisionError('division by zero')
            if fp == 0:
                # fingerprint 0 but not syntactically 0
                raise ZeroDivisionError('division by (identically) zero')
            self.factors[fp] = (term, fp in self.pos_fps)
            self.side.append((None, term != 0))
            self.stats.nonzero += 1
        return fp

    # -- solver
    def _solver(self, timeout):
        s = z3.Solver()
        s.set('timeout', int(timeout))
        s.set('random_seed', self.seed % (1 << 30))
        return s

    def _check(self, s):
        t = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        return r

    def all_constraints(self):
        return self.path + [c for _, c in self.side]

    def cone(self, terms):
        """path + side conditions reachable (through variables) from terms"""
        seen = set()
        todo = list(terms)
        names = set()
        while todo:
            x = todo.pop()
            names |= _varset(x)
        out = []
        rest = self.path + [c for _, c in self.side]
        rest = [(c, _varset(c)) for c in rest]
        changed = True
        while changed:
            changed = False
            nxt = []
            for c, vs in rest:
                if vs & names:
                    out.append(c)
                    if not vs <= names:
                        names |= vs
                        changed = True
                    else:
                        pass
                else:
                    nxt.append((c, vs))
            rest = nxt
        return out

    def feasible(self, cond):
        s = self._solver(self.feas_timeout)
        for c in self.cone([cond]):
            s.add(c)
        s.add(cond)
        return self._check(s)

    def decide(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.stats.branches += 1
        if self.pos < len(self.trail):
            v = self.trail[self.pos]
            self.pos += 1
            if v[0] == 'b':
                self.path.append(c if v[1] else z3.Not(c))
                return v[1]
            raise RuntimeError('trail mismatch')
        rt = self.feasible(c)
        rf = self.feasible(z3.Not(c))
        if rt == z3.unsat and rf == z3.unsat:
            raise PathInfeasible()
        if rt == z3.unsat:
            val = False
        elif rf == z3.unsat:
            val = True
        else:
            val = True
            self.pending.append(self.trail + [('b', False)])
        self.trail.append(('b', val))
        self.pos += 1
        if rt != z3.unsat and rf != z3.unsat:
            self.path.append(c if val else z3.Not(c))
        else:
            self.path.append(c if val else z3.Not(c))
        if len(self.trail) > 4000:
            raise PathBudget('too many decisions on one path')
        return val

    def concretise_int(self, r):
        """fork over the feasible integer values of r"""
        if r.c is not None:
            return int(r.c)
        self.stats.branches += 1
        t = r.n
        if self.pos < len(self.trail):
            v = self.trail[self.pos]
            self.pos += 1
            if v[0] == 'i':
                self.path.append(t == v[1])
                return v[1]
            if v[0] == 'ix':       # excluded values so far
                excl = v[1]
                self.trail.pop()
                self.pos -= 1
            else:
                raise RuntimeError('trail mismatch')
        else:
            excl = ()
        s = self._solver(self.feas_timeout)
        for c in self.all_constraints():
            s.add(c)
        for e in excl:
            s.add(t != e)
        res = self._check(s)
        if res == z3.unsat:
            raise PathInfeasible()
        if res != z3.sat:
            raise Unsupported('cannot concretise integer')
        val = s.model().eval(t, model_completion=True)
        f = val.as_fraction()
        if f.denominator != 1:
            raise Unsupported('non integer value')
        val = int(f)
        self.pending.append(self.trail + [('ix', excl + (val,))])
        self.trail.append(('i', val))
        self.pos += 1
        self.path.append(t == val)
        return val

    # -- claims
    def model_values(self, m):
        out = {}
        for name, (r, lo, hi) in self.vars.items():
            v = m.eval(r.n, model_completion=True)
            out[name] = _num(v)
        return out

    def refute(self, neg, budget=None):
        """Is  path & side & neg  satisfiable?  -> (status, values, how)"""
        budget = budget or self.claim_timeout
        neg = z3.simplify(neg)
        if z3.is_false(neg):
            self.stats.queries += 1
            s = self._solver(budget)
            s.add(neg)
            self._check(s)
            return 'unsat', None, 'rewriter'
        if self.path:
            # the branches taken may contradict it without any definition
            s = self._solver(min(1000, budget))
            for c in self.path:
                s.add(c)
            s.add(neg)
            if self._check(s) == z3.unsat:
                return 'unsat', None, 'smt'
        cone = self.cone([neg])
        s = self._solver(budget)
        for c in cone:
            s.add(c)
        s.add(neg)
        r = self._check(s)
        if r == z3.unsat:
            return 'unsat', None, 'smt'
        full = self.all_constraints() + [neg]
        if r == z3.sat:
            s2 = self._solver(budget)
            for c in full:
                s2.add(c)
            r2 = self._check(s2)
            if r2 == z3.unsat:
                return 'unsat', None, 'smt-full'
            if r2 == z3.sat:
                return 'sat', self.model_values(s2.model()), 'smt'
        # unknown, or sat on the cone but unknown in full
        t = z3.Tactic('qfnra-nlsat')
        s3 = t.solver()
        s3.set('timeout', int(budget))
        for c in full:
            s3.add(c)
        try:
            r3 = self._check(s3)
        except Exception:
            r3 = z3.unknown
        if r3 == z3.unsat:
            return 'unsat', None, 'nlsat'
        if r3 == z3.sat:
            return 'sat', self.model_values(s3.model()), 'nlsat'
        # slices: fix most inputs to seeded rationals, decide the rest
        rng = random.Random(self.seed * 7919 + 13)
        names = [n for n in self.vars]
        status, decided = 'unknown', 0
        for rnd in range(8):
            keep = set(rng.sample(names, min(len(names), 2 if rnd < 4 else 1)))
            sub = []
            for n in names:
                r_, lo, hi = self.vars[n]
                if n in keep or r_.isint:
                    continue
                l = -2 if lo is None else lo
                h = 2 if hi is None else hi
                l, h = to_fraction(l), to_fraction(h)
                val = l + (h - l) * Fraction(rng.randint(1, 31), 32)
                sub.append((r_.n, _q(val)))
            s4 = self._solver(max(1500, budget // 4))
            for c in full:
                s4.add(z3.substitute(c, *sub) if sub else c)
            for a, b in sub:
                s4.add(a == b)
            r4 = self._check(s4)
            if r4 == z3.sat:
                return 'sat', self.model_values(s4.model()), 'slice'
            if r4 == z3.unsat:
                decided += 1
        if decided:
            return 'sliced', None, '%d slices' % decided
        return 'unknown', None, 'timeout'


def _num(v):
    if z3.is_rational_value(v) or z3.is_int_value(v):
        f = v.as_fraction() if z3.is_rational_value(v) else Fraction(v.as_long())
        return float(f) if f.denominator != 1 else int(f)
    if z3.is_algebraic_value(v):
        f = v.approx(20)
        return float(f.as_fraction())
    return 0.0


_VS = {}


def _varset(t):
    """names of the uninterpreted constants of a z3 term (iterative, memo)"""
    key = t.get_id()
    hit = _VS.get(key)
    if hit is not None and hit[0].eq(t):
        return hit[1]
    seen = set()
    out = set()
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
        else:
            stack.extend(x.children())
    out = frozenset(out)
    _VS[key] = (t, out)
    return out


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.branches = 0
        self.paths = 0
        self.nonzero = 0
