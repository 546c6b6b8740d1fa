"""numpy proxy used while menpofit code runs on symbolic object arrays.

Every override falls back to the original function when no operand is
symbolic.  Stubs that stand for an environment contract (matrix inverse,
pseudo-inverse) are listed in ASSUMPTIONS.
"""
import types
from fractions import Fraction
import numpy as np
from . import engine as E
from .engine import R, B, Cx, Dual, Unsupported, is_sym, z3

ASSUMPTIONS = [
    'real arithmetic: Python/NumPy floats are treated as exact reals',
    'matrix inverse/solve: the matrix is non-singular; M=A^-1 is an opaque '
    'matrix constrained by A.M = M.A = I (same A -> same M)',
    'pinv/lstsq: the matrix has full rank',
    'divisions: the divisor is non-zero',
]


class SArr(np.ndarray):
    """object array that survives ``astype(float)``."""
    def __array_wrap__(self, arr, context=None, return_scalar=False):
        if arr.ndim == 0:
            return arr[()]
        return arr.view(SArr)

    def sum(self, *a, **k):
        r = np.ndarray.sum(self, *a, **k)
        return r[()] if isinstance(r, np.ndarray) and r.ndim == 0 else r

    def mean(self, axis=None, **k):
        n = self.size if axis is None else np.prod(
            [self.shape[i] for i in ((axis,) if isinstance(axis, int) else axis)])
        r = np.ndarray.sum(self, axis=axis, **k)
        r = r[()] if isinstance(r, np.ndarray) and r.ndim == 0 else r
        return r / int(n)

    def var(self, axis=None, **k):
        return var(self, axis, **k)

    def std(self, axis=None, **k):
        return std(self, axis, **k)

    def clip(self, min=None, max=None, **k):
        return clip(self, min, max, **k)

    @property
    def real(self):
        return emap(lambda x: x.re if isinstance(x, Cx) else x, self) if _complex(self) else self

    @property
    def imag(self):
        return emap(lambda x: x.im if isinstance(x, Cx) else R.const(0), self)

    def astype(self, dtype, *a, **k):
        try:
            isf = np.issubdtype(np.dtype(dtype), np.floating)
        except TypeError:
            isf = False
        if isf and has_sym(self):
            return self.copy()
        return np.ndarray.astype(self, dtype, *a, **k)


def _complex(a):
    return any(isinstance(x, Cx) for x in a.ravel().tolist())


def obj(a):
    """plain values -> object SArr"""
    a = np.asarray(a, dtype=object)
    return a.view(SArr)


def has_sym(a):
    if is_sym(a):
        return True
    if isinstance(a, np.ndarray):
        if a.dtype != object:
            return False
        return any(is_sym(x) for x in a.ravel().tolist()) if a.size else False
    if isinstance(a, (list, tuple)):
        return any(has_sym(x) for x in a)
    return False


def nonconst(a):
    if isinstance(a, R):
        return a.c is None
    if isinstance(a, Cx):
        return nonconst(a.re) or nonconst(a.im)
    if isinstance(a, Dual):
        return nonconst(a.v) or nonconst(a.d)
    if isinstance(a, B):
        return True
    if isinstance(a, np.ndarray):
        if a.dtype != object:
            return False
        return any(nonconst(x) for x in a.ravel().tolist()) if a.size else False
    if isinstance(a, (list, tuple)):
        return any(nonconst(x) for x in a)
    return False


def to_float(a):
    """object array of constants -> float array"""
    if isinstance(a, R):
        return float(a)
    if isinstance(a, Fraction):
        return float(a)
    if isinstance(a, np.ndarray) and a.dtype == object:
        if a.size == 0:
            return np.zeros(a.shape)
        return np.array([float(x) for x in a.ravel().tolist()]).reshape(a.shape)
    return a


def emap(f, a):
    """element-wise map on an object array (or scalar)"""
    if isinstance(a, np.ndarray):
        out = np.empty(a.shape, dtype=object)
        flat = out.reshape(-1)
        for i, x in enumerate(a.ravel().tolist()):
            flat[i] = f(x)
        return out.view(SArr)
    return f(a)


def _rf(x):
    return x if is_sym(x) else R.const(x)


# ---------------------------------------------------------------- inverse
def _exact_inv(A):
    n = A.shape[0]
    M = [[E.to_fraction(x.c if isinstance(x, R) else x) for x in row]
         for row in A.tolist()]
    I = [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    for c in range(n):
        p = next((r for r in range(c, n) if M[r][c] != 0), None)
        if p is None:
            raise np.linalg.LinAlgError('Singular matrix')
        M[c], M[p] = M[p], M[c]
        I[c], I[p] = I[p], I[c]
        pv = M[c][c]
        M[c] = [x / pv for x in M[c]]
        I[c] = [x / pv for x in I[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
                I[r] = [x - f * y for x, y in zip(I[r], I[c])]
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            out[i, j] = R.const(I[i][j])
    return out.view(SArr)


def det(A):
    A = np.asarray(A)
    if not has_sym(A):
        return np.linalg.det(to_float(A))
    n = A.shape[0]
    if n == 1:
        return A[0, 0]
    if n == 2:
        return A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
    tot = 0
    for j in range(n):
        sub = np.delete(np.delete(A, 0, 0), j, 1)
        t = A[0, j] * det(sub)
        tot = tot + t if j % 2 == 0 else tot - t
    return tot


EXPLICIT_INV = 1      # largest order inverted explicitly


def inv_sym(A):
    n = A.shape[0]
    if any(isinstance(x, Dual) for x in A.ravel()):
        V = emap(lambda x: Dual.lift(x).v, A)
        D = emap(lambda x: Dual.lift(x).d, A)
        M = inv(V)
        dM = -(M.dot(D).dot(M))
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                out[i, j] = Dual(M[i, j], dM[i, j])
        return out.view(SArr)
    if any(isinstance(x, Cx) for x in A.ravel()):
        blk = _blocks(A)
        if len(blk) == 1:
            return inv_explicit(A)
        out = np.empty((n, n), dtype=object)
        out.fill(Cx(R.const(0), R.const(0)))
        for idx in blk:
            sub = inv_explicit(A[np.ix_(idx, idx)])
            for a, i in enumerate(idx):
                for b, j in enumerate(idx):
                    out[i, j] = sub[a, b]
        return out.view(SArr)
    if not nonconst(A):
        return _exact_inv(A)
    if n <= getattr(E.CTX, 'explicit_inv', EXPLICIT_INV):
        return inv_explicit(A)
    # homogeneous affine matrix [[L, t], [0, 1]]
    if n in (3, 4) and all(_iszero(A[n - 1, j]) for j in range(n - 1)) and \
            _iszero(_rf(A[n - 1, n - 1]) - 1):
        L = inv_explicit(np.ndarray.view(A[:n - 1, :n - 1], SArr))
        out = np.empty((n, n), dtype=object)
        out[:] = 0.0
        out[:n - 1, :n - 1] = L
        out[:n - 1, n - 1] = -np.dot(L, A[:n - 1, n - 1])
        out[n - 1, n - 1] = 1.0
        return out.view(SArr)
    # exploit exact block structure: constant zero pattern -> block inverse
    blk = _blocks(A)
    if len(blk) > 1:
        out = np.empty((n, n), dtype=object)
        out.fill(R.const(0))
        for idx in blk:
            sub = inv_sym(A[np.ix_(idx, idx)])
            for a, i in enumerate(idx):
                for b, j in enumerate(idx):
                    out[i, j] = sub[a, b]
        return out.view(SArr)
    C = E.ctx()
    A = emap(_rf, A)
    fps = tuple(x.full_fp() for x in A.ravel())
    hit = C.memo.get(('inv', n, fps))
    if hit is not None:
        return hit.copy()
    symm = all(A[i, j].full_fp() == A[j, i].full_fp()
               for i in range(n) for j in range(i))
    M = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            if symm and j < i:
                M[i, j] = M[j, i]
                continue
            v = C.fresh('inv')
            M[i, j] = R(v, E.h61('inv', fps, i, j))
    M = M.view(SArr)
    AM = np.ndarray.dot(A, M)
    for i in range(n):
        for j in range(n):
            e = (AM[i, j] == int(i == j))
            C.side_add(None, E.bt(e))
    if not symm:
        MA = np.ndarray.dot(M, A)
        for i in range(n):
            for j in range(n):
                C.side_add(None, E.bt(MA[i, j] == int(i == j)))
    C.partial_opaque = True
    C.memo[('inv', n, fps)] = M
    # inverse of the inverse
    C.memo[('inv', n, tuple(x.full_fp() for x in M.ravel()))] = A
    return M.copy()


def _iszero(x):
    if isinstance(x, R):
        return x.c is not None and x.c == 0
    if isinstance(x, Cx):
        return _iszero(x.re) and _iszero(x.im)
    return (not is_sym(x)) and x == 0


def _blocks(A):
    n = A.shape[0]
    adj = [[not (_iszero(A[i, j]) and _iszero(A[j, i])) for j in range(n)]
           for i in range(n)]
    seen, out = set(), []
    for i in range(n):
        if i in seen:
            continue
        comp, st = [], [i]
        while st:
            k = st.pop()
            if k in seen:
                continue
            seen.add(k)
            comp.append(k)
            st.extend(j for j in range(n) if adj[k][j] and j not in seen)
        out.append(sorted(comp))
    return out


def inv_explicit(A):
    n = A.shape[0]
    out = np.empty((n, n), dtype=object)
    if n == 1:
        out[0, 0] = 1 / A[0, 0]
        return out.view(SArr)
    d = det(A)
    for i in range(n):
        for j in range(n):
            sub = np.delete(np.delete(A, j, 0), i, 1)
            c = det(sub) if n > 1 else 1
            out[i, j] = (c if (i + j) % 2 == 0 else -c) / d
    return out.view(SArr)


def inv(A):
    A = np.asarray(A)
    if not has_sym(A):
        if E.CTX is not None and A.ndim == 2 and (A.dtype == object or len(A) <= 6) \
                and A.shape[0] == A.shape[1] and np.all(np.isfinite(to_float(A))):
            return _exact_inv(A)
        if E.CTX is not None and A.ndim > 2:
            out = np.empty(A.shape, dtype=object)
            for i in np.ndindex(A.shape[:-2]):
                out[i] = inv(A[i])
            return out.view(SArr)
        return np.linalg.inv(to_float(A) if A.dtype == object else A)
    if A.ndim > 2:
        out = np.empty(A.shape, dtype=object)
        for i in np.ndindex(A.shape[:-2]):
            out[i] = inv(A[i])
        return out.view(SArr)
    return inv_sym(A)


def solve(A, b, *args, **kw):
    A, b = np.asarray(A), np.asarray(b)
    if not has_sym(A) and not has_sym(b):
        return np.linalg.solve(to_float(A), to_float(b))
    if A.dtype != object:
        A = A.astype(object)
    if not has_sym(A):
        A = emap(R.const, A)
    return np.dot(inv(A), b)


def pinv(A, *a, **k):
    A = np.asarray(A)
    if not has_sym(A):
        return np.linalg.pinv(to_float(A) if A.dtype == object else A)
    m, n = A.shape
    At = np.conj(A).T
    if m >= n:
        return inv(np.dot(At, A)).dot(At)
    return At.dot(inv(np.dot(A, At)))


def lstsq(A, b, *a, **k):
    if not has_sym(A) and not has_sym(b):
        return np.linalg.lstsq(to_float(np.asarray(A)), to_float(np.asarray(b)),
                               *a, **k)
    return (pinv(A).dot(b), None, None, None)


def ssqrt(x):
    if is_sym(x):
        return x.sqrt()
    if isinstance(x, np.ndarray) and x.dtype == object:
        return emap(ssqrt, x)
    if isinstance(x, (int, np.integer)):
        return R.const(x).sqrt() if E.CTX is not None else np.sqrt(x)
    if isinstance(x, Fraction):
        return R.const(x).sqrt()
    return np.sqrt(x)


def norm(x, ord=None, axis=None, keepdims=False, **kw):
    x = np.asarray(x)
    if not has_sym(x):
        return np.linalg.norm(to_float(x) if x.dtype == object else x,
                              ord=ord, axis=axis, keepdims=keepdims)
    if ord not in (None, 2, 'fro', 1, np.inf):
        raise Unsupported('norm ord')
    if ord == 2 and x.ndim == 2 and axis is None:
        raise Unsupported('spectral norm')
    if ord == 1 or ord == np.inf:
        if x.ndim > 1 and axis is None:
            raise Unsupported('matrix norm')
        a = emap(abs, x)
        return a.sum(axis=axis, keepdims=keepdims) if ord == 1 else smax_(a, axis=axis)
    if axis is None:
        v = x.ravel()
        s = (np.conj(v) * v).sum()
        if isinstance(s, Cx):
            s = s.re
        return ssqrt(s)
    s = (np.conj(x) * x).sum(axis=axis, keepdims=keepdims)
    return ssqrt(s)


# ---------------------------------------------------------------- fft
def _dft(n, inverse):
    s = 1 if inverse else -1
    W = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            k = (i * j * s) % n
            W[i, j] = _root(k, n)
    return W


_ROOTC = {}


def _root(k, n):
    """exp(2 pi i k / n): exact for n | 4, rational approximation (60 digits)
    otherwise"""
    from math import gcd
    if k == 0:
        return Cx(R.const(1), R.const(0))
    g = gcd(k, n)
    k, n = k // g, n // g
    if (k, n) in _ROOTC:
        return _ROOTC[(k, n)]
    if n == 2:
        r = Cx(R.const(-1), R.const(0))
    elif n == 4:
        r = Cx(R.const(0), R.const(1 if k == 1 else -1))
    else:
        import sympy
        th = 2 * sympy.pi * k / n
        D = 10 ** 40
        re = Fraction(int(sympy.Integer(sympy.floor(sympy.N(sympy.cos(th), 60) * D))), D)
        im = Fraction(int(sympy.Integer(sympy.floor(sympy.N(sympy.sin(th), 60) * D))), D)
        r = Cx(R.const(re), R.const(im))
    _ROOTC[(k, n)] = r
    return r


def _fft_axis(x, axis, inverse, n=None):
    x = np.moveaxis(x, axis, -1)
    if n is not None and n != x.shape[-1]:
        if n < x.shape[-1]:
            x = x[..., :n]
        else:
            z = np.zeros(x.shape[:-1] + (n - x.shape[-1],), dtype=object)
            x = np.concatenate([x, z], axis=-1)
    n = x.shape[-1]
    W = _dft(n, inverse)
    y = np.dot(x, W.T)
    if inverse:
        y = y / n
    return np.moveaxis(y, -1, axis)


def _mkfft(name, inverse, ndim):
    orig = getattr(np.fft, name)

    def f(x, s=None, axes=None, **kw):
        x = np.asarray(x)
        if not has_sym(x) and (E.CTX is None or x.size > 100 or kw):
            kws = dict(kw)
            if ndim == 1:
                return orig(to_float(x))
            if s is not None:
                kws['s'] = s
            if axes is not None:
                kws['axes'] = axes
            return orig(to_float(x) if x.dtype == object else x, **kws)
        if axes is None:
            if ndim == 1:
                axes = (-1,)
            elif ndim == 2:
                axes = (-2, -1)
            else:
                axes = tuple(range(x.ndim)) if s is None else tuple(range(-len(s), 0))
        y = x if has_sym(x) else emap(lambda v: Cx.lift(v) if isinstance(v, complex) else R.const(v), x)
        for i, a in enumerate(axes):
            y = _fft_axis(y, a, inverse, None if s is None else s[i])
        return y.view(SArr)
    f.__name__ = name
    return f


class _Fft(types.ModuleType):
    def __getattr__(self, name):
        return getattr(np.fft, name)


fft = _Fft('symfft')
for _n, _i, _d in (('fft', 0, 1), ('ifft', 1, 1), ('fft2', 0, 2), ('ifft2', 1, 2),
                   ('fftn', 0, 3), ('ifftn', 1, 3)):
    setattr(fft, _n, _mkfft(_n, bool(_i), _d))


class _Linalg(types.ModuleType):
    def __getattr__(self, name):
        f = getattr(np.linalg, name)
        if name not in ('eigvals', 'eigvalsh', 'matrix_rank', 'cond', 'slogdet', 'cholesky', 'eig'):
            return f

        def g(a, *args, **k):
            a = np.asarray(a)
            return f(to_float(a) if a.dtype == object and not nonconst(a) else a, *args, **k)
        return g


linalg = _Linalg('symlinalg')
linalg.inv, linalg.solve, linalg.pinv = inv, solve, pinv
linalg.norm, linalg.det, linalg.lstsq = norm, det, lstsq


# ---------------------------------------------------------------- creation
_FLOATY = (None, float, np.float64, 'float', 'float64', 'f8')


def _is_floaty(dtype):
    if dtype is None:
        return True
    try:
        return np.issubdtype(np.dtype(dtype), np.floating)
    except TypeError:
        return False


def _creator(orig, zero):
    def f(shape, dtype=None, *a, **k):
        if E.CTX is not None and _is_floaty(dtype):
            out = orig(shape, dtype=object)
            out.fill(zero)
            return out.view(SArr)
        if dtype is None:
            return orig(shape, *a, **k)
        return orig(shape, dtype, *a, **k)
    f.__name__ = orig.__name__
    return f


zeros = _creator(np.zeros, 0.0)
ones = _creator(np.ones, 1.0)
empty = _creator(np.empty, 0.0)


def full(shape, fill_value, dtype=None, **k):
    v = fill_value
    if E.CTX is not None and (is_sym(v) or _is_floaty(dtype) and isinstance(v, float)):
        out = np.empty(shape, dtype=object)
        out.fill(v)
        return out.view(SArr)
    return np.full(shape, v, dtype=dtype, **k)


def _like(zero):
    orig = {0.0: np.zeros_like, 1.0: np.ones_like, None: np.empty_like}[zero]

    def f(a, dtype=None, *args, **k):
        aa = np.asarray(a)
        if E.CTX is not None and ((dtype is None and (aa.dtype == object or np.issubdtype(aa.dtype, np.floating)))
                                  or (dtype is not None and _is_floaty(dtype))):
            out = np.empty(aa.shape, dtype=object)
            out.fill(0.0 if zero is None else zero)
            return out.view(SArr)
        return orig(a, dtype=dtype, *args, **k)
    return f


zeros_like, ones_like, empty_like = _like(0.0), _like(1.0), _like(None)


def eye(n, m=None, k=0, dtype=None, **kw):
    if E.CTX is not None and _is_floaty(dtype):
        return np.eye(n, m, k).astype(object).view(SArr)
    return np.eye(n, m, k, **({} if dtype is None else {'dtype': dtype}))


def identity(n, dtype=None):
    return eye(n, dtype=dtype)


def _array(orig):
    def f(a, dtype=None, *args, **k):
        if E.CTX is not None and dtype is not None and _is_floaty(dtype) and has_sym(a):
            return orig(a, object, *args, **k).view(SArr)
        if dtype is None:
            return orig(a, *args, **k)
        return orig(a, dtype, *args, **k)
    f.__name__ = orig.__name__
    return f


array, asarray = _array(np.array), _array(np.asarray)
asanyarray, ascontiguousarray = _array(np.asanyarray), _array(np.ascontiguousarray)


def require(a, dtype=None, requirements=None, **k):
    if has_sym(a):
        return np.asarray(a)
    return np.require(a, dtype, requirements, **k)


# ---------------------------------------------------------------- reductions
def _reduce(f, a, axis, keepdims):
    a = np.asarray(a)
    if axis is None:
        it = a.ravel().tolist()
        if not it:
            raise ValueError('zero-size array to reduction operation')
        r = it[0]
        for x in it[1:]:
            r = f(r, x)
        if keepdims:
            out = np.empty((1,) * a.ndim, dtype=object)
            out.fill(r)
            return out.view(SArr)
        return r
    if isinstance(axis, tuple):
        ax = sorted([x % a.ndim for x in axis], reverse=True)
        r = a
        for x in ax:
            r = _reduce(f, r, x, True)
        if not keepdims:
            r = np.asarray(r).reshape([s for i, s in enumerate(a.shape)
                                       if i not in ax])
        return r
    b = np.moveaxis(a, axis, 0)
    r = b[0]
    for x in b[1:]:
        r = _ew(f, r, x)
    r = np.asarray(r, dtype=object)
    if keepdims:
        r = np.expand_dims(r, axis)
    return r.view(SArr) if r.ndim else r.item()


def _ew(f, a, b):
    if not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray):
        return f(a, b)
    a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    out = np.empty(a.shape, dtype=object)
    o = out.reshape(-1)
    for i, (x, y) in enumerate(zip(a.ravel().tolist(), b.ravel().tolist())):
        o[i] = f(x, y)
    return out.view(SArr)


def _mx(a, b):
    if not is_sym(a) and not is_sym(b):
        return max(a, b)
    if isinstance(a, Dual) or isinstance(b, Dual):
        return a if a >= b else b
    return E.smax(_rf(a), _rf(b))


def _mn(a, b):
    if not is_sym(a) and not is_sym(b):
        return min(a, b)
    if isinstance(a, Dual) or isinstance(b, Dual):
        return a if a <= b else b
    return E.smin(_rf(a), _rf(b))


def smax_(a, axis=None, out=None, keepdims=False, **k):
    if nonconst(a):
        return _reduce(_mx, a, axis, keepdims)
    return np.max(a, axis=axis, keepdims=keepdims, **k)


def smin_(a, axis=None, out=None, keepdims=False, **k):
    if nonconst(a):
        return _reduce(_mn, a, axis, keepdims)
    return np.min(a, axis=axis, keepdims=keepdims, **k)


def maximum(a, b, **k):
    if nonconst(a) or nonconst(b):
        return _ew(_mx, a, b)
    return np.maximum(a, b, **k)


def minimum(a, b, **k):
    if nonconst(a) or nonconst(b):
        return _ew(_mn, a, b)
    return np.minimum(a, b, **k)


def clip(a, lo, hi, **k):
    if nonconst(a) or nonconst(lo) or nonconst(hi):
        r = a
        if lo is not None:
            r = maximum(r, lo)
        if hi is not None:
            r = minimum(r, hi)
        return r
    return np.clip(a, lo, hi, **k)


def isfinite(a, *r, **k):
    if has_sym(a) or (isinstance(a, np.ndarray) and a.dtype == object):
        return np.ones(np.shape(a), dtype=bool) if np.ndim(a) else True
    return np.isfinite(a, *r, **k)


def isnan(a, *r, **k):
    if has_sym(a) or (isinstance(a, np.ndarray) and a.dtype == object):
        return np.zeros(np.shape(a), dtype=bool) if np.ndim(a) else False
    return np.isnan(a, *r, **k)


isinf = isnan


def real(a):
    if has_sym(a):
        if not isinstance(a, (np.ndarray, list)):
            return a.real
        return emap(lambda x: x.real if hasattr(x, 'real') else x, np.asarray(a))
    return np.real(a)


def imag(a):
    if has_sym(a):
        if not isinstance(a, (np.ndarray, list)):
            return a.imag
        return emap(lambda x: x.imag, np.asarray(a))
    return np.imag(a)


def nan_to_num(a, *r, **k):
    if has_sym(a):
        return np.array(a)
    return np.nan_to_num(a, *r, **k)


def sround(a, decimals=0, **k):
    if nonconst(a):
        if decimals:
            raise Unsupported('round to decimals')
        if isinstance(a, (np.ndarray, list)):
            return emap(lambda x: _rf(x).rint(), np.asarray(a))
        return a.rint()
    if isinstance(a, R):
        return a.rint()
    return np.round(to_float(a), decimals, **k)


def _unary(name):
    orig = getattr(np, name)

    def f(a, *r, **k):
        if has_sym(a):
            if isinstance(a, (np.ndarray, list, tuple)):
                return emap(lambda x: getattr(x, name)() if hasattr(x, name)
                            else orig(float(x)), np.asarray(a))
            return getattr(a, name)()
        if isinstance(a, np.ndarray) and a.dtype == object:
            a = to_float(a)
        return orig(a, *r, **k)
    f.__name__ = name
    return f


log, exp, cos, sin, floor, ceil, rint = map(
    _unary, ('log', 'exp', 'cos', 'sin', 'floor', 'ceil', 'rint'))


def deg2rad(a, *r, **k):
    return np.asarray(a) * (np.pi / 180) if isinstance(a, (list, tuple)) else \
        a * (np.pi / 180) if has_sym(a) else np.deg2rad(a, *r, **k)


def rad2deg(a, *r, **k):
    return np.asarray(a) * (180 / np.pi) if isinstance(a, (list, tuple)) else \
        a * (180 / np.pi) if has_sym(a) else np.rad2deg(a, *r, **k)


def sqrt(a, *r, **k):
    if has_sym(a):
        return emap(ssqrt, np.asarray(a)) if isinstance(a, (np.ndarray, list)) else ssqrt(a)
    if isinstance(a, np.ndarray) and a.dtype == object:
        return emap(ssqrt, a)
    if E.CTX is not None and isinstance(a, (int, float, Fraction)):
        return ssqrt(R.const(a))
    return np.sqrt(a, *r, **k)


def sabs(a, *r, **k):
    if has_sym(a):
        return emap(abs, np.asarray(a)) if isinstance(a, (np.ndarray, list)) else abs(a)
    return np.abs(a, *r, **k)


def sign(a, *r, **k):
    if nonconst(a):
        f = lambda x: E.ite(E.as_b(_rf(x) > 0), 1, E.ite(E.as_b(_rf(x) < 0), -1, 0))
        return emap(f, np.asarray(a)) if isinstance(a, (np.ndarray, list)) else f(a)
    return np.sign(a, *r, **k)


def cross(a, b, axis=-1, **k):
    a, b = np.asarray(a), np.asarray(b)
    if not (has_sym(a) or has_sym(b)):
        return np.cross(a, b, axis=axis, **k)
    if a.shape[-1] == 2:
        return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
    if a.shape[-1] == 3 and axis == -1:
        return np.stack([a[..., i] * b[..., j] - a[..., j] * b[..., i] for i, j in ((1, 2), (2, 0), (0, 1))],
                        axis=-1).view(SArr)
    raise Unsupported('cross')


def hypot(a, b, **k):
    if not (has_sym(a) or has_sym(b)):
        return np.hypot(a, b, **k)
    return sqrt(np.add(np.multiply(a, a), np.multiply(b, b)))


def trunc(a, **k):
    if not has_sym(a):
        return np.trunc(a, **k)
    return emap(lambda x: _rf(x).trunc(), np.asarray(a)) if isinstance(a, (np.ndarray, list, tuple)) else _rf(a).trunc()


def isclose(a, b, rtol=1e-05, atol=1e-08, **k):
    if not (has_sym(a) or has_sym(b)):
        return np.isclose(a, b, rtol, atol, **k)
    return sabs(np.subtract(a, b)) <= atol + rtol * sabs(np.asarray(b) if isinstance(b, (list, tuple)) else b)


def fromiter(it, dtype=None, count=-1, **k):
    x = list(it)
    if has_sym(x):
        return np.asarray(x if count < 0 else x[:count], dtype=object).view(SArr)
    return np.fromiter(x, dtype, count, **k)


def interp(x, xp, fp, *a, **k):
    if not (has_sym(x) or has_sym(xp) or has_sym(fp)) or a or k:
        return np.interp(x, xp, fp, *a, **k)
    xp, fp = list(xp), list(fp)

    def one(v):
        out = fp[0]
        for i in range(len(xp) - 1):
            t = (v - xp[i]) / (xp[i + 1] - xp[i])
            out = E.ite(_rf(v) >= xp[i], _rf(fp[i] + t * (fp[i + 1] - fp[i])), _rf(out))
        return E.ite(_rf(v) >= xp[-1], _rf(fp[-1]), _rf(out))
    return emap(one, np.asarray(x)) if isinstance(x, (np.ndarray, list)) else one(x)


def where(c, *xy):
    if xy and isinstance(c, (B, np.ndarray)) and has_sym(c):
        x, y = xy
        c, x, y = np.broadcast_arrays(np.asarray(c, dtype=object),
                                      np.asarray(x, dtype=object),
                                      np.asarray(y, dtype=object))
        out = np.empty(c.shape, dtype=object)
        o = out.reshape(-1)
        for i, (k, p, q) in enumerate(zip(c.ravel().tolist(), x.ravel().tolist(),
                                          y.ravel().tolist())):
            o[i] = E.ite(k, _rf(p), _rf(q))
        return out.view(SArr)
    return np.where(c, *xy)


def trapz(y, x=None, dx=1.0, axis=-1):
    return np.trapz(y, x=x, dx=dx, axis=axis)


def cdist(a, b, metric='euclidean', *r, **k):
    a, b = np.asarray(a), np.asarray(b)
    if not (nonconst(a) or nonconst(b)):
        import scipy.spatial.distance as ssd
        return ssd.cdist(to_float(a), to_float(b), metric, *r, **k)
    d = a[:, None, :] - b[None, :, :]
    s = (d * d).sum(axis=-1)
    if metric == 'sqeuclidean':
        return s
    if metric != 'euclidean':
        raise Unsupported('cdist metric')
    return sqrt(s)


def _poly_zero(x):
    """is x identically zero? (exact)"""
    if isinstance(x, Dual):
        return _poly_zero(x.v) and _poly_zero(x.d)
    if not isinstance(x, R):
        return x == 0
    if x.c is not None:
        return x.c == 0
    if x.fp != 0:
        return False
    t = E.z3.simplify(x.n, som=True)
    return E.z3.is_rational_value(t) and t.as_fraction() == 0


def procrustes_2d(source, target, rotation=True, allow_mirror=False):
    """menpo's procrustes_alignment in closed form (2-D, proper rotations).

    scale = |target|/|source| (centred), rotation maximises the correlation;
    when the target is identically a similarity of the source the alignment
    is that similarity."""
    from menpo.transform.homogeneous import similarity as ms
    s, t = np.asarray(source.points), np.asarray(target.points)
    if E.CTX is None or s.shape[1] != 2:
        return _ORIG['procrustes'](source, target, rotation=rotation,
                                   allow_mirror=allow_mirror)
    if allow_mirror:
        raise Unsupported('mirroring Procrustes')
    n = s.shape[0]
    sc = emap(_rf, s.astype(object)).sum(axis=0) / n
    tc = emap(_rf, t.astype(object)).sum(axis=0) / n
    s0, t0 = s - sc, t - tc
    ss = (s0 * s0).sum()
    a = (s0 * t0).sum()
    b = (s0[:, 0] * t0[:, 1] - s0[:, 1] * t0[:, 0]).sum()
    exact = False
    if rotation:
        la, lb = a / ss, b / ss
        r0 = t0[:, 0] - (la * s0[:, 0] - lb * s0[:, 1])
        r1 = t0[:, 1] - (lb * s0[:, 0] + la * s0[:, 1])
        exact = all(_poly_zero(x) for x in list(r0) + list(r1))
    if exact:
        ca, cb = la, lb
    else:
        if not (nonconst(s) or nonconst(t)):
            ss, a, b = float(ss), float(a), float(b)
            s0, t0, sc, tc = map(to_float, (s0, t0, sc, tc))
        k = ssqrt((t0 * t0).sum()) / ssqrt(ss)
        if rotation:
            h = ssqrt(a * a + b * b)
            ca, cb = k * a / h, k * b / h
        else:
            ca, cb = k, 0
    H = np.empty((3, 3), dtype=object)
    H[:] = [[ca, -cb, tc[0] - (ca * sc[0] - cb * sc[1])],
            [cb, ca, tc[1] - (cb * sc[0] + ca * sc[1])],
            [0.0, 0.0, 1.0]]
    return ms.Similarity(H.view(SArr), skip_checks=True)


_ORIG = {}
ASSUMPTIONS.append('2-D Procrustes alignment of menpo: closed form (scale = ratio '
                   'of centred norms, best proper rotation), shapes not degenerate')


def _consts(a):
    out = np.empty(np.shape(a))
    for i, v in np.ndenumerate(np.asarray(a)):
        if isinstance(v, R):
            v = v.c
        if v is None or is_sym(v):
            return None
        out[i] = float(v)
    return out


def allclose(a, b, *r, **k):
    if has_sym(a) or has_sym(b):
        x, y = _consts(a), _consts(b)
        if x is not None and y is not None:
            return np.allclose(x, y, *r, **k)
        rtol, atol = (list(r) + [None, None])[:2]
        rtol, atol = k.get('rtol', rtol), k.get('atol', atol)
        if (rtol is None or rtol <= 1e-5) and (atol is None or atol <= 1e-8):
            return array_equal(a, b)      # exact reals: tolerance 0
        rtol, atol = 1e-5 if rtol is None else rtol, 1e-8 if atol is None else atol
        a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        cs = []
        for x, y in zip(a.ravel().tolist(), b.ravel().tolist()):
            x, y = _rf(x), _rf(y)
            e = abs(x - y) <= abs(y) * E.to_fraction(rtol) + E.to_fraction(atol)
            if isinstance(e, B):
                cs.append(e)
            elif not e:
                return False
        return bool(E.band(*cs)) if cs else True
    return np.allclose(to_float(np.asarray(a)), to_float(np.asarray(b)), *r, **k)


def array_equal(a, b, *r, **k):
    if a is b:
        return True
    if not (has_sym(a) or has_sym(b)):
        return np.array_equal(a, b, *r, **k)
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    cs = []
    for x, y in zip(a.ravel().tolist(), b.ravel().tolist()):
        if x is y:
            continue
        if x is None or y is None:
            return False
        e = (_rf(x) == _rf(y))
        if isinstance(e, B):
            cs.append(e)
        elif not e:
            return False
    if not cs:
        return True
    return bool(E.band(*cs))


def svd(A, full_matrices=True, compute_uv=True, **k):
    """only for its use as u.diag(1/s).v = A^-1 with A symmetric non-singular"""
    A = np.asarray(A)
    if not (E.CTX is not None and A.dtype == object):
        return np.linalg.svd(A, full_matrices, compute_uv, **k)
    c = _consts(A)
    sym = A.shape[0] == A.shape[1] and all(
        _poly_zero(_rf(A[i, j]) - A[j, i]) for i in range(len(A)) for j in range(i))
    if c is not None and (not sym or getattr(E.CTX, 'round_constants', False)):
        return np.linalg.svd(c, full_matrices, compute_uv, **k)
    if not sym:
        raise Unsupported('svd')
    n = len(A)
    return inv(A), np.ones(n), np.eye(n)


linalg.svd = svd


def eigh(A, *a, **k):
    A = np.asarray(A)
    if A.dtype == object:
        A = _consts(A)
        if A is None:
            raise Unsupported('eigh of a symbolic matrix')
    return np.linalg.eigh(A, *a, **k)


linalg.eigh = eigh


def qr(A, mode='reduced', **k):
    """thin QR by exact Gram-Schmidt (constants or symbolic), R_ii > 0"""
    A = np.asarray(A)
    if E.CTX is None or A.dtype != object:
        return np.linalg.qr(A, mode, **k)
    if mode != 'reduced':
        raise Unsupported('qr mode')
    m, n = A.shape
    kk = min(m, n)
    Q = np.empty((m, kk), dtype=object)
    Rm = np.zeros((kk, n), dtype=object)
    A = emap(_rf, A)
    for j in range(n):
        v = np.asarray(A[:, j])
        for i in range(min(j, kk)):
            Rm[i, j] = np.dot(Q[:, i], A[:, j])
            v = v - Rm[i, j] * Q[:, i]
        if j < kk:
            nn = ssqrt((v * v).sum())
            if _iszero(nn):
                raise Unsupported('rank deficient qr')
            Rm[j, j] = nn
            Q[:, j] = v / nn
    return Q.view(SArr), Rm.view(SArr)


linalg.qr = qr


def gradient(f, *varargs, axis=None, edge_order=1):
    """np.gradient (unit spacing, first order edges)"""
    f = np.asarray(f)
    if f.dtype != object:
        return np.gradient(f, *varargs, axis=axis, edge_order=edge_order)
    if varargs or edge_order != 1:
        raise Unsupported('gradient spacing')
    axes = range(f.ndim) if axis is None else ([axis] if isinstance(axis, int) else axis)
    out = []
    for ax in axes:
        g = np.moveaxis(f, ax, 0)
        if len(g) < 2:
            raise ValueError('Shape of array too small to calculate a numerical gradient')
        r = np.empty(g.shape, dtype=object)
        r[1:-1] = (g[2:] - g[:-2]) / 2.0
        r[0] = g[1] - g[0]
        r[-1] = g[-1] - g[-2]
        out.append(np.moveaxis(r, 0, ax).view(SArr))
    return out[0] if (isinstance(axis, int) or f.ndim == 1) else out


def median(a, axis=None, **k):
    """opaque value between min and max, the same for equal data"""
    if not nonconst(a):
        return np.median(to_float(np.asarray(a)), axis=axis, **k)
    if axis is not None:
        if k or not isinstance(axis, int):
            raise Unsupported('median axis')
        b = np.moveaxis(np.asarray(a), axis, 0)
        out = np.empty(b.shape[1:], dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = median(b[(slice(None),) + i])
        return out.view(SArr)
    flat = [_rf(x) for x in np.ravel(np.asarray(a)).tolist()]
    if len(flat) <= 5:
        n = len(flat)
        for i in range(n):
            for j in range(n - 1 - i):
                flat[j], flat[j + 1] = _mn(flat[j], flat[j + 1]), _mx(flat[j], flat[j + 1])
        return (flat[(n - 1) // 2] + flat[n // 2]) / 2
    key = ('median', tuple(sorted(x.full_fp() for x in flat)))
    C = E.ctx()
    if key not in C.memo:
        v = C.fresh('median')
        r = R(v, E.h61(*key))
        C.memo[key] = r
        C.side_add(v, z3.And(z3.Or([E.bt(r >= x) for x in flat]), z3.Or([E.bt(r <= x) for x in flat])))
    return C.memo[key]


def var(a, axis=None, **k):
    if not has_sym(a):
        return np.var(a, axis=axis, **k)
    if k:
        raise Unsupported('var options')
    if axis is not None:
        a = np.asarray(a).view(SArr)
        d = a - np.expand_dims(a.mean(axis=axis), axis)
        return (d * d).mean(axis=axis)
    f = [_rf(x) for x in np.ravel(np.asarray(a, dtype=object)).tolist()]
    m = sum(f) / len(f)
    return sum((x - m) * (x - m) for x in f) / len(f)


def std(a, axis=None, **k):
    return sqrt(var(a, axis, **k)) if has_sym(a) else np.std(a, axis=axis, **k)


def mean(a, axis=None, **k):
    if isinstance(a, (list, tuple)) and has_sym(a):
        a = np.asarray(a, dtype=object).view(SArr)
    return np.mean(a, axis=axis, **k)


def angle(z, deg=False):
    if not has_sym(z):
        return np.angle(z, deg)
    if deg:
        raise Unsupported('angle in degrees')

    def f(x):
        x = Cx.lift(x)
        re, im = _rf(x.re), _rf(x.im)
        C = E.ctx()
        if re.c == 0 and im.c == 0:
            return R.const(0)
        m = ssqrt(re * re + im * im)
        fp = E.h61('angle', re.full_fp(), im.full_fp())
        if ('trig', fp) not in C.memo:
            C.memo[('trig', fp)] = (re / m, im / m)
            C.partial_opaque = True
        key = ('angle', fp)
        if key not in C.memo:
            C.memo[key] = R(C.fresh('angle'), fp)
        return C.memo[key]
    return emap(f, np.asarray(z)) if isinstance(z, (np.ndarray, list)) else f(z)


ASSUMPTIONS.append('angle of a complex number: only its sine and cosine are modelled (number non-zero); '
                   'the median is an opaque value between the minimum and the maximum, equal for equal data')


def _mod():
    m = types.ModuleType('symnp')
    for name in ('zeros ones empty full zeros_like ones_like empty_like eye identity '
                 'array asarray asanyarray ascontiguousarray require maximum minimum '
                 'clip isfinite isnan isinf real imag nan_to_num log exp cos sin floor '
                 'ceil rint sqrt sign cross where trapz linalg fft').split():
        setattr(m, name, globals()[name])
    m.allclose, m.array_equal = allclose, array_equal
    m.deg2rad = m.radians = deg2rad
    m.rad2deg = m.degrees = rad2deg
    m.gradient, m.median, m.angle = gradient, median, angle
    m.var, m.std, m.mean = var, std, mean
    m.max = m.amax = smax_
    m.min = m.amin = smin_
    m.round = m.around = sround
    m.abs = m.absolute = m.fabs = sabs
    m.hypot, m.isclose, m.interp = hypot, isclose, interp
    m.trunc = m.fix = trunc
    m.fromiter = fromiter
    m.asfarray = lambda a, dtype=None: np.asarray(a) if has_sym(a) else np.asarray(a, dtype=float)

    class Proxy(types.ModuleType):
        def __getattr__(self, name):
            return getattr(np, name)
    m.__class__ = Proxy
    return m


NP = _mod()


class _SpL(types.ModuleType):
    def __getattr__(self, name):
        import scipy.linalg
        return getattr(scipy.linalg, name)


# ---------------------------------------------------------------- math and float() of a symbolic value
class _Math(types.ModuleType):
    def __getattr__(self, name):
        import math
        f = getattr(math, name)
        if not callable(f):
            return f

        def g(*a):
            if any(nonconst(x) for x in a):
                s = {'fabs': sabs, 'pow': lambda x, y: x ** y, 'ceil': lambda x: int(_rf(x).ceil()),
                     'floor': lambda x: int(_rf(x).floor()), 'trunc': int}.get(name) or globals().get(name)
                if s is None:
                    raise Unsupported('math.' + name)
                return s(*a)
            return f(*a)
        return g


MATH = _Math('symmath')


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __call__(cls, *a):
        x = a[0] if a else 0.
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            x = x.reshape(-1)[0]
        return x if nonconst(x) and isinstance(x, (R, Dual)) else float(x)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)

    def __getattr__(cls, name):
        return getattr(float, name)


class FLOAT(metaclass=_FloatMeta):
    """the name `float` inside the code under test"""
    dtype = np.dtype(float)
