"""Shared helpers of the check modules."""
import numpy as np
from vlib import engine as E
from vlib import symnp
from vlib.engine import R, B, Cx, Dual
from vlib.harness import Registry, patched, lifted, Skip  # noqa


def deriv(V, f, x):
    """directional derivatives: out[k] = d f(x) / d x_k.

    symbolic run: exact forward-mode dual numbers pushed through the real code
    (each x_k must be a plain symbolic real); concrete run: 5-point stencil."""
    x = np.asarray(x)
    flat = x.ravel()
    out = []
    for k in range(flat.size):
        if V.sym:
            y = np.empty(flat.size, dtype=object)
            for i, v in enumerate(flat.tolist()):
                y[i] = Dual(v, 1 if i == k else 0)
            fx = np.asarray(f(y.reshape(x.shape).view(symnp.SArr)), dtype=object)
            d = np.empty(fx.shape, dtype=object)
            dd = d.reshape(-1)
            for i, v in enumerate(fx.ravel().tolist()):
                dd[i] = v.d if isinstance(v, Dual) else 0
            out.append(d)
        else:
            h = 1e-3

            def g(s):
                z = flat.astype(float).copy()
                z[k] += s * h
                return np.asarray(f(z.reshape(x.shape)), dtype=float)
            out.append((8 * (g(1) - g(-1)) - (g(2) - g(-2))) / (12 * h))
    return out


def arr(x):
    return np.asarray(x)


def sarr(rows):
    """nested list of scalars -> array usable in both modes"""
    a = np.array(rows, dtype=object)
    if any(E.is_sym(v) for v in a.ravel().tolist()):
        return a.view(symnp.SArr)
    try:
        return a.astype(float)
    except TypeError:
        return a


def mdot(*ms):
    r = np.asarray(ms[0])
    for m in ms[1:]:
        r = np.dot(r, np.asarray(m))
    return r


def raises(exc, f):
    try:
        f()
    except exc:
        return True
    except Exception:
        return False
    return False


def rec(**kw):
    class Rec(object):
        pass
    o = Rec()
    o.__dict__.update(kw)
    return o


def vinv(V, A):
    A = np.asarray(A)
    return np.asarray(symnp.inv(A.view(symnp.SArr))) if V.sym else np.linalg.inv(A)


def vsolve(V, A, b):
    A = np.asarray(A)
    if not V.sym:
        return np.linalg.solve(A.astype(float), np.asarray(b).astype(float))
    return np.asarray(symnp.solve(A.view(symnp.SArr), np.asarray(b)))


def vsqrt(V, x):
    return symnp.ssqrt(x) if V.sym else np.sqrt(x)


def key_of(x):
    """hashable identity of a value (exact when symbolic, rounded otherwise)"""
    out = []
    for v in np.ravel(np.asarray(x)).tolist():
        if isinstance(v, R):
            out.append(v.full_fp())
        elif isinstance(v, Dual):
            out.append((key_of(v.v), key_of(v.d)))
        else:
            v = float(v)
            out.append(E.to_fraction(v).numerator * pow(E.to_fraction(v).denominator, -1, E.P) % E.P
                       if E.CTX is not None else round(v, 7) + 0.0)
    return tuple(out)


def sym_isinstance(x, types):
    if isinstance(x, R):
        ts = types if isinstance(types, tuple) else (types,)
        return (int if x.isint or x.is_int() else float) in ts
    return isinstance(x, types)


def sym_type(x):
    return (int if x.isint or x.is_int() else float) if isinstance(x, R) else type(x)


class builtin_types(object):
    """let type()/isinstance() of ``modules`` see symbolic numbers as int/float"""

    def __init__(self, V, *modules):
        self.on, self.modules = V.sym, modules

    def __enter__(self):
        if self.on:
            for m in self.modules:
                m.__dict__['isinstance'], m.__dict__['type'] = sym_isinstance, sym_type

    def __exit__(self, *a):
        if self.on:
            for m in self.modules:
                m.__dict__.pop('isinstance', None), m.__dict__.pop('type', None)


def pick(V, name, options):
    """a solver-chosen element (every feasible choice is explored)"""
    return options[int(V.integer(name, 0, len(options) - 1))]


def round_constants(V):
    """irrational roots of constants may be rounded to floats (claims then need a tolerance)"""
    if V.sym:
        E.CTX.round_constants = True


def explicit_inverses(V, n=3):
    """write inverses of up to n x n matrices as rational functions (default: unknowns with A.X = 1)"""
    if V.sym:
        E.CTX.explicit_inv = n


def costless(V, run, ask):
    """runs a method without a cost function; asking for costs only warns"""
    import warnings
    from menpofit.fitter import MenpoFitCostsWarning
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        r = run(ask)
    V.check('a warning when costs are asked for', any(issubclass(x.category, MenpoFitCostsWarning) for x in w) == bool(ask))
    V.check('no costs', r.costs is None)
    return r


class NoStop(object):
    """a stopping threshold below every number"""
    __array_ufunc__ = None

    def __lt__(self, o):
        return True

    def __le__(self, o):
        return True

    def __gt__(self, o):
        return False

    def __ge__(self, o):
        return False
