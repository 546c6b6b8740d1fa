"""Harness API and runner.

A check file (checks/Cxx.py) registers harnesses: Python functions that drive
the real menpofit code on values supplied by ``V`` and state claims.  The same
function is executed
  * symbolically (``SymV``): V.real() is a solver variable, every claim is
    decided by z3 for all values on every feasible path, and
  * concretely (``ConcV``): plain floats, unpatched code - used to replay
    counterexamples and to validate the encoding.
"""
import contextlib
import importlib
import json
import math
import multiprocessing as mp
import os
import signal
import random
import re
import sys
import time
import traceback
import types
import warnings

from . import engine as E
from . import symnp
from .engine import R, B, Cx, Dual, Unsupported
import numpy as np
import z3

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Skip(E.EngineAbort):
    pass


# ------------------------------------------------------------------ patching
def _numpy_maps():
    mods = {id(np): symnp.NP, id(np.linalg): symnp.linalg, id(np.fft): symnp.fft}
    fns = {}
    for name in dir(symnp.NP):
        o = getattr(np, name, None)
        s = symnp.NP.__dict__.get(name)
        if callable(o) and s is not None and not isinstance(o, type(np)):
            fns[id(o)] = s
    for name in ('inv', 'solve', 'pinv', 'norm', 'det', 'lstsq', 'qr', 'svd'):
        fns[id(getattr(np.linalg, name))] = getattr(symnp.linalg, name)
    for name in ('fft', 'ifft', 'fft2', 'ifft2', 'fftn', 'ifftn'):
        fns[id(getattr(np.fft, name))] = getattr(symnp.fft, name)
    import scipy.linalg
    import scipy.spatial.distance as ssd
    fns[id(scipy.linalg.norm)] = symnp.norm
    fns[id(scipy.linalg.inv)] = symnp.inv
    fns[id(scipy.linalg.solve)] = symnp.solve
    fns[id(scipy.linalg.pinv)] = symnp.pinv
    fns[id(ssd.cdist)] = symnp.cdist
    from menpo.transform.homogeneous import similarity as _ms
    symnp._ORIG.setdefault('procrustes', _ms.procrustes_alignment)
    fns[id(symnp._ORIG['procrustes'])] = symnp.procrustes_2d
    spl = symnp._SpL('symspl')
    spl.norm, spl.inv, spl.solve, spl.pinv = (symnp.norm, symnp.inv,
                                              symnp.solve, symnp.pinv)
    mods[id(scipy.linalg)] = spl

    class _Sp(type(np)):
        def __getattr__(self, name):
            import scipy
            return getattr(scipy, name)
    sp = _Sp('symscipy')
    sp.linalg = spl

    class _Ssd(type(np)):
        def __getattr__(self, name):
            return getattr(ssd, name)
    sd = _Ssd('symssd')
    sd.cdist = symnp.cdist
    mods[id(ssd)] = sd

    class _Spatial(type(np)):
        def __getattr__(self, name):
            return getattr(scipy.spatial, name)
    ss = _Spatial('symspatial')
    ss.distance = sd
    mods[id(scipy.spatial)] = ss
    sp.spatial = ss
    mods[id(math)] = symnp.MATH
    for name in ('sqrt', 'fabs', 'hypot', 'ceil', 'floor', 'trunc', 'pow', 'log', 'exp', 'sin', 'cos'):
        fns[id(getattr(math, name))] = getattr(symnp.MATH, name)
    import scipy
    mods[id(scipy)] = sp
    return mods, fns


@contextlib.contextmanager
def lifted(extra=()):
    """Swap numpy for the proxy in every loaded menpo/menpofit module."""
    mods, fns = _numpy_maps()
    undo = []
    for name, m in list(sys.modules.items()):
        if m is None or not (name.split('.')[0] in ('menpo', 'menpofit') or name in extra):
            continue
        d = getattr(m, '__dict__', None)
        if not d:
            continue
        for k, v in list(d.items()):
            r = mods.get(id(v)) or fns.get(id(v))
            if r is not None:
                undo.append((d, k, v))
                d[k] = r
        if name.split('.')[0] == 'menpofit' and name != 'menpofit.checks' and 'float' not in d:
            undo.append((d, 'float', lifted))
            d['float'] = symnp.FLOAT
    try:
        yield
    finally:
        for d, k, v in undo:
            if v is lifted:
                d.pop(k, None)
            else:
                d[k] = v


@contextlib.contextmanager
def patched(*triples):
    """temporarily replace (or add) attributes: (obj, name, value)"""
    old = []
    for o, n, v in triples:
        old.append((o, n, getattr(o, n, patched)))
        setattr(o, n, v)
    try:
        yield
    finally:
        for o, n, v in reversed(old):
            if v is patched:
                delattr(o, n)
            else:
                setattr(o, n, v)


# ------------------------------------------------------------------ V
class Failure(object):
    def __init__(self, claim, detail, degenerate=False):
        self.claim, self.detail = claim, detail
        self.degenerate = degenerate


class BaseV(object):
    sym = False

    def reals(self, name, shape, lo=None, hi=None, nz=False):
        if isinstance(shape, int):
            shape = (shape,)
        out = np.empty(shape, dtype=object if self.sym else float)
        for idx in np.ndindex(*shape):
            out[idx] = self.real(name + '_' + '_'.join(map(str, idx)), lo, hi, nz)
        return out.view(symnp.SArr) if self.sym else out

    def number(self, name, lo=None, hi=None):
        return self.real(name, lo, hi)

    def ge(self, name, a, b):
        return self.le(name, b, a)


class ConcV(BaseV):
    def __init__(self, values=None, seed=0, tier='quick', rtol=1e-6):
        self.values = dict(values or {})
        self.rng = random.Random(seed)
        self.failures = []
        self.n_claims = 0
        self.used = {}
        self.tier = tier
        self.rtol = rtol
        self.log = []

    def real(self, name, lo=None, hi=None, nz=False):
        if name in self.used:
            raise ValueError('duplicate variable ' + name)
        if name in self.values:
            v = float(self.values[name])
        else:
            l = -2.0 if lo is None else float(lo)
            h = (max(2.0, l + 3.0)) if hi is None else float(hi)
            v = l + (h - l) * self.rng.randint(1, 1023) / 1024.0
            if nz and v == 0:
                v = 0.5
        self.used[name] = v
        return v

    def integer(self, name, lo, hi):
        if name in self.used:
            raise ValueError('duplicate variable ' + name)
        if name in self.values:
            v = int(self.values[name])
        else:
            v = self.rng.randint(lo, hi)
        self.used[name] = v
        return v

    def boolean(self, name):
        return bool(self.integer(name, 0, 1))

    def const(self, a):
        return np.array(a, dtype=float)

    frac = const

    def assume(self, cond):
        if not bool(np.all(cond)):
            raise Skip()

    def fail(self, name, detail, degenerate=False):
        self.failures.append(Failure(name, str(detail)[:600], degenerate))

    def _flt(self, a):
        a = np.asarray(a)
        if a.dtype == object:
            try:
                a = a.astype(float)
            except (TypeError, ValueError):
                a = a.astype(complex)
        return a

    def eq(self, name, a, b, rtol=None):
        self.n_claims += 1
        a, b = self._flt(a), self._flt(b)
        if a.shape != b.shape:
            return self.fail(name, 'shape %s != %s' % (a.shape, b.shape))
        if a.size == 0:
            return
        rtol = rtol or self.rtol
        with np.errstate(all='ignore'):
            sc = max(1.0, np.nanmax(np.abs(a)), np.nanmax(np.abs(b)))
            bad = ~(np.abs(a - b) <= rtol * sc)
            bad &= ~((a == b) | (np.isnan(a) & np.isnan(b)))
        if np.any(bad):
            i = tuple(int(x[0]) for x in np.nonzero(np.atleast_1d(bad)))
            self.fail(name, 'got %r expected %r (at %s)' % (
                np.atleast_1d(a)[i], np.atleast_1d(b)[i], i),
                not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))))

    def close(self, name, a, b, tol):
        self.n_claims += 1
        a, b = self._flt(a), self._flt(b)
        if a.shape != b.shape:
            return self.fail(name, 'shape %s != %s' % (a.shape, b.shape))
        if a.size and not np.all(np.abs(a - b) <= tol * 1.5 + 1e-9):
            self.fail(name, 'difference %r > %r' % (np.max(np.abs(a - b)), tol))

    def le(self, name, a, b):
        self.n_claims += 1
        a, b = self._flt(a), self._flt(b)
        sc = max(1.0, np.max(np.abs(a)), np.max(np.abs(b)))
        if not np.all(a <= b + self.rtol * sc):
            self.fail(name, '%r <= %r violated' % (a, b))

    def check(self, name, cond, detail=''):
        self.n_claims += 1
        if not bool(np.all(cond)):
            self.fail(name, detail or 'condition is false')

    def implies(self, name, a, b):
        self.n_claims += 1
        if bool(np.all(a)) and not bool(np.all(b)):
            self.fail(name, 'implication is false')

    def witness(self, name):
        pass


class SymV(BaseV):
    sym = True

    def __init__(self, c, tier='quick'):
        self.c = c
        self.tier = tier
        self.results = []       # (name, status, how)
        self.bad = []           # (name, values, detail)

    def real(self, name, lo=None, hi=None, nz=False):
        return self.c.real(name, lo, hi, nz)

    def number(self, name, lo=None, hi=None):
        """a real that passes for a float in type checks"""
        return E.FloatR(self.c.real(name, lo, hi))

    def integer(self, name, lo, hi):
        return self.c.integer(name, lo, hi)

    def boolean(self, name):
        return bool(self.c.integer(name, 0, 1) == 1)

    def const(self, a):
        a = np.asarray(a, dtype=float)
        out = np.empty(a.shape, dtype=object)
        o = out.reshape(-1)
        for i, x in enumerate(a.ravel().tolist()):
            o[i] = R.const(x)
        return out.view(symnp.SArr)

    def frac(self, a):
        a = np.asarray(a, dtype=object)
        out = np.empty(a.shape, dtype=object)
        o = out.reshape(-1)
        for i, x in enumerate(a.ravel().tolist()):
            o[i] = R.const(x)
        return out.view(symnp.SArr)

    def assume(self, cond):
        for x in (np.ravel(np.asarray(cond, dtype=object)).tolist()):
            t = E.bt(x)
            t = z3.simplify(t)
            if z3.is_false(t):
                raise E.PathInfeasible()
            if not z3.is_true(t):
                self.c.assume_t(t)
        s = self.c._solver(self.c.feas_timeout)
        for k in self.c.path:
            s.add(k)
        if self.c._check(s) == z3.unsat:
            raise E.PathInfeasible()

    # claims ---------------------------------------------------------------
    def _record(self, name, status, values=None, how=''):
        self.results.append((name, status, how))
        if status == 'sat':
            self.bad.append((name, values, how))

    def _refute(self, name, negs):
        t = time.time()
        self._refute0(name, negs)
        t = time.time() - t
        if t > 1 and os.environ.get('VERIF_TIMES'):
            print('claim_s %.1f %s' % (t, name), self.results[-1][1:], flush=True)

    def _refute0(self, name, negs):
        """negs: list of z3 bools; the claim is violated if any of them holds"""
        negs = [z3.simplify(n) for n in negs]
        negs = [n for n in negs if not z3.is_false(n)]
        if not negs:
            self.c.stats.queries += 1
            self._record(name, 'unsat', how='rewriter')
            return
        if any(z3.is_true(n) for n in negs):
            st, vals, how = self.c.refute(z3.BoolVal(True))
            self._record(name, st if st != 'unsat' else 'unsat', vals, how)
            return
        # quick pass without any constraint: polynomial identity
        s = self.c._solver(min(3000, self.c.claim_timeout))
        s.add(z3.Or(negs) if len(negs) > 1 else negs[0])
        if self.c._check(s) == z3.unsat:
            self._record(name, 'unsat', how='identity')
            return
        if len(negs) > 1:
            st, vals, how = self.c.refute(z3.Or(negs))
            if st in ('unsat', 'sat'):
                self._record(name, st, vals, how)
                return
            worst = 'unsat'
            for n in negs:
                st, vals, how = self.c.refute(n)
                if st == 'sat':
                    self._record(name, 'sat', vals, how)
                    return
                if st != 'unsat':
                    worst = st if worst in ('unsat', 'sliced') else worst
            self._record(name, worst, None, how)
            return
        st, vals, how = self.c.refute(negs[0])
        self._record(name, st, vals, how)

    def _flat(self, a):
        a = np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a
        return a.shape, np.ravel(a).tolist()

    def eq(self, name, a, b, rtol=None):
        sa, fa = self._flat(a)
        sb, fb = self._flat(b)
        if sa != sb:
            st, vals, how = self.c.refute(z3.BoolVal(True))
            self._record(name, 'sat', vals, 'shape %s != %s' % (sa, sb))
            return
        negs = []
        for x, y in zip(fa, fb):
            negs.extend(_neq(x, y))
        self._refute(name, negs)

    def close(self, name, a, b, tol):
        sa, fa = self._flat(a)
        sb, fb = self._flat(b)
        if sa != sb:
            st, vals, how = self.c.refute(z3.BoolVal(True))
            self._record(name, 'sat', vals, 'shape %s != %s' % (sa, sb))
            return
        negs = []
        for x, y in zip(fa, fb):
            for p, q in _parts(x, y):
                d = p - q
                negs.append(z3.Or(E.bt(d > tol), E.bt(d < -tol)))
        self._refute(name, negs)

    def le(self, name, a, b):
        a, b = np.broadcast_arrays(np.asarray(a, dtype=object),
                                   np.asarray(b, dtype=object))
        negs = [z3.Not(E.bt(_r(x) <= _r(y)))
                for x, y in zip(a.ravel().tolist(), b.ravel().tolist())]
        self._refute(name, negs)

    def check(self, name, cond, detail=''):
        conds = np.ravel(np.asarray(cond, dtype=object)).tolist()
        self._refute(name, [z3.Not(E.bt(x)) for x in conds])

    def implies(self, name, a, b):
        aa = [E.bt(x) for x in np.ravel(np.asarray(a, dtype=object)).tolist()]
        bb = [E.bt(x) for x in np.ravel(np.asarray(b, dtype=object)).tolist()]
        self._refute(name, [z3.And(aa + [z3.Not(z3.And(bb))])])

    def fail(self, name, detail):
        st, vals, how = self.c.refute(z3.BoolVal(True))
        self._record(name, st, vals, detail)

    def witness(self, name):
        pass


def _r(x):
    if isinstance(x, (R, Cx, Dual)):
        return x
    if isinstance(x, B):
        return x.as_real()
    return R.const(x)


def _parts(x, y):
    if isinstance(x, (Cx, complex)) or isinstance(y, (Cx, complex)):
        x, y = Cx.lift(x), Cx.lift(y)
        return [(_r(x.re), _r(y.re)), (_r(x.im), _r(y.im))]
    if isinstance(x, Dual) or isinstance(y, Dual):
        x, y = Dual.lift(x), Dual.lift(y)
        return [(_r(x.v), _r(y.v)), (_r(x.d), _r(y.d))]
    return [(_r(x), _r(y))]


def _neq(x, y):
    if not any(isinstance(z, (R, B, Cx, Dual, int, float, complex, np.number,
                              np.bool_, E.Fraction)) for z in (x, y)):
        return [z3.BoolVal(not (x == y))]
    if (x is None) != (y is None) or isinstance(x, str) or isinstance(y, str):
        return [z3.BoolVal(x is not y and x != y)]
    try:
        fx, fy = (isinstance(z, (float, np.floating)) and not isinstance(z, R) for z in (x, y))
        if fx and fy:
            if x == y or (x != x and y != y):
                return []
            # plain floats: compare with rounding slack
            return [z3.BoolVal(not abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y)))]
        out = []
        for p, q in _parts(x, y):
            d = p - q
            if d.c is not None:
                if d.c != 0:
                    # float constants leak rounding: 1e-12 slack
                    out.append(z3.BoolVal(abs(d.c) > 1e-9))
            else:
                out.append(d.n != 0)
        return out
    except Unsupported:
        return [z3.BoolVal(True)]


# ------------------------------------------------------------------ registry
class H(object):
    def __init__(self, name, fn, **o):
        self.name, self.fn = name, fn
        self.timeout = o.pop('timeout', 240)
        self.max_paths = o.pop('max_paths', 400)
        self.claim_timeout = o.pop('claim_timeout', 8000)
        self.bounds = o.pop('bounds', '')
        self.setup = o.pop('setup', None)
        self.rtol = o.pop('rtol', 1e-6)
        self.n_conc = o.pop('n_conc', 3)
        self.finding = o.pop('finding', None)
        self.lift_extra = o.pop('lift_extra', ())
        assert not o, o


class Registry(object):
    def __init__(self, prop):
        self.prop = prop
        self.items = []
        self.assumptions = []
        self.outside = []

    def add(self, name, fn, **o):
        self.items.append(H(name, fn, **o))

    def harness(self, name=None, **o):
        def deco(fn):
            self.add(name or fn.__name__, fn, **o)
            return fn
        return deco


# ------------------------------------------------------------------ running
_QUAL = {}


def _qualnames():
    """the names of the functions written in the harnesses, but not in the code under test"""
    if not _QUAL:
        def names(co, prefix=''):
            for c in co.co_consts:
                if hasattr(c, 'co_code'):
                    yield c.co_qualname
                    yield from names(c)
        mine, real = set(), set()
        for n, m in list(sys.modules.items()):
            f = getattr(m, '__file__', None) or ''
            top = n.split('.')[0]
            if f.endswith('.py') and top in ('checks', 'menpofit', 'menpo'):
                try:
                    (mine if top == 'checks' else real).update(names(compile(open(f).read(), f, 'exec')))
                except Exception:
                    pass
        _QUAL['x'] = mine - real
    return _QUAL['x']


def stand_in_gap(e):
    """the code asked a stand-in of a harness for something it does not offer: that says nothing about the code"""
    if isinstance(e, AttributeError):
        o = getattr(e, 'obj', None)
        if o is None or isinstance(o, types.ModuleType):
            return False
        cls = o if isinstance(o, type) else type(o)
        mods = [c.__module__.split('.')[0] for c in cls.__mro__ if c is not object]
        return not any(m in ('menpo', 'menpofit') for m in mods) and (
            mods[0] == 'checks' or cls is types.SimpleNamespace)
    if isinstance(e, TypeError):
        m = re.match(r'([\w.<>]+)\(\) (got|missing|takes)', str(e))
        return bool(m) and m.group(1) in _qualnames()
    return False


def run_concrete(h, values=None, seed=0, tier='quick'):
    """-> ('ok'|'skip'|'fail', [failures], V)"""
    v = ConcV(values, seed=seed, tier=tier, rtol=h.rtol)
    np.random.seed(seed % (1 << 31))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            with np.errstate(all='ignore'):
                h.fn(v)
        except Skip:
            return 'skip', [], v
        except E.EngineAbort as e:
            return 'skip', [], v
        except Exception as e:
            if stand_in_gap(e):
                return 'skip', [], v
            tb = traceback.extract_tb(sys.exc_info()[2])
            inrepo = any('/menpofit/' in f.filename for f in tb)
            where = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno)
                                for f in reversed(tb[-4:]))
            v.failures.append(Failure('no-exception', '%s: %s [%s]%s' % (
                type(e).__name__, str(e)[:200], where,
                '' if inrepo else ' (outside menpofit)'),
                isinstance(e, (np.linalg.LinAlgError, ZeroDivisionError))))
    return ('fail' if v.failures else 'ok'), v.failures, v


class _FnTrace(object):
    """the functions of menpofit entered on any symbolic path (each is reported once by the interpreter)"""

    def __init__(self):
        self.names = set()

    def entered(self, co, offset):
        fn = co.co_filename
        i = fn.find('/menpofit/')
        if i >= 0:
            self.names.add(fn[i + 1:-3].replace('/', '.') + ':' + co.co_qualname)
        return sys.monitoring.DISABLE

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(m.PROFILER_ID, 'functions encoded')
        m.register_callback(m.PROFILER_ID, m.events.PY_START, self.entered)
        d = os.environ.get('VERIF_COV')   # tools/cover.py: which lines run symbolically
        if d:
            self.lines = {}
            m.register_callback(m.PROFILER_ID, m.events.LINE, self.line)
            m.register_callback(m.PROFILER_ID, m.events.BRANCH, self.branch)
        m.set_events(m.PROFILER_ID, m.events.PY_START | (m.events.LINE | m.events.BRANCH if d else 0))

    def line(self, co, n):
        fn = co.co_filename
        i = fn.find('/menpofit/')
        if i >= 0:
            self.lines[fn[i + 1:] + ':%d' % n] = 1
        return sys.monitoring.DISABLE

    def branch(self, co, a, b):
        fn = co.co_filename
        i = fn.find('/menpofit/')
        if i < 0:
            return sys.monitoring.DISABLE
        self.lines['%s:%s:%d:%d:%d' % (fn[i + 1:], co.co_qualname, co.co_firstlineno, a, b)] = 1

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(m.PROFILER_ID, 0)
        d = os.environ.get('VERIF_COV')
        if d:
            with open('%s/%d' % (d, os.getpid()), 'a') as f:
                f.write(''.join(x + '\n' for x in self.lines))
        m.free_tool_id(m.PROFILER_ID)


def _alarm(*a):
    raise E.EngineAbort('out of time')


def run_symbolic(h, seed, tier, deadline, out):
    stats = E.Stats()
    todo = [[]]
    paths = 0
    claims = {}
    errors = []
    bad = []
    trace = _FnTrace()
    truncated = False
    infeasible = 0
    while todo:
        if paths >= h.max_paths or time.time() > deadline:
            truncated = True
            break
        trail = todo.pop()
        c = E.Ctx(trail, seed=seed, stats=stats, claim_timeout=h.claim_timeout * (1 if tier == 'quick' else 4))
        E.set_ctx(c)
        v = SymV(c, tier)
        err = None
        # a path that takes too long is abandoned; what it already found stays
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, max(deadline - time.time(), 0) + 1)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with lifted(h.lift_extra):
                    with trace:
                        h.fn(v)
        except E.PathInfeasible:
            infeasible += 1
        except E.EngineAbort as e:
            truncated = True
            err = '%s: %s' % (type(e).__name__, e)
        except Exception as e:
            err = '%s: %s' % (type(e).__name__, str(e)[:300])
            if stand_in_gap(e):
                truncated = True
                errors.append('not offered by a stand-in: ' + err)
                out['gap'] = err
                continue
            tb = traceback.extract_tb(sys.exc_info()[2])
            err += ' [' + ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno)
                                      for f in reversed(tb[-5:])) + ']'
            try:
                st, vals, how = c.refute(z3.BoolVal(True))
            except Exception:
                st, vals = 'unknown', None
            bad.append(('no-exception', vals if st == 'sat' else None, err))
            errors.append(err)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        paths += 1
        stats.paths += 1
        todo.extend(c.pending)
        for name, st, how in v.results:
            d = claims.setdefault(name, {})
            d[st] = d.get(st, 0) + 1
            hw = 'how:' + (how.split(' ')[0] if st != 'sat' else 'sat')
            d[hw] = d.get(hw, 0) + 1
        bad.extend(v.bad)
        if len(bad) >= 6:
            break
    E.set_ctx(None)
    out.update(paths=paths, infeasible=infeasible, branches=stats.branches,
               queries=stats.queries, solver_s=stats.solver_s, claims=claims,
               truncated=truncated, errors=errors[:4],
               nonzero=stats.nonzero, functions=sorted(trace.names))
    return bad


def worker(prop, idx, seed, tier, conn):
    t0 = time.time()
    out = {'prop': prop}
    try:
        reg = load(prop, tier)
        h = reg.items[idx]
        out['name'] = h.name
        if h.setup:
            h.setup()
        k = 1 if tier == 'quick' else 6
        bad = run_symbolic(h, seed, tier, t0 + h.timeout * 0.85 * k, out)
        confirmed = None
        unreplayed = []
        traces = 0
        for name, vals, how in bad:
            if vals is None:
                continue
            st, fails, cv = run_concrete(h, vals, seed, tier)
            traces += 1
            # solver values may sit where a divisor or a matrix is (nearly)
            # singular: only well-defined failures count
            fails = [f for f in fails if not f.degenerate]
            if name == 'no-exception':
                fails = [f for f in fails if f.claim == name and
                         f.detail.split(':')[0] == how.split(':')[0]]
            if fails:
                confirmed = dict(claim=fails[0].claim, detail=fails[0].detail,
                                 values=cv.used, by='solver:' + name)
                break
            unreplayed.append('%s (%s)' % (name, how[:200]))
        # encoding validation on seeded inputs (unpatched code)
        ok = skip = 0
        sample = None
        if confirmed is None:
            n = h.n_conc if not unreplayed else 12
            for k in range(n + 30):
                if k >= n and (ok or not skip):
                    break
                st, fails, cv = run_concrete(h, None, seed * 1000 + k, tier)
                traces += 1
                if st == 'fail':
                    confirmed = dict(claim=fails[0].claim, detail=fails[0].detail,
                                     values=cv.used, by='validation')
                    break
                ok += st == 'ok'
                skip += st == 'skip'
                if st == 'ok' and sample is None:
                    sample = {k_: v_ for k_, v_ in list(cv.used.items())[:8]}
        out.update(confirmed=confirmed, unreplayed=unreplayed, traces=traces,
                   conc_ok=ok, conc_skip=skip, sample=sample)
    except BaseException as e:
        out['crash'] = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
    out['wall'] = time.time() - t0
    try:
        conn.send(json.loads(json.dumps(out, default=str)))
    except Exception as e:
        conn.send({'prop': prop, 'crash': 'send: %s' % e, 'wall': 0})
    conn.close()


_LOADED = {}


def load(prop, tier):
    key = (prop, tier)
    if key not in _LOADED:
        sys.path.insert(0, ROOT) if ROOT not in sys.path else None
        os.environ['VERIF_TIER'] = tier
        m = importlib.import_module('checks.' + prop)
        _LOADED[key] = m.REG
    return _LOADED[key]


def known_findings(prop):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)) if f.get('property') == prop
            and f.get('status') == 'known']


def run_check(prop, seed=1, tier='quick', only=None, jobs=None, verbose=False):
    t0 = time.time()
    jobs = jobs or min(8, os.cpu_count() or 1)
    sys.path.insert(0, ROOT)
    reg = load(prop, tier)
    items = [i for i, h in enumerate(reg.items)
             if only is None or any(o in h.name for o in only)]
    ctxm = mp.get_context('fork')
    total_budget = (820 if tier == 'quick' else 3400)
    # longest budget first
    queue = sorted(items, key=lambda i: -reg.items[i].timeout)
    running = {}
    results = {}
    listed = {f['harness'] for f in known_findings(prop)}
    while queue or running:
        while queue and len(running) < jobs:
            i = queue.pop(0)
            a, b = ctxm.Pipe(duplex=False)
            p = ctxm.Process(target=worker, args=(prop, i, seed, tier, b))
            p.start()
            b.close()
            running[i] = (p, a, time.time())
        time.sleep(0.02)
        for i, (p, a, st) in list(running.items()):
            h = reg.items[i]
            done = False
            if a.poll():
                try:
                    results[i] = a.recv()
                except EOFError:
                    results[i] = {'name': h.name, 'crash': 'worker died'}
                done = True
            elif not p.is_alive():
                results[i] = {'name': h.name, 'crash': 'worker died (exit %s)' % p.exitcode}
                done = True
            elif (time.time() - st > h.timeout * (1 if tier == 'quick' else 6)
                  or time.time() - t0 > total_budget):
                results[i] = {'name': h.name, 'crash': 'timeout'}
                p.kill()
                done = True
            if done and results[i].get('confirmed') and h.name not in listed and only is None:
                # a replayed violation settles the verdict: do not start more work
                total_budget = min(total_budget, time.time() - t0 + 20)
                for j in queue:
                    results[j] = {'name': reg.items[j].name, 'crash': 'skipped after a violation'}
                queue = []
            if done:
                p.join(5)
                if p.is_alive():
                    p.kill()
                a.close()
                del running[i]
    return finish(prop, reg, items, results, seed, tier, time.time() - t0, verbose)


def finish(prop, reg, items, results, seed, tier, wall, verbose):
    findings = {f['harness']: f for f in known_findings(prop)}
    viol, inconclusive, kf = [], [], []
    agg = dict(obligations=0, discharged=0, sliced=0, unknown=0, paths=0,
               branches=0, queries=0, traces=0, solver_s=0.0, nonzero=0)
    fns = set()
    samples = []
    rows = []
    for i in items:
        h = reg.items[i]
        r = results.get(i, {'crash': 'not run'})
        if r.get('functions'):
            fns.update(r['functions'])
        for k in ('paths', 'branches', 'queries', 'traces', 'nonzero'):
            agg[k] += r.get(k, 0) or 0
        agg['solver_s'] += r.get('solver_s', 0.0) or 0
        n_un = n_sl = n_bad = n_ok = 0
        for cname, d in (r.get('claims') or {}).items():
            n_ok += d.get('unsat', 0)
            n_sl += d.get('sliced', 0)
            n_un += d.get('unknown', 0)
            n_bad += d.get('sat', 0)
        agg['obligations'] += n_ok + n_sl + n_un + n_bad
        agg['discharged'] += n_ok
        agg['sliced'] += n_sl
        agg['unknown'] += n_un
        row = dict(harness=h.name, bounds=h.bounds, paths=r.get('paths'),
                   obligations=n_ok + n_sl + n_un + n_bad, unsat=n_ok,
                   sliced=n_sl, unknown=n_un, sat=n_bad,
                   queries=r.get('queries'), solver_s=round(r.get('solver_s') or 0, 3),
                   wall_s=round(r.get('wall') or 0, 2), traces=r.get('traces'),
                   concrete_ok=r.get('conc_ok'), sample=r.get('sample'))
        rows.append(row)
        if r.get('sample') and len(samples) < 6:
            samples.append({'harness': h.name, 'input': r['sample']})
        why = None
        if r.get('confirmed'):
            if h.name in findings:
                kf.append((h, r['confirmed'], findings[h.name]))
            else:
                viol.append((h, r['confirmed']))
        else:
            if h.name in findings and not r.get('crash'):
                why = 'listed finding no longer fails'
                row['note'] = why
                why = None
            if r.get('crash'):
                why = r['crash']
            elif r.get('unreplayed'):
                why = 'counterexample not reproduced: ' + '; '.join(r['unreplayed'][:3])
            elif r.get('errors'):
                why = 'lifting error: ' + r['errors'][0]
            elif r.get('truncated'):
                why = 'path budget exhausted after %s paths' % r.get('paths')
            elif n_un:
                why = '%d obligations undecided' % n_un
            elif n_ok + n_sl == 0:
                why = 'no obligation reached (vacuous)'
            elif r.get('conc_ok', 0) == 0:
                why = 'no concrete witness of the assumptions'
        if why:
            row['inconclusive'] = why[:500]
            inconclusive.append((h, why))
    edir = os.environ.get('VERIF_EVIDENCE') or os.path.join(ROOT, 'evidence')
    rdir = os.path.join(edir, 'replay')
    os.makedirs(rdir, exist_ok=True)
    lines = []
    for h, cf, f in kf:
        lines.append('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    for n, (h, cf) in enumerate(viol):
        path = os.path.join(rdir, '%s-%s.json' % (prop, h.name.replace('/', '_').replace(' ', '_')))
        with open(path, 'w') as fp:
            json.dump(dict(property=prop, harness=h.name, tier=tier, seed=seed,
                           claim=cf['claim'], detail=cf['detail'], by=cf['by'],
                           values=cf['values'],
                           how_to='/opt/venv/bin/python /verif/run.py --replay ' + path),
                      fp, indent=1)
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        lines.append('  harness %s, claim "%s": %s' % (h.name, cf['claim'], cf['detail']))
    for h, why in inconclusive:
        lines.append('INCONCLUSIVE property=%s harness=%s %s' % (prop, h.name, why.split('\n')[0][:300]))
    n_harn = len(items)
    ev = dict(
        property=prop, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=agg['paths'], transitions=agg['branches'] + agg['paths'],
            traces_validated_against_impl=agg['traces'],
            samples=samples or [{'note': 'no concrete sample'}],
            explanation='states = symbolic execution paths of the real code (each '
                        'covers every input value satisfying its path condition); '
                        'transitions = symbolic branch decisions plus path ends; '
                        'traces = concrete runs of the unpatched code (counterexample '
                        'replays and encoding validation).',
            harnesses=n_harn, obligations=agg['obligations'],
            discharged=agg['discharged'], decided_on_slices=agg['sliced'],
            undecided=agg['unknown'], solver_queries=agg['queries'],
            solver_s=round(agg['solver_s'], 3), nonzero_assumptions=agg['nonzero'],
            inconclusive_harnesses=[h.name for h, _ in inconclusive],
            functions_encoded=sorted(fns), per_harness=rows,
            outside=reg.outside,
            checker='z3 %s (python API), encoding regenerated from %s' % (
                z3.get_version_string(), REPO)),
        assumptions=symnp.ASSUMPTIONS + reg.assumptions,
        wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, prop + '.json'), 'w') as fp:
        json.dump(ev, fp, indent=1)
    for l in lines:
        print(l)
    print('%s: %d harnesses, %d paths, %d obligations (%d unsat, %d on slices, %d undecided), '
          '%d queries, solver %.1fs, %d concrete traces, wall %.1fs' % (
              prop, n_harn, agg['paths'], agg['obligations'], agg['discharged'],
              agg['sliced'], agg['unknown'], agg['queries'], agg['solver_s'],
              agg['traces'], wall))
    if verbose:
        for row in rows:
            print('  ', {k: v for k, v in row.items() if k not in ('bounds', 'sample')})
    if viol:
        return 1
    if len(inconclusive) == n_harn:
        return 2
    return 0


def replay(path):
    d = json.load(open(path))
    reg = load(d['property'], d.get('tier', 'quick'))
    h = [x for x in reg.items if x.name == d['harness']][0]
    if h.setup:
        h.setup()
    st, fails, v = run_concrete(h, d['values'], d.get('seed', 1), d.get('tier', 'quick'))
    for f in fails:
        print('claim "%s" fails: %s' % (f.claim, f.detail))
    print('replay: %s' % st)
    return 1 if st == 'fail' else 0
