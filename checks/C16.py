"""C16 - argument checkers: one value per scale, or ValueError."""
from functools import partial
import warnings
from checks.common import *
from menpo.shape import PointCloud, TriMesh, UndirectedGraph, DirectedGraph, Tree
from menpofit import checks
from menpofit.transform import DifferentiablePiecewiseAffine, DifferentiableThinPlateSplines
from menpofit.lk.algorithm import LucasKanade, ForwardAdditive, InverseCompositional

REG = Registry('C16')
REG.assumptions = []
REG.outside = ['numpy scalar types other than those the checkers name']


def diagonal(V):
    d = V.real('d', -50, 500)
    with builtin_types(V, checks):
        ok = not raises(ValueError, lambda: checks.check_diagonal(d))
    if ok:
        V.check('accepted values are at least 20', d >= 20)
        V.eq('returned unchanged', checks.check_diagonal(d), d)
    else:
        V.check('refused values are below 20', d < 20)
    V.check('None is allowed', checks.check_diagonal(None) is None)
    V.eq('the limit itself', checks.check_diagonal(20), 20)


REG.add('diagonal', diagonal, bounds='any number in [-50, 500], None')


def scales(V):
    n = int(V.integer('n', 0, 7))
    vals = [V.integer('s%d' % k, 1, 9) if k % 2 else V.real('s%d' % k, 0.0625, 3) for k in range(n)]
    with builtin_types(V, checks):
        if n == 0:
            V.check('empty list is refused', raises(ValueError, lambda: checks.check_scales([])))
            x = V.real('x', 0.0625, 3)
            got = checks.check_scales(x)
            V.check('a number becomes a list', isinstance(got, list) and len(got) == 1)
            V.eq('same number', got[0], x)
            return
        for tag, v in (('list', list(vals)), ('tuple', tuple(vals))):
            got = checks.check_scales(v)
            V.check(tag + ': list of the same length', isinstance(got, list) and len(got) == n)
            V.eq(tag + ': same values in order', got, vals)
            k = int(V.integer('bad ' + tag, 0, n - 1))
            w = list(v)
            w[k] = 'x'
            V.check(tag + ': other types are refused', raises(ValueError, lambda: checks.check_scales(w)))


REG.add('scales', scales, max_paths=400, bounds='0-7 scales with any values')


def multi(V):
    n = int(V.integer('n_scales', 1, 6))
    m = int(V.integer('len', 0, 7))
    tup = V.boolean('tuple')
    vals = [V.real('v%d' % k, -5, 5) for k in range(m)]
    with builtin_types(V, checks):
        x = V.real('x', -5, 5)
        f = partial(checks.check_multi_scale_param, n, (float,), 'weight')
        got = f(x)
        V.check('one per scale', isinstance(got, list) and len(got) == n)
        V.eq('single value repeated', got, [x] * n)
        arg = tuple(vals) if tup else list(vals)
        if m == n or m == 1:
            got = f(arg)
            V.check('a new list, one per scale', isinstance(got, list) and len(got) == n)
            V.eq('values in order', got, vals * n if m == 1 else vals)
            bad = list(vals)
            bad[int(V.integer('bad', 0, m - 1))] = 'x'
            V.check('wrong type in the list', raises(ValueError, lambda: f(bad)))
        else:
            V.check('wrong length', raises(ValueError, lambda: f(arg)))
        V.check('wrong type', raises(ValueError, lambda: f('') if n > 1 else f(None)))
        V.check('wrong type, not iterable', raises(ValueError, lambda: f(None)))


REG.add('multi_scale_param', multi, max_paths=400, bounds='1-6 scales, lists of 0-7 values')


def callables(V):
    n = int(V.integer('n_scales', 1, 6))
    m = int(V.integer('len', 1, 7))
    tup = V.boolean('tuple')
    fs = [(lambda k: (lambda: k))(k) for k in range(m)]
    got = checks.check_callable(fs[0], n)
    V.check('single callable repeated', len(got) == n and all(g is fs[0] for g in got))
    arg = tuple(fs) if tup else list(fs)
    if m in (1, n):
        got = checks.check_callable(arg, n)
        V.check('list, one per scale in order', isinstance(got, list) and len(got) == n and
                all(g is fs[0 if m == 1 else k] for k, g in enumerate(got)))
        V.check('a new list', got is not arg)
        bad = list(fs)
        bad[int(V.integer('bad', 0, m - 1))] = 3
        V.check('not callable', raises(ValueError, lambda: checks.check_callable(bad, n)))
    else:
        V.check('wrong length', raises(ValueError, lambda: checks.check_callable(arg, n)))


REG.add('callable', callables, max_paths=400, bounds='1-6 scales, lists of 1-7')


def patch_shape(V):
    n = int(V.integer('n_scales', 1, 6))
    m = int(V.integer('len', 1, 7))
    v = [(V.integer('h%d' % k, 1, 40), V.integer('w%d' % k, 1, 40)) for k in range(m)]
    outer = tuple if V.boolean('tuple') else list
    inner = tuple if V.boolean('tuples inside') else list
    with builtin_types(V, checks):
        one = inner(v[0])
        got = checks.check_patch_shape(one, n)
        V.check('one per scale', len(got) == n)
        V.eq('single shape repeated', got, [v[0]] * n)
        arg = outer([inner(x) for x in v])
        if m in (1, n):
            got = checks.check_patch_shape(arg, n)
            V.check('one per scale in the list', len(got) == n)
            V.eq('shapes in order', got, v * n if m == 1 else v)
        else:
            V.check('wrong length', raises(ValueError, lambda: checks.check_patch_shape(arg, n)))


REG.add('patch_shape', patch_shape, max_paths=400, bounds='1-6 scales, lists of 1-7 shapes with any integer sides')


def max_components(V):
    n = int(V.integer('n_scales', 1, 6))
    kind = pick(V, 'kind', ['int', 'float', 'none', 'list1', 'listn', 'other', 'length'])
    f = lambda x: checks.check_max_components(x, n, 'max_shape_components')
    i, r = V.integer('i', -3, 40), V.real('r', -1, 2)
    with builtin_types(V, checks):
        if kind == 'int':
            if raises(ValueError, lambda: f(i)):
                V.check('refused integers are not positive', i <= 0)
            else:
                V.check('accepted integers are positive', i > 0)
                V.check('one per scale', len(f(i)) == n)
                V.eq('repeated', f(i), [i] * n)
        elif kind == 'float':
            if raises(ValueError, lambda: f(r)):
                V.check('refused fractions are out of range', (r < 0) | (r > 1))
            else:
                V.check('accepted fractions are in [0, 1]', (r >= 0) & (r <= 1))
                V.eq('repeated', f(r), [r] * n)
        elif kind == 'none':
            got = f(None)
            V.check('None repeated', len(got) == n and all(g is None for g in got))
        elif kind == 'list1':
            V.assume(i > 0)
            V.eq('single element repeated', f([i]), [i] * n)
            V.check('None element', all(g is None for g in f([None])) and len(f([None])) == n)
            V.check('wrong value in a list', raises(ValueError, lambda: f([-i])))
        elif kind == 'listn':
            vals = [V.integer('c%d' % k, 1, 9) for k in range(n)]
            k = int(V.integer('none at', 0, n - 1))
            vals[k] = None
            got = f(list(vals))
            V.check('one per scale', len(got) == n and got[k] is None)
            for a in range(n):
                if a != k:
                    V.eq('value %d' % a, got[a], vals[a])
            vals[k] = V.integer('bad', -5, 0)
            V.check('bad value at any scale', raises(ValueError, lambda: f(list(vals))))
        elif kind == 'other':
            V.check('other types', raises(ValueError, lambda: f('a')) and raises(ValueError, lambda: f(['a'])))
        else:
            m = int(V.integer('m', 2, 7))
            if m != n:
                V.check('wrong length', raises(ValueError, lambda: f([1] * m)))
            V.check('empty list', raises(ValueError, lambda: f([])))


REG.add('max_components', max_components, max_paths=600, bounds='1-6 scales, any integer in [-3, 40], any float in [-1, 2]')


def _iters(n):
    def f(V):
        t = n * V.integer('q', 0, 200) + int(V.integer('r', 0, n - 1))
        with builtin_types(V, checks):
            for tag, arg in (('total', t), ('total in a list', [t]), ('total in a tuple', (t,))):
                got = checks.check_max_iters(arg, n)
                V.check(tag + ': one per scale', len(got) == n)
                V.eq(tag + ': adds up to the total', sum(got), t)
                for k in range(n):
                    V.ge(tag + ': not negative', got[k], 0)
                    for j in range(n):
                        V.le(tag + ': evenly shared', got[k] - got[j], 1)
            v = [V.integer('v%d' % k, 0, 99) for k in range(n)]
            V.eq('a list is used as it is', checks.check_max_iters(list(v), n), v)
            for m in range(0, 8):
                if m not in (1, n):
                    V.check('wrong length %d' % m, raises(ValueError, lambda: checks.check_max_iters([5] * m, n)))
    return f


for n in (1, 2, 3, 4, 5, 6):
    REG.add('max_iters_%d' % n, _iters(n), timeout=120, bounds='%d scales, any total up to 1000' % n)


def sampling(V):
    n = int(V.integer('n_scales', 1, 6))
    kind = pick(V, 'kind', ['int', 'npint', 'array', 'none', 'list1', 'listn', 'length', 'other'])
    f = lambda x: checks.check_sampling(x, n)
    a = np.zeros(3, dtype=bool)
    i = V.integer('i', 1, 20)
    with builtin_types(V, checks):
        if kind == 'int':
            V.eq('step for every scale', f(i), [i] * n)
        elif kind == 'npint':
            V.check('numpy step', list(f(np.int64(4))) == [4] * n)
        elif kind == 'array':
            V.check('same mask', len(f(a)) == n and all(g is a for g in f(a)))
        elif kind == 'none':
            V.check('no sampling', len(f(None)) == n and all(g is None for g in f(None)))
        elif kind == 'list1':
            x = pick(V, 'what', [a, None, np.int64(2), 7])
            for arg in ([x], (x,)):
                V.check('single element repeated', len(f(arg)) == n and all(g is x for g in f(arg)))
        elif kind == 'listn':
            k = int(V.integer('none at', 0, n - 1))
            arg = [a] * n
            arg[k] = None
            got = f(list(arg))
            V.check('list kept', len(got) == n and all(g is h for g, h in zip(got, arg)))
            arg[k] = 'x'
            V.check('bad value at any scale', raises(ValueError, lambda: f(arg)))
        elif kind == 'length':
            m = int(V.integer('m', 2, 7))
            if m != n:
                V.check('wrong length', raises(ValueError, lambda: f([a] * m)))
        else:
            V.check('other types', raises(ValueError, lambda: f('a')))
            V.check('floats', raises(ValueError, lambda: f(2.5)))


REG.add('sampling', sampling, max_paths=400, bounds='1-6 scales')


def components(V):
    n = int(V.integer('n_models', 1, 6))
    ms = [rec(n_active_components='old') for _ in range(n)]
    kind = pick(V, 'kind', ['none', 'int', 'float', 'list1', 'listn', 'length'])
    i, r = V.integer('i', 1, 30), V.real('r', 0, 1)
    with builtin_types(V, checks):
        if kind == 'none':
            checks.set_models_components(ms, None)
            V.check('untouched', all(m.n_active_components == 'old' for m in ms))
        elif kind in ('int', 'float'):
            x = i if kind == 'int' else r
            checks.set_models_components(ms, x)
            for m in ms:
                V.eq('every model', m.n_active_components, x)
        elif kind == 'list1':
            checks.set_models_components(ms, [i])
            for m in ms:
                V.eq('every model', m.n_active_components, i)
        elif kind == 'listn':
            v = [V.integer('c%d' % k, 1, 9) for k in range(n)]
            checks.set_models_components(ms, v)
            for k, m in enumerate(ms):
                V.eq('model %d' % k, m.n_active_components, v[k])
        else:
            m = int(V.integer('m', 2, 7))
            if m != n:
                V.check('wrong length', raises(ValueError, lambda: checks.set_models_components(ms, [1] * m)))
                V.check('nothing was set', all(x.n_active_components == 'old' for x in ms))


REG.add('set_models_components', components, max_paths=400, bounds='1-6 models, any components')


def algorithm_cls(V):
    n = int(V.integer('n_scales', 1, 6))
    m = int(V.integer('len', 1, 7))
    opts = [ForwardAdditive, InverseCompositional, partial(ForwardAdditive, eps=0.5)]
    xs = [pick(V, 'a%d' % k, opts) for k in range(min(m, 3))] + [ForwardAdditive] * (m - min(m, 3))
    f = lambda x, k=n: checks.check_algorithm_cls(x, k, LucasKanade)
    got = f(xs[0])
    V.check('single class repeated', len(got) == n and all(g is xs[0] for g in got))
    arg = tuple(xs) if V.boolean('tuple') else list(xs)
    if m in (1, n):
        got = f(arg)
        V.check('one per scale in order', len(got) == n and all(
            g is xs[0 if m == 1 else k] for k, g in enumerate(got)))
    else:
        V.check('wrong length', raises(ValueError, lambda: f(arg)))


REG.add('algorithm_cls', algorithm_cls, max_paths=6000, timeout=120, bounds='1-6 scales, lists of 1-7 classes/partials')


def model(V):
    class A(object):
        pass

    class B_(A):
        pass
    x = pick(V, 'x', [A(), B_(), 3, None, 'a', A])
    ok = not raises(ValueError, lambda: checks.check_model(x, A))
    V.check('only instances are accepted', ok == isinstance(x, A))


REG.add('model', model, bounds='6 kinds of object')


def graph(V):
    n = int(V.integer('n_scales', 1, 6))
    pts = np.array([[0, 1], [1, 0]])
    u = UndirectedGraph.init_from_edges(np.array([[0, 1], [1, 0]]), 3)
    d = DirectedGraph.init_from_edges(np.array([[0, 1]]), 3)
    kinds = [u, d, None]
    types = pick(V, 'types', [[UndirectedGraph], [UndirectedGraph, DirectedGraph], UndirectedGraph])
    allowed = lambda g: g is None or type(g) in (types if isinstance(types, list) else [types])
    f = lambda x: checks.check_graph(x, types, 'graph', n)
    g = pick(V, 'g', kinds)
    if allowed(g):
        V.check('repeated', len(f(g)) == n and all(x is g for x in f(g)))
        V.check('single element repeated', len(f([g])) == n and all(x is g for x in f([g])))
    else:
        V.check('wrong type', raises(ValueError, lambda: f(g)) and raises(ValueError, lambda: f([g])))
    m = int(V.integer('len', 2, 7))
    lst = [u] * m
    lst[int(V.integer('at', 0, m - 1))] = g
    if m != n:
        V.check('wrong length', raises(ValueError, lambda: f(lst)))
    elif allowed(g):
        V.check('list kept in order', len(f(lst)) == n and all(x is y for x, y in zip(f(lst), lst)))
    else:
        V.check('wrong type at any scale', raises(ValueError, lambda: f(lst)))


REG.add('graph', graph, max_paths=2000, timeout=120, bounds='1-6 scales, lists of 2-7 graphs')


def trilist(V):
    src = PointCloud(np.array([[0., 0.], [0., 2.], [3., 0.]]))
    pwa = DifferentiablePiecewiseAffine(src, src)
    tri = V.boolean('triangulated')
    is_pwa = V.boolean('piecewise affine')
    shape = TriMesh(src.points, trilist=np.array([[0, 1, 2]])) if tri else src
    tr = pwa if is_pwa else rec()
    from menpo.image import Image
    im = Image(np.zeros((1, 4, 4)))
    im.landmarks['g'] = shape
    for tag, call in (('shape', lambda: checks.check_trilist(shape, tr)),
                      ('image', lambda: checks.check_landmark_trilist(im, tr, group='g'))):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            call()
        V.check(tag + ': warns exactly for untriangulated shapes of piecewise affine warps',
                (len([x for x in w if 'triangulation' in str(x.message)]) == 1) == (is_pwa and not tri))


REG.add('trilist', trilist, bounds='triangulated or not, piecewise affine or not')
