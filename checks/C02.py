"""C02 - landmark driven warps and radial bases: analytic Jacobians."""
from checks.common import *
from menpo.shape import PointCloud, TriMesh
from menpofit.transform import (DifferentiablePiecewiseAffine, DifferentiableThinPlateSplines,
                                DifferentiableR2LogR2RBF, DifferentiableR2LogRRBF)

REG = Registry('C02')
REG.assumptions = ['the stacked spline matrix is non-singular (4 concrete landmark layouts)',
                   'derivatives of the spline kernel: r>0, or the sample point is a landmark',
                   'np.allclose of symbolic arrays is exact equality',
                   'log is uninterpreted with derivative 1/x']
REG.outside = ['more than 18 triangles or 10 landmarks; symbolic source meshes of more than 2 triangles', 'points outside the source mesh other than '
               'the containment error']

TRI1 = np.array([[0, 1, 2]])
TRI2 = np.array([[0, 1, 2], [1, 3, 2]])


def _pwa(src, tgt, tri):
    return DifferentiablePiecewiseAffine(TriMesh(src, trilist=tri), PointCloud(tgt))


def _bary(V, name):
    a, b = V.real(name + 'a', 0, 1), V.real(name + 'b', 0, 1)
    V.assume(a + b <= 1)
    return a, b


def _points(V, src, tri, spec, tag='w'):
    """sample points strictly inside given triangles: symbolic barycentrics"""
    rows = []
    for n, t in enumerate(spec):
        a = V.real('%s%da' % (tag, n), 0.0625, 0.4375)
        b = V.real('%s%db' % (tag, n), 0.0625, 0.4375)
        i, j, k = tri[t]
        rows.append([src[i][d] * (1 - a - b) + src[j][d] * a + src[k][d] * b
                     for d in range(2)])
    return sarr(rows), None


def _pwa_claims(V, src, tgt, tri, x, tag):
    w = _pwa(src, tgt, tri)
    J = np.asarray(w.d_dl(x))
    V.eq(tag + '/d_dl shape', list(J.shape), [x.shape[0], src.shape[0], 2])
    # the warp is linear in the target landmarks: derivative = coefficient
    D = deriv(V, lambda t: _pwa(src, t, tri).apply(x), tgt)
    for k in range(tgt.size):
        l, d = divmod(k, 2)
        e = np.zeros((x.shape[0], 2), dtype=object if V.sym else float)
        e[:, d] = J[:, l, d]
        V.eq('%s/d_dl[%d]' % (tag, k), e, D[k])
    V.eq(tag + '/partition of unity', J.sum(axis=1), np.ones((x.shape[0], 2)))
    V.eq(tag + '/reproduces the warp', np.einsum('ild,ld->id', J, tgt), w.apply(x))
    V.le(tag + '/convex weights', np.zeros(J.shape), J)
    # two different queries on the same warp object do not disturb each other
    y = x[::-1] if x.shape[0] > 1 else x
    w2 = _pwa(src, tgt, tri)
    w2.d_dl(y)
    V.eq(tag + '/independent of earlier queries', w2.d_dl(x), J)


@REG.harness(bounds='1 triangle, any non-degenerate source and any target, any 1 interior point',
             timeout=150)
def pwa_one_triangle(V):
    s = V.reals('s', (3, 2), -4, 4)
    area = ((s[1, 0] - s[0, 0]) * (s[2, 1] - s[0, 1]) - (s[1, 1] - s[0, 1]) * (s[2, 0] - s[0, 0]))
    V.assume(area * area >= 0.01)
    t = V.reals('t', (3, 2))
    x, _ = _points(V, s, TRI1, [0])
    _pwa_claims(V, s, t, TRI1, x, 'pwa')


def _pwa2(spec):
    def f(V):
        s = np.array([[0., 0], [4, 0], [0, 4], [4, 4]])
        t = V.reals('t', (4, 2))
        x, _ = _points(V, s, TRI2, spec)
        _pwa_claims(V, s, t, TRI2, x, 'pwa')
    return f


for spec in ((0,), (1,), (0, 1), (1, 1, 0)):
    REG.add('pwa_mesh_' + ''.join(map(str, spec)), _pwa2(spec), timeout=200,
            bounds='2-triangle mesh, any target, %d interior points' % len(spec))


@REG.harness(bounds='2-triangle mesh, any target, any interior point, any displacement in the triangle',
             timeout=200)
def pwa_d_dx(V):
    s = np.array([[0., 0], [4, 0], [0, 4], [4, 4]])
    t = V.reals('t', (4, 2))
    for tri, tag in ((0, 'lower'), (1, 'upper')):
        x, _ = _points(V, s, TRI2, [tri], tag)
        w = _pwa(s, t, TRI2)
        J = np.asarray(w.d_dx(x))
        D = deriv(V, lambda y: _pwa(s, t, TRI2).apply(y), x)
        for j in range(2):
            V.eq('%s d/dx_%d' % (tag, j), np.broadcast_to(J, (1, 2, 2))[0][:, j], D[j][0])


@REG.harness(bounds='1 triangle mesh, any point outside it')
def pwa_outside_raises(V):
    from menpo.transform.piecewiseaffine.base import TriangleContainmentError
    s = np.array([[0., 0], [4, 0], [0, 4]])
    t = V.reals('t', (3, 2))
    a = V.real('a', -3, 3)
    b = V.real('b', -3, 3)
    k = V.integer('side', 0, 2)
    k = int(k)
    V.assume([a < 0, b < 0, a + b > 1][k])
    x = sarr([[a * 4, b * 4]])
    w = _pwa(s, t, TRI1)
    V.check('d_dl', raises(TriangleContainmentError, lambda: w.d_dl(x)))
    V.check('d_dx', raises(TriangleContainmentError, lambda: w.d_dx(x)))


# ------------------------------------------------------------------ RBF
def _rbf(cls, n, m):
    def f(V):
        c = V.reals('c', (n, 2), -3, 3)
        x = V.reals('x', (m, 2), -3, 3)
        for i in range(m):
            for j in range(n):
                V.assume((x[i, 0] - c[j, 0]) ** 2 + (x[i, 1] - c[j, 1]) ** 2 >= 1e-8)
        k = cls(c)
        J = np.asarray(k.d_dl(x))
        V.eq('shape', list(J.shape), [m, n, 2])
        D = deriv(V, lambda y: cls(c).apply(y), x)
        for q in range(m * 2):
            i, d = divmod(q, 2)
            for i2 in range(m):
                for j in range(n):
                    V.eq('d u[%d,%d] / d x[%d,%d]' % (i2, j, i, d), D[q][i2, j],
                         J[i, j, d] if i2 == i else 0)
    return f


for cls in (DifferentiableR2LogR2RBF, DifferentiableR2LogRRBF):
    REG.add('rbf_%s' % cls.__name__, _rbf(cls, 2, 2), timeout=200,
            bounds='any 2 centres, any 2 points at distance >= 0.5 of them')


@REG.harness(bounds='sample points equal to the centres, any 3 centres', timeout=200)
def rbf_at_centres(V):
    c = V.reals('c', (3, 2), -3, 3)
    for i in range(3):
        for j in range(i):
            V.assume((c[i, 0] - c[j, 0]) ** 2 + (c[i, 1] - c[j, 1]) ** 2 >= 0.25)
    for cls in (DifferentiableR2LogR2RBF, DifferentiableR2LogRRBF):
        J = np.asarray(cls(c).d_dl(c.copy()))
        for i in range(3):
            V.eq('%s derivative at its own centre %d is zero' % (cls.__name__, i), J[i, i], np.zeros(2))
            for j in range(3):
                V.eq('%s antisymmetric %d %d' % (cls.__name__, i, j), J[i, j], -J[j, i])


# ------------------------------------------------------------------ TPS
LAYOUTS = {
    'square': [[-1., -1], [-1, 1], [1, -1], [1, 1]],
    'triangle': [[0., 0], [2, 0.5], [0.25, 3]],
    'kite': [[0., 0], [4, 0.5], [1, 3], [-2, 1.5]],
    'five': [[0., 0], [3, 0], [3, 2.5], [-0.5, 2], [1.25, 1]],
}


def _tps(src, tgt):
    return DifferentiableThinPlateSplines(PointCloud(src), PointCloud(tgt))


def _far(V, x, s):
    for i in range(x.shape[0]):
        for j in range(s.shape[0]):
            V.assume((x[i, 0] - s[j, 0]) ** 2 + (x[i, 1] - s[j, 1]) ** 2 >= 1e-8)


def _tps_h(name, m):
    def f(V):
        s = np.array(LAYOUTS[name])
        t = V.reals('t', s.shape, -4, 4)
        x = V.reals('x', (m, 2), -3, 3)
        _far(V, x, s)
        w = _tps(s, t)
        J = np.asarray(w.d_dl(x))
        V.eq('d_dl shape', list(J.shape), [m, s.shape[0], 2])
        D = deriv(V, lambda q: _tps(s, q).apply(x), t)
        for k in range(t.size):
            l, d = divmod(k, 2)
            e = np.zeros((m, 2), dtype=object if V.sym else float)
            e[:, d] = J[:, l, d]
            V.eq('d_dl[%d]' % k, e, D[k])
        V.eq('partition of unity', J.sum(axis=1), np.ones((m, 2)))
        V.eq('identity is reproduced', np.einsum('ild,ld->id', J, s), x)
        JX = np.asarray(w.d_dx(x))
        V.eq('d_dx shape', list(JX.shape), [m, 2, 2])
        D = deriv(V, lambda y: _tps(s, t).apply(y), x)
        for q in range(2 * m):
            i, d = divmod(q, 2)
            e = np.zeros((m, 2), dtype=object if V.sym else float)
            e[i, :] = JX[i, :, d]
            V.eq('d_dx[%d]' % q, D[q], e)
    return f


for name in LAYOUTS:
    m = 1 if name == 'five' else 2
    REG.add('tps_' + name, _tps_h(name, m), timeout=300, rtol=1e-5,
            bounds='%d fixed source landmarks, any target, any %d points not on a landmark'
            % (len(LAYOUTS[name]), m))


@REG.harness(bounds='4 source landmarks, any target, evaluated at the landmarks', timeout=200, rtol=1e-5)
def tps_at_landmarks(V):
    s = np.array(LAYOUTS['kite'])
    t = V.reals('t', s.shape, -4, 4)
    w = _tps(s, t)
    x = s
    J = np.asarray(w.d_dl(x))
    for i in range(4):
        V.close('landmark %d follows its target' % i, J[i], np.eye(4)[i][:, None] * np.ones(2), 1e-6)
    JX = np.asarray(w.d_dx(x))
    C = np.asarray(w.coefficients)
    K = DifferentiableR2LogR2RBF(s).d_dl(s)
    e = np.einsum('ck,icl->ikl', C[:-3], K) + np.stack([C[-2], C[-1]], axis=1)[None]
    V.close('d_dx', JX, e, 1e-6)


# ------------------------------------------------------------------ larger meshes and landmark sets
GRID = np.array([[3. * i + (j * j) % 2 / 4, 2. * j + (i * i) % 3 / 8] for i in range(4) for j in range(4)])
GRID_TRI = np.array([t for i in range(3) for j in range(3) for a in [4 * i + j] for t in ([a, a + 1, a + 4], [a + 1, a + 5, a + 4])])


@REG.harness(bounds='16 points, 18 triangles, any target, an interior point of each of 12 triangles', timeout=200)
def pwa_grid(V):
    t = V.reals('t', (16, 2))
    spec = [0, 17, 5, 9, 12, 2, 7, 16, 10, 3, 14, 8]
    rows, W = [], np.zeros((12, 16))
    for n, q in enumerate(spec):
        w = [0.25, 0.5, 0.25] if n % 2 else [0.5, 0.125, 0.375]
        W[n, GRID_TRI[q]] = w
    x = W.dot(GRID)
    w = _pwa(GRID, t, GRID_TRI)
    J = np.asarray(w.d_dl(x))
    V.eq('d_dl shape', list(J.shape), [12, 16, 2])
    V.close('barycentric weights', J, np.repeat(W[..., None], 2, axis=2), 1e-9)
    V.close('the warp', w.apply(x), W.dot(np.asarray(t)), 1e-9)
    JX = np.asarray(w.d_dx(x))
    V.eq('d_dx shape', list(JX.shape), [12, 2, 2])
    for n, q in enumerate(spec):
        a, b, c = GRID_TRI[q]
        S = np.array([GRID[b] - GRID[a], GRID[c] - GRID[a]])
        T = np.array([np.asarray(t)[b] - np.asarray(t)[a], np.asarray(t)[c] - np.asarray(t)[a]])
        V.close('d_dx of point %d' % n, S.dot(JX[n].T), T, 1e-7)


BIG = np.array([[0., 0], [3, 0], [3, 2.5], [-0.5, 2], [1.25, 1], [5, 1], [4.5, 4], [1, 5], [-2, -1], [2, -3]])


@REG.harness(bounds='10 known centres, 10 points: 8 known, a centre, and any last one', timeout=100)
def rbf_many(V):
    x = np.vstack([BIG[:8] * 0.75 + 0.125, BIG[9:]])
    p = V.reals('p', (1, 2), -3, 3)
    _far(V, p, BIG)
    for cls in (DifferentiableR2LogR2RBF, DifferentiableR2LogRRBF):
        J = np.asarray(cls(BIG).d_dl(sarr(x.tolist() + np.asarray(p).tolist())))
        V.eq('shape', list(J.shape), [10, 10, 2])
        V.eq('zero at a centre', J[8, 9], np.zeros(2))
        d = x[:, None] - BIG
        r2 = (d ** 2).sum(axis=2)
        r2[8, 9] = 1
        f = np.log(r2) + 1 if cls is DifferentiableR2LogR2RBF else (np.log(r2) + 1) / 2
        V.close('derivatives at known points', J[:9], 2 * d * f[..., None], 1e-9)
        D = deriv(V, lambda y: cls(BIG).apply(y), p)
        for k in range(2):
            V.eq('derivative at the free point %d' % k, D[k][0], J[9, :, k])


@REG.harness(bounds='10 known landmarks, any target, 9 known points', timeout=300, rtol=1e-5)
def tps_many(V):
    t = V.reals('t', (10, 2), -4, 4)
    x = np.vstack([BIG[:8] * 0.75 + 0.125, BIG[9:] + 1])
    w = _tps(BIG, t)
    J = np.asarray(w.d_dl(x))
    V.eq('d_dl shape', list(J.shape), [9, 10, 2])
    V.close('the warp is linear in the targets', np.einsum('ild,ld->id', J, np.asarray(t)), w.apply(x), 1e-6)
    V.close('partition of unity', J.sum(axis=1), np.ones((9, 2)), 1e-7)
    V.close('identity is reproduced', np.einsum('ild,ld->id', J, BIG), x, 1e-7)
    JX = np.asarray(w.d_dx(x))
    V.eq('d_dx shape', list(JX.shape), [9, 2, 2])
    C = np.asarray(w.coefficients)
    K = DifferentiableR2LogR2RBF(BIG).d_dl(x)
    e = np.einsum('ck,icl->ikl', C[:-3], K) + np.stack([C[-2], C[-1]], axis=1)[None]
    V.close('d_dx', JX, e, 1e-6)
