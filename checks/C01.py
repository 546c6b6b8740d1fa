"""C01 - homogeneous warps: analytic Jacobians are the true derivatives."""
from checks.common import *
from menpo.shape import PointCloud
from menpofit.transform import (DifferentiableAffine, DifferentiableSimilarity,
                                DifferentiableAlignmentAffine,
                                DifferentiableAlignmentSimilarity)

REG = Registry('C01')
REG.outside = ['3-D similarity (the code declares it unsupported)',
               'more than 4 sample points per call (the Jacobian is computed row by row)']


def _affine(V, n_dims, p):
    return DifferentiableAffine(np.eye(n_dims + 1)).from_vector(p)


def _sim(V, p):
    return DifferentiableSimilarity(np.eye(3)).from_vector(p)


def _jac_claims(V, make, p, x, tag):
    t = make(p)
    x0 = x.copy()
    J = t.d_dp(x)
    V.eq(tag + '/shape', [J.shape[0], J.shape[1], J.shape[2]],
         [x.shape[0], p.size, x.shape[1]])
    D = deriv(V, lambda q: make(q).apply(x), p)
    for k in range(p.size):
        V.eq('%s/d_dp[%d]' % (tag, k), J[:, k, :], D[k])
    V.eq(tag + '/points unchanged', x, x0)
    V.eq(tag + '/params unchanged', t.as_vector(), p)
    # repeated call gives the same answer
    V.eq(tag + '/repeatable', t.d_dp(x), J)


def _dx_claims(V, t, x, tag):
    Jx = np.asarray(t.d_dx(x))
    n, d = x.shape
    full = np.broadcast_to(Jx, (n, d, d))
    D = deriv(V, lambda y: t.apply(y), x)
    for k in range(n * d):
        i, j = divmod(k, d)
        exp = np.zeros((n, d), dtype=object if V.sym else float)
        exp[i, :] = full[i, :, j]
        V.eq('%s/d_dx[%d]' % (tag, k), D[k], exp)


for nd in (2, 3):
    for npts in (1, 3) if nd == 2 else (2,):
        def f(V, nd=nd, npts=npts):
            p = V.reals('p', nd * (nd + 1))
            x = V.reals('x', (npts, nd))
            _jac_claims(V, lambda q: _affine(V, nd, q), p, x, 'affine')
            _dx_claims(V, _affine(V, nd, p), x, 'affine')
        REG.add('affine_%dd_%dpts' % (nd, npts), f,
                bounds='any %d-D affine map, any %d points' % (nd, npts))

for npts in (1, 4):
    def f(V, npts=npts):
        p = V.reals('p', 4)
        x = V.reals('x', (npts, 2))
        _jac_claims(V, lambda q: _sim(V, q), p, x, 'similarity')
        _dx_claims(V, _sim(V, p), x, 'similarity')
    REG.add('similarity_%dpts' % npts, f, bounds='any 2-D similarity, any %d points' % npts)


def _align(V, cls, kind):
    src = V.reals('s', (3, 2))
    tgt = V.reals('t', (3, 2))
    if kind == 'const':
        src = V.const([[0, 0], [1, 0], [0, 2]])
    t = cls(PointCloud(src), PointCloud(tgt))
    return t, src, tgt


@REG.harness(bounds='fixed source triangle, any 3-point target, any 2 sample points', timeout=200)
def alignment_affine(V):
    t, src, tgt = _align(V, DifferentiableAlignmentAffine, 'const')
    x = V.reals('x', (2, 2))
    p = t.as_vector()
    J = t.d_dp(x)
    D = _affine(V, 2, p).d_dp(x)
    V.eq('same Jacobian as the plain affine', J, D)
    lin = np.broadcast_to(np.asarray(t.d_dx(x)), (2, 2, 2))
    for i in range(2):
        V.eq('d_dx maps increments %d' % i,
             t.apply(x + V.const([[1, 0], [0, 1]])) - t.apply(x),
             np.stack([lin[0][:, 0], lin[1][:, 1]]))
    na = t.as_non_alignment()
    V.eq('as_non_alignment applies identically', na.apply(x), t.apply(x))
    V.check('as_non_alignment is differentiable', isinstance(na, DifferentiableAffine))
    V.eq('as_non_alignment Jacobian', na.d_dp(x), J)


@REG.harness(bounds='fixed source triangle, any 3-point target (non-degenerate), any 2 sample points', timeout=200)
def alignment_similarity(V):
    p = V.reals('p', 4)
    x = V.reals('x', (2, 2))
    src = V.const([[0, 0], [1, 0], [0, 2]])

    def make(q):
        t = DifferentiableAlignmentSimilarity(PointCloud(np.array([[0., 0], [1, 0], [0, 2]])),
                                              PointCloud(np.array([[0., 0], [1, 0], [0, 2]])))
        t._from_vector_inplace(q)
        return t
    _jac_claims(V, make, p, x, 'alignment similarity')
    t = make(p)
    na = t.as_non_alignment()
    V.check('as_non_alignment is differentiable', isinstance(na, DifferentiableSimilarity))
    V.eq('as_non_alignment applies identically', na.apply(x), t.apply(x))
    V.eq('as_non_alignment Jacobian', na.d_dp(x), t.d_dp(x))
    _dx_claims(V, t, x, 'alignment similarity')


@REG.harness(bounds='any two affine maps or similarities, one after the other', timeout=100)
def alignments_follow_compositions(V):
    src = np.array([[0., 0], [1, 0], [0, 2]])
    for cls, plain, n in ((DifferentiableAlignmentAffine, _affine, 6), (DifferentiableAlignmentSimilarity, _sim, 4)):
        p, q = V.reals('p%d' % n, n, -2, 2), V.reals('q%d' % n, n, -2, 2)
        mk = (lambda v: plain(V, 2, v)) if n == 6 else (lambda v: plain(V, v))
        P_, Q = mk(p), mk(q)
        for tag, move, want in (
                ('after', lambda t: t.compose_after_inplace(Q), P_.apply(Q.apply(src))),
                ('before', lambda t: t.compose_before_inplace(Q), Q.apply(P_.apply(src))),
                ('after a vector', lambda t: t.compose_after_from_vector_inplace(q), P_.apply(Q.apply(src))),
                ('from a vector', lambda t: t.from_vector_inplace(q), Q.apply(src))):
            t = cls(PointCloud(src), PointCloud(src + 3.))
            t._from_vector_inplace(p)
            V.close('%d %s: target of the parameters' % (n, tag), t.target.points, P_.apply(src), tol=1e-9)
            move(t)
            V.close('%d %s: target moves along' % (n, tag), t.target.points, want, tol=1e-9)
            V.close('%d %s: aligned source' % (n, tag), t.apply(src), want, tol=1e-9)
            V.eq('%d %s: source stays' % (n, tag), t.source.points, src)


@REG.harness(bounds='2-D transforms sampled at 3-D points, 3-D similarity')
def wrong_dimension_is_an_error(V):
    x3 = V.reals('x', (2, 3))
    x2 = V.reals('y', (2, 2))
    p = V.reals('p', 6)
    q = V.reals('q', 4)
    V.check('affine', raises(ValueError, lambda: _affine(V, 2, p).d_dp(x3)))
    V.check('similarity', raises(ValueError, lambda: _sim(V, q).d_dp(x3)))
    V.check('similarity 3d', raises(ValueError, lambda: DifferentiableSimilarity(np.eye(4)).d_dp(x3)))
