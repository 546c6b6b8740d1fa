"""C03 - point distribution models: d_dp is the derivative of the target."""
from fractions import Fraction as F
from checks.common import *
from checks import models as M
from menpo.shape import PointCloud
from menpofit.modelinstance import (PDM, GlobalPDM, OrthoPDM, GlobalSimilarityModel,
                                    similarity_2d_instance_model)
from menpofit.transform import (DifferentiableAlignmentAffine, DifferentiableAlignmentSimilarity,
                                LinearOrthoMDTransform)

REG = Registry('C03')
REG.assumptions = ['shape models are fixed exact rational bases (4 points, up to 3 components); '
                   'all parameters are symbolic']
REG.outside = ['the q-block of the Jacobian away from zero model weights (the code documents that it is '
               'evaluated at the mean)', 'PCA training itself']


def cat(a, b):
    return np.concatenate([np.asarray(a), np.asarray(b)]).view(type(b))


def jac_check(V, tag, make, p, J, cols=None, rtol=None):
    D = deriv(V, lambda q: make(q).target.points, p)
    V.eq(tag + '/layout', list(np.shape(J)), [D[0].shape[0], p.size, 2])
    for k in range(p.size) if cols is None else cols:
        V.eq('%s/column %d' % (tag, k), np.asarray(J)[:, k, :], D[k], rtol)


def _pdm(layout, k):
    def f(V):
        m = M.shape_pca(V, layout, k)
        p = V.reals('p', k)
        base = PDM(m)
        make = lambda q: base.from_vector(q)
        pd = make(p)
        junk = V.reals('x', (len(M.LAYOUTS[layout]), 2))
        J = pd.d_dp(junk)
        jac_check(V, 'pdm', make, p, J)
        V.eq('pdm/independent of the points', pd.d_dp(None), J)
    return f


for lay, k in (('quad', 2), ('zig', 3), ('nine', 9)):
    REG.add('pdm_%s_%d' % (lay, k), _pdm(lay, k), bounds='%d components, any weights' % k)


@REG.harness(bounds='3 components of which 1 or 2 active, any weights')
def pdm_active_components(V):
    m = M.shape_pca(V, 'quad', 3)
    base = PDM(m)
    for a in (2, 1):
        base.n_active_components = a
        p = V.reals('p%d' % a, a)
        J = base.d_dp(None)
        jac_check(V, 'active %d' % a, lambda q: base.from_vector(q), p, J)


def _global(cls, layout):
    def f(V):
        m = M.shape_pca(V, layout, 2)
        base = GlobalPDM(m, cls)
        nq = base.n_global_parameters
        q = V.reals('q', nq)
        b = V.reals('b', 2)
        make = lambda v: base.from_vector(v)
        # model block: exact everywhere
        p = np.concatenate([q, b]) if not V.sym else np.concatenate([q, b]).view(symnp.SArr)
        J = make(p).d_dp(None)
        jac_check(V, 'weights block', make, p, J, cols=range(nq, nq + 2))
        # global block: at the mean shape
        p0 = p.copy()
        p0[nq:] = 0 if not V.sym else R.const(0)
        J0 = make(p0).d_dp(None)
        jac_check(V, 'global block at the mean', make, p0, J0)
        V.eq('global block does not depend on the weights', J[:, :nq], J0[:, :nq])
        V.eq('global block is the Jacobian of the global transform', J[:, :nq],
             base.from_vector(p).global_transform.d_dp(base.model.mean().points))
    return f


REG.add('global_pdm_similarity', _global(DifferentiableAlignmentSimilarity, 'quad'), timeout=200,
        bounds='2 components, any similarity parameters and weights')
REG.add('global_pdm_affine', _global(DifferentiableAlignmentAffine, 'zig'), timeout=200,
        bounds='2 components, any affine parameters and weights')
REG.add('global_pdm_many', _global(DifferentiableAlignmentSimilarity, 'nine'), timeout=200,
        bounds='9 points, 2 components, any similarity parameters and weights')


def _ortho(layout, k):
    def f(V):
        base = OrthoPDM(M.shape_pca(V, layout, k))
        q = V.reals('q', 4, -2, 2)
        b = V.reals('b', k, -2, 2)
        # a non degenerate pose
        V.assume(q[0] >= -1)
        make = lambda v: base.from_vector(v)
        p = np.concatenate([q, b]).view(type(q))
        pd = make(p)
        J = pd.d_dp(None)
        jac_check(V, 'weights block', make, p, J, cols=range(4, 4 + k))
        p0 = p.copy()
        p0[4:] = R.const(0) if V.sym else 0
        jac_check(V, 'at the mean', make, p0, make(p0).d_dp(None))
        # the similarity block is the (constant) similarity basis
        S = np.asarray(base.similarity_model.components)
        V.eq('similarity block', np.asarray(J)[:, :4, :],
             np.swapaxes(S.reshape(4, -1, 2), 0, 1))
        W = np.vstack([S, np.asarray(base.model.components)])
        V.eq('joint basis is orthonormal', np.dot(W, W.T), np.eye(4 + k), rtol=1e-7)
    return f


for lay, k in (('quad', 2), ('diamond', 3), ('zig', 1)):
    REG.add('ortho_%s_%d' % (lay, k), _ortho(lay, k), timeout=240,
            bounds='4 points, %d components, any pose with bounded parameters, any weights' % k)


@REG.harness(bounds='any 3 points', timeout=100)
def similarity_instance_model(V):
    x = V.reals('x', (3, 2))
    sm = similarity_2d_instance_model(PointCloud(x))
    w = V.reals('w', 4)
    inst = sm.instance(w).points
    e = np.stack([x[:, 0] * (1 + w[0]) - w[1] * x[:, 1] + w[2],
                  x[:, 1] * (1 + w[0]) + w[1] * x[:, 0] + w[3]], axis=1)
    V.eq('weights are (scale-1, rotation, tx, ty)', inst, e)


@REG.harness(bounds='any 4 similarity parameters', timeout=100)
def global_similarity_model(V, layout='quad'):
    mean = np.array(M.LAYOUTS[layout], dtype=float)
    g = GlobalSimilarityModel.__new__(GlobalSimilarityModel)
    g.mean = PointCloud(mean)
    g._target = g.mean
    g.transform = DifferentiableAlignmentSimilarity(g.mean, g.mean)
    p = V.reals('p', 4)

    def make(v):
        h = g.from_vector(v)
        return h
    J = make(p).d_dp(None)
    jac_check(V, 'global similarity', make, p, J)
    V.eq('as_vector', make(p).as_vector(), p)
    V.eq('weights', make(p).weights, p)


REG.add('global_similarity_model_many', lambda V: global_similarity_model(V, 'nine'), timeout=100,
        bounds='9 points, any 4 similarity parameters')


@REG.harness(bounds='dense shape of 4 points of which 2 sparse, 2 components, any pose/weights', timeout=240)
def linear_ortho(V):
    sparse = PointCloud(np.array(M.LAYOUTS['quad'], dtype=float)[:2])
    base = LinearOrthoMDTransform(M.shape_pca(V, 'quad', 2), sparse)
    q = V.reals('q', 4, -2, 2)
    b = V.reals('b', 2, -2, 2)
    V.assume(q[0] >= -1)
    p = np.concatenate([q, b]).view(type(q))
    make = lambda v: base.from_vector(v)
    t = make(p)
    V.eq('apply gives the dense points', t.apply(np.zeros((7, 2))), t.target.points[2:])
    V.eq('dense target', t.dense_target.points, t.target.points[2:])
    V.eq('sparse target', t.sparse_target.points, t.target.points[:2])
    J = np.asarray(t.d_dp(None))
    V.eq('layout', list(J.shape), [2, 6, 2])
    D = deriv(V, lambda v: make(v).apply(np.zeros((1, 2))), p)
    for k in (4, 5):
        V.eq('weights column %d' % k, J[:, k], D[k])
    p0 = p.copy()
    p0[4:] = R.const(0) if V.sym else 0
    J0 = np.asarray(make(p0).d_dp(None))
    D0 = deriv(V, lambda v: make(v).apply(np.zeros((1, 2))), p0)
    for k in range(6):
        V.eq('at the mean, column %d' % k, J0[:, k], D0[k])


@REG.harness(bounds='9 points, 9 components, two fixed poses, any weights', timeout=200)
def ortho_many(V):
    """the weights move the points linearly; the pose block is the similarity basis"""
    base = OrthoPDM(M.shape_pca(V, 'nine', 9))
    for n, q in enumerate(([0.25, -0.5, 1.0, -2.0], [1.5, 0.75, 0.0, 0.5])):
        p = cat(V.frac([F(x) for x in q]), V.reals('b%d' % n, 9, -2, 2))
        make = lambda v: base.from_vector(v)        # noqa: E731
        J = make(p).d_dp(None)
        jac_check(V, 'weights block %d' % n, make, p, J, cols=range(4, 13))
        S = np.asarray(base.similarity_model.components)
        V.eq('similarity block %d' % n, np.asarray(J)[:, :4, :], np.swapaxes(S.reshape(4, -1, 2), 0, 1))
    base.n_active_components = 7
    p = p[:11]
    jac_check(V, 'seven active', make, p, make(p).d_dp(None), cols=range(4, 11))


@REG.harness(bounds='dense shape of 9 points of which 7 sparse, 8 components, a fixed pose, any weights', timeout=200)
def linear_ortho_many(V):
    base = LinearOrthoMDTransform(M.shape_pca(V, 'nine', 8), PointCloud(np.array(M.LAYOUTS['nine'], dtype=float)[:7]))
    p = cat(V.frac([F(1, 4), F(-1, 2), F(1), F(-2)]), V.reals('b', 8, -2, 2))
    make = lambda v: base.from_vector(v)        # noqa: E731
    t = make(p)
    V.eq('apply gives the dense points', t.apply(np.zeros((3, 2))), t.target.points[7:])
    V.eq('dense target', t.dense_target.points, t.target.points[7:])
    V.eq('sparse target', t.sparse_target.points, t.target.points[:7])
    J = np.asarray(t.d_dp(None))
    V.eq('layout', list(J.shape), [2, 12, 2])
    D = deriv(V, lambda v: make(v).apply(np.zeros((1, 2))), p)
    for k in range(4, 12):
        V.eq('weights column %d' % k, J[:, k], D[k])
