"""C04 - shape model state: parameters, target and projection stay coherent."""
from checks.common import *
from checks import models as M
from menpo.shape import PointCloud
from menpo.model import PCAModel
from menpofit.modelinstance import PDM, GlobalPDM, OrthoPDM, GlobalSimilarityModel
from menpofit.transform import (DifferentiableAlignmentAffine, DifferentiableAlignmentSimilarity,
                                LinearOrthoMDTransform)

REG = Registry('C04')
REG.assumptions = ['shape models are fixed exact rational bases (4 points, up to 3 components)',
                   'PCA increment is replaced by "the model becomes another fixed basis"',
                   'poses are non-degenerate (scale bounded away from 0)']
REG.outside = ['PCA training / incremental SVD numerics']


def cat(a, b):
    return np.concatenate([np.asarray(a), np.asarray(b)]).view(type(a))


def lin(V, model, b):
    """mean + sum b_i c_i, computed independently"""
    C = np.asarray(model.components)
    m = np.asarray(model._mean)
    out = [m[i] + sum(b[k] * C[k, i] for k in range(len(b))) for i in range(len(m))]
    return sarr(out).reshape(-1, 2)


def similar(x, q):
    """similarity (a, b, tx, ty) of points"""
    return np.stack([x[:, 0] * (1 + q[0]) - q[1] * x[:, 1] + q[2],
                     x[:, 1] * (1 + q[0]) + q[1] * x[:, 0] + q[3]], axis=1)


@REG.harness(bounds='2-3 components, any weights')
def pdm_roundtrip(V):
    for lay, k in (('quad', 2), ('zig', 3)):
        base = PDM(M.shape_pca(V, lay, k))
        V.eq(lay + ' starts at the mean', base.target.points, base.model.mean().points)
        V.eq(lay + ' starts at zero', base.as_vector(), np.zeros(k))
        p = V.reals('p' + lay, k)
        pd = base.from_vector(p)
        V.eq(lay + ' as_vector', pd.as_vector(), p)
        V.eq(lay + ' weights', pd.weights, p)
        V.check(lay + ' n_weights', pd.n_weights == k and pd.n_parameters == k)
        V.eq(lay + ' target', pd.target.points, lin(V, base.model, p))
        V.eq(lay + ' original untouched', base.as_vector(), np.zeros(k))
        V.eq(lay + ' original target', base.target.points, base.model.mean().points)


def _pdm_project(V, base, t, tag):
    k = base.n_active_components
    pd = base.copy()
    pd.set_target(PointCloud(t))
    C = np.asarray(base.model.components)
    m = np.asarray(base.model._mean)
    w = np.dot(C, t.ravel() - m)
    V.eq(tag + ' weights are the projection', pd.as_vector(), w)
    V.eq(tag + ' target is the reconstruction', pd.target.points, lin(V, base.model, w))
    V.eq(tag + ' residual is orthogonal to the model', np.dot(C, t.ravel() - pd.target.points.ravel()),
         np.zeros(k))
    t1 = pd.target
    pd.set_target(t1)
    V.eq(tag + ' projection is idempotent', pd.as_vector(), w)
    V.eq(tag + ' idempotent target', pd.target.points, t1.points)
    V.eq(tag + ' copy leaves the original', base.as_vector(), np.zeros(k))


@REG.harness(bounds='any 4-point target')
def pdm_set_target(V):
    base = PDM(M.shape_pca(V, 'wide', 3))
    t = V.reals('t', (4, 2))
    _pdm_project(V, base, t, 'pdm')


@REG.harness(bounds='any target, 3 -> 2 -> 1 active components')
def pdm_active(V):
    base = PDM(M.shape_pca(V, 'quad', 3))
    t = V.reals('t', (4, 2))
    base.set_target(PointCloud(t))
    w3 = base.as_vector()
    for a in (2, 1):
        base.n_active_components = a
        V.check('parameters follow %d' % a, base.n_parameters == a and base.n_weights == a)
        V.eq('weights %d' % a, base.as_vector(), w3[:a])
        V.eq('target %d' % a, base.target.points, lin(V, base.model, w3[:a]))


@REG.harness(bounds='any target, up and down between 1 and 3 active components')
def pdm_active_again(V):
    for seq in ((1, 3), (2, 1, 2), (1, 2, 3), (3, 2, 3, 1)):
        base = PDM(M.shape_pca(V, 'quad', 3))
        t = V.reals('t' + ''.join(map(str, seq)), (4, 2))
        base.set_target(PointCloud(t))
        w = base.as_vector()[:3]
        n = 3
        for a in seq:
            base.n_active_components = a
            n = min(n, a)
            tag = '%s at %d: ' % (seq, a)
            V.check(tag + 'sizes', base.n_parameters == a and base.n_weights == a and len(base.weights) == a and
                    base.model.n_active_components == a)
            want = [w[i] if i < n else 0 for i in range(a)]
            V.eq(tag + 'weights of the target', base.as_vector(), sarr(want))
            V.eq(tag + 'target', base.target.points, lin(V, base.model, want))


@REG.harness(bounds='max_n_components 1..3')
def pdm_max_components(V):
    for k in (1, 2, 3):
        base = PDM(M.shape_pca(V, 'quad', 3), max_n_components=k)
        V.check('kept %d' % k, base.n_active_components == k and base.model.n_components == k
                and base.n_parameters == k)
        V.eq('target %d' % k, base.target.points, base.model.mean().points)
        o = OrthoPDM(M.shape_pca(V, 'quad', 3), max_n_components=k)
        V.check('ortho kept %d' % k, o.model.n_components == k and o.n_parameters == 4 + k)


def _glob(cls, lay):
    def f(V):
        base = GlobalPDM(M.shape_pca(V, lay, 2), cls)
        nq = 4 if cls is DifferentiableAlignmentSimilarity else 6
        V.check('parameter count', base.n_global_parameters == nq and base.n_parameters == nq + 2)
        q, b = V.reals('q', nq), V.reals('b', 2)
        p = cat(q, b)
        pd = base.from_vector(p)
        V.eq('as_vector', pd.as_vector(), p)
        V.eq('global parameters', pd.global_parameters, q)
        V.eq('weights', pd.weights, b)
        x = lin(V, base.model, b)
        if nq == 4:
            e = similar(x, q)
        else:
            e = np.stack([x[:, 0] * (1 + q[0]) + q[2] * x[:, 1] + q[4],
                          x[:, 1] * (1 + q[3]) + q[1] * x[:, 0] + q[5]], axis=1)
        V.eq('target', pd.target.points, e)
        V.eq('original untouched', base.as_vector(), np.zeros(nq + 2))
        V.eq('original target', base.target.points, base.model.mean().points)
    return f


REG.add('global_roundtrip_similarity', _glob(DifferentiableAlignmentSimilarity, 'quad'),
        bounds='any similarity parameters and weights')
REG.add('global_roundtrip_affine', _glob(DifferentiableAlignmentAffine, 'diamond'),
        bounds='any affine parameters and weights')


@REG.harness(bounds='any pose with scale >= 1/4, set_target on the posed mean', timeout=200)
def global_set_target(V):
    base = GlobalPDM(M.shape_pca(V, 'quad', 2), DifferentiableAlignmentSimilarity)
    q = V.reals('q', 4, -0.75, 2)
    V.assume((1 + q[0]) ** 2 + q[1] ** 2 >= 0.0625)
    t = similar(lin(V, base.model, [0, 0]), q)
    pd = base.copy()
    pd.set_target(PointCloud(t))
    V.eq('pose recovered', pd.as_vector(), cat(q, np.zeros(2)))
    V.eq('target reproduced', pd.target.points, t)
    V.eq('copy leaves the original', base.as_vector(), np.zeros(6))
    V.eq('copy leaves the original target', base.target.points, base.model.mean().points)


def ortho_vec(V, k, lo=-2, hi=2):
    q, b = V.reals('q', 4, lo, hi), V.reals('b', k, lo, hi)
    V.assume(q[0] >= -1)
    return q, b, cat(q, b)


def sim_of(base, q):
    """similarity parameters (a, b, tx, ty) of the pose q: independent of the code"""
    S = np.asarray(base.similarity_model.components)
    m = np.asarray(base.model._mean)
    tgt = (m + np.dot(q, S)).reshape(-1, 2)
    src = m.reshape(-1, 2)
    n = len(src)
    sc, tc = src.sum(axis=0) / n, tgt.sum(axis=0) / n
    s0, t0 = src - sc, tgt - tc
    ss = (s0 * s0).sum()
    a = (s0 * t0).sum() / ss
    b = (s0[:, 0] * t0[:, 1] - s0[:, 1] * t0[:, 0]).sum() / ss
    return [a - 1, b, tc[0] - (a * sc[0] - b * sc[1]), tc[1] - (b * sc[0] + a * sc[1])]


def _ortho_rt(lay, k):
    def f(V):
        base = OrthoPDM(M.shape_pca(V, lay, k))
        V.eq('starts at the mean', base.target.points, base.model.mean().points)
        V.eq('starts at zero', base.as_vector(), np.zeros(4 + k))
        V.check('parameter count', base.n_parameters == 4 + k and base.n_weights == k
                and base.n_global_parameters == 4)
        q, b, p = ortho_vec(V, k)
        pd = base.from_vector(p)
        V.eq('as_vector', pd.as_vector(), p)
        V.eq('global parameters', pd.global_parameters, q)
        x = similar(lin(V, base.model, b), sim_of(base, q))
        V.eq('target', pd.target.points, x)
        V.eq('original untouched', base.as_vector(), np.zeros(4 + k))
        V.eq('original target untouched', base.target.points, base.model.mean().points)
        # a reachable shape is recovered exactly
        r = base.copy()
        r.set_target(PointCloud(x))
        V.eq('parameters recovered from the shape', r.as_vector(), p)
        V.eq('shape recovered', r.target.points, x)
        V.eq('copy leaves the original', base.as_vector(), np.zeros(4 + k))
    return f


@REG.harness(bounds='any bounded pose with positive scale, any weights; 1 and again 2 active components', timeout=150)
def ortho_active_again(V):
    base = OrthoPDM(M.shape_pca(V, 'quad', 2))
    q, b, p = ortho_vec(V, 2)
    o = base.from_vector(p)
    for a in (1, 2):
        before = o.target.points
        o.n_active_components = a
        V.check('sizes', o.n_parameters == a + 4 and o.n_weights == a and len(o.weights) == a)
        V.eq('parameters', o.as_vector(), cat(q, sarr([b[0], 0])[:a]))
        V.eq('target', o.target.points, similar(lin(V, o.model, [b[0]]), sim_of(base, q)))
        if a == 2:
            V.eq('kept', o.target.points, before)


for lay, k in (('quad', 2), ('zig', 1), ('diamond', 2)):
    REG.add('ortho_roundtrip_%s_%d' % (lay, k), _ortho_rt(lay, k), timeout=300,
            bounds='4 points, %d components, any bounded pose with positive scale, any weights' % k)


@REG.harness(bounds='any 4-point target near a proper pose of the mean (3 free coordinates in quick, 8 in thorough)', timeout=400, claim_timeout=20000)
def ortho_set_target(V):
    base = OrthoPDM(M.shape_pca(V, 'diamond', 2))
    d = delta(V)
    t = np.array(M.LAYOUTS['diamond'], dtype=float) + d
    pd = base.copy()
    pd.set_target(PointCloud(t))
    S = np.asarray(base.similarity_model.components)
    m = np.asarray(base.model._mean)
    q = np.dot(S, t.ravel() - m)
    V.eq('pose is the projection on the similarity basis', pd.global_parameters, q)
    v = pd.as_vector()
    tgt = pd.target.points
    V.eq('target is the pose applied to the model instance', tgt,
         similar(lin(V, base.model, v[4:]), sim_of(base, v[:4])))
    res = t.ravel() - tgt.ravel()
    J = np.asarray(pd.d_dp(None))
    for k in range(6):
        V.eq('residual orthogonal to parameter %d' % k, np.dot(J[:, k].ravel(), res), 0)
    pd2 = base.copy()
    pd2.set_target(PointCloud(tgt))
    V.eq('idempotent parameters', pd2.as_vector(), v)
    V.eq('idempotent target', pd2.target.points, tgt)


@REG.harness(bounds='point counts / dimensions that do not match')
def mismatched_target(V):
    base = PDM(M.shape_pca(V, 'quad', 2))
    o = OrthoPDM(M.shape_pca(V, 'quad', 2))
    x = V.reals('x', (3, 2))
    y = V.reals('y', (4, 3))
    for n, pd in (('pdm', base), ('ortho', o)):
        V.check(n + ' fewer points', raises(ValueError, lambda: pd.set_target(PointCloud(x))))
        V.check(n + ' wrong dims', raises(ValueError, lambda: pd.set_target(PointCloud(y))))
        V.eq(n + ' state kept', pd.target.points, pd.model.mean().points)


class FakeIncrement(object):
    """stands for PCAModel.increment: records the call, installs another basis"""
    def __init__(self, V, lay, k):
        self.V, self.lay, self.k, self.calls = V, lay, k, []

    def __call__(self, model, samples, n_samples=None, forgetting_factor=1.0, verbose=False):
        self.calls.append((samples, n_samples, forgetting_factor))
        mean, comps = M.shape_basis(self.lay, self.k, 1)
        model._mean = self.V.frac(mean).ravel()
        model._components = self.V.frac(comps)
        model._eigenvalues = self.V.frac([3 - i for i in range(self.k)])
        model.n_active_components = self.k


def delta(V):
    """a 4x2 displacement: all 8 entries symbolic in the thorough tier, 3 in quick"""
    if V.tier == 'thorough':
        return V.reals('d', (4, 2), -0.25, 0.25)
    d = V.reals('d', 3, -0.25, 0.25)
    return sarr([[d[0], 0.125], [-0.0625, d[1]], [0.1875, -0.125], [d[2], 0.0625]])


def _incr(kind, trim=2):
    def f(V):
        inc = FakeIncrement(V, 'wide', 3)
        shapes = [PointCloud(np.zeros((4, 2)))] * 2
        sentinel = object()
        import menpofit.modelinstance as mi
        with patched((PCAModel, 'increment', lambda self, *a, **k: inc(self, *a, **k)),
                     (mi, 'align_shapes', lambda s: (sentinel, s))):
            if kind == 'pdm':
                base = PDM(M.shape_pca(V, 'quad', 3))
            else:
                base = OrthoPDM(M.shape_pca(V, 'quad', 3))
            t = (np.array(M.LAYOUTS['wide'], dtype=float)
                 + delta(V))
            base.set_target(PointCloud(t))
            old = base.target
            ff = V.real('ff', 0.25, 1)
            base.increment(shapes, n_shapes=2, forgetting_factor=ff, max_n_components=trim)
        V.check('one model update', len(inc.calls) == 1)
        V.check('aligned shapes are passed on', inc.calls[0][0] == (sentinel, shapes)
                and inc.calls[0][1] == 2)
        V.eq('forgetting factor is passed on', inc.calls[0][2], ff)
        k = trim or 3
        V.check('trimmed', base.model.n_components == k)
        npar = k if kind == 'pdm' else k + 4
        V.check('parameters match the new model', base.n_parameters == npar)
        C = np.asarray(base.model.components)
        m = np.asarray(base.model._mean)
        V.eq('new mean', m, np.array(M.LAYOUTS['wide'], dtype=float).ravel())
        if kind == 'pdm':
            w = np.dot(C, old.points.ravel() - m)
            V.eq('old target projected on the new model', base.as_vector(), w)
            V.eq('target', base.target.points, lin(V, base.model, w))
        else:
            v = base.as_vector()
            S = np.asarray(base.similarity_model.components)
            V.eq('old target projected on the new similarity basis', v[:4],
                 np.dot(S, old.points.ravel() - m))
            V.eq('target', base.target.points,
                 similar(lin(V, base.model, v[4:]), sim_of(base, v[:4])))
            W = np.vstack([S, C])
            V.eq('basis orthonormal', np.dot(W, W.T), np.eye(4 + k), rtol=1e-7)
        z = base.from_vector(np.zeros(npar))
        V.eq('zero parameters are the new mean', z.target.points, m.reshape(-1, 2))
        q, b, p = ortho_vec(V, k, -1, 1)
        if kind == 'ortho':
            g = base.from_vector(p)
            V.eq('pose/weights parametrise the new model', g.target.points,
                 similar(lin(V, base.model, b), sim_of(base, q)))
            g2 = base.copy()
            g2.set_target(g.target)
            V.eq('new shapes are recovered', g2.as_vector(), p)
    return f


REG.add('increment_pdm_untrimmed', _incr('pdm', None), bounds='any target, any forgetting factor', timeout=200)
REG.add('increment_ortho_untrimmed', _incr('ortho', None), timeout=300,
        bounds='any target near a proper pose (3 free coordinates in quick, 8 in thorough), any forgetting factor')
REG.add('increment_pdm', _incr('pdm'), bounds='any target, any forgetting factor', timeout=200)
REG.add('increment_ortho', _incr('ortho'), timeout=300,
        bounds='any target near a proper pose (3 free coordinates in quick, 8 in thorough), any forgetting factor')


@REG.harness(bounds='any similarity of the mean as target')
def global_similarity_model(V):
    pts = np.array(M.LAYOUTS['quad'], dtype=float)
    import menpofit.modelinstance as mi
    with patched((mi, 'align_shapes', lambda s: s)):
        g = GlobalSimilarityModel([PointCloud(pts), PointCloud(pts)])
    V.eq('mean', g.mean.points, pts)
    q = V.reals('q', 4, -0.75, 2)
    V.assume((1 + q[0]) ** 2 + q[1] ** 2 >= 0.0625)
    t = similar(V.const(pts), q)
    h = g.copy()
    r = h.set_target(PointCloud(t))
    V.check('returns itself', r is h)
    V.eq('weights', h.weights, q)
    V.eq('as_vector', h.as_vector(), q)
    V.eq('target', h.target.points, t)
    V.check('n_weights', h.n_weights == 4 and h.n_dims == 2)
    k = g.from_vector(q)
    V.eq('from_vector target', k.target.points, t)
    V.eq('original untouched', g.as_vector(), np.zeros(4))


@REG.harness(bounds='4 points of which 3 sparse, 2 components; sparse target = any reachable shape near the mean', timeout=300)
def linear_ortho_set_target(V):
    sparse = PointCloud(np.array(M.LAYOUTS['diamond'], dtype=float)[:3])
    base = LinearOrthoMDTransform(M.shape_pca(V, 'diamond', 1), sparse)
    V.check('landmark count', base.n_landmarks == 3)
    q, b, p = ortho_vec(V, 1, -1, 1)
    g = base.from_vector(p)
    r = base.copy()
    r.set_target(g.target)
    V.eq('full target', r.as_vector(), p)
    # deformation-free shapes: the sparse points determine pose and dense points
    p0 = cat(q, np.zeros(1))
    g0 = base.from_vector(p0)
    r0 = base.copy()
    t0 = g0.sparse_target
    r0.set_target(PointCloud(g0.target.points))
    V.eq('pose recovered', r0.as_vector(), p0)
    V.eq('sparse', r0.sparse_target.points, g0.target.points[:3])
    V.eq('dense', r0.dense_target.points, g0.target.points[3:])
    V.eq('split', np.concatenate([np.asarray(r0.sparse_target.points), np.asarray(r0.dense_target.points)]),
         g0.target.points)


@REG.harness(bounds='six fixed shapes of 5 points, 1-4 components or all, any weights', timeout=200, max_paths=40)
def trained_from_shapes(V):
    round_constants(V)
    from menpo.transform import GeneralizedProcrustesAnalysis, Translation
    rng = np.random.RandomState(3)
    raw = [np.array([[0., 0.], [4., 1.], [5., 6.], [1., 5.], [2., 3.]]) * (1 + i / 4.) + rng.randint(-3, 4, (5, 2)) / 4. + 3 * i
           for i in range(6)]
    centred = [Translation(-s.centre()).apply(s) for s in map(PointCloud, raw)]
    gpa = GeneralizedProcrustesAnalysis(centred)
    X = np.array([[float(v) for v in np.ravel(t.aligned_source().points).tolist()] for t in gpa.transforms])
    mean = X.mean(axis=0)
    Z = X - mean
    k = int(V.integer('components', 1, 5))
    k = None if k == 5 else k
    shapes = [PointCloud(r) for r in raw]
    for w, cls in enumerate((PDM, OrthoPDM, lambda *a, **kw: GlobalPDM(a[0], DifferentiableAlignmentSimilarity, **kw))):
        m = cls(shapes, max_n_components=k)
        for s, r in zip(shapes, raw):
            V.eq('shapes left alone', s.points, r)
        C = np.array([[float(v) for v in r] for r in np.asarray(m.model.components).tolist()])
        V.check('components', len(C) <= (k or 5) and (k is None or len(C) == k) and m.n_active_components == len(C))
        V.close('orthonormal components', C.dot(C.T), np.eye(len(C)), tol=1e-9)
        V.close('zero parameters', m.target.points.ravel(), mean, tol=1e-9)
        if cls is OrthoPDM:
            B = np.array([mean, np.stack([-mean.reshape(-1, 2)[:, 1], mean.reshape(-1, 2)[:, 0]], 1).ravel(),
                          np.tile([1., 0], 5), np.tile([0., 1], 5)])
            V.close('components orthogonal to the similarities of the mean', C.dot(B.T), np.zeros((len(C), 4)), tol=1e-9)
        else:
            s = np.linalg.svd(Z, compute_uv=False)
            V.close('leading variations of the aligned shapes', [np.linalg.norm(Z.dot(c)) for c in C], s[:len(C)], tol=1e-8)
        b = V.reals('b%d' % w, len(C), -1, 1)
        n = m.n_parameters - len(C)
        p = cat(np.asarray(m.as_vector())[:n], b)
        V.close('weights', m.from_vector(p).target.points.ravel(), mean + np.dot(b, C), tol=1e-7)


@REG.harness(bounds='3 sparse of 4 points and 6 sparse of 9 points: any weights and pose without rotation, any pose without weights',
             timeout=200)
def linear_ortho_sparse_target(V):
    for lay, k, n in (('diamond', 1, 3), ('nine', 4, 6)):
        pts = np.array(M.LAYOUTS[lay], dtype=float)
        base = LinearOrthoMDTransform(M.shape_pca(V, lay, k), PointCloud(pts[:n]))
        q, b, p = ortho_vec(V, k, -1, 1) if lay == 'diamond' else (None, V.reals('b9', k, -1, 1), None)
        if q is None:
            q = V.reals('q9', 4, -1, 1)
            V.assume(q[0] >= -1)
        for tag, q_, b_ in (('%s no rotation: ' % lay, [q[0], 0, q[2], q[3]], b), ('%s pose: ' % lay, q, np.zeros(k))):
            want = cat(sarr(list(q_)), b_)
            s = sim_of(base, q_)
            dense = similar(lin(V, base.model, b_), s)
            r = base.copy()
            r.from_vector_inplace(sarr([0.125] * (4 + k)))
            r.set_target(PointCloud(np.asarray(dense)[:n]))
            V.close(tag + 'sparse points determine every parameter', r.as_vector(), want, tol=1e-6)
            V.close(tag + 'sparse', r.sparse_target.points, np.asarray(dense)[:n], tol=1e-6)
            V.close(tag + 'dense', r.dense_target.points, np.asarray(dense)[n:], tol=1e-6)


# ------------------------------------------------------------------ larger models
@REG.harness(bounds='9 points, 10 components: any weights, any target, 10 to 1 active components', timeout=200)
def pdm_many(V):
    base = PDM(M.shape_pca(V, 'nine', 10))
    p = V.reals('p', 10)
    pd = base.from_vector(p)
    V.eq('as_vector', pd.as_vector(), p)
    V.eq('weights', pd.weights, p)
    V.eq('target', pd.target.points, lin(V, base.model, p))
    t = V.reals('t', (9, 2))
    _pdm_project(V, base, t, 'pdm')
    base.set_target(PointCloud(t))
    w = base.as_vector()
    n = 10
    for a in (9, 7, 10, 8, 1):
        base.n_active_components = a
        n = min(n, a)
        want = [w[i] if i < n else 0 for i in range(a)]
        V.eq('weights %d' % a, base.as_vector(), sarr(want))
        V.eq('target %d' % a, base.target.points, lin(V, base.model, want))
    for k in (8, 9):
        V.check('kept %d' % k, PDM(M.shape_pca(V, 'nine', 10), max_n_components=k).n_parameters == k)


@REG.harness(bounds='9 points, 9 components, fixed poses, any weights', timeout=200)
def ortho_many(V):
    base = OrthoPDM(M.shape_pca(V, 'nine', 9))
    for n, q in enumerate(([0.25, -0.5, 1.0, -2.0], [1.5, 0.75, 0.0, 0.5])):
        q = V.frac(q)
        b = V.reals('b%d' % n, 9, -2, 2)
        p = cat(q, b)
        pd = base.from_vector(p)
        V.eq('as_vector', pd.as_vector(), p)
        V.eq('weights', pd.weights, b)
        x = similar(lin(V, base.model, b), sim_of(base, q))
        V.eq('target', pd.target.points, x)
        r = base.copy()
        r.set_target(PointCloud(x))
        V.eq('parameters recovered from the shape', r.as_vector(), p)
        pd.n_active_components = 7
        V.eq('seven active', pd.as_vector(), p[:11])


@REG.harness(bounds='9 points of which 7 sparse, 8 components, a fixed pose, any weights', timeout=200)
def linear_ortho_many(V):
    base = LinearOrthoMDTransform(M.shape_pca(V, 'nine', 8), PointCloud(np.array(M.LAYOUTS['nine'], dtype=float)[:7]))
    V.check('landmark count', base.n_landmarks == 7)
    q, b = V.frac([0.25, -0.5, 1.0, -2.0]), V.reals('b', 8, -1, 1)
    p = cat(q, b)
    g = base.from_vector(p)
    r = base.copy()
    r.set_target(g.target)
    V.eq('full target', r.as_vector(), p)
    V.eq('sparse', r.sparse_target.points, g.target.points[:7])
    V.eq('dense', r.dense_target.points, g.target.points[7:])
