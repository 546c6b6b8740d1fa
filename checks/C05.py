"""C05 - model driven transforms: warp, Jacobian, composition, state."""
from checks.common import *
from checks import models as M
from menpo.shape import PointCloud, TriMesh
from menpofit.modelinstance import PDM, GlobalPDM, OrthoPDM
from menpofit.transform import (DifferentiablePiecewiseAffine, DifferentiableThinPlateSplines,
                                DifferentiableAlignmentSimilarity, OrthoMDTransform)
from menpofit.transform.modeldriven import ModelDrivenTransform, GlobalMDTransform

REG = Registry('C05')
REG.assumptions = ['shape models are fixed exact rational bases over a 4-point, 2-triangle mesh (piecewise '
                   'affine) or 4 landmarks (splines)', 'poses have positive scale',
                   'sample points: any one point of each triangle (piecewise affine), any point off the '
                   'landmarks (splines)']
REG.outside = ['the pose block of the Jacobian away from zero model weights (documented to be evaluated '
               'at the mean)']
TRI = np.array([[0, 1, 2], [0, 2, 3]])


def cat(a, b):
    return np.concatenate([np.asarray(a), np.asarray(b)]).view(type(a))


def mesh_points(V, src, tag='w', spec=(0, 1)):
    rows = []
    for n in spec:
        a = V.real('%s%da' % (tag, n), 0.0625, 0.4375)
        b = V.real('%s%db' % (tag, n), 0.0625, 0.4375)
        i, j, k = TRI[n]
        rows.append([src[i][d] * (1 - a - b) + src[j][d] * a + src[k][d] * b for d in range(2)])
    return sarr(rows)


def build(V, kind, layout, k, cls=DifferentiablePiecewiseAffine, source=None):
    m = M.shape_pca(V, layout, k, trilist=M.NINE if layout == 'nine' else TRI)
    if kind == 'pdm':
        return ModelDrivenTransform(PDM(m), cls, source=source)
    if kind == 'global':
        return GlobalMDTransform(GlobalPDM(m, DifferentiableAlignmentSimilarity), cls, source=source)
    return OrthoMDTransform(OrthoPDM(m), cls, source=source)


def params(V, kind, k, tag=''):
    if kind == 'pdm':
        return V.reals(tag + 'p', k, -2, 2)
    q = V.reals(tag + 'q', 4, -2, 2)
    b = V.reals(tag + 'b', k, -2, 2)
    V.assume(q[0] >= -0.5)
    return cat(q, b)


def zero_weights(V, kind, p):
    p0 = p.copy()
    if kind != 'pdm':
        p0[4:] = R.const(0) if V.sym else 0.0
    return p0


def _mdt(kind, layout, k, with_source):
    def f(V):
        pts = np.array(M.LAYOUTS[layout], dtype=float)
        src = TriMesh(pts, trilist=TRI) if with_source else None
        base = build(V, kind, layout, k, source=src)
        n0 = 0 if kind == 'pdm' else 4
        V.check('parameter count', base.n_parameters == n0 + k and base.n_dims == 2)
        x = mesh_points(V, pts)
        V.eq('starts as the identity warp', base.apply(x), x)
        V.eq('starts at zero', base.as_vector(), np.zeros(n0 + k))
        p = params(V, kind, k)
        t = base.from_vector(p)
        V.eq('as_vector', t.as_vector(), p)
        V.eq('target is the model target', t.target.points, t.pdm.target.points)
        V.eq('warp target', t.transform.target.points, t.target.points)
        # vertices of the mesh go to the target: barycentric interpolation
        lam = DifferentiablePiecewiseAffine(TriMesh(pts, trilist=TRI), PointCloud(pts)).d_dl(x)
        V.eq('warp', t.apply(x), np.einsum('ild,ld->id', lam, t.target.points))
        V.eq('original untouched', base.as_vector(), np.zeros(n0 + k))
        V.eq('original warp untouched', base.apply(x), x)
        # Jacobian
        p0 = zero_weights(V, kind, p)
        J = t.d_dp(x)
        D = deriv(V, lambda v: base.from_vector(v).apply(x), p)
        V.eq('Jacobian layout', list(np.shape(J)), [2, n0 + k, 2])
        for j in range(n0, n0 + k):
            V.eq('d_dp weights %d' % j, np.asarray(J)[:, j], D[j])
        if kind != 'pdm':
            t0 = base.from_vector(p0)
            J0 = np.asarray(t0.d_dp(x))
            D0 = deriv(V, lambda v: base.from_vector(v).apply(x), p0)
            for j in range(n0 + k):
                V.eq('d_dp at the mean %d' % j, J0[:, j], D0[j])
        # a query at other points does not disturb later ones
        y = mesh_points(V, pts, 'y')
        Jy = t.d_dp(y)
        V.eq('d_dp at other points', Jy, base.from_vector(p).d_dp(y))
        V.eq('d_dp repeated', t.d_dp(x), J)
        # set_target
        s = base.copy()
        s.set_target(t.target)
        if kind != 'global':
            V.eq('set_target recovers the parameters', s.as_vector(), p)
            V.eq('set_target recovers the warp', s.apply(x), t.apply(x))
        V.eq('set_target on a copy', base.as_vector(), np.zeros(n0 + k))
    return f


for kind, lay, k, ws in (('pdm', 'mesh', 2, True), ('pdm', 'diamond', 3, False),
                         ('ortho', 'mesh', 1, True), ('ortho', 'diamond', 2, False),
                         ):
    REG.add('mdt_%s_%s_%d' % (kind, lay, k), _mdt(kind, lay, k, ws), timeout=300,
            bounds='%s model, %d components, any parameters; any point in each triangle; source %s'
            % (kind, k, 'given' if ws else 'defaults to the mean'))


@REG.harness(bounds='global model with similarity, any pose/weights', timeout=200)
def mdt_global(V):
    pts = np.array(M.LAYOUTS['mesh'], dtype=float)
    base = build(V, 'global', 'mesh', 2)
    p = params(V, 'global', 2)
    t = base.from_vector(p)
    x = mesh_points(V, pts)
    V.eq('as_vector', t.as_vector(), p)
    lam = DifferentiablePiecewiseAffine(TriMesh(pts, trilist=TRI), PointCloud(pts)).d_dl(x)
    V.eq('warp', t.apply(x), np.einsum('ild,ld->id', lam, t.target.points))
    J = np.asarray(t.d_dp(x))
    D = deriv(V, lambda v: base.from_vector(v).apply(x), p)
    for j in (4, 5):
        V.eq('d_dp weights %d' % j, J[:, j], D[j])


def _compose(kind, layout, k):
    def f(V):
        pts = np.array(M.LAYOUTS[layout], dtype=float)
        npt = len(pts)
        base = build(V, kind, layout, k)
        n0 = 0 if kind == 'pdm' else 4
        if npt > 4:
            p = V.frac([0.25, 0.125, 0.5, -0.25][:n0] + [0.125 * ((i * i) % 5 - 2) for i in range(k)])
        elif kind == 'pdm' or V.tier == 'thorough':
            p = params(V, kind, k)
        else:
            # a symbolic pose with fixed weights
            q = V.reals('q', 2, -0.5, 1)
            p = sarr([q[0], q[1], 0.5, -0.25] + [0.25 * (i + 1) for i in range(k)])
        d = V.reals('d', n0 + k, -1, 1)
        # from the identity the increment is simply added
        t = base.copy()
        t.compose_after_from_vector_inplace(d)
        V.eq('composition with the identity', t.as_vector(), d, rtol=1e-7)
        # elsewhere: the least squares change that moves the mean points like
        # the warped displacement
        t = base.from_vector(p)
        mean = t.pdm.model.mean().points
        G0 = np.asarray(base.pdm.d_dp(mean))
        G = np.asarray(t.pdm.d_dp(mean))
        A = np.broadcast_to(np.asarray(t.transform.d_dx(mean)), (npt, 2, 2))
        Jp = np.asarray(t.Jp())
        V.eq('Jp does not change the state', t.as_vector(), p)
        t.compose_after_from_vector_inplace(d)
        V.eq('increment is Jp delta', t.as_vector(), p + np.dot(Jp, d))
        mv = np.stack([np.dot(A[i], np.dot(G0[i].T, d)) for i in range(npt)])     # wanted motion
        got = np.stack([np.dot(G[i].T, np.dot(Jp, d)) for i in range(npt)])
        for j in range(n0 + k):
            V.eq('normal equation %d' % j, (G[:, j] * (got - mv)).sum(), 0)
        V.eq('warp follows the new target', t.transform.target.points, t.pdm.target.points)
    return f


for kind, lay, k in (('pdm', 'mesh', 2), ('pdm', 'diamond', 1), ('ortho', 'mesh', 2)):
    REG.add('compose_%s_%s_%d' % (kind, lay, k), _compose(kind, lay, k), timeout=300, claim_timeout=15000,
            bounds='%s model, %d components; pdm: any parameters, ortho: any scale/rotation with fixed '
            'translation and weights (all in thorough); any increment' % (kind, k))


for kind, k in (('pdm', 9), ('ortho', 8)):
    REG.add('compose_many_%s_%d' % (kind, k), _compose(kind, 'nine', k), timeout=300, claim_timeout=15000,
            bounds='%s model of 9 points, %d components; fixed parameters, any increment' % (kind, k))


def _mdt_many(kind, k):
    def f(V):
        pts = np.array(M.LAYOUTS['nine'], dtype=float)
        base = build(V, kind, 'nine', k, source=TriMesh(pts, trilist=M.NINE))
        n0 = 0 if kind == 'pdm' else 4
        b = V.reals('b', k, -2, 2)
        p = cat(V.frac([0.25, 0.125, 0.5, -0.25]), b) if n0 else b
        W = np.zeros((8, 9))
        for n, q in enumerate((0, 7, 5, 2, 1, 6, 4, 3)):
            W[n, M.NINE[q]] = [0.25, 0.5, 0.25] if n % 2 else [0.5, 0.125, 0.375]
        x = W.dot(pts)
        V.eq('starts as the identity warp', base.apply(x), x)
        t = base.from_vector(p)
        V.eq('as_vector', t.as_vector(), p)
        V.close('warp', t.apply(x), W.dot(np.asarray(t.target.points)), 1e-9)
        J = np.asarray(t.d_dp(x))
        V.eq('Jacobian layout', list(J.shape), [8, n0 + k, 2])
        V.eq('d_dp interpolates the one of the model', J, np.einsum('il,lpd->ipd', W, np.asarray(t.pdm.d_dp(None))))
        V.eq('d_dp repeated', t.d_dp(x), J)
        s = base.copy()
        s.set_target(t.target)
        V.eq('set_target recovers the parameters', s.as_vector(), p)
        V.eq('set_target recovers the warp', s.apply(x), t.apply(x))
    return f


for kind, k in (('pdm', 10), ('ortho', 9)):
    REG.add('mdt_many_%s_%d' % (kind, k), _mdt_many(kind, k), timeout=300,
            bounds='%s model of 9 points and 8 triangles, %d components, any weights, a point in each triangle' % (kind, k))


@REG.harness(bounds='any parameters', timeout=100)
def inverses(V):
    base = build(V, 'pdm', 'mesh', 2)
    p = params(V, 'pdm', 2)
    t = base.from_vector(p)
    V.eq('pseudoinverse_vector', t.pseudoinverse_vector(p), -p)
    V.eq('pseudoinverse', t.pseudoinverse().as_vector(), -p)
    V.eq('unchanged', t.as_vector(), p)
    V.check('no true inverse', t.has_true_inverse is False)
    o = build(V, 'ortho', 'mesh', 1)
    V.eq('ortho pseudoinverse_vector', o.pseudoinverse_vector(p), -p)


@REG.harness(bounds='4 landmarks, spline warp, 2 components, any weights, any sample point', timeout=300, rtol=1e-5)
def mdt_splines(V):
    pts = np.array(M.LAYOUTS['diamond'], dtype=float)
    base = ModelDrivenTransform(PDM(M.shape_pca(V, 'diamond', 2)), DifferentiableThinPlateSplines,
                                source=PointCloud(pts))
    p = V.reals('p', 2, -2, 2)
    x = V.reals('x', (1, 2), -2, 2)
    for j in range(4):
        V.assume((x[0, 0] - pts[j, 0]) ** 2 + (x[0, 1] - pts[j, 1]) ** 2 >= 0.0625)
    t = base.from_vector(p)
    V.eq('as_vector', t.as_vector(), p)
    J = np.asarray(t.d_dp(x))
    D = deriv(V, lambda v: base.from_vector(v).apply(x), p)
    for j in range(2):
        V.eq('d_dp %d' % j, J[:, j], D[j])
    lam = np.asarray(DifferentiableThinPlateSplines(PointCloud(pts), PointCloud(pts)).d_dl(x))
    V.eq('warp', t.apply(x), np.einsum('ild,ld->id', lam, t.target.points))


@REG.harness(bounds='type checks of the model argument')
def wrong_model(V):
    V.real('unused')
    m = M.shape_pca(V, 'mesh', 1, trilist=TRI)
    V.check('pdm needed', raises(ValueError, lambda: ModelDrivenTransform(m, DifferentiablePiecewiseAffine)))
    V.check('global pdm needed', raises(ValueError, lambda: GlobalMDTransform(PDM(m), DifferentiablePiecewiseAffine)))
    V.check('ortho pdm needed', raises(ValueError, lambda: OrthoMDTransform(
        GlobalPDM(m, DifferentiableAlignmentSimilarity), DifferentiablePiecewiseAffine)))
