"""C07 - Lucas-Kanade algorithms: Gauss-Newton steps, bookkeeping, stop rule."""
from checks.common import *
from checks.images import *
from menpo.shape import PointCloud
from menpofit.lk import SSD, ForwardAdditive, ForwardCompositional, InverseCompositional
from menpofit.transform import DifferentiableAlignmentAffine, DifferentiableAlignmentSimilarity

REG = Registry('C07')
REG.assumptions = ['sampling an image gives an arbitrary warped image per (image, parameters), the same one '
                   'whenever the same parameters are asked again', 'the Gauss-Newton Hessians are non-singular']
REG.outside = ['convergence of the iterations']
S = (4, 5)
SRC = np.array([[0., 0.], [0., 4.], [2., 0.]])
STEPS = {'fa': ForwardAdditive, 'fc': ForwardCompositional, 'ic': InverseCompositional}


class Aff(object):
    """the affine group (six parameters)"""
    jac = staticmethod(lambda shape: aff_jac(shape))

    @staticmethod
    def transform():
        return DifferentiableAlignmentAffine(PointCloud(SRC), PointCloud(SRC))

    @staticmethod
    def hom(p):
        return hom(p)


class Scale(Aff):
    """a one parameter warp group x -> (1 + p) x"""
    class T(object):
        n_dims = 2

        def __init__(self, p=0.0):
            self.p = p

        def as_vector(self):
            return sarr([self.p])

        def from_vector_inplace(self, v):
            self.p = v[0]

        def from_vector(self, v):
            return type(self)(v[0])

        def set_target(self, pc):
            self.p = (np.asarray(pc.points) * SRC).sum() / (SRC ** 2).sum() - 1

        @property
        def target(self):
            return PointCloud(SRC * (1 + self.p))

        def d_dp(self, pts):
            return np.asarray(pts)[:, None, :] * 1.0

        def compose_after_from_vector_inplace(self, v):
            self.p = self.p + v[0] + self.p * v[0]

        def pseudoinverse_vector(self, v):
            return sarr([1 / (1 + v[0]) - 1])

    @staticmethod
    def transform():
        return Scale.T()

    @staticmethod
    def hom(p):
        z = 0.0 * p[0]
        return sarr([[1 + p[0], z, z], [z, 1 + p[0], z], [z, z, 1.0 + z]])

    @staticmethod
    def jac(shape):
        o = np.zeros((2,) + shape + (1,))
        for y, x in np.ndindex(*shape):
            o[0, y, x, 0], o[1, y, x, 0] = y, x
        return o


def hom(p):
    """parameters -> homogeneous matrix (documented order)"""
    a = np.empty((3, 3), dtype=object)
    a[:] = [[1 + p[0], p[2], p[4]], [p[1], 1 + p[3], p[5]], [0.0, 0.0, 1.0]]
    return a


def aff_jac(shape):
    """(dims, H, W, 6) Jacobian of the affine warp at the pixels"""
    o = np.zeros((2,) + shape + (6,))
    for y in range(shape[0]):
        for x in range(shape[1]):
            for d in range(2):
                o[d, y, x, d], o[d, y, x, 2 + d], o[d, y, x, 4 + d] = y, x, 1
    return o


def jac_images(V, G, dW):
    d, C, H, W = G.shape
    o = np.empty((C * H * W, dW.shape[-1]), dtype=object if V.sym else float)
    for c in range(C):
        for y in range(H):
            for x in range(W):
                for p in range(dW.shape[-1]):
                    o[(c * H + y) * W + x, p] = sum(G[k, c, y, x] * dW[k, y, x, p] for k in range(d))
    return o


def check_run(V, tag, kind, alg, res, image, T, sam, init, max_iters, costs, G=Aff,
              resid=None):
    P = res.homogeneous_parameters
    n = len(P) - 1
    V.check(tag + 'iterations within the bound', n <= max_iters)
    V.check(tag + 'one shape per parameter vector', len(res.shapes) == n + 2 and res.n_iters == n)
    V.eq(tag + 'starts at the initial shape', res.shapes[0].points, init)
    V.eq(tag + 'initial shape recorded', res.initial_shape.points, init)
    V.eq(tag + 'initial shape reconstructed', res.reconstructed_initial_shape.points, init)
    V.eq(tag + 'final shape', res.final_shape.points, res.shapes[-1].points)
    if costs:
        V.check(tag + 'one cost per iteration', len(res.costs) == n)
    else:
        V.check(tag + 'no costs', res.costs is None)
    Tp = np.asarray(T.pixels)
    dW = G.jac(Tp.shape[1:])
    hom = G.hom

    def at(p, im):
        t = G.transform()
        return np.asarray(sam.get(im, T.mask, t.from_vector(p)))
    for k in range(n):
        p = np.asarray(P[k])
        V.eq(tag + 'shape %d' % k, res.shapes[k + 1].points,
             np.dot(np.hstack([SRC, np.ones((3, 1))]), hom(p)[:2].T))
        W = at(p, image)
        if kind == 'ic':
            J = jac_images(V, grad_of(Tp), dW)
        elif kind == 'fc':
            J = jac_images(V, grad_of(W), dW)
        else:
            from menpo.feature import gradient
            g = at(p, gradient(image))
            J = jac_images(V, g.reshape((2, -1) + Tp.shape[1:]), dW)
        e = (W - Tp).ravel()
        dp = vsolve(V, np.dot(J.T, J), np.dot(J.T, e))
        if costs:
            V.eq(tag + 'cost %d' % k, res.costs[k], (e * e).sum())
        q = np.asarray(P[k + 1])
        if kind == 'fa':
            V.eq(tag + 'additive step %d' % k, q, p - dp)
        elif kind == 'fc':
            V.eq(tag + 'compositional step %d' % k, hom(q), np.dot(hom(p), hom(-dp)))
        else:
            # pose_{k+1} o warp(dp) = pose_k
            V.eq(tag + 'inverse compositional step %d' % k, np.dot(hom(q), hom(dp)), hom(p))
        nn = vsqrt(V, (dp * dp).sum())
        if k < n - 1:
            V.check(tag + 'went on after a real step %d' % k, nn > alg.eps)
        elif n < max_iters:
            V.check(tag + 'stopped after a negligible step', nn <= alg.eps)
    return P


def make(V, kind, eps, ch=1):
    T = image(V, 'T', S, ch)
    I = image(V, 'I', (2, 2), ch)
    tr = DifferentiableAlignmentAffine(PointCloud(SRC), PointCloud(SRC))
    return T, I, STEPS[kind], tr


def _run(kind, iters, eps, costs):
    def f(V):
        T, I, cls, tr = make(V, kind, eps)
        init = V.reals('s', (3, 2), -4, 4)
        T0, I0, init0 = T.pixels.copy(), I.pixels.copy(), init.copy()
        sam = Sampler(V)
        with patched(*sam.patches()):
            alg = cls(T, tr, SSD(), eps=eps)
            gt = PointCloud(SRC + 1)
            res = alg.run(I, PointCloud(init), gt_shape=gt, max_iters=iters, return_costs=costs)
        V.check('image and ground truth recorded', res.image.n_channels == 1 and
                bool(np.all(res.gt_shape.points == SRC + 1)))
        if costs:
            V.check('every warp is on the template frame', all(c[1].shape == S for c in sam.calls))
        check_run(V, '', kind, alg, res, I, T, sam, init, iters, costs)
        V.eq('template untouched', T.pixels, T0)
        V.eq('image untouched', I.pixels, I0)
        V.eq('initial shape untouched', init, init0)
    return f


for kind in STEPS:
    REG.add('step_' + kind, _run(kind, 1, 1e-10, True), timeout=250,
            bounds='1 iteration, any 4x5 template, any sampled image, any initial triangle, affine warp')
    REG.add('zero_iterations_' + kind, _run(kind, 0, 1e-10, True), timeout=60, bounds='max_iters=0')


def _multi(kind, iters_, eps, shape=(3, 4), ch=1):
    """several iterations, the stop rule, and runs that must not remember"""
    def f(V):
        iters = iters_ + (V.tier == 'thorough')
        T = image(V, 'T', shape, ch)
        I = image(V, 'I', (2, 2), ch)
        init = SRC * (1 + V.real('s', -1, 1))
        sam = Sampler(V)
        with patched(*sam.patches()):
            alg = STEPS[kind](T, Scale.transform(), SSD(), eps=eps)
            res = alg.run(I, PointCloud(init), max_iters=iters, return_costs=False)
            n0 = len(sam.calls)
        check_run(V, '', kind, alg, res, I, T, sam, init, iters, False, G=Scale)
        V.check('no ground truth', res.gt_shape is None)
    return f


def _history(kind):
    def f(V):
        T = image(V, 'T', (3, 4))
        I, I2 = image(V, 'I', (2, 2)), image(V, 'I2', (2, 2))
        a, b = V.real('a', -1, 1), V.real('b', -1, 1)
        sam = Sampler(V)
        with patched(*sam.patches()):
            alg = STEPS[kind](T, Scale.transform(), SSD(), eps=0.0)
            r1 = alg.run(I, PointCloud(SRC * (1 + a)), max_iters=1, return_costs=True)
            alg.run(I2, PointCloud(SRC * (1 + b)), max_iters=1)
            r2 = alg.run(I, PointCloud(SRC * (1 + a)), max_iters=1, return_costs=True)
            alg2 = STEPS[kind](T, Scale.transform(), SSD(), eps=0.0)
            r3 = alg2.run(I, PointCloud(SRC * (1 + a)), max_iters=1, return_costs=True)
        for tag, r in (('again', r2), ('fresh object', r3)):
            V.eq(tag + ': parameters', r.homogeneous_parameters[1], r1.homogeneous_parameters[1])
            V.eq(tag + ': final shape', r.final_shape.points, r1.final_shape.points)
            V.eq(tag + ': cost', r.costs[0], r1.costs[0])
            V.check(tag + ': length', r.n_iters == r1.n_iters)
    return f


def warped(V):
    T, I = image(V, 'T', (3, 4)), image(V, 'I', (2, 2))
    sam = Sampler(V)
    ps = [V.real('p%d' % k, -1, 1) for k in range(3)]
    with patched(*sam.patches()):
        for kind in STEPS:
            alg = STEPS[kind](T, Scale.transform(), SSD())
            ws = alg.warped_images(I, [PointCloud(SRC * (1 + p)) for p in ps])
            V.check(kind + ': one image per shape', len(ws) == 3)
            for k in range(3):
                V.eq(kind + ': image %d is the warp at shape %d' % (k, k), ws[k].pixels,
                     sam.get(I, T.mask, Scale.T(ps[k])))


for kind in STEPS:
    REG.add('multi_' + kind, _multi(kind, 2, 0.25), timeout=200, max_paths=40,
            bounds='max_iters=2 (thorough: 3), eps=0.25, one parameter warp group, 3x4 template')
    REG.add('history_' + kind, _history(kind), timeout=200, bounds='three runs on one object, one on a fresh one')
REG.add('warped_images', warped, timeout=60, bounds='3 shapes')


# ---- long runs: nothing depends on the number of iterations, shapes or parameters -------
class Shift(object):
    """a commutative warp group with n parameters (composition adds them); its Jacobian
    tells whether it was taken at the identity"""
    n_dims = 2

    def __init__(self, n):
        self.n, self.p, self.identity = n, np.zeros(n), True

    def as_vector(self):
        return np.array(self.p).view(type(self.p))

    def from_vector_inplace(self, v):
        self.p, self.identity = np.asarray(v).view(type(v)).copy(), False

    _from_vector_inplace = from_vector_inplace

    def compose_after_from_vector_inplace(self, v):
        self.from_vector_inplace(self.p + v)

    def pseudoinverse_vector(self, v):
        return -v

    def set_target(self, pc):
        self.from_vector_inplace(sarr(np.asarray(pc.points).ravel().tolist()))

    @property
    def target(self):
        return PointCloud(sarr(np.asarray(self.p).reshape(-1, 2).tolist()))

    def d_dp(self, pts):
        return np.full((len(pts), self.n, 2), 0.0 if self.identity else 1.0)


class Script(object):
    """a residual with the given updates and costs, one after the other"""

    def __init__(self, ups, costs):
        self.ups, self.costs, self.k, self.warps = ups, costs, -1, []

    def steepest_descent_images(self, image, dW_dp, forward=None):
        m = 1 + float(dW_dp.max())
        return m, m

    def hessian(self, sdi, sdi2=None):
        return np.eye(self.ups.shape[1]) * sdi

    def steepest_descent_update(self, sdi, im, template):
        self.k += 1
        self.warps.append(im)
        return self.ups[self.k]

    def cost_closure(self):
        return self.costs[self.k]


def _long(kind, iters, n, last=None):
    def f(V):
        T, I = image(V, 'T', (3, 4)), image(V, 'I', (2, 2))
        p0 = V.reals('p', (n,), -2, 2)
        ups = V.reals('u', (iters, n), -2, 2)
        if last is not None:
            # the last parameter moves a lot, until the given iteration
            for k in range(iters):
                ups[k] = ups[k] * 0
                ups[k, n - 1] = V.real('v%d' % k, 1, 2) if k < last else V.real('v%d' % k, -0.1, 0.1)
        cs = V.reals('c', (iters,), 0, 9)
        sam = Sampler(V)
        R = Script(ups, cs)
        with patched(*sam.patches()):
            alg = STEPS[kind](T, Shift(n), R, eps=-1 if last is None else 0.25)
            res = alg.run(I, PointCloud(sarr(np.asarray(p0).reshape(-1, 2).tolist())), max_iters=iters,
                          return_costs=True)
            P = res.homogeneous_parameters
            m = iters if last is None else last + 1
            V.check('number of iterations', len(P) == m + 1 and len(res.shapes) == m + 2 and
                    len(res.costs) == m and len(R.warps) == m)
            p = np.asarray(p0)
            V.eq('start', P[0], p)
            for k in range(m):
                V.eq('warp %d' % k, R.warps[k].pixels, sam.get(I, T.mask, rec(as_vector=lambda: P[k])))
                p = p - ups[k] / (2 if kind == 'fa' else 1)
                V.eq('parameters %d' % (k + 1), P[k + 1], p)
                V.eq('shape %d' % (k + 1), np.asarray(res.shapes[k + 2].points).ravel(), p)
                V.eq('cost %d' % k, res.costs[k], cs[k])
    return f


def sim_hom(p):
    return np.array([[1 + p[0], -p[1], p[2]], [p[1], 1 + p[0], p[3]], [0.0 * p[0], 0.0 * p[0], 1.0 + 0.0 * p[0]]], dtype=object)


class Given(Script):
    """the same for any transform"""

    def hessian(self, sdi, sdi2=None):
        return np.eye(self.ups.shape[1])


def _alignment(kind, cls, iters):
    """the transforms themselves move with their parameters, and so do the reported shapes"""
    n, H = (4, sim_hom) if cls is DifferentiableAlignmentSimilarity else (6, hom)

    def f(V):
        T, I = image(V, 'T', (3, 4)), image(V, 'I', (2, 2))
        p0 = V.reals('p', (n,), -0.5, 0.5)
        ups = V.reals('u', (iters, n), -0.25, 0.25)
        S1 = np.hstack([SRC, np.ones((3, 1))])
        at = lambda M: np.dot(S1, M[:2].T)
        sam = Sampler(V)
        with patched(*sam.patches()):
            tr = cls(PointCloud(SRC), PointCloud(SRC + 1.0))
            alg = STEPS[kind](T, tr, Given(ups, V.reals('c', (iters,), 0, 9)), eps=-1)
            init = sarr(at(H(np.asarray(p0))).tolist())
            res = alg.run(I, PointCloud(init), max_iters=iters, return_costs=True)
        P = res.homogeneous_parameters
        V.check('number of iterations', len(P) == iters + 1 and len(res.shapes) == iters + 2)
        V.close('starts at the parameters of the initial shape', P[0], p0, tol=1e-9)
        M = H(np.asarray(p0))
        V.close('initial shape', res.shapes[1].points, at(M), tol=1e-9)
        for k in range(iters):
            q = np.asarray(P[k + 1])
            if kind == 'fa':
                V.close('parameters %d' % k, q, np.asarray(P[k]) - ups[k], tol=1e-9)
            elif kind == 'fc':
                V.close('parameters %d' % k, H(q), np.dot(H(np.asarray(P[k])), H(-ups[k])), tol=1e-9)
            else:
                V.close('parameters %d' % k, np.dot(H(q), H(ups[k])), H(np.asarray(P[k])), tol=1e-9)
            V.close('shape %d is the source moved by the parameters' % k, res.shapes[k + 2].points, at(H(q)), tol=1e-9)
    REG.add('alignment_%s_%s' % (kind, 'similarity' if n == 4 else 'affine'), f, timeout=250,
            bounds='any start and any %d steps of a %s' % (iters, cls.__name__))


for kind in STEPS:
    for c_, i_ in ((DifferentiableAlignmentSimilarity, 2), (DifferentiableAlignmentAffine, 1)):
        _alignment(kind, c_, i_)


def warped_many(V):
    T, I = image(V, 'T', (3, 4)), image(V, 'I', (2, 2))
    sam = Sampler(V)
    ps = [V.real('p%d' % k, -1, 1) for k in range(15)]
    with patched(*sam.patches()):
        alg = InverseCompositional(T, Scale.transform(), SSD())
        ws = alg.warped_images(I, [PointCloud(SRC * (1 + p)) for p in ps])
        V.check('one image per shape', len(ws) == 15)
        for k in range(15):
            V.eq('image %d' % k, ws[k].pixels, sam.get(I, T.mask, Scale.T(ps[k])))


for kind in STEPS:
    REG.add('long_' + kind, _long(kind, 25, 2), timeout=200,
            bounds='25 iterations with any updates and costs of the residual')
    REG.add('very_long_' + kind, _long(kind, 120, 2), timeout=300,
            bounds='120 iterations with any updates and costs of the residual')
    REG.add('many_parameters_' + kind, _long(kind, 6, 14, last=3), timeout=200,
            bounds='14 parameters, of which the last one moves for 4 iterations')
REG.add('warped_images_many', warped_many, timeout=60, bounds='15 shapes')
