"""C22 - APS: weighted Gauss-Newton steps with a deformation prior."""
from checks.aamlk import *
from menpo.image import Image
from menpo.model import GMRFModel
from menpofit.aps.algorithm.gn import GaussNewtonBaseInterface, Forward, Inverse

REG = Registry('C22')
REG.assumptions = ['patches extracted from an image are arbitrary per (image, shape)', 'precision matrices are symmetric',
                   'the Gauss-Newton Hessians are non-singular']
REG.outside = ['training of the Gauss-Markov random fields (menpo)']
CLS = {'fc': Forward, 'ic': Inverse}


class Sparse(np.ndarray):
    """the part of the sparse matrix interface that sub-sampling uses"""

    def tolil(self):
        return self

    tobsr = tocsr = tocsc = tolil


def sym_matrix(V, name, n):
    """arbitrary symmetric tridiagonal matrix"""
    o = np.empty((n, n), dtype=object)
    o[...] = 0.0
    for i in range(n):
        o[i, i] = V.real('%s%d' % (name, i), 0.25, 2)
        if i:
            o[i, i - 1] = o[i - 1, i] = V.real('%s%d_%d' % (name, i - 1, i), -1, 1)
    return sarr(o.tolist())


class DModel(object):
    """deformation model (mahalanobis distance to the mean)"""

    def __init__(self, Q, mean):
        self.precision, self.mean_vector = Q, mean

    def mahalanobis_distance(self, s, subtract_mean=True, square_root=False):
        x = np.asarray(s.as_vector())
        if subtract_mean:
            x = x - self.mean_vector
        d = x.dot(np.asarray(self.precision)).dot(x)
        assert not square_root
        return d


class PatchFamily(object):
    def __init__(self, V, shape, fam, offsets=False):
        self.offsets = offsets
        self.V, self.shape, self.fam, self.table, self.calls = V, shape, fam, {}, []

    def extract(self):
        outer = self

        def extract_patches(self, centers, patch_shape=None, as_single_array=None, **k):
            key = (key_of(self.pixels), key_of(centers.points))
            outer.calls.append((self, tuple(patch_shape), as_single_array))
            if key not in outer.table:
                n = len(outer.table)
                outer.table[key] = offset_patches(outer.V, n + 1, outer.shape) if outer.offsets else family(outer.V, 'w', outer.shape, n + 1) if outer.fam else \
                    outer.V.reals('w%d' % n, outer.shape, -2, 2)
            return outer.table[key].copy()
        return ((Image, 'extract_patches', extract_patches),)


def offset_patches(V, j, shape):
    """a fixed pattern plus an unknown brightness of every channel of every patch"""
    px = np.array([F((7 * i * i + (3 + 4 * j) * i + 5 * j) % 11 - 5, 4) for i in range(int(np.prod(shape)))])
    t = np.asarray(V.reals('w%d' % j, shape[:3] + (1, 1), -2, 2))
    return sarr((np.asarray(V.frac(px)).reshape(shape) + t).tolist())


def setup(V, n, procrustes, sampling, fam, ch=1, ps=(2, 3), symQ=True, npt=3, warp=None, lin=False):
    shape = (npt, 1, ch) + ps
    T = Image(offset_patches(V, 0, shape) if lin else family(V, 'T', shape, 0) if fam else V.reals('T', shape, -2, 2), copy=False)
    abar = Image(family(V, 'B', shape, 9) if fam else V.reals('B', shape, -2, 2), copy=False)
    N = int(np.prod(shape))
    if symQ:
        Qa = np.asarray(sym_matrix(V, 'Q', N)).view(Sparse)
    else:
        Qa = np.array([[F(4) if i == j else F(1, 1 + abs(i - j)) if abs(i - j) < 3 else F(0) for j in range(N)]
                       for i in range(N)])
        Qa = np.asarray(V.frac(Qa)).view(Sparse)
    Qd = np.array([[F(3) if i == j else F((i * j) % 3 - 1, 2) for j in range(2 * npt)] for i in range(2 * npt)])
    Qd = np.asarray(V.frac(Qd))
    am = rec(precision=Qa, mean=lambda: abar,
             _mahalanobis_distance=lambda x, subtract_mean, square_root:
             np.asarray(x).dot(np.asarray(Qa)).dot(np.asarray(x).T)[0, 0])
    mu = V.reals('m', (2 * npt,), -1, 1)
    dm = DModel(Qd, np.asarray(mu))
    # the Jacobian of the shape model: rational, dense
    U = np.array([[[((3 * i + 5 * j + 2 * k + (j * j * i if lin else 0)) % (11 if lin else 7)) - 3 for k in range(2)] for j in range(n)] for i in range(npt)]) * 1.0
    w = (warp or Warp)(n, U)
    wt = 1.5 if lin else V.real('weight', 0.5, 4)
    half = 0.5     # what the patch normalisation does
    it = GaussNewtonBaseInterface(am, dm, w, wt, procrustes, T, sampling, ps, lambda p: p * half)
    keep = np.ones(ps, dtype=bool)
    if isinstance(sampling, int):
        keep = (np.arange(keep.size) % sampling == 0).reshape(ps)
    elif sampling is not None:
        keep = sampling
    rows = np.tile(keep.ravel(), npt * ch)
    return rec(T=T, abar=abar, Qa=np.asarray(Qa), Qd=Qd, half=half, mu=np.asarray(mu), U=U, warp=w, wt=wt, it=it, rows=rows,
               shape=shape, n=n, npt=npt, ps=ps, ch=ch, procrustes=procrustes)


def check(V, s, d, alg, res, pf, image_, init, max_iters, costs, stop):
    P, S = res.shape_parameters, res.shapes
    n = len(P) - 1
    V.check('iterations within the bound', n <= max_iters and res.n_iters == n)
    V.check('one shape per parameter vector and the initial one', len(S) == n + 2)
    V.eq('initial shape first', S[0].points, init)
    for name in ('costs', 'appearance_costs', 'deformation_costs'):
        c = getattr(res, name)
        V.check(name, (c is None) if not costs else len(c) == n + 1)
    V.check('patches asked with the patch shape', all(c[1] == s.ps and c[2] is True for c in pf.calls))
    V.eq('starts at the initial shape', P[0], s.warp.params(init))
    Q = s.Qa[s.rows][:, s.rows]
    Uv = np.transpose(s.U, (0, 2, 1)).reshape(-1, s.n)        # x0 y0 x1 y1 ...
    Hs = Uv.T.dot(s.Qd).dot(Uv) * s.wt
    abar = np.asarray(s.abar.pixels).ravel()[s.rows]

    def jac(px):
        px = np.asarray(px)
        G = np.stack([grad_of(px[p, 0], boundary=False) for p in range(s.npt)], 1)
        J = [[sum(G[k, p, c, y, x] * s.U[p, q, k] for k in range(2)) for q in range(s.n)]
             for p in range(s.npt) for c in range(s.ch) for y in range(s.ps[0]) for x in range(s.ps[1])]
        return np.asarray(sarr(J))[s.rows]
    for k in range(n + 1):
        p = np.asarray(P[k])
        V.eq('shape %d' % k, S[k + 1].points, s.warp.points(p))
        w = np.asarray(pf.table[(key_of(image_.pixels), key_of(s.warp.points(p)))])
        w = w * s.half
        e = w.ravel()[s.rows] - abar
        if costs:
            x = np.asarray(s.warp.points(p)).ravel() - s.mu
            a, b = e.dot(Q).dot(e), s.wt * x.dot(s.Qd).dot(x)
            V.eq('appearance cost %d' % k, res.appearance_costs[k], a)
            V.eq('deformation cost %d' % k, res.deformation_costs[k], b)
            V.eq('cost %d' % k, res.costs[k], a + b)
        if k == n:
            break
        J = jac(w if d == 'fc' else s.T.pixels)
        H = J.T.dot(Q).dot(J) + Hs
        z = np.array(p)
        if s.procrustes:
            z[:4] = z[:4] * 0
        dp = vsolve(V, H, J.T.dot(Q).dot(e) + Hs.dot(z))
        q = np.asarray(P[k + 1])
        V.eq('step %d' % k, q, p - dp)
        if stop:
            moved = vsqrt(V, ((q - p) ** 2).sum())
            if k < n - 1:
                V.check('went on after a real step %d' % k, moved > alg.eps)
            elif n < max_iters:
                V.check('stopped after a negligible step', moved <= alg.eps)


def run(d, n, procrustes, iters=1, costs=False, sampling=None, fam=False, eps=0, **kw):
    def f(V):
        s = setup(V, n, procrustes, sampling, fam, **kw)
        I = Image(V.reals('I', (1, 2, 2), 0, 1), copy=False)
        init = any_start(V, s.warp, n)
        pf = PatchFamily(V, s.shape, fam)
        T0 = np.array(s.T.pixels)
        start = PointCloud(init.copy())
        with patched(*pf.extract()):
            alg = CLS[d](s.it, eps=eps)
            res = alg.run(I, start, gt_shape=PointCloud(Warp.BASE + 1), max_iters=iters, return_costs=costs)
        check(V, s, d, alg, res, pf, I, init, iters, costs, eps > 0)
        V.eq('template untouched', s.T.pixels, T0)
        V.eq('start untouched', start.points, init)
        V.eq('ground truth recorded', res.gt_shape.points, Warp.BASE + 1)
        V.eq('image recorded', res.image.pixels, I.pixels)
    return f


SAMP = np.array([[1, 0, 1], [0, 1, 1]], dtype=bool)
for d in CLS:
    REG.add('step_' + d, run(d, 2, False), timeout=200, bounds='1 step, 3 patches of 2x3, 2 parameters')
    REG.add('procrustes_' + d, run(d, 5, True, symQ=False, fam=True), timeout=200, bounds='1 step, 5 parameters')
    REG.add('full_' + d, run(d, 5, False, symQ=False, fam=True), timeout=200, bounds='1 step, 5 parameters')
    REG.add('sampled_' + d, run(d, 1, False, sampling=SAMP, costs=True), timeout=200, bounds='1 step, 4 of 6 pixels')
    REG.add('sampled_step_' + d, run(d, 1, True, sampling=2, ch=2, symQ=False), timeout=200,
            bounds='1 step, every second pixel, 2 channels')
    REG.add('costs_' + d, run(d, 1, False, costs=True), timeout=200, bounds='1 step')
    REG.add('none_' + d, run(d, 1, False, iters=0, costs=True), timeout=60, bounds='max_iters=0')
    REG.add('stop_' + d, run(d, 1, False, iters=3, eps=0.25, fam=True, symQ=False), timeout=200, max_paths=60,
            bounds='max_iters=3, eps=0.25')


def history(d):
    def f(V):
        s = setup(V, 1, False, None, True, symQ=False)
        I, I2 = (Image(V.reals(x, (1, 2, 2), 0, 1), copy=False) for x in ('I', 'I2'))
        s1, s2 = (s.warp.points(V.reals(x, (1,), -2, 2)) for x in 'st')
        pf = PatchFamily(V, s.shape, True)
        kw = dict(max_iters=1, return_costs=True)
        with patched(*pf.extract()):
            alg = CLS[d](s.it, eps=0)
            r1 = alg.run(I, PointCloud(s1.copy()), **kw)
            p1 = np.array(r1.shape_parameters[1])
            alg.run(I2, PointCloud(s2.copy()), **kw)
            r2 = alg.run(I, PointCloud(s1.copy()), **kw)
            r3 = CLS[d](s.it, eps=0).run(I, PointCloud(s1.copy()), **kw)
        for tag, r in (('kept', r1), ('again', r2), ('fresh object', r3)):
            V.eq(tag + ': parameters', r.shape_parameters[1], p1)
            V.eq(tag + ': shape', r.final_shape.points, s.warp.points(p1))
            V.eq(tag + ': costs', r.costs, r1.costs)
    return f


for d in CLS:
    REG.add('history_' + d, history(d), timeout=100, bounds='four runs')


def warped(V):
    s = setup(V, 1, False, None, False)
    I = Image(V.reals('I', (1, 2, 2), 0, 1), copy=False)
    shapes = [s.warp.points(V.reals('s%d' % k, (1,), -2, 2)) for k in range(2)]
    pf = PatchFamily(V, s.shape, False)
    with patched(*pf.extract()):
        out = s.it.warped_images(I, [PointCloud(x.copy()) for x in shapes])
    V.check('one per shape', len(out) == 2)
    for k, x in enumerate(shapes):
        V.eq('patches of shape %d' % k, out[k], np.asarray(pf.table[(key_of(I.pixels), key_of(x))]) * s.half)


REG.add('warped_images', warped, timeout=60, bounds='2 shapes')


# ---- long runs ---------------------------------------------------------------------------------
class LinWarp(BigWarp):
    BASE = BigWarp.BASE[:5]


class LastLinWarp(LinWarp):
    at = 7


def long(d, iters, n, procrustes, npt=5, warp=LinWarp, eps=None, costs=False, **kw):
    def f(V):
        s = setup(V, n, procrustes, None, True, symQ=False, npt=npt, warp=warp, lin=True, **kw)
        I = Image(V.reals('I', (1, 2, 2), 0, 1), copy=False)
        init = any_start(V, s.warp, n)
        pf = PatchFamily(V, s.shape, True, True)
        with patched(*pf.extract()):
            alg = CLS[d](s.it, eps=NoStop() if eps is None else eps)
            res = alg.run(I, PointCloud(init.copy()), max_iters=iters, return_costs=costs)
        V.check('all iterations', eps is not None or res.n_iters == iters)
        check(V, s, d, alg, res, pf, I, init, iters, costs, eps is not None)
    return f


def warped_many(V):
    s = setup(V, 1, False, None, False, symQ=False)
    I = Image(V.reals('I', (1, 2, 2), 0, 1), copy=False)
    shapes = [s.warp.points(V.reals('s%d' % k, (1,), -2, 2)) for k in range(15)]
    pf = PatchFamily(V, s.shape, False)
    with patched(*pf.extract()):
        out = s.it.warped_images(I, [PointCloud(x.copy()) for x in shapes])
    V.check('one per shape', len(out) == 15)
    for k, x in enumerate(shapes):
        V.eq('patches of shape %d' % k, out[k], np.asarray(pf.table[(key_of(I.pixels), key_of(x))]) * s.half)


for d in CLS:
    REG.add('long_' + d, long(d, 15, 1, False), timeout=200, bounds='15 iterations, patches with any brightness')
    REG.add('long_costs_' + d, long(d, 8, 1, False, costs=True), timeout=200, bounds='8 iterations with costs')
    REG.add('long_procrustes_' + d, long(d, 8, 6, True), timeout=200, bounds='8 iterations, 6 parameters')
    REG.add('many_parameters_' + d, long(d, 3, 9, True, ch=3), timeout=200, bounds='3 iterations, 9 parameters, 3 channels')
    REG.add('many_points_' + d, long(d, 2, 1, False, warp=LastLinWarp, eps=1 / 64.), timeout=200,
            bounds='2 iterations, 5 points of which the last but one moves, eps=1/64')
REG.add('warped_images_many', warped_many, timeout=60, bounds='15 shapes')
