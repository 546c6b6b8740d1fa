"""C23 - unified AAM-CLM algorithms: joint steps, costs, bookkeeping."""
import warnings
from checks.aamlk import *
from checks.C20 import Experts, varying, as_numbers
import menpofit.base as mb
import menpofit.unified_aam_clm.algorithm as ua
from menpofit.unified_aam_clm.algorithm import (ProjectOutRegularisedLandmarkMeanShift,
                                                AlternatingRegularisedLandmarkMeanShift)

REG = Registry('C23')
REG.assumptions = ['sampling an image gives an arbitrary warped image per (image, parameters)',
                   'SciPy evaluates Gaussian densities', 'the joint Hessians are non-singular']
REG.outside = ['convergence of the iterations', 'responses of the experts (C20)']
CLS = {'po': ProjectOutRegularisedLandmarkMeanShift, 'alt': AlternatingRegularisedLandmarkMeanShift}
A_DEFAULT = 0.5


class UWarp(Warp):
    """linear shape model with n parameters on three points, and an arbitrary Jacobian of the warp"""
    B = np.array([[1., 0., 0., -1., 2., 1.], [0., 1., 1., 0., -1., 2.], [1., 0., 1., 0., 1., 0.],
                  [0., 1., 0., 1., 0., 1.], [1., 2., -1., 0., 0., 1.], [0., 0., 1., 1., 0., -1.]])

    def __init__(self, V, n, dW, eig, inv_rho2):
        Warp.__init__(self, n, dW, eig)
        self.V = V
        self.B = type(self).B[:n]
        self.pdm = rec(model=rec(inverse_noise_variance=lambda: inv_rho2, eigenvalues=eig),
                       d_dp=lambda _: self.B.reshape(n, -1, 2).swapaxes(0, 1).copy())

    def points(self, p):
        return sarr((self.BASE.ravel() + np.asarray(p).dot(self.B)).reshape(-1, 2).tolist())

    def project(self, points):
        d = np.asarray(points).ravel() - self.BASE.ravel()
        return vsolve(self.V, self.B.dot(self.B.T), self.B.dot(d))

    def set_target(self, pc):
        self.p = sarr(self.project(pc.points).tolist())


def build(V, n_eig=1, shape=(3, 3), ch=1, m=1, mask=None, sampling=None, const=True, symJ=False, sigma=None, rho=None,
          inv_rho2=2.0, tag=''):
    """stand-ins of the unified model: the warp has four pose parameters and n_eig shape parameters"""
    n = 4 + n_eig
    sigma = 0.5 if sigma is None else sigma
    eig = np.array([2., 0.5])[:n_eig] if rho is None else rho
    st = Setup(V, shape=shape, ch=ch, m=m, n=n, eig=eig, mask=mask, sampling=sampling, const=const, symJ=symJ, tag=tag)
    st.warp = UWarp(V, n, st.dW, eig, inv_rho2)
    st.inv_sigma2, st.inv_rho2 = sigma, inv_rho2
    st.am.inverse_noise_variance = lambda: sigma
    st.iface = LucasKanadeStandardInterface(st.am, st.warp, st.mean, sampling=sampling)
    return st


def start_shape(V, name='s', dim=2):
    """initial shapes along one or two directions"""
    u = V.real(name + '0', -2, 2)
    v = V.real(name + '1', -2, 2) if dim > 1 else -u
    return sarr([[0.5 + u, -1 + v], [0.25 * u, 1 + u - v], [2 - v, 0.5 * u]])


def density(grid, cov):
    from scipy.stats import multivariate_normal
    return np.reshape(multivariate_normal(mean=np.zeros(2), cov=cov).pdf(grid), grid.shape[:-1])


def shift(V, resp, size, cov, pts):
    """mean shift of every landmark: mean of the positions under response x kernel, minus the position"""
    g = mb.build_grid(size).astype(float)
    resp = np.array(resp)
    if resp.dtype != object:
        resp[~np.isfinite(resp)] = 0.5
    w = resp[:, 0] * density(g, cov)
    w = w / np.sum(w, axis=(-2, -1))[:, None, None]
    out = []
    for i in range(len(pts)):
        for d in range(2):
            out.append(sum(w[i, y, x] * (pts[i][d] + g[y, x, d]) for y, x in np.ndindex(*size)) - pts[i][d])
    return np.array(out, dtype=object if V.sym else float)


def check(V, st, kind, alg, res, sam, ex, image_, init, iters, a, costs, prior, size, cov, stop, tol=1e-7):
    P, S = res.shape_parameters, res.shapes
    C = res.appearance_parameters
    n = len(P) - 1
    V.check('iterations within the bound', n <= iters and res.n_iters == n)
    V.check('one shape per parameter vector and the initial one', len(S) == n + 2)
    V.eq('initial shape first', S[0].points, init)
    V.check('costs', (res.costs is None) if not costs else len(res.costs) == n + 1)
    V.check('appearance parameters', (C is None) if kind == 'po' else len(C) == n + 1)
    V.check('one response per shape', len(ex.calls) == n + 1 and all(c[0] is image_ for c in ex.calls))
    V.eq('starts at the projected initial shape', P[0], st.warp.project(init))
    A, Ai = st.Am(), st.pinv()
    abar = st.vec(st.mean.pixels)
    Jc = st.warp.B.T
    w = np.array([0.0] * 4 + [1 / l for l in np.asarray(st.eig).tolist()], dtype=object)
    s2, r2 = st.inv_sigma2, st.inv_rho2
    for k in range(n + 1):
        p = np.asarray(P[k])
        V.eq('shape %d' % k, S[k + 1].points, st.warp.points(p))
        V.eq('response at shape %d' % k, ex.calls[k][1], st.warp.points(p))
        i = st.vec(np.asarray(sam.table[(key_of(image_.pixels), key_of(p), st.shape)]))
        ec = shift(V, ex.responses[k], size, cov, np.asarray(st.warp.points(p)).tolist())
        if kind == 'po':
            e = abar - i
            J = st.J(st.mean.pixels)
            Jq = J - A.dot(Ai.dot(J))
        else:
            c = np.asarray(C[k])
            V.eq('appearance %d is the projection' % k, c, Ai.dot(i - abar))
            inst = st.instance(c)
            e = st.vec(inst) - i
            Jq = J = st.J(inst)
        if costs:
            V.close('cost %d' % k, res.costs[k], a * (e * e).sum() + (ec * ec).sum(), tol)
        if k == n:
            break
        H = a * s2 * Jq.T.dot(J) + (1 - a) * r2 * Jc.T.dot(Jc)
        rhs = a * s2 * Jq.T.dot(e) + (1 - a) * r2 * Jc.T.dot(ec)
        if prior:
            H, rhs = add_d(H, w), rhs - w * p
        q = np.asarray(P[k + 1])
        V.close('joint step %d' % k, q, p + vsolve(V, H, rhs), tol)
        if stop:
            d = np.asarray(S[k + 1].points) - np.asarray(S[k + 2].points)   # shown above to be the shapes of p and q
            moved = vsqrt(V, (d ** 2).sum())
            if k < n - 1:
                V.check('went on after a real step %d' % k, moved > alg.eps)
            elif n < iters:
                V.check('stopped after a negligible step', moved <= alg.eps)


def run(kind, iters=1, costs=True, prior=False, eps=0, a=A_DEFAULT, size=(3, 3), cov=1.5, responses=False, nans=False,
        noise=False, fam=True, eigs=False, **kw):
    def f(V):
        w = a
        if a == 'any':
            w = V.real('a', 0, 1)
        k2 = dict(kw)
        if noise:
            k2['sigma'] = V.real('sigma', 0.25, 2)
        if eigs:
            k2['rho'] = sarr([V.real('l%d' % k, 0.25, 4) for k in range(kw.get('n_eig', 1))])
        st = build(V, **k2)
        I = image(V, 'I', (2, 2), st.ch)
        init = start_shape(V, dim=1 if eps else 2)
        sam = (Family if fam else Sampler)(V)
        resp = []
        for t in range(iters + 1):
            r = varying(size, 3, t)
            if nans:
                r[0, 0, 0, 0], r[1, 0, 1, 1], r[2, 0, 0, 1] = np.nan, np.inf, -np.inf
            if responses:
                r = r.tolist()
                r[t % 3][0][0] = V.reals('r%d' % t, (size[1],), 0.0625, 1).tolist()
                r = sarr(r)
            elif not nans:
                r = V.frac(r.tolist())
            resp.append(r)
        ex = Experts(V, size, resp)
        T0, I0 = np.array(st.mean.pixels), np.array(I.pixels)
        start = PointCloud(init.copy())
        kws = dict(max_iters=iters, return_costs=costs, prior=prior)
        if a != A_DEFAULT:
            kws['a'] = w
        with patched((ua, 'check_model', lambda *x: None), *sam.patches()):
            alg = CLS[kind](st.iface, ex, size, cov, eps=eps)
            res = alg.run(I, start, gt_shape=PointCloud(Warp.BASE + 1), **kws)
        check(V, st, kind, alg, res, sam, ex, I, init, iters, w, costs, prior, size, cov * st.inv_rho2, eps > 0)
        V.eq('mean appearance untouched', st.mean.pixels, T0)
        V.eq('image untouched', I.pixels, I0)
        V.eq('start untouched', start.points, init)
        V.eq('ground truth recorded', res.gt_shape.points, Warp.BASE + 1)
        V.eq('initial shape recorded', res.initial_shape.points, init)
        V.eq('image recorded', res.image.pixels, I0)
    return f


MASK = np.ones((4, 4), dtype=bool)
MASK[0, 0] = MASK[3, 3] = MASK[3, 2] = False
for k in CLS:
    REG.add('step_' + k, run(k), timeout=150, bounds='1 step, 3x3 pixels, 5 parameters, 3 landmarks')
    REG.add('step_any_weight_' + k, run(k, a='any', n_eig=0, m=1), timeout=250, bounds='1 step, any weight in [0, 1]')
    REG.add('step_weight_' + k, run(k, a=0.25, n_eig=2, size=(4, 3)), timeout=150, bounds='1 step, weight 1/4, 6 parameters')
    REG.add('step_prior_' + k, run(k, prior=True, n_eig=2), timeout=150, bounds='1 MAP step, 6 parameters')
    REG.add('step_any_prior_' + k, run(k, prior=True, noise=(k == 'po'), eigs=True, a=0.75), timeout=250,
            bounds='1 MAP step, any eigenvalue')
    REG.add('masked_' + k, run(k, shape=(4, 4), mask=MASK, sampling=2, m=1, n_eig=0), timeout=200,
            bounds='1 step, every second of 13 pixels')
    REG.add('channels_' + k, run(k, ch=2, m=2, sampling=np.array([1, 3, 4, 5, 7])), timeout=200,
            bounds='1 step, two channels, 5 of 9 pixels')
    REG.add('responses_' + k, run(k, responses=True, size=(2, 2)), timeout=200, bounds='1 step, any two responses')
    REG.add('invalid_responses_' + k, run(k, nans=True, size=(2, 3)), timeout=150, bounds='1 step, NaN and infinite responses')
    REG.add('low_noise_' + k, run(k, inv_rho2=0.03, prior=True, n_eig=2), timeout=150, bounds='1 MAP step, inverse noise variance below 1')
    REG.add('thin_' + k, run(k, size=(1, 3)), timeout=150, bounds='1 step, search region of 1 x 3')
    REG.add('two_steps_' + k, run(k, iters=2, prior=True), timeout=250, bounds='2 MAP steps')
    REG.add('stop_' + k, run(k, iters=3, eps=2.0, costs=False), timeout=250, max_paths=60, bounds='max_iters=3')
    REG.add('none_' + k, run(k, iters=0), timeout=60, bounds='max_iters=0')


def history(kind):
    def f(V):
        st = build(V, n_eig=0)
        I, I2 = image(V, 'I', (2, 2)), image(V, 'I2', (2, 2))
        s1, s2 = (start_shape(V, x) for x in 'st')
        sam = Family(V)
        size = (2, 3)
        R1, R2 = [varying(size, 3, t) for t in range(2)], [varying(size, 3, 5 + t) for t in range(2)]
        kw = dict(max_iters=1, return_costs=True, prior=True)
        with patched((ua, 'check_model', lambda *x: None), *sam.patches()):
            ex = Experts(V, size, R1 + R2 + R1 + R1)
            make = lambda: CLS[kind](st.iface, ex, size, 1.5, eps=0)      # noqa: E731
            alg = make()
            r1 = alg.run(I, PointCloud(s1.copy()), a=0.25, **kw)
            p1 = np.array(r1.shape_parameters[1])
            alg.run(I2, PointCloud(s2.copy()), a=0.75, **kw)
            r2 = alg.run(I, PointCloud(s1.copy()), a=0.25, **kw)
            r3 = make().run(I, PointCloud(s1.copy()), a=0.25, **kw)
        for tag, r in (('kept', r1), ('again', r2), ('fresh object', r3)):
            V.eq(tag + ': parameters', r.shape_parameters[1], p1)
            V.eq(tag + ': shape', r.final_shape.points, st.warp.points(p1))
            V.eq(tag + ': costs', r.costs, r1.costs)
    return f


for k in CLS:
    REG.add('history_' + k, history(k), timeout=200, bounds='three runs and a fresh object')


def defaults(V):
    """20 iterations, tolerance 1e-5, equal weights, no prior, no costs"""
    for kind in CLS:
        st = build(V, tag=kind)
        size = (3, 3)
        ex = Experts(V, size, [varying(size, 3, t) for t in range(25)])
        sam = Family(V)
        sam.name = kind
        seen = []
        with patched((ua, 'check_model', lambda pdm, cls: seen.append((pdm, cls))), *sam.patches()):
            alg = CLS[kind](st.iface, ex, size, 1.5)
            V.check(kind + ': tolerance', alg.eps == 1e-5)
            r = alg.run(image(V, kind + 'I', (2, 2)), PointCloud(Warp.BASE + 1), max_iters=0)
        V.check(kind + ': no costs unless asked', r.costs is None)
        V.check(kind + ': an orthonormal point distribution model is asked for', len(seen) == 1 and
                seen[0][0] is st.warp.pdm and seen[0][1] is ua.OrthoPDM)


REG.add('defaults', defaults, bounds='one run of each')


# ---- long runs, more landmarks -------------------------------------------------------------------
class ManyWarp(UWarp):
    BASE = np.array([[3. * k - 9, (k * k) % 7 - 2.] for k in range(9)])
    B = np.array([[(3. * i * i + 5 * i * (q + 1) + q * q * q) % 7 - 3 for i in range(18)] for q in range(6)])


class LastManyWarp(ManyWarp):
    B = np.zeros((4, 18))
    B[:, 13:17] = [[1, 0, 0, 1], [0, 1, 1, 0], [1, 0, 2, 0], [0, 1, 0, 3]]


def long(kind, iters, n_eig, prior, warp=UWarp, a=A_DEFAULT, costs=False, m=1, eps=None):
    def f(V):
        eig = np.array([2., 0.5])[:n_eig]
        st = offset_setup(V, 4 + n_eig, m, n_eig)
        st.eig = eig
        st.warp = warp(V, 4 + n_eig, st.dW, eig, 2.0)
        st.inv_sigma2, st.inv_rho2 = 0.5, 2.0
        st.am.inverse_noise_variance = lambda: 0.5
        st.iface = LucasKanadeStandardInterface(st.am, st.warp, st.mean)
        I = image(V, 'I', (2, 2), st.ch)
        N = len(warp.BASE)
        init = np.asarray(start_shape(V, dim=1)) if N == 3 else warp.BASE + np.arange(2 * N).reshape(N, 2) % 3 - V.real('s', -2, 2)
        init = sarr(init.tolist())
        sam = Offsets(V)
        size = (2, 3)
        ex = Experts(V, size, [V.frac(varying(size, N, t).tolist()) for t in range(iters + 1)])
        with patched((ua, 'check_model', lambda *x: None), *sam.patches()):
            alg = CLS[kind](st.iface, ex, size, 1.5, eps=NoStop() if eps is None else eps)
            res = alg.run(I, PointCloud(init.copy()), max_iters=iters, return_costs=costs, prior=prior, a=a)
        V.check('all iterations', eps is not None or res.n_iters == iters)
        check(V, st, kind, alg, res, sam, ex, I, init, iters, a, costs, prior, size, 1.5 * st.inv_rho2, eps is not None)
    return f


for k in CLS:
    REG.add('long_' + k, long(k, 8, 0, False), timeout=250, bounds='8 iterations, images with any brightness')
    REG.add('long_prior_' + k, long(k, 7, 1, True, a=0.25), timeout=250, bounds='7 MAP iterations, images with any brightness')
    REG.add('many_landmarks_' + k, long(k, 2, 2, True, warp=ManyWarp, costs=True, m=3), timeout=250,
            bounds='2 iterations, 9 landmarks, 3 components')
    REG.add('stop_late_landmarks_' + k, long(k, 2, 0, False, warp=LastManyWarp, eps=1 / 64.), timeout=250,
            bounds='9 landmarks of which only the last three move, eps=1/64')
