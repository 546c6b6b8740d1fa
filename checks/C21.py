"""C21 - ATM Lucas-Kanade: steps, costs, priors, bookkeeping."""
from checks.aamlk import *
from menpo.image import Image
from menpofit.atm.algorithm import (ForwardCompositional, InverseCompositional, ATMLucasKanadeStandardInterface,
                                    ATMLucasKanadePatchInterface)

REG = Registry('C21')
REG.assumptions = ['sampling an image gives an arbitrary warped image per (image, parameters)',
                   'the Gauss-Newton Hessians are non-singular']
REG.outside = ['convergence of the iterations']
CLS = {'fc': ForwardCompositional, 'ic': InverseCompositional}


def build(V, shape=(4, 4), ch=1, n=1, eig=None, noise=1, sampling=None, mask=None, const=False):
    """template, warp and interface (the appearance part of Setup is not used)"""
    st = Setup(V, shape=shape, ch=ch, m=1, n=n, eig=np.ones(1) if eig is None else eig, noise=(1, noise),
               sampling=sampling, mask=mask, const=const)
    st.iface = ATMLucasKanadeStandardInterface(st.warp, st.mean, sampling=sampling)
    return st


def check(V, st, d, alg, res, sam, image_, init, max_iters, costs, mapi, stop, prior=None):
    P, S = res.shape_parameters, res.shapes
    n = len(P) - 1
    V.check('iterations within the bound', n <= max_iters and res.n_iters == n)
    V.check('one shape per parameter vector and the initial one', len(S) == n + 2)
    V.eq('initial shape first', S[0].points, init)
    V.check('costs', (res.costs is None) if not costs else len(res.costs) == n + 1)
    V.eq('starts at the initial shape', P[0], st.warp.params(init))
    t = st.vec(st.mean.pixels)
    for k in range(n + 1):
        p = np.asarray(P[k])
        V.eq('shape %d' % k, S[k + 1].points, st.warp.points(p))
        I = np.asarray(sam.table[(key_of(image_.pixels), key_of(p), st.shape)])
        e = st.vec(I) - t
        if costs:
            V.eq('cost %d' % k, res.costs[k], (e * e).sum())
        if k == n:
            break
        J = st.J(I if d == 'fc' else -np.asarray(st.mean.pixels))
        M, rhs = J.T.dot(J), J.T.dot(e)
        if mapi:
            M, rhs = add_d(M, prior), rhs + prior * (p if d == 'fc' else -p)
        dp = -vsolve(V, M, rhs)
        q = np.asarray(P[k + 1])
        V.eq('step %d' % k, q, p + dp if d == 'fc' else p - dp)
        if stop:
            moved = vsqrt(V, ((q - p) ** 2).sum())
            if k < n - 1:
                V.check('went on after a real step %d' % k, moved > alg.eps)
            elif n < max_iters:
                V.check('stopped after a negligible step', moved <= alg.eps)


def run(d, iters=1, costs=True, mapi=False, eps=0, n_eig=1, noise=True, fam=False, **kw):
    def f(V):
        if mapi:
            eig = sarr([V.real('l%d' % k, 0.25, 4) for k in range(n_eig)]) if n_eig else np.zeros(0)
            nv = V.real('ns', 0.25, 2) if noise else 0
            prior = np.array([1.0] * 4 + [(1 / nv if noise else 1) / l for l in np.asarray(eig).tolist()], dtype=object)
            st = build(V, n=4 + n_eig, eig=eig, noise=nv, const=fam, **kw)
        else:
            prior = None
            st = build(V, const=fam, **kw)
        I = image(V, 'I', (2, 2), st.ch)
        init = any_start(V, st.warp, st.n)
        sam = (Family if fam else Sampler)(V)
        T0, I0 = np.array(st.mean.pixels), np.array(I.pixels)
        start = PointCloud(init.copy())
        with patched(*sam.patches()):
            alg = CLS[d](st.iface, eps=eps)
            res = alg.run(I, start, gt_shape=PointCloud(Warp.BASE + 1), max_iters=iters, return_costs=costs,
                          map_inference=mapi)
        check(V, st, d, alg, res, sam, I, init, iters, costs, mapi, eps > 0, prior)
        V.eq('template untouched', st.mean.pixels, T0)
        V.eq('image untouched', I.pixels, I0)
        V.eq('start untouched', start.points, init)
        V.eq('ground truth recorded', res.gt_shape.points, Warp.BASE + 1)
        V.eq('image recorded', res.image.pixels, I0)
    return f


MASK = np.ones((4, 5), dtype=bool)
MASK[0, 0] = MASK[3, 4] = MASK[3, 3] = False
for d in CLS:
    REG.add('step_' + d, run(d, n=2), timeout=120, bounds='1 step, 4x4 pixels, 2 parameters')
    REG.add('step6_' + d, run(d, n=6, shape=(4, 5)), timeout=200, bounds='1 step, 4x5 pixels, 6 parameters')
    REG.add('channels_' + d, run(d, n=2, ch=2, sampling=np.array([1, 5, 6, 9, 10, 14])), timeout=120,
            bounds='1 step, 2 channels, 6 of 16 pixels')
    REG.add('masked_' + d, run(d, n=1, shape=(4, 5), mask=MASK, sampling=2), timeout=120,
            bounds='1 step, every second of 17 pixels of a non rectangular mask')
    REG.add('stop_' + d, run(d, n=1, shape=(3, 3), iters=3, eps=0.25, costs=False, fam=True), timeout=200,
            max_paths=60, bounds='max_iters=3, eps=0.25')
    REG.add('none_' + d, run(d, n=1, shape=(3, 3), iters=0), timeout=60, bounds='max_iters=0')
    REG.add('map_' + d, run(d, mapi=True), timeout=200, bounds='1 MAP step, 4x4 pixels, 5 parameters')
    REG.add('map_isotropic_' + d, run(d, mapi=True, noise=False, shape=(4, 5)), timeout=200, bounds='1 MAP step')
    REG.add('map_twice_' + d, run(d, mapi=True, n_eig=0, iters=2, fam=True), timeout=200, bounds='2 MAP steps')


def history(d, mapi):
    def f(V):
        n = 4 if mapi else 1
        st = build(V, n=n, eig=np.zeros(0) if mapi else np.ones(1), const=True)
        I, I2 = image(V, 'I', (2, 2)), image(V, 'I2', (2, 2))
        s1, s2 = (st.warp.points(V.reals(x, (n,), -2, 2)) for x in 'st')
        sam = Family(V)
        kw = dict(max_iters=1, return_costs=True, map_inference=mapi)
        with patched(*sam.patches()):
            alg = CLS[d](st.iface, eps=0)
            r1 = alg.run(I, PointCloud(s1.copy()), **kw)
            p1 = np.array(r1.shape_parameters[1])
            alg.run(I2, PointCloud(s2.copy()), **kw)
            r2 = alg.run(I, PointCloud(s1.copy()), **kw)
            r3 = CLS[d](st.iface, eps=0).run(I, PointCloud(s1.copy()), **kw)
        for tag, r in (('kept', r1), ('again', r2), ('fresh object', r3)):
            V.eq(tag + ': parameters', r.shape_parameters[1], p1)
            V.eq(tag + ': shape', r.final_shape.points, st.warp.points(p1))
            V.eq(tag + ': costs', r.costs, r1.costs)
    return f


def patch(d):
    def f(V):
        n, ch, ps, npt = 1, 2, (3, 3), 2
        T = Image(V.reals('T', (npt, 1, ch) + ps, -2, 2), copy=False)
        dW = const_jacobian((1, 2), n)
        w = Warp(n, dW, np.ones(1), 1)
        w.model = w.pdm.model
        it = ATMLucasKanadePatchInterface(w, T, patch_shape=ps)
        I = V.reals('w', (npt, 1, ch) + ps, -2, 2)
        with patched((Image, 'extract_patches', lambda self, c, patch_shape=None, as_single_array=None, **k: I)):
            res = CLS[d](it, eps=0).run(Image(np.zeros((2, 5, 5))), PointCloud(Warp.BASE), max_iters=1,
                                        return_costs=True)
        e = np.asarray(I).ravel() - np.asarray(T.pixels).ravel()
        src = np.asarray(I) if d == 'fc' else -np.asarray(T.pixels)
        G = np.stack([grad_of(src[p, 0], boundary=False) for p in range(npt)], 1)
        J = np.asarray(sarr([[sum(G[k, p, c, y, x] * dW[p, 0, k] for k in range(2))]
                             for p in range(npt) for c in range(ch) for y in range(3) for x in range(3)]))
        dp = -vsolve(V, J.T.dot(J), J.T.dot(e))
        V.eq('step', res.shape_parameters[1], dp if d == 'fc' else -dp)
        V.eq('cost', res.costs[0], (e * e).sum())
    return f


for d in CLS:
    REG.add('history_' + d, history(d, False), timeout=120, bounds='four runs')
    REG.add('history_map_' + d, history(d, True), timeout=120, bounds='four runs')
    REG.add('patch_' + d, patch(d), timeout=120, bounds='2 patches of 3x3, 2 channels')


# ---- long runs ---------------------------------------------------------------------------------
def long(d, iters, n, ch=1, mapi=False, n_eig=0, warp=None, eps=None, costs=True):
    def f(V):
        st = offset_setup(V, n, ch, n_eig, warp=warp, noise=(3, 2))
        st.iface = ATMLucasKanadeStandardInterface(st.warp, st.mean)
        I = image(V, 'I', (2, 2), st.ch)
        init = any_start(V, st.warp, n)
        sam = Offsets(V)
        with patched(*sam.patches()):
            alg = CLS[d](st.iface, eps=NoStop() if eps is None else eps)
            res = alg.run(I, PointCloud(init.copy()), max_iters=iters, return_costs=costs, map_inference=mapi)
        V.check('all iterations', eps is not None or res.n_iters == iters)
        prior = np.array([1.0] * 4 + [F(1, 2) / F(l) if V.sym else 0.5 / l for l in np.asarray(st.eig).tolist()], dtype=object)
        check(V, st, d, alg, res, sam, I, init, iters, costs, mapi, eps is not None, prior)
    return f


for d in CLS:
    REG.add('long_' + d, long(d, 25, 1), timeout=200, bounds='25 iterations, images with any brightness')
    REG.add('very_long_' + d, long(d, 70, 1, costs=False), timeout=250, bounds='70 iterations, images with any brightness')
    REG.add('many_parameters_' + d, long(d, 3, 9, ch=3, warp=BigWarp), timeout=200, bounds='3 iterations, 9 parameters, 4 channels')
    REG.add('long_map_' + d, long(d, 8, 5, ch=1, mapi=True, n_eig=1), timeout=200, bounds='8 MAP iterations, 5 parameters')
    REG.add('many_points_' + d, long(d, 2, 1, warp=LastWarp, eps=1 / 64.), timeout=200,
            bounds='2 iterations, 10 points of which the last but one moves, eps=1/64')
