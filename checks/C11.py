"""C11 - interfaces between the Lucas-Kanade algorithms and holistic, linear and patch based models."""
from checks.aamlk import *
from menpo.image import Image
from menpofit.aam.algorithm.lk import (LucasKanadeLinearInterface, LucasKanadePatchInterface,
                                       LucasKanadePatchBaseInterface)
from menpofit.atm.algorithm import (ATMLucasKanadeStandardInterface, ATMLucasKanadeLinearInterface,
                                    ATMLucasKanadePatchInterface)

REG = Registry('C11')
REG.assumptions = ['the Jacobian of the warp is an arbitrary array (its own correctness: C01-C05)']
REG.outside = ['interpolation (menpo)']
MASK = np.ones((4, 4), dtype=bool)
MASK[0, 3] = MASK[3, 3] = MASK[3, 2] = False
SAMPLINGS = {'all': None, 'step': 3, 'index': np.array([2, 5, 7, 12]), 'bool': np.arange(13) % 4 == 1,
             'npstep': np.int64(2)}


def holistic(cls, sampling, n=2, ch=2):
    def f(V):
        st = Setup(V, shape=(4, 4), ch=ch, m=1, n=n, eig=np.ones(1), mask=MASK, symJ=True)
        if cls is LucasKanadeStandardInterface:
            it = cls(st.am, st.warp, st.mean, sampling=sampling)
            V.check('appearance components', it.m == 1 and it.appearance_model is st.am)
        else:
            it = cls(st.warp, st.mean, sampling=sampling)
        V.check('transform and template', it.transform is st.warp and it.template is st.mean)
        V.check('shape components', it.n == n)
        V.check('shape model', it.shape_model is st.warp.pdm.model)
        keep = np.zeros(13, dtype=bool)
        if sampling is None:
            keep[:] = True
        elif isinstance(sampling, (int, np.integer)):
            keep[::int(sampling)] = True
        else:
            keep[sampling] = True
        pos = np.argwhere(MASK)
        V.check('frame pixels', np.array_equal(it.true_indices, pos))
        W = it.warp_jacobian()
        V.check('warp Jacobian asked at the frame pixels', np.array_equal(st.warp.asked[-1], pos))
        V.eq('warp Jacobian', W, np.transpose(np.asarray(st.dW)[keep], (2, 0, 1)))
        V.check('sampled entries', np.array_equal(it.i_mask, np.nonzero(np.tile(keep, ch))[0]))
        im = MaskedImage(V.reals('I', (ch, 4, 4), -2, 2), mask=MASK, copy=False)
        px0 = np.array(im.pixels)
        g = it.gradient(im)
        G = masked_grad(px0, MASK)[:, :, MASK]
        V.eq('gradient', g, G)
        V.eq('image untouched', im.pixels, px0)
        # arbitrary gradient and Jacobian
        nab = V.reals('g', (2, ch, 13), -2, 2)
        dW = V.reals('D', (2, int(keep.sum()), n), -2, 2)
        nab0, dW0 = np.array(nab), np.array(dW)
        sd = it.steepest_descent_images(nab, dW)
        want = [[sum(nab0[d, c, k] * dW0[d, j, p] for d in range(2)) for p in range(n)]
                for c in range(ch) for j, k in enumerate(np.nonzero(keep)[0])]
        V.eq('steepest descent images', sd, sarr(want))
        V.eq('gradient array untouched', nab, nab0)
        V.eq('Jacobian array untouched', dW, dW0)
    return f


for cls in (LucasKanadeStandardInterface, ATMLucasKanadeStandardInterface):
    for k in SAMPLINGS:
        REG.add('%s_%s' % ('atm' if 'ATM' in cls.__name__ else 'aam', k), holistic(cls, SAMPLINGS[k]), timeout=60,
                bounds='13 of 4x4 pixels, 2 channels, 2 parameters')


PTS = np.array([[2., 3.], [4., 2.], [1., 1.]])
PSAMP = {'all': None, 'bool': np.array([[1, 0, 1], [0, 1, 1], [0, 0, 0], [1, 1, 0]], dtype=bool), 'step': 2}


def patches(cls, sampling, PTS=PTS, ch=2, n=2, shapes=0):
    def f(V):
        ps = (4, 3)
        npt = len(PTS)
        T = Image(V.reals('T', (npt, 1, ch) + ps, -2, 2), copy=False)
        dW = V.reals('W', (npt, n, 2), -2, 2)
        sm = rec(n_active_components=7)
        tr = rec(target=PointCloud(PTS), d_dp=lambda x: dW, n_parameters=n, model='shape model',
                 set_target=lambda s: setattr(tr, 'target', s))
        kw = dict(sampling=sampling, patch_shape=ps)
        if V.sym:
            half = E.R.const(F(1, 2))
        else:
            half = 0.5
        kw['patch_normalisation'] = lambda p: p * half
        it = cls(sm, tr, T, **kw) if cls is LucasKanadePatchInterface else cls(tr, T, **kw)
        if cls is LucasKanadePatchInterface:
            V.check('appearance components', it.m == 7)
        V.check('shape components', it.n == n and it.shape_model == 'shape model')
        keep = np.ones(ps, dtype=bool)
        if isinstance(sampling, int):
            keep = (np.arange(12) % sampling == 0).reshape(ps)
        elif sampling is not None:
            keep = sampling
        V.eq('warp Jacobian', it.warp_jacobian(), np.transpose(np.asarray(dW), (2, 0, 1)))
        V.check('sampled entries', np.array_equal(it.i_mask, np.nonzero(np.tile(keep.ravel(), npt * ch))[0]))
        im = Image(V.reals('I', (ch, 7, 6), -2, 2), copy=False)
        px = np.array(im.pixels)
        def cut(pts):
            o = np.empty((npt, 1, ch) + ps, dtype=object if V.sym else float)
            for p, c, y, x in np.ndindex(npt, ch, *ps):
                v, u = int(pts[p, 0]) - ps[0] // 2 + y, int(pts[p, 1]) - ps[1] // 2 + x
                o[p, 0, c, y, x] = px[c, v, u] * half if 0 <= v < 7 and 0 <= u < 6 else px[0, 0, 0] * 0
            return o
        w = it.warp(im)
        V.check('patches in an image', isinstance(w, Image))
        V.eq('patches', w.pixels, cut(PTS))
        other = PTS[::-1] + 1
        ws = it.warped_images(im, [PointCloud(other), PointCloud(PTS)] + [PointCloud(PTS - k % 3) for k in range(shapes)])
        V.check('one set of patches per shape', len(ws) == 2 + shapes)
        V.eq('patches of shape 0', ws[0], cut(other))
        V.eq('patches of shape 1', ws[1], cut(PTS))
        for k in range(shapes):
            V.eq('patches of shape %d' % (k + 2), ws[k + 2], cut(PTS - k % 3))
        V.eq('image untouched', im.pixels, px)
        t0 = np.array(T.pixels)
        g = it.gradient(T)
        G = np.stack([grad_of(t0[p, 0], boundary=False) for p in range(npt)], 1)[:, :, None]
        V.eq('gradient', g, G)
        V.eq('template untouched', T.pixels, t0)
        nab = V.reals('g', (2, npt, 1, ch) + ps, -2, 2)
        D = V.reals('D', (2, npt, n), -2, 2)
        nab0, D0 = np.array(nab), np.array(D)
        sd = it.steepest_descent_images(nab, D)
        want = [[sum(nab0[d, p, 0, c, y, x] * D0[d, p, q] for d in range(2)) for q in range(n)]
                for p in range(npt) for c in range(ch) for y in range(ps[0]) for x in range(ps[1]) if keep[y, x]]
        V.eq('steepest descent images', sd, sarr(want))
        V.eq('gradient array untouched', nab, nab0)
    return f


for cls in (LucasKanadePatchInterface, ATMLucasKanadePatchInterface):
    for k in PSAMP:
        REG.add('patch_%s_%s' % ('atm' if 'ATM' in cls.__name__ else 'aam', k), patches(cls, PSAMP[k]), timeout=60,
                bounds='3 patches of 4x3 pixels at fixed points, 2 channels, 2 parameters')


MANY = np.array([[(5 * k) % 7, (3 * k + 1) % 6] for k in range(12)]) * 1.
for cls in (LucasKanadePatchInterface, ATMLucasKanadePatchInterface):
    REG.add('many_patches_%s' % ('atm' if 'ATM' in cls.__name__ else 'aam'), patches(cls, 2, MANY, ch=5, n=8, shapes=10),
            timeout=200, bounds='12 patches of 4x3 pixels at fixed points, 5 channels, 8 parameters, 12 shapes')
for cls in (LucasKanadeStandardInterface, ATMLucasKanadeStandardInterface):
    REG.add('many_%s' % ('atm' if 'ATM' in cls.__name__ else 'aam'), holistic(cls, np.array([0, 2, 5, 7, 9, 10, 12]), 8, 7),
            timeout=200, bounds='7 of 13 pixels, 7 channels, 8 parameters')


def results(cls):
    """what an interface reports for a run"""
    def f(V):
        lin = 'Linear' in cls.__name__
        patch = 'Patch' in cls.__name__
        ps = [V.reals('p%d' % k, (2,), -2, 2) for k in range(2)]

        class T(object):
            n_parameters = 2
            pdm = rec(model='pdm model')
            model = 'model'

            def __init__(self, v=None):
                self.v = v

            def from_vector(self, v):
                return T(v)

            @property
            def sparse_target(self):
                return PointCloud(sarr([[self.v[0], self.v[1]], [self.v[1], self.v[0]]]))
        tm = MaskedImage(np.zeros((1, 3, 3)))
        args = (rec(n_active_components=3),) if 'ATM' not in cls.__name__ else ()
        if patch:
            it = cls(*(args + (T(), Image(np.zeros((2, 1, 1, 3, 3))))), patch_shape=(3, 3))
        else:
            it = cls(*(args + (T(), tm)))
        V.check('shape model', it.shape_model == ('model' if lin or patch else 'pdm model'))
        dense = [PointCloud(V.reals('d%d' % k, (2, 2), -2, 2)) for k in range(2)]
        init, gt = PointCloud(V.reals('i', (2, 2), -2, 2)), PointCloud(V.reals('t', (2, 2), -2, 2))
        costs = [V.real('c%d' % k, 0, 1) for k in range(2)]
        im = Image(V.reals('I', (1, 2, 2), 0, 1))
        kw = dict(appearance_parameters=['a', 'b']) if args else {}
        r = it.algorithm_result(image=im, shapes=dense, shape_parameters=ps, initial_shape=init, gt_shape=gt,
                                costs=costs, **kw)
        want = [T(p).sparse_target.points for p in ps] if lin else [d.points for d in dense]
        V.check('number of shapes', len(r.shapes) == 3)
        V.eq('initial shape', r.shapes[0].points, init.points)
        for k in range(2):
            V.eq('shape %d' % k, r.shapes[k + 1].points, want[k])
            V.eq('parameters %d' % k, r.shape_parameters[k], ps[k])
        V.eq('ground truth', r.gt_shape.points, gt.points)
        V.eq('costs', r.costs, costs)
        V.eq('image', r.image.pixels, im.pixels)
        if args:
            V.check('appearance parameters', r.appearance_parameters == ['a', 'b'])
    return f


for cls in (LucasKanadeStandardInterface, LucasKanadeLinearInterface, LucasKanadePatchInterface,
            ATMLucasKanadeStandardInterface, ATMLucasKanadeLinearInterface, ATMLucasKanadePatchInterface):
    REG.add('result_' + cls.__name__, results(cls), timeout=60, bounds='2 steps')


def patch_step(a, d, prior=False):
    """an algorithm on patches takes the step of the flattened patches"""
    def f(V):
        n, ch, ps, npt = 4 if prior else 1, 1, (3, 3), 2
        if prior:
            # a one-parameter family of means and images keeps the systems of five unknowns small
            t = V.real('t', -1, 1)
            fam = lambda k: sarr([F((k * j * j + 5 * j) % 11 - 4, 4) + t * F((j * k) % 3 - 1, 2)  # noqa: E731
                                  for j in range(18)]).reshape((npt, 1, ch) + ps)
        mean = Image(fam(3) if prior else V.reals('A', (npt, 1, ch) + ps, -2, 2), copy=False)
        comps = [[F((3 + 5 * j) % 7 - 3, 4) for j in range(npt * ch * 9)]]
        am = PCAModel.init_from_components(V.frac(comps).view(type(mean.pixels)), V.frac([F(2)]), mean, 10, True)
        na = V.real('na', 0.25, 2) if prior else 1
        am.noise_variance = lambda: na
        dW = const_jacobian((1, 2), n)
        w = Warp(n, dW, np.zeros(0) if prior else np.ones(1), 0 if prior else 1)
        w.model = w.pdm.model
        it = LucasKanadePatchInterface(am, w, mean, patch_shape=ps)
        I = fam(4) if prior else V.reals('w', (npt, 1, ch) + ps, -2, 2)

        def extract(self, centers, patch_shape=None, as_single_array=None, **k):
            V.check('patches at the current shape', np.shape(centers.points) == (3, 2))
            return I
        with patched((Image, 'extract_patches', extract)):
            alg = cls_of(a, d)(it, eps=0)
            x0 = Warp.BASE.copy()
            if prior:
                x0 = sarr((x0 + np.asarray(V.reals('x0', (3, 2), -1, 1))).tolist())
            p0 = (np.asarray(x0) - Warp.BASE).ravel()[:n]
            res = alg.run(Image(np.zeros((1, 5, 5))), PointCloud(x0), max_iters=1, map_inference=prior)
        A = np.asarray(V.frac(comps)).T
        Ai = vsolve(V, A.T.dot(A), A.T)
        Q = lambda x: x - A.dot(Ai.dot(x))    # noqa: E731
        i, abar = np.asarray(I).ravel(), np.asarray(mean.pixels).ravel()
        c = Ai.dot(i - abar)
        inst = (abar + A.dot(c)).reshape(np.shape(I))
        src = np.asarray(I) if d == 'fc' else (-np.asarray(mean.pixels) if a == 'po' else -inst)
        G = np.stack([grad_of(src[p, 0], boundary=False) for p in range(npt)], 1)   # 2, npt, ch, h, w
        J = sarr([[sum(G[k, p, cc, y, x] * dW[p, q, k] for k in range(2)) for q in range(n)]
                  for p in range(npt) for cc in range(ch) for y in range(3) for x in range(3)])
        J = np.asarray(J)
        e = i - abar if a in ('po', 'wib') else i - abar - A.dot(c)
        # the prior pulls the parameters (pose only: weight one) and the appearance towards zero
        dL, dS = (np.ones(n), np.array([na / F(2) if V.sym else na / 2.])) if prior else (np.zeros(n), np.zeros(1))
        pp = p0 if d == 'fc' else -p0
        if a == 'sim':
            Js = np.hstack([-A, J])
            w_ = np.hstack([dS, dL])
            x = -vsolve(V, add_d(Js.T.dot(Js), w_), Js.T.dot(e) + w_ * np.hstack([c, pp]))
            dp = x[1:]
            V.eq('appearance step', res.appearance_parameters[1], c + x[:1])
        elif a in ('po', 'wib'):
            dp = -vsolve(V, add_d(Q(J).T.dot(J), dL), Q(J).T.dot(e) + dL * pp)
        else:
            dc = vsolve(V, add_d(A.T.dot(A), dS), A.T.dot(e) - dS * c)
            r = e - A.dot(dc) if a == 'alt' else e
            dp = -vsolve(V, add_d(J.T.dot(J), dL), J.T.dot(r) + dL * pp)
        V.eq('step', res.shape_parameters[1], p0 + (dp if d == 'fc' else -dp))
    return f


for a, d in NAMES:
    REG.add('patch_step_%s_%s' % (a, d), patch_step(a, d), timeout=120, bounds='2 patches of 3x3, 1 step')
    REG.add('patch_map_%s_%s' % (a, d), patch_step(a, d, True), timeout=200,
            bounds='2 patches of 3x3, 1 step, 4 pose parameters, any start and noise variance')
