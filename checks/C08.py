"""C08 - AAM Lucas-Kanade: every step solves the maximum likelihood normal equations."""
from checks.aamlk import *

REG = Registry('C08')
REG.assumptions = ['sampling an image gives an arbitrary warped image per (image, parameters)',
                   'the Jacobian of the warp is that of a fixed polynomial warp (arbitrary Jacobians: C11)',
                   'the Gauss-Newton Hessians are non-singular']
REG.outside = ['convergence of the iterations']


def step(a, d, n, m, ch, shape, sampling=None, mask=None, iters=1, symJ=False):
    def f(V):
        st = Setup(V, shape=shape, ch=ch, m=m, n=n, sampling=sampling, mask=mask, symJ=symJ, eig=np.ones(1))
        I = image(V, 'I', (2, 2), ch)
        init = any_start(V, st.warp, n)
        sam = Sampler(V)
        with patched(*sam.patches()):
            alg = cls_of(a, d)(st.iface, eps=0)
            res = alg.run(I, PointCloud(init.copy()), max_iters=iters, return_costs=True)
        check_run(V, st, a, d, alg, res, sam, I, init, iters, True, stop=False)
    return f


MASK = np.ones((4, 5), dtype=bool)
MASK[0, 0] = MASK[3, 4] = MASK[3, 3] = False
for a, d in NAMES:
    REG.add('%s_%s' % (a, d), step(a, d, 2, 1, 1, (4, 4)), timeout=200,
            bounds='1 step, any 4x4 mean and image, 2 warp parameters, 1 appearance component')
    REG.add('channels_%s_%s' % (a, d), step(a, d, 1, 2, 2, (3, 3)), timeout=200,
            bounds='1 step, 2 channels, 3x3 pixels, 2 components')
    REG.add('sampled_%s_%s' % (a, d), step(a, d, 1, 1, 2, (4, 4), sampling=np.array([1, 5, 6, 9, 11, 14])),
            timeout=200, bounds='1 step, 6 of 16 pixels, 2 channels')
    REG.add('masked_%s_%s' % (a, d), step(a, d, 1, 1, 1, (4, 5), mask=MASK, sampling=2), timeout=200,
            bounds='1 step, every second of 17 pixels of a non rectangular mask')
    REG.add('twice_%s_%s' % (a, d), step(a, d, 1, 1, 1, (3, 3), iters=2), timeout=300,
            bounds='2 steps, 3x3 pixels')


def invariance(a, d):
    """adding appearance variation to the sampled image does not change the projected out step"""
    def f(V):
        out = []
        st = Setup(V, shape=(4, 4), m=2, n=2, eig=np.ones(1))
        t = V.reals('t', (2,), -2, 2)
        px = V.reals('w', (1, 4, 4), -2, 2)
        for extra in (False, True):
            w = st.instance(t) - np.asarray(st.mean.pixels) if extra else 0
            P = np.asarray(px + w)
            P = P.view(type(px))
            sam = rec(get=lambda im, mask, tr: P)
            with patched((MaskedImage, 'warp_to_mask', lambda self, mask, tr, **k: MaskedImage(P.copy(), mask=mask))):
                alg = cls_of(a, d)(st.iface, eps=0)
                res = alg.run(image(V, 'I%d' % extra, (2, 2)), PointCloud(Warp.BASE), max_iters=1, return_costs=True)
            out.append((res.shape_parameters[1], res.costs[0]))
        V.eq('same shape step', out[0][0], out[1][0])
        V.eq('same cost', out[0][1], out[1][1])
    return f


REG.add('projected_out', invariance('po', 'ic'), timeout=200, bounds='4x4 pixels, 2 components, any weights')


def many(a, d, n, m, sampling=None):
    def f(V):
        st = offset_setup(V, n, m, warp=BigWarp)
        if sampling is not None:
            st.iface = LucasKanadeStandardInterface(st.am, st.warp, st.mean, sampling=sampling)
            st.keep = np.zeros(st.npx, dtype=bool)
            st.keep[sampling] = True
            st.rows = np.tile(st.keep, st.ch)
        I = image(V, 'I', (2, 2), st.ch)
        init = any_start(V, st.warp, n)
        sam = Offsets(V)
        with patched(*sam.patches()):
            alg = cls_of(a, d)(st.iface, eps=NoStop())
            res = alg.run(I, PointCloud(init.copy()), max_iters=2, return_costs=True)
        check_run(V, st, a, d, alg, res, sam, I, init, 2, True, stop=False)
    return f


for a, d in NAMES:
    REG.add('many_%s_%s' % (a, d), many(a, d, 8, 4), timeout=200,
            bounds='2 steps, 5 channels, 4 components, 8 parameters, 10 points, images with any brightness')
    REG.add('many_sampled_%s_%s' % (a, d), many(a, d, 3, 5, sampling=np.array([1, 6, 7, 9, 11, 13, 17, 18, 20, 23])), timeout=200,
            bounds='2 steps, 6 channels, 5 components, 10 of 25 pixels, images with any brightness')
