"""C09 - AAM Lucas-Kanade: maximum a posteriori steps."""
from checks.aamlk import *

REG = Registry('C09')
REG.assumptions = ['sampling an image gives an arbitrary warped image per (image, parameters)',
                   'the regularised Hessians are non-singular']
REG.outside = ['convergence of the iterations']


def step(a, d, n_eig, m, shape, iters=1, noise=True, const=False):
    def f(V):
        eig = sarr([V.real('l%d' % k, 0.25, 4) for k in range(n_eig)]) if n_eig else np.zeros(0)
        S = sarr([V.real('S%d' % k, 0.25, 4) for k in range(m)])
        nv = (V.real('na', 0.25, 2), V.real('ns', 0.25, 2)) if noise else (V.real('na', 0.25, 2), 0)
        st = Setup(V, shape=shape, m=m, n=4 + n_eig, eig=eig, app_eig=S, noise=nv, const=const)
        I = image(V, 'I', (2, 2))
        init = any_start(V, st.warp, 4 + n_eig)
        sam = (Family if const else Sampler)(V)
        with patched(*sam.patches()):
            alg = cls_of(a, d)(st.iface, eps=0)
            res = alg.run(I, PointCloud(init.copy()), max_iters=iters, return_costs=False, map_inference=True)
        check_run(V, st, a, d, alg, res, sam, I, init, iters, False, map_inference=True, stop=False)
    return f


for a, d in NAMES:
    REG.add('%s_%s' % (a, d), step(a, d, 1, 1, (4, 4)), timeout=200,
            bounds='1 step, any 4x4 mean and image, 5 warp parameters, any eigenvalues and noise variances')
    REG.add('iso_%s_%s' % (a, d), step(a, d, 0, 2, (4, 4), noise=False), timeout=200,
            bounds='1 step, 2 appearance components, shape model without noise')
    REG.add('twice_%s_%s' % (a, d), step(a, d, 0, 1, (4, 4), iters=2, const=True), timeout=200,
            bounds='2 steps, one unknown per image')


def many(a, d, n_eig, m):
    def f(V):
        st = offset_setup(V, 4 + n_eig, m, n_eig, warp=BigWarp, noise=(3, 2))
        I = image(V, 'I', (2, 2), st.ch)
        init = any_start(V, st.warp, st.n)
        sam = Offsets(V)
        with patched(*sam.patches()):
            alg = cls_of(a, d)(st.iface, eps=NoStop())
            res = alg.run(I, PointCloud(init.copy()), max_iters=2, return_costs=False, map_inference=True)
        check_run(V, st, a, d, alg, res, sam, I, init, 2, False, map_inference=True, stop=False)
    return f


for a, d in NAMES:
    REG.add('many_%s_%s' % (a, d), many(a, d, 5, 4), timeout=250,
            bounds='2 steps, 5 channels, 4 components, 9 parameters, 10 points, images with any brightness')
