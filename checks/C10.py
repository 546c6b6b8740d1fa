"""C10 - AAM Lucas-Kanade runs: bookkeeping, stop rule, no memory."""
from checks.aamlk import *

REG = Registry('C10')
REG.assumptions = ['sampling an image gives an arbitrary warped image (of a one parameter family) per (image, '
                   'parameters), the same one whenever the same parameters are asked again']
REG.outside = ['convergence of the iterations']


def multi(a, d, iters, eps, costs):
    def f(V):
        st = Setup(V, shape=(3, 3), m=1, n=1, eig=np.ones(1), const=True)
        I = image(V, 'I', (2, 2))
        init = any_start(V, st.warp, 1)
        sam = Family(V)
        mean0 = np.array(st.mean.pixels)
        I0 = np.array(I.pixels)
        gt = PointCloud(Warp.BASE + 1)
        start = PointCloud(init.copy())
        with patched(*sam.patches()):
            alg = cls_of(a, d)(st.iface, eps=eps)
            res = alg.run(I, start, gt_shape=gt, max_iters=iters, return_costs=costs)
        check_run(V, st, a, d, alg, res, sam, I, init, iters, costs)
        V.check('every warp is on the frame of the model', all(c[1].shape == st.shape for c in sam.calls))
        V.check('every warp is of the given image', all(c[0] is I for c in sam.calls))
        V.eq('ground truth recorded', res.gt_shape.points, Warp.BASE + 1)
        V.eq('initial shape recorded', res.initial_shape.points, init)
        V.eq('image recorded', res.image.pixels, I0)
        V.eq('final shape is the last one', res.final_shape.points, res.shapes[-1].points)
        V.eq('mean untouched', st.mean.pixels, mean0)
        V.eq('template of the algorithm', alg.template.pixels, mean0)
        V.eq('image untouched', I.pixels, I0)
        V.eq('start untouched', start.points, init)
    return f


def history(a, d, map_inference):
    def f(V):
        n = 4 if map_inference else 1
        kw = dict(shape=(4, 4) if map_inference else (3, 3), m=1, n=n, eig=np.zeros(0) if map_inference else np.ones(1),
                  const=True)
        st = Setup(V, **kw)
        I, I2 = image(V, 'I', (2, 2)), image(V, 'I2', (2, 2))
        s1 = st.warp.points(V.reals('s', (n,), -2, 2))
        s2 = st.warp.points(V.reals('t', (n,), -2, 2))
        sam = Family(V)
        run = dict(max_iters=1, return_costs=True, map_inference=map_inference)
        with patched(*sam.patches()):
            alg = cls_of(a, d)(st.iface, eps=0)
            r1 = alg.run(I, PointCloud(s1.copy()), **run)
            first = (np.array(r1.shape_parameters[1]), r1.final_shape.points.copy(), list(r1.costs))
            alg.run(I2, PointCloud(s2.copy()), **run)
            r2 = alg.run(I, PointCloud(s1.copy()), **run)
            st.iface.transform.set_target(PointCloud(s2.copy()))
            alg2 = cls_of(a, d)(st.iface, eps=0)
            r3 = alg2.run(I, PointCloud(s1.copy()), **run)
        V.eq('first result kept', r1.shape_parameters[1], first[0])
        for tag, r in (('again', r2), ('fresh object', r3)):
            V.eq(tag + ': parameters', r.shape_parameters[1], first[0])
            V.eq(tag + ': shape', r.final_shape.points, first[1])
            V.eq(tag + ': costs', r.costs, first[2])
            V.check(tag + ': length', r.n_iters == 1)
            if a != 'po':
                V.eq(tag + ': appearance', r.appearance_parameters[1], r1.appearance_parameters[1])
    return f


for a, d in NAMES:
    REG.add('stop_%s_%s' % (a, d), multi(a, d, 3, 0.25, False), timeout=200, max_paths=60,
            bounds='max_iters=3, eps=0.25')
    REG.add('none_%s_%s' % (a, d), multi(a, d, 0, 0.25, True), timeout=60, bounds='max_iters=0')
    REG.add('costs_%s_%s' % (a, d), multi(a, d, 1, 0, True), timeout=200, bounds='max_iters=1')
    REG.add('history_%s_%s' % (a, d), history(a, d, False), timeout=200, bounds='four runs')
    REG.add('history_map_%s_%s' % (a, d), history(a, d, True), timeout=200, bounds='four runs, MAP')


def warped(V):
    st = Setup(V, shape=(3, 3), m=1, n=1, eig=np.ones(1), const=True)
    I = image(V, 'I', (2, 2))
    ps = [V.reals('p%d' % k, (1,), -1, 1) for k in range(3)]
    sam = Sampler(V)
    with patched(*sam.patches()):
        ws = st.iface.warped_images(I, [PointCloud(st.warp.points(p)) for p in ps])
    V.check('one image per shape', len(ws) == 3)
    for k in range(3):
        V.eq('image %d' % k, ws[k].pixels, sam.table[(key_of(I.pixels), key_of(ps[k]), st.shape)])


REG.add('warped_images', warped, timeout=60, bounds='3 shapes')


# ---- long runs ---------------------------------------------------------------------------------
def long(a, d, iters, n, m, costs, map_inference=False, n_eig=0, warp=None, eps=None):
    def f(V):
        st = offset_setup(V, n, m, n_eig, warp=warp, noise=(3, 2))
        I = image(V, 'I', (2, 2), m + 1)
        init = any_start(V, st.warp, n)
        sam = Offsets(V)
        with patched(*sam.patches()):
            alg = cls_of(a, d)(st.iface, eps=NoStop() if eps is None else eps)
            res = alg.run(I, PointCloud(init.copy()), max_iters=iters, return_costs=costs, map_inference=map_inference)
        V.check('all iterations', eps is not None or res.n_iters == iters)
        check_run(V, st, a, d, alg, res, sam, I, init, iters, costs, map_inference=map_inference, stop=eps is not None)
    return f


def warped_many(V):
    st = Setup(V, shape=(3, 3), m=1, n=1, eig=np.ones(1), const=True)
    I = image(V, 'I', (2, 2))
    ps = [V.reals('p%d' % k, (1,), -1, 1) for k in range(15)]
    sam = Sampler(V)
    with patched(*sam.patches()):
        ws = st.iface.warped_images(I, [PointCloud(st.warp.points(p)) for p in ps])
    V.check('one image per shape', len(ws) == 15)
    for k in range(15):
        V.eq('image %d' % k, ws[k].pixels, sam.table[(key_of(I.pixels), key_of(ps[k]), st.shape)])


for a, d in NAMES:
    REG.add('long_%s_%s' % (a, d), long(a, d, {'altic': 7, 'wibic': 6}.get(a + d, 20), 1, 1, True), timeout=200,
            bounds='20 iterations (inverse alternating and Wiberg: 7, 6), images with any brightness')
    REG.add('long_map_%s_%s' % (a, d), long(a, d, 6, 5, 1, False, True, 1), timeout=200,
            bounds='6 iterations, MAP, 5 warp parameters, images with any brightness')
    REG.add('many_points_%s_%s' % (a, d), long(a, d, 2, 1, 1, False, warp=LastWarp, eps=1 / 64.), timeout=200,
            bounds='2 iterations, 10 points of which the last but one moves, eps=1/64')
REG.add('warped_images_many', warped_many, timeout=60, bounds='15 shapes')
