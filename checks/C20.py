"""C20 - constrained local models: expert responses and landmark updates."""
import warnings
from fractions import Fraction as F
from checks.common import *
from checks.images import image, as_float
from checks.C18 import convolution, per_channel
from menpo.image import Image
from menpo.shape import PointCloud
import menpofit.base as mb
import menpofit.clm.algorithm.gd as gd
from menpofit.clm.algorithm.gd import ActiveShapeModel, RegularisedLandmarkMeanShift
import menpofit.clm.expert.base as eb
import menpofit.clm.expert.ensemble as ee
from menpofit.clm.expert.base import probability_map, IncrementalCorrelationFilterThinWrapper
from menpofit.clm.expert.ensemble import CorrelationFilterExpertEnsemble
from menpofit.clm.fitter import GradientDescentCLMFitter, CLMFitter

REG = Registry('C20')
REG.assumptions = ['patches extracted from an image are arbitrary per (image, landmark, options)',
                   'SciPy evaluates Gaussian densities']
REG.outside = ['training of the correlation filters themselves (C18)', 'pixels of extracted patches (menpo)']


# ------------------------------------------------------------------ grids
def grids(V):
    h, w = int(V.integer('h', 1, 6)), int(V.integer('w', 1, 6))
    g = mb.build_grid((h, w))
    want = np.array([[[i - h // 2, j - w // 2] for j in range(w)] for i in range(h)])
    V.check('shape', g.shape == (h, w, 2))
    V.check('offsets from the central pixel', np.array_equal(g, want))
    V.check('integers', g.dtype.kind == 'i')
    V.check('from an array', np.array_equal(mb.build_grid(np.array([h, w])), want))


REG.add('search_grid', grids, bounds='1..6 x 1..6')


def batches(V):
    n, k = int(V.integer('n', 0, 7)), int(V.integer('k', 1, 8))
    items = [object() for _ in range(n)]
    for src in (items, tuple(items), iter(items)):
        out = [list(b) for b in mb.batch(src, k)]
        V.check('nothing lost, reordered or repeated', [id(x) for b in out for x in b] == [id(x) for x in items])
        V.check('batches are full, except the last one', all(len(b) == k for b in out[:-1]))
        V.check('no empty batch', all(0 < len(b) <= k for b in out))
    taken = []

    def endless():
        while True:
            taken.append(1)
            yield len(taken)
    g = mb.batch(endless(), k)
    V.check('lazy', list(next(g)) == list(range(1, k + 1)) and len(taken) <= k + 1)


REG.add('batches', batches, bounds='0..7 items, batches of 1..8')


# ------------------------------------------------------------------ probability maps
def add_probability(shape, kind):
    def h(V):
        x = V.reals('x', shape, -2, 2)
        n = int(np.prod(shape[-2:]))
        flat = np.asarray(x).reshape((-1, n))
        if kind != 'varying':
            k = 0
            flat[k] = [flat[k][0]] * n
        for i, row in enumerate(flat):
            if i or kind == 'varying':
                V.assume(row[0] < row[1] - 0.01)
        x = sarr(flat.reshape(shape).tolist())
        x0 = x.copy()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            p = np.asarray(probability_map(x))
        V.check('shape', p.shape == shape)
        V.eq('input left alone', x, x0)
        pf = p.reshape((-1, n))
        for i, row in enumerate(flat):
            q = pf[i]
            V.eq('sums to one %d' % i, sum(q.tolist()), 1)
            V.ge('not negative %d' % i, q, [0] * n)
            if i == 0 and kind != 'varying':
                V.eq('uniform when constant', q, [F(1, n) if V.sym else 1. / n] * n)
            else:
                tot = sum(row.tolist())
                for a in range(n):
                    for b in range(a):
                        # the same ratio for every pair: affine in the responses
                        V.eq('affine %d %d %d' % (i, a, b), (q[a] - q[b]) * (row[0] - row[1]),
                             (q[0] - q[1]) * (row[a] - row[b]))
                V.check('increasing %d' % i, q[0] < q[1])
                lo = row.min() if not V.sym else None
                V.check('one of them is zero %d' % i, E.bor(*[q[a] == 0 for a in range(n)]) if V.sym
                        else q[row.argmin()] == 0)
    REG.add('probability_%s_%s' % ('x'.join(map(str, shape)), kind), h, timeout=120, bounds='responses of shape %s' %
            (shape,))


add_probability((2, 1, 1, 2), 'varying')
add_probability((1, 1, 2, 2), 'varying')
add_probability((2, 1, 1, 3), 'one constant')
add_probability((1, 1, 2, 2), 'constant')
add_probability((2, 2, 1, 2), 'one constant')
add_probability((1, 3, 1), 'varying')


def probability_image(V):
    im = image(V, 'x', (1, 3), ch=2, masked=False)
    for c in range(2):
        V.assume(im.pixels[c, 0, 0] < im.pixels[c, 0, 2])
    px = im.pixels.copy()
    r = probability_map(im)
    V.check('an image', isinstance(r, Image) and r is not im)
    V.eq('as for arrays', r.pixels, probability_map(px.copy()))
    V.eq('image left alone', im.pixels, px)


REG.add('probability_of_images', probability_image, bounds='two channels of 1 x 3')


def probability_axes(V):
    x = V.reals('x', (2, 2), -1, 1)
    V.assume(x[0, 0] < x[1, 0])
    V.assume(x[0, 1] < x[1, 1])
    p = np.asarray(probability_map(x, axes=(0,)))
    V.eq('first axis', p, sarr([[0, 0], [1, 1]]))


REG.add('probability_axes', probability_axes, bounds='2 x 2')


# ------------------------------------------------------------------ correlation filter experts
class Patches(object):
    """Image.extract_patches: arbitrary patches per (image, landmark, patch shape, offsets)"""

    def __init__(self, V, ch, offsets):
        self.V, self.ch, self.offsets, self.table, self.calls = V, ch, offsets, {}, []

    def one(self, image, point, shape):
        key = (id(image), key_of(point), tuple(shape))
        if key not in self.table:
            n_off = 1 if self.offsets is None else len(self.offsets)
            self.table[key] = self.V.reals('patch%d' % len(self.table), (n_off, self.ch) + tuple(shape), -2, 2)
        return self.table[key]

    def patched(self):
        outer = self

        def extract_patches(self, centers, patch_shape=(16, 16), sample_offsets=None, as_single_array=True, **k):
            off = outer.offsets
            outer.V.check('sample offsets', sample_offsets is off)
            outer.V.check('a single array', as_single_array is True)
            outer.calls.append((self, centers, tuple(patch_shape)))
            return sarr([outer.one(self, p, patch_shape).tolist() for p in centers.points])
        return patched((Image, 'extract_patches', extract_patches))


class Filters(object):
    """records what it is trained with; answers with arbitrary filters"""

    def __init__(self, V, C, size, family=False):
        self.V, self.C, self.size, self.family, self.log = V, C, size, family, []

    def make(self):
        k = len(self.log)
        if self.family:
            # a one-parameter family per channel
            t = self.V.reals('filter%d' % k, (self.C,), -1, 1)
            f = sarr([[[F((3 * y + 5 * x + 2 * c) % 7 - 3, 4) + t[c] * F((y + 2 * x) % 3 - 1, 2)
                        for x in range(self.size[1])] for y in range(self.size[0])] for c in range(self.C)])
        else:
            f = self.V.reals('filter%d' % k, (self.C,) + self.size, -1, 1)
        return f, 'A%d' % k, 'B%d' % k

    def train(self, X, t):
        r = self.make()
        self.log.append(('train', X, t, r))
        return r

    def increment(self, A, B, n, X, t):
        r = self.make()
        self.log.append(('increment', X, t, r, A, B, n))
        return r


def gaussian(shape, cov):
    g = mb.build_grid(shape).astype(float)
    return np.exp(-(g ** 2).sum(-1) / (2. * cov)) / (2 * np.pi * cov)


def hann(n):
    return np.array([1.]) if n == 1 else np.array([0.5 - 0.5 * np.cos(2 * np.pi * i / (n - 1)) for i in range(n)])


def power(f, a, b):
    """squared magnitude of one discrete Fourier coefficient """
    re, im = 0, 0
    for (y, x), v in np.ndenumerate(f):
        t = 2 * np.pi * (F(a * y, f.shape[0]) + F(b * x, f.shape[1]))
        re, im = re + v * F(float(np.cos(t))), im - v * F(float(np.sin(t)))
    return re * re + im * im


def add_ensemble(name, n_im, n_pt, ch, offsets, patch, context, norm, cosine, n_inc, default_norm=False, spectra=False):
    def h(V):
        off = None if offsets is None else np.array(offsets)
        C = ch * (1 if off is None else len(off))
        ims = [Image(np.zeros((ch, 4, 4)) + i) for i in range(n_im + n_inc + 1)]
        shapes = [PointCloud(np.array([[10. * i + k, 20. + 3 * k] for k in range(n_pt)])) for i in range(len(ims))]
        sh0 = [s.points.copy() for s in shapes]
        ps = Patches(V, ch, off)
        fl = Filters(V, C, patch, spectra)

        def normalise(x):
            x = np.asarray(x)
            return sarr((2 * x + 1).tolist()) if norm else sarr(x.tolist())
        mask = hann(context[0])[:, None] * hann(context[1])[None]
        with ps.patched():
            e = CorrelationFilterExpertEnsemble(ims[:n_im], shapes[:n_im], icf_cls=lambda: fl, patch_shape=patch,
                                                context_shape=context, response_covariance=2, patch_normalisation=normalise,
                                                cosine_mask=cosine, sample_offsets=off)
            rounds = [(list(range(n_im)), 'train', fl.log[:])]
            if n_inc:
                first = list(fl.log)
                e.increment(ims[n_im:n_im + n_inc], shapes[n_im:n_im + n_inc])
                rounds.append((list(range(n_im, n_im + n_inc)), 'increment', fl.log[len(first):]))
            V.check('context patches while training', all(c[2] == tuple(context) for c in ps.calls))
            # what every expert was trained with
            for idx, what, log in rounds:
                V.check(what + ': one filter per landmark', len(log) == n_pt and all(x[0] == what for x in log))
                for k, item in enumerate(log):
                    X = np.asarray(item[1])
                    want = []
                    for i in idx:
                        p = ps.one(ims[i], shapes[i].points[k], context).reshape((C,) + tuple(context))
                        want.append(np.asarray(normalise(p)) * (mask if cosine else 1))
                    V.close('%s: patches of landmark %d' % (what, k), X, sarr(np.array(want).tolist()), 1e-12)
                    V.close('%s: desired response %d' % (what, k), item[2], gaussian(patch, 2)[None], 1e-12)
                    if what == 'increment':
                        V.check('statistics of expert %d are updated' % k, (item[4], item[5]) == fl.log[k][3][1:])
            last = rounds[-1][2]
            V.check('experts', e.n_experts == n_pt)
            V.check('search region', tuple(e.search_shape) == tuple(patch))
            V.check('offsets', e.n_sample_offsets == (1 if off is None else len(off)))
            V.check('statistics kept', [str(a) for a in e.auto_correlations] == [x[3][1] for x in last] and
                    [str(a) for a in e.cross_correlations] == [x[3][2] for x in last])
            # responses
            ps.calls[:] = []
            r = e.predict_response(ims[-1], shapes[-1])
            V.check('patches of the search region', [c[2] for c in ps.calls] == [tuple(patch)])
            want = []
            for k in range(n_pt):
                p = np.asarray(normalise(ps.one(ims[-1], shapes[-1].points[k], patch).reshape((C,) + tuple(patch))))
                want.append(sum(convolution(p[c], np.asarray(last[k][3][0])[c], 'same') for c in range(C))[None])
            V.eq('sum over the channels of the filtered patches', r, sarr(np.array(want).tolist()))
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with patched((ee, 'probability_map', lambda x: ('p', x))):
                    tag, x = e.predict_probability(ims[-1], shapes[-1])
            V.eq('probabilities of the responses', x, r)
            # the filters as images
            fi = e.spatial_filter_images
            V.check('a filter image per expert', len(fi) == n_pt)
            for k in range(n_pt):
                V.eq('filter %d, in correlation form' % k, fi[k].pixels, np.asarray(last[k][3][0])[:, ::-1, ::-1])
            if spectra:
                # and their spectra, with the constant component at the centre
                fr = e.frequency_filter_images
                V.check('a spectrum per expert', len(fr) == n_pt)
                for k in range(n_pt):
                    f = np.asarray(last[k][3][0])[:, ::-1, ::-1]
                    for u, v in np.ndindex(*patch):
                        a, b = (u - patch[0] // 2) % patch[0], (v - patch[1] // 2) % patch[1]
                        for c in range(C):
                            z = fr[k].pixels[c, u, v]
                            V.check('magnitude', z >= 0)
                            V.close('spectrum %d %d %d' % (k, u, v), z * z, power(f[c], a, b), 1e-9)
        V.check('shapes left alone', all(np.array_equal(s.points, p) for s, p in zip(shapes, sh0)))
    REG.add('experts_' + name, h, timeout=150, bounds='%d + %d images, %d landmarks, %d channels, patches %s, context %s' %
            (n_im, n_inc, n_pt, ch, patch, context))


add_ensemble('plain', 1, 2, 1, None, (3, 3), (2, 4), False, False, 0)
add_ensemble('normalised', 2, 2, 1, None, (3, 3), (2, 2), True, False, 0)
add_ensemble('masked', 2, 1, 2, None, (3, 3), (3, 4), True, True, 0)
add_ensemble('spectra', 1, 2, 2, None, (3, 3), (2, 2), False, False, 0, spectra=True)
add_ensemble('increment', 1, 2, 1, None, (3, 3), (2, 2), True, True, 2)
add_ensemble('offsets', 1, 2, 1, [[0, 0], [0, 1]], (3, 3), (2, 2), True, False, 1)


def add_masks(V):
    h, w, c = int(V.integer('h', 1, 5)), int(V.integer('w', 1, 5)), int(V.integer('c', 1, 4))
    V.close('cosine mask', ee.generate_cosine_mask((h, w)), hann(h)[:, None] * hann(w)[None], 1e-12)
    V.close('response', ee.generate_gaussian_response((h, w), c), gaussian((h, w), c), 1e-12)


REG.add('masks_and_responses', add_masks, bounds='1..5 x 1..5, covariances 1..4')


def wrapper(V):
    calls = []

    def cf(X, t):
        calls.append(('t', X, t))
        return 'r'

    def icf(A, B, n, X, t):
        calls.append(('i', A, B, n, X, t))
        return 's'
    w = IncrementalCorrelationFilterThinWrapper(cf, icf)
    X = V.reals('X', (2, 1, 2, 2), -2, 2)
    V.check('result of training', w.train(X, 't') == 'r')
    V.eq('samples', calls[0][1], X)
    V.check('result of training on a list', w.train([X[0], X[1]], 't') == 'r')
    V.eq('list of samples', calls[1][1], X)
    V.check('response', calls[0][2] == 't' and calls[1][2] == 't')
    V.check('result of increment', w.increment('A', 'B', 3, [X[0], X[1]], 't') == 's')
    V.check('statistics', calls[2][:4] == ('i', 'A', 'B', 3) and calls[2][5] == 't')
    V.eq('new samples', calls[2][4], X)
    d = IncrementalCorrelationFilterThinWrapper()
    from menpofit.math.correlationfilter import mccf, imccf
    V.check('multi-channel filters by default', d.cf_callable is mccf and d.icf_callable is imccf)


REG.add('filter_wrapper', wrapper, bounds='two samples')


# ------------------------------------------------------------------ algorithms
class Shapes(object):
    """linear shape model: base + p . B, four pose and two shape parameters"""
    BASE = np.array([[-2., 1.], [3., 2.], [1., -3.], [0., 2.]])
    B = np.array([[1., 0., 0., -1., 2., 1., 1., 0.], [0., 1., 1., 0., -1., 2., 0., 1.], [1., 0., 1., 0., 1., 0., 1., 0.],
                  [0., 1., 0., 1., 0., 1., 0., 1.], [1., 2., -1., 0., 0., 1., 0., 1.], [2., -1., 0., 1., -1., 1., 1., 0.]])

    def __init__(self, V, noise, eig):
        self.V = V
        self.model = rec(noise_variance=lambda: noise, eigenvalues=eig,
                         mean=lambda: PointCloud(self.BASE.copy()), n_active_components=2)
        self.p = np.zeros(6)
        self.n_parameters = 6

    def points(self, p):
        return self.BASE + np.asarray(p).dot(self.B).reshape(-1, 2)

    @property
    def target(self):
        return PointCloud(self.points(self.p), copy=False)

    def set_target(self, pc):
        d = np.asarray(pc.points).ravel() - self.BASE.ravel()
        self.p = vsolve(self.V, self.B.dot(self.B.T), self.B.dot(d))

    def as_vector(self):
        return np.array(self.p)

    def _from_vector_inplace(self, v):
        self.p = np.array(v)

    from_vector_inplace = _from_vector_inplace

    def d_dp(self, _):
        return self.B.reshape(6, -1, 2).swapaxes(0, 1)


class Experts(object):
    def __init__(self, V, search_shape, responses):
        self.V, self.search_shape, self.responses, self.calls = V, search_shape, responses, []

    def predict_probability(self, image, shape):
        self.calls.append((image, np.array(shape.points)))
        return self.responses[len(self.calls) - 1].copy()


def varying(size, n, seed):
    """given, strictly positive, normalised responses"""
    h, w = size
    r = ((np.arange(n * h * w) * 7 + 3 * seed) % 11 + 1.).reshape(n, 1, h, w)
    return r / r.sum(axis=(-2, -1), keepdims=True)


def target_of(V, kind, size, resp, cov, pts):
    """where every landmark is attracted to"""
    out = []
    g = mb.build_grid(size).astype(float)
    for i in range(len(pts)):
        if kind == 'asm':
            k = int(np.argmax(as_numbers(V, resp[i, 0]).ravel()))
            m = np.array([k // size[1] - size[0] // 2, k % size[1] - size[1] // 2])
            w = np.exp(-((g - m) ** 2).sum(-1) / (2. * cov))
        else:
            w = np.asarray(resp[i, 0]) * np.exp(-(g ** 2).sum(-1) / (2. * cov))
        tot = sum(w.ravel().tolist())
        off = [sum((w[..., ] * g[..., d]).ravel().tolist()) / tot for d in range(2)]
        out.append([pts[i][0] + off[0], pts[i][1] + off[1]])
    return sarr(out)


def as_numbers(V, x):
    return np.asarray(as_float(x) if V.sym else x, dtype=float)


def add_algorithm(kind, size, mapinf, symbolic, iters, cov=3, eps=0, timeout=150, model=Shapes, tag=''):
    cls = ActiveShapeModel if kind == 'asm' else RegularisedLandmarkMeanShift

    def h(V):
        noise, eig = 0.5, np.array([2., 0.5])
        if mapinf and iters < 9:
            noise = V.real('noise', 0.25, 1)
        tr = model(V, noise, eig)
        M = len(model.BASE)
        if kind == 'asm':
            resp = []
            for t in range(iters):
                k = int(V.integer('peak%d' % t, 0, size[0] * size[1] - 1)) if not t and iters < 9 else t
                r = varying(size, M, t) / 2
                for i in range(M):
                    r[i, 0].flat[(k + 2 * i) % r[i, 0].size] = 1 + 0.1 * i
                resp.append(r)
        elif symbolic:
            resp = []
            for t in range(iters):
                r = varying(size, M, t).tolist()
                r[t % M][0][0] = V.reals('r%d' % t, (size[1],), 0.0625, 1).tolist()
                resp.append(sarr(r))
        else:
            resp = [varying(size, M, t) for t in range(iters)]
        ex = Experts(V, size, resp)
        kw = dict(gaussian_covariance=cov) if kind == 'asm' else dict(kernel_covariance=cov)
        nostop = isinstance(eps, NoStop)
        alg = cls(ex, tr, eps=eps, **kw)
        init = np.array([[-1., 2.], [3., 1.], [2., -2.], [1., 2.5]]) if M == 4 else model.BASE + np.arange(2 * M).reshape(M, 2) % 3 - 1
        if iters == 1 and not symbolic:
            init = V.reals('s', (M, 2), -4, 4)
        elif not symbolic:
            init = init.tolist()
            init[1] = V.reals('s', (2,), -4, 4).tolist()
            init = sarr(init)
        start = PointCloud(init.copy())
        im = Image(np.zeros((1, 2, 2)))
        gt = PointCloud(model.BASE + 1)
        res = costless(V, lambda c: alg.run(im, start, gt_shape=gt, max_iters=iters, map_inference=mapinf, return_costs=c), False)
        ps, ss = res.shape_parameters, res.shapes
        n = len(ps) - 1
        V.check('no more iterations than asked', n <= iters)
        V.check('one response per iteration', len(ex.calls) == n and all(c[0] is im for c in ex.calls))
        d = np.asarray(init).ravel() - model.BASE.ravel()
        BB = model.B.dot(model.B.T)
        V.eq('starts at the projected initial shape', BB.dot(np.asarray(ps[0])), model.B.dot(d))
        prior = sarr([0] * 4 + [noise / float(x) for x in eig])
        ss = ss[len(ss) - n - 1:]
        for t in range(n + 1):
            V.eq('shape of the parameters %d' % t, ss[t].points, tr.points(ps[t]))
        for t in range(n):
            V.eq('response at the current shape %d' % t, ex.calls[t][1], tr.points(ps[t]))
            e = np.asarray(target_of(V, kind, size, resp[t], cov, tr.points(ps[t]))).ravel() - tr.points(ps[t]).ravel()
            dp = np.asarray(ps[t + 1]) - np.asarray(ps[t])
            lhs, rhs = BB.dot(dp), model.B.dot(e)
            if mapinf:
                lhs = lhs + prior * dp
                rhs = rhs - prior * np.asarray(ps[t])
            V.close('least squares step %d' % t, lhs, rhs, 1e-6)
        V.eq('initial shape recorded', res.initial_shape.points, init)
        V.eq('start left alone', start.points, init)
        V.eq('ground truth recorded', res.gt_shape.points, model.BASE + 1)
        V.check('image recorded', res.image.pixels.shape == (1, 2, 2))
        moved = [sum(((a.points - b.points) ** 2).ravel().tolist()) for a, b in zip(ss[:-1], ss[1:])]
        for t in range(n - 1):
            V.check('went on because it moved %d' % t, nostop or moved[t] > eps ** 2 * (1 - 1e-9))
        if n < iters:
            V.check('stopped because it did not move', moved[-1] <= eps ** 2 * (1 + 1e-9))
        # a second run on the same object does not remember the first one
        first = [np.array(p) for p in ps]
        del ex.calls[:]
        r2 = costless(V, lambda c: alg.run(im, PointCloud(init.copy()), max_iters=iters, map_inference=mapinf, return_costs=c), True)
        V.check('as many iterations again', len(r2.shape_parameters) == len(first))
        for t, p in enumerate(r2.shape_parameters):
            V.eq('again %d' % t, p, first[t])
    REG.add('%s_%dx%d%s%s_%d%s' % (kind, size[0], size[1], '_map' if mapinf else '', '_responses' if symbolic else '', iters,
                                  tag or ('_eps' if eps else '')), h, timeout=timeout, max_paths=100,
            bounds='%d landmarks, search regions of %d x %d, %d iterations' % ((len(model.BASE),) + size + (iters,)))


class ManyShapes(Shapes):
    BASE = np.array([[3. * k - 9, (k * k) % 7 - 2.] for k in range(9)])
    B = np.array([[(3. * i * i + 5 * i * (q + 1) + q * q * q) % 7 - 3 for i in range(18)] for q in range(6)])


for _k in ('asm', 'rlms'):
    for _m in (False, True):
        add_algorithm(_k, (2, 3), _m, False, 12, eps=NoStop(), tag='_long', timeout=250)
    add_algorithm(_k, (3, 2), False, False, 3, eps=NoStop(), tag='_many', timeout=250, model=ManyShapes)
    add_algorithm(_k, (3, 3), True, False, 1, tag='_many', timeout=250, model=ManyShapes)
for _m in (False, True):
    add_algorithm('rlms', (3, 3), _m, False, 1)
    add_algorithm('rlms', (4, 2), _m, False, 2)
    add_algorithm('rlms', (2, 2), _m, True, 1)
    add_algorithm('asm', (3, 3), _m, False, 1)
    add_algorithm('asm', (2, 4), _m, False, 1)
    add_algorithm('asm', (7, 2), _m, False, 1)
for _s in ((3, 1), (1, 4)):
    add_algorithm('rlms', _s, False, False, 1)
    add_algorithm('asm', _s, False, False, 1)
add_algorithm('rlms', (3, 3), False, False, 2, eps=2.)
add_algorithm('asm', (2, 3), False, False, 2, eps=2.)


def defaults(V):
    """defaults: 20 iterations, tolerance 1e-5, covariance 10, maximum likelihood"""
    size = (3, 3)
    for kind, cls in (('asm', ActiveShapeModel), ('rlms', RegularisedLandmarkMeanShift)):
        tr = Shapes(V, 0.5, np.array([2., 0.5]))
        ex = Experts(V, size, [varying(size, 4, t) for t in range(25)])
        alg = cls(ex, tr)
        init = Shapes.BASE + 1
        r = alg.run(Image(np.zeros((1, 2, 2))), PointCloud(init))
        V.check(kind + ': at most 20 iterations', len(ex.calls) <= 20 and len(r.shape_parameters) == len(ex.calls) + 1)
        e = np.asarray(target_of(V, kind, size, ex.responses[0], 10, init)).ravel() - init.ravel()
        # the first step, from the projection of the initial shape
        p0, p1 = r.shape_parameters[:2]
        e = np.asarray(target_of(V, kind, size, ex.responses[0], 10, tr.points(p0))).ravel() - tr.points(p0).ravel()
        V.close(kind + ': step', Shapes.B.dot(Shapes.B.T).dot(p1 - p0), Shapes.B.dot(e), 1e-6)
        V.check(kind + ': tolerance', alg.eps == 1e-5)


REG.add('algorithm_defaults', defaults, bounds='one run')


# ------------------------------------------------------------------ fitter
class ToyModel(object):
    """shape model of a CLM, as it is seen by a fitter"""

    def __init__(self, V, i):
        self.i, self.log = i, []
        self.mean = PointCloud(V.reals('mean%d' % i, (2, 2), -3, 3))
        self.state = PointCloud(V.reals('state%d' % i, (2, 2), -3, 3))
        self.model = rec(mean=lambda: self.mean, n_active_components=7 + i)
        self.n_global_parameters = 4

    n_active_components = property(lambda self: self._n, lambda self, n: self.log.append(n))

    def set_target(self, t):
        self.state = t


def fitters(V):
    k = int(V.integer('scales', 1, 3))
    what = int(V.integer('n_shape', 0, 2))
    sms = [ToyModel(V, i) for i in range(k)]
    ens = [object() for _ in range(k)]
    made = []

    class Algorithm(object):
        def __init__(self, e, s):
            made.append((e, s, s.state))
    ref = PointCloud(np.zeros((2, 2)))
    clm = rec(shape_models=sms, expert_ensembles=ens, n_scales=k, scales=tuple(range(1, k + 1)), reference_shape=ref,
              holistic_features=['f%d' % i for i in range(k)])
    n_shape = [None, 4, [3 + i for i in range(k)]][what]
    kw = {} if what == 0 else dict(n_shape=n_shape)
    f = GradientDescentCLMFitter(clm, gd_algorithm_cls=Algorithm, **kw)
    V.check('one algorithm per scale', len(made) == k == len(f.algorithms) == f.n_scales)
    for i in range(k):
        V.check('experts and shape model of scale %d' % i, made[i][0] is ens[i] and made[i][1] is sms[i])
        V.eq('pre-computed at the mean shape %d' % i, made[i][2].points, sms[i].mean.points)
        V.check('active components %d' % i, sms[i].log == [[], [4], [3 + i]][what])
    V.check('of the model', f.clm is clm and f.scales == clm.scales and f.reference_shape is ref and
            f.holistic_features is clm.holistic_features)


REG.add('gradient_descent_fitter', fitters, bounds='1..3 scales')


def default_algorithm(V):
    made = []
    import menpofit.clm.fitter as cfit
    import inspect
    d = inspect.signature(GradientDescentCLMFitter.__init__).parameters
    V.check('regularised landmark mean shift by default', d['gd_algorithm_cls'].default is RegularisedLandmarkMeanShift)


REG.add('fitter_defaults', default_algorithm, bounds='the signature')
