"""C19 - supervised descent: cascades regress what is missing from features at the current shapes."""
import contextlib
import io
from fractions import Fraction as F
from checks.aamlk import *
from checks.C12 import FakeImage, Feature, ExactAffine
from menpo.image import Image
from menpofit.math import regression as mr
from menpofit import sdm
from menpofit.sdm import algorithm as sa
from menpofit.sdm.algorithm import fullyparametric as fp
from menpofit.sdm import fitter as sf
from menpofit.aam.algorithm import sd as aamsd
from menpofit.aam.fitter import SupervisedDescentAAMFitter
from menpofit import fitter as mf
from menpofit.result import (NonParametricIterativeResult, ParametricIterativeResult,
                             MultiScaleNonParametricIterativeResult, MultiScaleParametricIterativeResult)

REG = Registry('C19')
REG.assumptions = ['patches extracted from an image are arbitrary per (image, shape)',
                   'regressors predict arbitrary values per (regressor, feature vector) (the regressors: C17)',
                   'shape and appearance models are linear stand-ins (the models: C03, C04)']
REG.outside = ['incrementing with the shipped regressors, which are created non-incrementable',
               'the numerics of PCA training']
BASES = (mr.IRLRegression, mr.PCRRegression, mr.OptimalLinearRegression, mr.OPPRegression)
NP_, PS = 3, (1, 2)


class Regressors(object):
    """the regressor classes, training recorded and predictions arbitrary"""

    def __init__(self, V):
        self.V, self.table, self.log, self.made = V, {}, [], []

    def settings(self, r):
        return (type(r).__name__, r.__dict__.get('alpha'), r.__dict__.get('alpha2'), r.__dict__.get('variance'),
                r.__dict__.get('whiten'), r.bias)

    def index(self, r):
        for i, x in enumerate(self.made):
            if x is r:
                return i
        self.made.append(r)
        return len(self.made) - 1

    def row(self, i, x):
        k = (i, key_of(x))
        if k not in self.table:
            self.table[k] = self.V.reals('y%d' % len(self.table), (self.n_y,), -2, 2)
        return np.asarray(self.table[k])

    def patches(self):
        o = self

        def train(self, X, Y):
            i = o.index(self)
            o.n_y = Y.shape[1]
            o.log.append(('train', i, np.array(X), np.array(Y)))

        def increment(self, X, Y):
            o.log.append(('increment', o.index(self), np.array(X), np.array(Y)))

        def predict(self, X):
            i = o.index(self)
            o.log.append(('predict', i, np.array(X), None))
            X = np.asarray(X)
            return sarr(o.row(i, X).tolist()) if X.ndim == 1 else sarr([o.row(i, x).tolist() for x in X])
        out = []
        for c in BASES + (mr.IIRLRegression,):
            out += [(c, 'train', train), (c, 'increment', increment), (c, 'predict', predict)]
        return out


class Patches(object):
    def __init__(self, V, ps=PS, n=NP_):
        self.V, self.table, self.ps, self.n = V, {}, ps, n

    def get(self, im, points):
        k = (key_of(im.pixels), key_of(points))
        if k not in self.table:
            self.table[k] = self.V.reals('w%d' % len(self.table), (self.n, 1, 1) + tuple(self.ps), -2, 2)
        return self.table[k]

    def patches(self):
        o = self

        def extract_patches(self, centers, patch_shape=None, as_single_array=None, **k):
            o.V.check('patch shape', tuple(patch_shape) == o.ps and as_single_array is True)
            return o.get(self, centers.points).copy()
        return [(Image, 'extract_patches', extract_patches)]


def feat(p):
    """a patch feature that does not commute with anything"""
    p = np.asarray(p)
    return (p[:, :, ::-1] * 3 + 1) if p.ndim == 3 else p


class Appearance(object):
    """linear appearance model: arbitrary mean, fixed dense matrices for the projections"""

    def __init__(self, V, data, seen, rows=2):
        self.V = V
        seen.append(np.array(data))
        n = np.asarray(data).shape[1]
        self.m = V.reals('amean', (n,), -1, 1)
        self.P = np.array([[((3 * i + 5 * j) % 7 - 3) / 2. for j in range(n)] for i in range(n)])
        self.W = np.array([[((2 * i + 3 * j) % 5 - 2) / 2. for j in range(n)] for i in range(rows)])

    def mean(self):
        return self.m

    def project_out(self, x):
        return sarr(self.P.dot(np.asarray(x) - np.asarray(self.m)).tolist())

    def project(self, x):
        return sarr(self.W.dot(np.asarray(x) - np.asarray(self.m)).tolist())


# name -> (class, parametric shape, appearance features, regressor settings with defaults, extra arguments)
ALG = {}
for base, par in ((sa.nonparametric, False), (sa.parametricshape, True)):
    pre = 'ParametricShape' if par else 'NonParametric'
    ALG[pre + 'Newton'] = (par, None, ('IRLRegression', 0, None, None, None, True), dict(alpha=F(1, 2), bias=False),
                           ('IRLRegression', F(1, 2), None, None, None, False))
    ALG[pre + 'GaussNewton'] = (par, None, ('IIRLRegression', 0, 0, None, None, False), dict(alpha=3, alpha2=5),
                                ('IIRLRegression', 3, 5, None, None, False))
    ALG[pre + 'PCRRegression'] = (par, None, ('PCRRegression', None, None, None, None, True),
                                  dict(variance=.5, bias=False), ('PCRRegression', None, None, .5, None, False))
    ALG[pre + 'OptimalRegression'] = (par, None, ('OptimalLinearRegression', None, None, None, None, True),
                                      dict(variance=.5, bias=False),
                                      ('OptimalLinearRegression', None, None, .5, None, False))
    ALG[pre + 'OPPRegression'] = (par, None, ('OPPRegression', None, None, None, False, True),
                                  dict(bias=False, **(dict(whiten=True) if par else {})),
                                  ('OPPRegression', None, None, None, par, False))
for par, pre in ((False, 'ParametricAppearance'), (True, 'FullyParametric')):
    for kind in ('ProjectOut', 'MeanTemplate', 'Weights'):
        ALG[pre + kind + 'Newton'] = (par, kind, ('IRLRegression', 0, None, None, None, True),
                                      dict(alpha=2, bias=False), ('IRLRegression', 2, None, None, None, False))
        nm = pre + kind + 'GuassNewton'
        if not par:
            ALG[nm] = (par, kind, ('IIRLRegression', 0, 0, None, None, False), dict(alpha=3, alpha2=5),
                       ('IIRLRegression', 3, 5, None, None, False))
ALG['FullyParametricProjectOutGaussNewton'] = (
    True, 'ProjectOut', ('IIRLRegression', 0, 0, None, None, False), dict(alpha=3, alpha2=5),
    ('IIRLRegression', 3, 5, None, None, False))
ALG['FullyParametricProjectOutOPP'] = (
    True, 'ProjectOut', ('OPPRegression', None, None, None, False, True), dict(bias=False),
    ('OPPRegression', None, None, None, False, False))


def find(name):
    for m in (sa.nonparametric, sa.parametricshape, sa.parametricappearance, fp):
        if hasattr(m, name):
            return getattr(m, name)


def shape_of(V, name, base=Warp.BASE):
    return PointCloud(sarr((base + np.asarray(V.reals(name, base.shape, -1, 1))).tolist()), copy=False)


def cascade(name, n_images=2, n_pert=2, iters=2, options=False, increment=False, verbose=False,
            warp=Warp, n_par=3, rows=2):
    par, kind, dflt, opts, optset = ALG[name]
    counts = n_pert if isinstance(n_pert, tuple) else (n_pert,) * n_images

    n_pts, B = len(warp.BASE), warp.BASE

    def f(V):
        rg, pt, seen_a, seen_s, models = Regressors(V), Patches(V, n=n_pts), [], [], []
        reported = []

        def mk_shape(shapes):
            seen_s.append([np.array(s.points) for s in shapes])
            models.append(warp(n_par, None))
            return models[-1]

        def mk_app(data):
            a = Appearance(V, data, seen_a, rows)
            models.append(a)
            return a
        kw = dict(opts) if options else {}
        if 'alpha' in kw:
            kw['alpha'] = float(kw['alpha'])
        if par:
            kw['shape_model_cls'] = mk_shape
        if kind:
            kw['appearance_model_cls'] = mk_app
        if verbose:
            def error(s1, s2, gt):
                reported.append((np.array(s1.points), np.array(s2.points), np.array(gt.points)))
                return 0.5
            kw['compute_error'] = error
        ims = [Image(V.reals('I%d' % i, (1, 1, 2), -1, 1), copy=False) for i in range(n_images + 1)]
        gts = [shape_of(V, 'g%d' % i, B) for i in range(n_images)]
        cur = [[shape_of(V, 'c%d_%d' % (i, k), B) for k in range(counts[i])] for i in range(n_images)]
        cur0 = [[np.array(s.points) for s in ss] for ss in cur]
        init = shape_of(V, 'init', B)
        tgt = shape_of(V, 'tgt', B)
        with patched(*(rg.patches() + pt.patches())), contextlib.redirect_stdout(io.StringIO()):
            alg = find(name)(patch_features=feat, patch_shape=PS, n_iterations=iters, **kw)
            V.check('incrementing needs training', raises(ValueError, lambda: alg.increment(ims[:-1], gts, cur)))
            out = alg.train(ims[:-1], gts, cur, verbose=verbose)
            n_train = len(rg.log)
            end_train = [[np.array(s.points) for s in ss] for ss in out]
            if increment:
                cur2 = [[shape_of(V, 'd%d_%d' % (i, k), B) for k in range(counts[i])] for i in range(n_images)]
                cur20 = [[np.array(s.points) for s in ss] for ss in cur2]
                out2 = alg.increment(ims[:-1], gts, cur2)
            n_inc = len(rg.log)
            i0 = np.array(init.points)
            res = costless(V, lambda c: alg.run(ims[-1], init, gt_shape=tgt, return_costs=c), increment or verbose)
        # ---- specification
        sh = next((m for m in models if isinstance(m, Warp)), None)
        ap = next((m for m in models if isinstance(m, Appearance)), None)
        V.check('one shape model of the ground truth', len(seen_s) == (1 if par else 0))
        if par:
            for a, g in zip(seen_s[0], gts):
                V.eq('shape model built from the ground truth shapes', a, g.points)
            V.check('number of shapes', len(seen_s[0]) == n_images)

        def raw(im, pts):
            w = np.asarray(pt.get(im, pts))
            return np.concatenate([np.ravel(feat(w[q, 0])) for q in range(n_pts)])

        def features(im, pts):
            x = raw(im, pts)
            if kind is None:
                return x
            y = x - np.asarray(ap.m)
            return y if kind == 'MeanTemplate' else (ap.P if kind == 'ProjectOut' else ap.W).dot(y)
        if kind:
            V.check('one appearance model of the ground truth', len(seen_a) == 1)
            V.eq('appearance model of the ground truth patches', seen_a[0],
                 [raw(im, g.points) for im, g in zip(ims, gts)])

        def params(pts):
            x = np.asarray(pts).ravel()
            return x[:n_par] - B.ravel()[:n_par] if par else x

        def points(x):
            return np.asarray(sh.points(x)) if par else np.asarray(x).reshape(n_pts, 2)

        def check_cascade(tag, log, start, end, what):
            V.check(tag + 'trained and predicted once per iteration', [l[0] for l in log] == [what, 'predict'] * iters)
            V.check(tag + 'one regressor per iteration', [l[1] for l in log] == [i // 2 for i in range(2 * iters)])
            pts = [[p for p in pp] for pp in start]
            x = [[params(p) for p in pp] for pp in start]
            for k in range(iters):
                _, i, X, Y = log[2 * k]
                V.eq(tag + 'features %d' % k, X, [features(im, p) for im, pp in zip(ims, pts) for p in pp])
                V.eq(tag + 'what is missing %d' % k, Y, [params(g.points) - v for g, xx in zip(gts, x) for v in xx])
                V.eq(tag + 'prediction features %d' % k, log[2 * k + 1][2], X)
                n = 0
                for a in range(n_images):
                    for b in range(counts[a]):
                        x[a][b] = params(pts[a][b]) + rg.row(i, X[n])
                        pts[a][b] = points(x[a][b])
                        n += 1
            for a in range(n_images):
                for b in range(counts[a]):
                    V.eq(tag + 'shapes after training %d %d' % (a, b), end[a][b], pts[a][b])
        check_cascade('train: ', rg.log[:n_train], cur0, end_train, 'train')
        V.check('training refines the shapes it was given', out is cur)
        if verbose:
            # every reported error compares what was missing with what was predicted, for the right ground truth
            n_rows = sum(counts)
            V.check('one reported error per shape and iteration', len(reported) == n_rows * iters)
            trains = [l for l in rg.log[:n_train] if l[0] == 'train']
            of = [i for i in range(n_images) for _ in range(counts[i])]

            def shown(d):
                return np.asarray(sh.points(d)) if par else np.asarray(d).reshape(n_pts, 2)
            for q, (s1, s2, gt) in enumerate(reported):
                k, r = divmod(q, n_rows)
                V.eq('reported: missing %d' % q, s1, shown(trains[k][3][r]))
                V.eq('reported: predicted %d' % q, s2, shown(rg.row(k, trains[k][2][r])))
                V.eq('reported: ground truth %d' % q, gt, gts[of[r]].points)
        if increment:
            check_cascade('increment: ', rg.log[n_train:n_inc], cur20,
                          [[np.array(s.points) for s in ss] for ss in out2], 'increment')
        want = optset if options else dflt
        V.check('regressors of the algorithm', all(rg.settings(r) == want for r in rg.made) and len(rg.made) == iters)
        V.check('regressors kept in order', len(alg.regressors) == iters and
                all(a is b for a, b in zip(alg.regressors, rg.made)))
        # ---- fitting
        log = rg.log[n_inc:]
        V.check('fitting uses every regressor in order', [(l[0], l[1]) for l in log] ==
                [('predict', k) for k in range(iters)])
        p = params(i0)
        pts = points(p)
        S = res.shapes
        V.eq('initial shape of the result', res.initial_shape.points, i0)
        V.eq('initial shape untouched', init.points, i0)
        V.check('iterations of the result', res.n_iters == iters)
        V.check('image of the result', key_of(res.image.pixels) == key_of(ims[-1].pixels))
        V.eq('ground truth of the result', res.gt_shape.points, tgt.points)
        off = len(S) - iters
        for k in range(iters):
            V.eq('fitting features %d' % k, np.ravel(log[k][2]), features(ims[-1], pts))
            p = p + rg.row(k, log[k][2])
            pts = points(p)
            V.eq('fitted shape %d' % k, S[off + k].points, pts)
            if par:
                V.eq('fitted parameters %d' % k, res.shape_parameters[k + 1], p)
        if par:
            V.check('one parameter vector per shape', len(res.shape_parameters) == iters + 1)
            V.eq('initial parameters', res.shape_parameters[0], params(i0))
        V.eq('final shape', res.final_shape.points, pts)
    return f


for nm in ALG:
    REG.add('train_%s' % nm, cascade(nm), timeout=200,
            bounds='2 iterations, 2 images, 2 perturbed shapes each, 3 landmarks, any patches/shapes/predictions')
    REG.add('options_%s' % nm, cascade(nm, 1, 1, 1, options=True), timeout=100, bounds='1 iteration; given options')
    REG.add('increment_%s' % nm, cascade(nm, 2, 1, 2, increment=True), timeout=200,
            bounds='2 iterations, 2 images, incremented once')
for nm in ('NonParametricNewton', 'ParametricShapeNewton', 'FullyParametricProjectOutNewton',
           'ParametricAppearanceWeightsNewton'):
    REG.add('verbose_%s' % nm, cascade(nm, verbose=True), timeout=200, bounds='as train, verbosely')
    for ct in ((2, 1), (1, 2), (1, 3, 2)):
        REG.add('counts_%s_%s' % ('_'.join(map(str, ct)), nm), cascade(nm, len(ct), ct, 2, verbose=ct[0] == 1),
                timeout=200, bounds='%s shapes of the images' % (ct,))
    REG.add('long_%s' % nm, cascade(nm, 3, 3, 3), timeout=300, bounds='3 iterations, 3 images, 3 shapes each')
    REG.add('longer_%s' % nm, cascade(nm, 1, 1, 7), timeout=300, bounds='7 iterations, 1 image, 1 shape')
    REG.add('many_images_%s' % nm, cascade(nm, 6, 1, 1), timeout=300, bounds='1 iteration, 6 images, 1 shape each')
    REG.add('many_shapes_%s' % nm, cascade(nm, 1, 12, 1), timeout=300, bounds='1 iteration, 1 image, 12 shapes')
    REG.add('wide_%s' % nm, cascade(nm, 1, 1, 1, warp=BigWarp, n_par=9, rows=9), timeout=300,
            bounds='1 iteration, 10 landmarks, 9 shape parameters, 9 appearance weights')


# ---------------------------------------------------------------- AAM cascades
AAM = {'MeanTemplate': None, 'ProjectOut': None, 'AppearanceWeights': None}


def aam_cascade(kind, reg, n=2, sampling=None, mask=None, ch=1, iters=2, m=1, options=False, counts=(2, 2), verbose=False,
                warp=Warp):
    def f(V):
        rg = Regressors(V)
        st = Setup(V, shape=(3, 3) if mask is None else mask.shape, ch=ch, m=m, n=n, sampling=sampling, mask=mask,
                   const=True, warp=warp)
        ims = [image(V, 'I%d' % i, (2, 2), ch) for i in range(3)]
        gts = [PointCloud(st.warp.points(V.reals('g%d' % i, (n,), -1, 1))) for i in range(2)]
        cur = [[PointCloud(st.warp.points(V.reals('c%d_%d' % (i, k), (n,), -1, 1))) for k in range(counts[i])]
               for i in range(2)]
        cur0 = [[np.array(s.points) for s in ss] for ss in cur]
        init = st.warp.points(V.reals('s', (n,), -2, 2))
        sam = Sampler(V)
        kw = {}
        if options:
            kw = dict(alpha=3.0, **(dict(alpha2=2.0) if reg == 'GaussNewton' else dict(bias=False)))
        reported = []
        if verbose:
            def error(s1, s2, gt):
                reported.append((np.array(s1.points), np.array(s2.points), np.array(gt.points)))
                return 0.5
            kw['compute_error'] = error
        with patched(*(list(rg.patches()) + list(sam.patches()))), contextlib.redirect_stdout(io.StringIO()):
            alg = getattr(aamsd, kind + reg)(st.iface, n_iterations=iters, **kw)
            V.check('incrementing needs training', raises(ValueError, lambda: alg.increment(ims[:2], gts, cur)))
            out = alg.train(ims[:2], gts, cur, verbose=verbose)
            n_train = len(rg.log)
            res = costless(V, lambda c: alg.run(ims[2], PointCloud(init.copy()), return_costs=c), verbose)
        A = st.pinv()

        def features(im, x):
            w = st.vec(sam.table[(key_of(im.pixels), key_of(x), tuple(st.shape))])
            e = w - st.vec(st.mean.pixels)
            if kind == 'MeanTemplate':
                return e
            c = A.dot(e)
            return c if kind == 'AppearanceWeights' else e - st.Am().dot(c)

        def params(pts):
            return np.asarray(pts).ravel()[:n] - warp.BASE.ravel()[:n]
        log = rg.log[:n_train]
        V.check('trained and predicted once per iteration', [l[0] for l in log] == ['train', 'predict'] * iters)
        V.check('one regressor per iteration', [l[1] for l in log] == [i // 2 for i in range(2 * iters)])
        x = [[params(p) for p in pp] for pp in cur0]
        for k in range(iters):
            _, i, X, Y = log[2 * k]
            V.eq('features %d' % k, X, [features(im, v) for im, xx in zip(ims, x) for v in xx])
            V.eq('what is missing %d' % k, Y, [params(g.points) - v for g, xx in zip(gts, x) for v in xx])
            V.eq('prediction features %d' % k, log[2 * k + 1][2], X)
            x = [[v + rg.row(i, X[sum(counts[:a]) + b]) for b, v in enumerate(xx)] for a, xx in enumerate(x)]
        for a in range(2):
            for b in range(counts[a]):
                V.eq('shapes after training %d %d' % (a, b), out[a][b].points, st.warp.points(x[a][b]))
        if verbose:
            of = [i for i in range(2) for _ in range(counts[i])]
            V.check('one reported error per shape and iteration', len(reported) == len(of) * iters)
            for q, (s1, s2, gt) in enumerate(reported):
                k, r = divmod(q, len(of))
                V.eq('reported: missing %d' % q, s1, st.warp.points(log[2 * k][3][r]))
                V.eq('reported: predicted %d' % q, s2, st.warp.points(rg.row(k, log[2 * k][2][r])))
                V.eq('reported: ground truth %d' % q, gt, gts[of[r]].points)
        al = 3.0 if options else 0
        want = ('IRLRegression', al, None, None, None, not options) if reg == 'Newton' else \
            ('IIRLRegression', al, 2.0 if options else 0, None, None, False)
        V.check('regressors of the algorithm', all(rg.settings(r) == want for r in rg.made) and len(rg.made) == iters)
        log = rg.log[n_train:]
        V.check('fitting uses every regressor in order', [(l[0], l[1]) for l in log] ==
                [('predict', k) for k in range(iters)])
        p = params(init)
        V.eq('initial parameters', res.shape_parameters[0], p)
        V.eq('initial shape', res.initial_shape.points, init)
        V.check('iterations of the result', res.n_iters == iters and len(res.shape_parameters) == iters + 1)
        for k in range(iters):
            V.eq('fitting features %d' % k, np.ravel(log[k][2]), features(ims[2], p))
            p = p + rg.row(k, log[k][2])
            V.eq('fitted parameters %d' % k, res.shape_parameters[k + 1], p)
            V.eq('fitted shape %d' % k, res.shapes[k + 2].points, st.warp.points(p))
        V.eq('final shape', res.final_shape.points, st.warp.points(p))
    return f


MASK = np.ones((3, 4), dtype=bool)
MASK[0, 0] = MASK[2, 3] = False
for kind in AAM:
    for reg in ('Newton', 'GaussNewton'):
        REG.add('aam_%s%s' % (kind, reg), aam_cascade(kind, reg), timeout=200,
                bounds='3x3 pixels, 2 warp parameters, 1 appearance component, 2 iterations, 2 images x 2 shapes')
        REG.add('aam_options_%s%s' % (kind, reg), aam_cascade(kind, reg, iters=1, options=True), timeout=100,
                bounds='given options')
    REG.add('aam_verbose_%s' % kind, aam_cascade(kind, 'Newton', counts=(1, 2), verbose=True), timeout=200,
            bounds='verbosely, 1 and 2 shapes of the images')
    REG.add('aam_counts_%s' % kind, aam_cascade(kind, 'GaussNewton', counts=(3, 1)), timeout=200,
            bounds='3 and 1 shapes of the images')
    REG.add('aam_masked_%s' % kind, aam_cascade(kind, 'Newton', 1, 2, MASK, 2, m=2), timeout=200,
            bounds='every second pixel of a 10 pixel mask, 2 channels, 2 components')
    REG.add('aam_wide_%s' % kind, aam_cascade(kind, 'Newton', 8, None, np.ones((4, 4), dtype=bool), 2, iters=1, m=8,
                                              counts=(1, 1), warp=BigWarp), timeout=300,
            bounds='16 pixels, 2 channels, 8 appearance components, 8 warp parameters, 1 iteration')


# ---------------------------------------------------------------- the multi-scale trainer
class Box(PointCloud):
    """a perturbed box (clipping boxes to the image: C25)"""

    def constrain_to_bounds(self, bounds):
        return self

    def bounding_box(self):
        return self


class FakeAAM(object):
    """an AAM whose models record what is asked of them"""

    def __init__(self, V, n, ref, feats, scales):
        self.V, self.n_scales, self.reference_shape, self.holistic_features, self.scales = V, n, ref, feats, scales
        self.diagonal = None
        self.events = []
        o = self

        class Model(object):
            def __init__(self, kind, k):
                self.kind, self.k, self.n, self.at = kind, k, 7 + k, 'elsewhere'
                self.model = self
                self.mean_ = ('mean', kind, k)

            def mean(self):
                return self.mean_

            def set_target(self, t):
                self.at = t
            n_active_components = property(lambda self: self.n, lambda self, v: setattr(self, 'n', v))
        self.shape_models = [Model('s', k) for k in range(n)]
        self.appearance_models = [Model('a', k) for k in range(n)]

    def build_fitter_interfaces(self, sampling):
        self.sampling = list(sampling)
        self.state = [(s.n, s.at, a.n) for s, a in zip(self.shape_models, self.appearance_models)]
        self.faces = [rec(k=k, warped_images=lambda image, shapes, k=k: ('warped', k, image, shapes))
                      for k in range(self.n_scales)]
        return self.faces

    def claims(self, each, fit):
        V = self.V
        V.check('model of the fitter', fit.aam is self and fit.reference_shape is self.reference_shape and
                list(fit.scales) == self.scales)
        V.check('sampling of every scale', self.sampling == [each('sampling', k, None) for k in range(self.n_scales)])
        for k, (s, a) in enumerate(zip(self.shape_models, self.appearance_models)):
            want = (each('n_shape', k, 7 + k), s.mean_, each('n_appearance', k, 7 + k))
            V.check('components and mean state %d before the interfaces are built' % k, self.state[k] == want)
            V.check('components %d' % k, (s.n, a.n) == (want[0], want[2]))
        V.check('warped at the final scale', fit.warped_images('im', 'shapes') ==
                ('warped', self.n_scales - 1, 'im', 'shapes'))


def training(feats, scales_, ref_given=True, glob=None, group='gt', given=None, base=None, aam=None, n_im=2, n_p=2):
    ns = len(scales_)
    given = given or ((1,) * n_im if glob else (0,) * n_im)

    def f(V):
        scales = [V.number('scale%d' % k, 0.25, 2) if s is None else s for k, s in enumerate(scales_)]
        F_ = {n: sf.no_op if n == 'n' else Feature(V, n) for n in sorted(set(feats))}
        made, trained, moves = [], [], {}

        class Alg(base or object):
            def __init__(self, *args, **kw):
                self.runs = []
                if aam:
                    self.face, = args
                    made.append((self.face, None, kw.pop('n_iterations')))
                else:
                    made.append((kw.pop('patch_features'), kw.pop('patch_shape'), kw.pop('n_iterations')))
                V.check('arguments of the algorithm', len(args) == (1 if aam else 0) and not kw)
            interface = property(lambda self: self.face)

            def run(self, image, initial_shape, gt_shape=None, return_costs=False, **kw):
                self.runs.append((image, np.array(initial_shape.points)))
                p = [PointCloud(np.asarray(initial_shape.points) + d) for d in (0, 1)]
                if aam or base and issubclass(base, (sa.parametricshape.ParametricShapeSDAlgorithm,
                                                     fp.FullyParametricSDAlgorithm)):
                    return ParametricIterativeResult(p, [np.zeros(1), np.ones(1)], initial_shape=initial_shape,
                                                     gt_shape=gt_shape, image=image)
                return NonParametricIterativeResult(p[1:], initial_shape=initial_shape, gt_shape=gt_shape, image=image)

            def train(self, images, gt_shapes, current_shapes, prefix='', verbose=False):
                k = len(trained)
                trained.append((self, list(images), [g.points.copy() for g in gt_shapes],
                                [[np.array(c.points) for c in cc] for cc in current_shapes]))
                for a, cc in enumerate(current_shapes):
                    for b, c in enumerate(cc):
                        d = moves[k, a, b] = np.asarray(V.reals('mv%d_%d_%d' % (k, a, b), (1, 2), -1, 1))
                        c.points = sarr((np.asarray(c.points) + d).tolist())
                return current_shapes
        ref = PointCloud(np.array([[0., 0.], [8., 1.], [3., 6.]]))
        ims = []
        TRI = np.array([[0., 0.], [4., 1.], [1., 3.]])
        for i in range(n_im):
            im = FakeImage(V)
            im.bounds = lambda: (np.zeros(2), np.ones(2))
            im.n_dims = 2
            im.landmarks['gt'] = PointCloud(sarr((TRI + np.asarray(V.reals('t%d' % i, (1, 2), -2, 2))).tolist()),
                                            copy=False)
            for g in range(given[i]):
                im.landmarks['bb_%d' % g] = PointCloud(np.array([[0., 0.], [2., 0.], [2., 2.], [0., 2.]]) + i + 5 * g)
            ims.append(im)
        aligned = []

        def align(shape, bbox):
            s = PointCloud(sarr((TRI * 2 + np.asarray(V.reals('al%d' % len(aligned), (1, 2), -3, 3))).tolist()),
                           copy=False)
            aligned.append((shape, np.array(bbox.points), np.array(s.points)))
            return s
        boxes = []

        def perturb(gt_bb, bb):
            b = Box(sarr((np.array([[0., 0.], [1., 0.], [1., 1.], [0., 1.]]) +
                          np.asarray(V.reals('bx%d' % len(boxes), (1, 2), -3, 3))).tolist()), copy=False)
            boxes.append(b)
            return b
        pf = [rec(k=k) for k in range(ns)]
        pf = [(lambda k: (lambda p: p))(k) for k in range(ns)]
        pshape = [(3 + k, 5 + k) for k in range(ns)]
        its = [2 + k for k in range(ns)]

        class Bounded(FakeImage):
            pass

        def child(self, frame, what):
            c = orig_child(self, frame, what)
            c.bounds, c.n_dims = (lambda: (np.zeros(2) - 10000, np.ones(2) + 10000)), 2
            return c
        orig_child = FakeImage.child
        with patched((FakeImage, 'child', child), (sf, 'align_shape_with_bounding_box', align),
                     *([(sf, 'AlignmentAffine', ExactAffine)] if V.sym else [])):
            kw = dict(group=group, bounding_box_group_glob=glob, sd_algorithm_cls=Alg, n_iterations=its,
                      n_perturbations=n_p, perturb_from_gt_bounding_box=perturb)
            if aam:
                model = FakeAAM(V, ns, ref, [F_[n] for n in feats], list(scales))
                ask = [dict(), dict(n_shape=2, n_appearance=1, sampling=3),
                       dict(n_shape=[1 + k for k in range(ns)], n_appearance=[3 + k for k in range(ns)],
                            sampling=[2 + k for k in range(ns)])][aam - 1]
                fit = SupervisedDescentAAMFitter(ims, model, **dict(kw, **ask))
            else:
                fit = sdm.SupervisedDescentFitter(
                    ims, reference_shape=ref if ref_given else None, holistic_features=[F_[n] for n in feats],
                    patch_features=pf, patch_shape=pshape, scales=list(scales), **kw)
        if aam:
            each = lambda x, k, d: ask.get(x, d)[k] if isinstance(ask.get(x), list) else ask.get(x, d)
            model.claims(each, fit)
            pf, pshape = model.faces, None
        if base or aam:
            init = PointCloud(TRI + 2.)
            with patched((FakeImage, 'child', child), *([(mf, 'AlignmentAffine', ExactAffine)] if V.sym else [])):
                r = fit.fit_from_shape(ims[0].copy(), init)
            par = aam or issubclass(base, (sa.parametricshape.ParametricShapeSDAlgorithm, fp.FullyParametricSDAlgorithm))
            V.check('class of the result', type(r) is (MultiScaleParametricIterativeResult if par else
                                                       MultiScaleNonParametricIterativeResult))
            V.check('every algorithm ran once', all(len(a.runs) == 1 for a in fit.algorithms))
            V.eq('initial shape of the result', r.initial_shape.points, init.points)
            if par:
                V.check('parameters of every scale', len(r.shape_parameters) == 2 * ns)
        V.check('one algorithm per scale', len(made) == ns and len(trained) == ns and len(fit.algorithms) == ns)
        V.check('algorithms of their scale', all(m[0] is pf[k] and (aam or tuple(m[1]) == pshape[k]) and m[2] == its[k]
                                                 for k, m in enumerate(made)))
        V.check('trained in order of scale', all(t[0] is a for t, a in zip(trained, fit.algorithms)))
        if ref_given:
            V.check('reference shape', fit.reference_shape is ref)
        else:
            V.eq('reference shape is the mean', fit.reference_shape.points,
                 sum(np.asarray(im.landmarks['gt'].points) for im in ims) / n_im)
        R_ = np.asarray(fit.reference_shape.points)
        per = [(n_p + 1) * g if glob else n_p for g in given]
        V.check('one aligned reference shape per box', len(aligned) == sum(per))
        up = None
        nb = 0
        for k in range(ns):
            _, images, gts, cur = trained[k]
            tag = 'scale %d: ' % k
            V.check(tag + 'every image', len(images) == n_im and len(gts) == n_im and len(cur) == n_im)
            V.check(tag + 'every perturbed shape', all(len(c) == per[a] for a, c in enumerate(cur)))
            nxt = {}
            for a, im in enumerate(images):
                V.check(tag + 'image %d normalised' % a, im.log[0][0] == 'ref')
                V.eq(tag + 'reference %d' % a, im.log[0][1], R_)
                V.eq(tag + 'normalised by the ground truth %d' % a, im.log[0][2], ims[a].landmarks['gt'].points)
                V.check(tag + 'features of the scale', [l[1] for l in im.log if l[0] == 'f'] ==
                        [c for c in feats[k] if c != 'n'])
                V.check(tag + 'rescaled by the scale', [l[1] for l in im.log if l[0] == 's'] ==
                        ([scales[k]] if scales[k] != 1 else []))
                V.eq(tag + 'ground truth %d in the frame of the scale' % a, im.to_input(gts[a]),
                     ims[a].landmarks['gt'].points)
                for b in range(per[a]):
                    if k == 0:
                        sh, bb, s = aligned[sum(per[:a]) + b]
                        V.check(tag + 'reference shape aligned with the boxes', sh is fit.reference_shape)
                        V.eq(tag + 'starts at the aligned shape', cur[a][b], s)
                        # the box, in the coordinates of the normalised image, seen from this scale
                        fr = im.frames[1:]
                        q = bb
                        for fm in reversed(fr):
                            q = fm.up(q)
                        if glob and b % (n_p + 1) == n_p:
                            V.eq(tag + 'the provided box itself', im.to_input(bb),
                                 ims[a].landmarks['bb_%d' % (b // (n_p + 1))].points)
                        else:
                            V.eq(tag + 'perturbed box %d %d' % (a, b), q, boxes[nb].points)
                            nb += 1
                    else:
                        V.eq(tag + 'starts where the previous scale ended %d %d' % (a, b), im.to_input(cur[a][b]),
                             up[a, b])
                    nxt[a, b] = im.to_input(cur[a][b] + moves[k, a, b])
            up = nxt
        for a, im in enumerate(ims):
            V.check('training images keep their landmarks', set(im.landmarks.keys()) == {'gt'} |
                    {'bb_%d' % g for g in range(given[a])})
    return f


for fs, sc in [('a', (1.0,)), ('a', (0.5,)), ('aa', (0.5, 1.0)), ('ab', (0.5, 1.0)), ('ab', (1.0, 1.0)),
               ('aab', (0.25, 0.5, 1.0)), ('abb', (0.25, 0.5, 1.0)), ('aba', (0.25, 0.5, 1.0)),
               ('abc', (0.25, 0.5, 1.0)), ('aaa', (0.25, 0.5, 1.0))]:
    REG.add('trainer_%s_%s' % (fs, '_'.join(map(str, sc))), training(fs, sc), timeout=200,
            bounds='scales %s, features %s; 2 images x 2 boxes, any frames, boxes and moves' % (sc, fs))
for fs, sc in [('n', (1.0,)), ('nn', (0.5, 1.0)), ('na', (0.5, 1.0)), ('na', (1.0, 1.0)),
               ('nab', (0.25, 0.5, 1.0)), ('nna', (1.0, 1.0, 1.0))]:
    REG.add('trainer_%s_%s' % (fs, '_'.join(map(str, sc))), training(fs, sc), timeout=200,
            bounds='scales %s, features %s (n: none); 2 images x 2 boxes, any frames, boxes and moves' % (sc, fs))
for fs, sc in [('a', (None,)), ('aa', (None, 1.0)), ('ab', (0.5, None)), ('abb', (None, None, 1.0))]:
    REG.add('trainer_any_scale_' + fs, training(fs, sc), timeout=200, max_paths=300,
            bounds='any scales between 1/4 and 2, features %s; 2 images x 2 boxes' % fs)
REG.add('trainer_mean_reference', training('ab', (0.5, 1.0), ref_given=False), timeout=200, bounds='as above')
REG.add('trainer_given_boxes', training('ab', (0.5, 1.0), glob='bb_*'), timeout=200, bounds='1 given box per image')
REG.add('trainer_given_boxes_same', training('aa', (0.5, 1.0), glob='bb_*'), timeout=200,
        bounds='1 given box per image, same features')


for nm in ('NonParametricNewton', 'ParametricShapeNewton', 'ParametricAppearanceWeightsNewton',
           'FullyParametricProjectOutNewton'):
    REG.add('trainer_result_' + nm, training('ab', (0.5, 1.0), base=find(nm)), timeout=200,
            bounds='2 scales, then one fit')
for k in (1, 2, 3):
    REG.add('trainer_aam_%d' % k, training(('a', 'aa', 'abb')[k - 1], ((0.5,), (0.5, 1.0), (0.25, 0.5, 1.0))[k - 1],
                                           glob=None if k == 1 else 'bb_*', aam=k), timeout=200,
            bounds='%d scales, active appearance models, then one fit' % k)
for gv in ((2, 1), (1, 3)):
    REG.add('trainer_given_boxes_%d_%d' % gv, training('ab', (0.5, 1.0), glob='bb_*', given=gv), timeout=200,
            bounds='%d and %d given boxes' % gv)


for nm, kw in [('shapes', dict(n_im=1, n_p=13)), ('images', dict(n_im=6, n_p=1)),
               ('boxes', dict(n_im=1, n_p=1, glob='bb_*', given=(12,))),
               ('given_images', dict(n_im=6, n_p=1, glob='bb_*', given=(1, 2, 1, 3, 1, 1)))]:
    REG.add('trainer_many_' + nm, training('ab', (0.5, 1.0), **kw), timeout=300, bounds='2 scales, %s' % kw)
REG.add('trainer_many_scales', training('abbcc', (0.25, 0.5, 0.75, 1.0, 1.0), n_im=1, n_p=1), timeout=300,
        bounds='5 scales, 1 image, 1 box')
REG.add('trainer_many_scales_same', training('aaaaa', (0.25, 0.5, 0.75, 1.0, 1.0), n_im=1, n_p=1), timeout=300,
        bounds='5 scales, 1 image, 1 box, same features')
REG.add('trainer_aam_many_scales', training('abbcc', (0.25, 0.5, 0.75, 1.0, 1.0), n_im=1, n_p=1, aam=3), timeout=300,
        bounds='5 scales, active appearance models')


def not_implemented(V):
    V.check('no incremental training of the cascade',
            raises(NotImplementedError, lambda: sdm.SupervisedDescentFitter([], batch_size=2)))
    o = sdm.SupervisedDescentFitter.__new__(sdm.SupervisedDescentFitter)
    V.check('no increment of the cascade', raises(NotImplementedError, lambda: o.increment([])))
    seen = {}

    def init(self, images, **kw):
        seen.clear()
        seen.update(kw, images=images)
    a = V.real('alpha', 0.1, 3)
    opts = {k: ('the', k) for k in ('group', 'bounding_box_group_glob', 'reference_shape', 'diagonal', 'holistic_features',
                                    'patch_features', 'patch_shape', 'scales', 'n_iterations', 'n_perturbations',
                                    'perturb_from_gt_bounding_box', 'batch_size', 'verbose')}
    with patched((sf.SupervisedDescentFitter, '__init__', init)):
        for cls, kw, want in ((sdm.RegularizedSDM, dict(alpha=a), a), (sdm.SDM, {}, 0)):
            cls(['images'], **dict(opts, **kw))
            alg = seen.pop('sd_algorithm_cls')()
            V.check('a non-parametric Newton cascade', type(alg) is sa.nonparametric.NonParametricNewton)
            V.eq('regularisation', alg._regressor_cls().alpha, want)
            V.check('every option is handed on', seen == dict(opts, images=['images']))
            cls(['images'])
            seen.pop('sd_algorithm_cls')
            plain = dict(seen)
            V.check('defaults', plain.pop('perturb_from_gt_bounding_box') is sf.noisy_shape_from_bounding_box and
                    plain.pop('holistic_features') is plain.pop('patch_features') is sf.no_op and
                    all(plain.pop(k) is None for k in ('group', 'bounding_box_group_glob', 'reference_shape', 'diagonal',
                                                       'batch_size')) and not plain.pop('verbose') and
                    set(plain) == {'images', 'patch_shape', 'scales', 'n_iterations', 'n_perturbations'})


REG.add('convenience_classes', not_implemented, timeout=60, bounds='any regularisation')


def retrain(name):
    """training again forgets the previous cascade"""
    par, kind, _, _, _ = ALG[name]

    def f(V):
        rg, pt = Regressors(V), Patches(V)
        kw = {}
        if par:
            kw['shape_model_cls'] = lambda shapes: Warp(3, None)
        if kind:
            kw['appearance_model_cls'] = lambda data: Appearance(V, data, [])
        ims = [Image(V.reals('I%d' % i, (1, 1, 2), -1, 1), copy=False) for i in range(2)]
        gts = [shape_of(V, 'g%d' % i) for i in range(2)]
        init = shape_of(V, 'init')
        with patched(*(rg.patches() + pt.patches())):
            alg = find(name)(patch_features=feat, patch_shape=PS, n_iterations=2, **kw)
            alg.train(ims, gts, [[shape_of(V, 'c%d' % i)] for i in range(2)])
            alg.train(ims, gts, [[shape_of(V, 'd%d' % i)] for i in range(2)])
            n = len(rg.log)
            alg.run(ims[0], init)
        V.check('a new regressor per iteration', [(l[0], l[1]) for l in rg.log[:n]] ==
                [(w, k) for k in range(4) for w in ('train', 'predict')])
        V.check('only the new regressors are used', [(l[0], l[1]) for l in rg.log[n:]] == [('predict', 2), ('predict', 3)])
    return f


for nm in ('NonParametricNewton', 'ParametricShapeNewton', 'ParametricAppearanceWeightsNewton'):
    REG.add('retrain_%s' % nm, retrain(nm), timeout=100, bounds='2 iterations, 2 images, trained twice')
REG.add('trainer_default_group', training('ab', (0.5, 1.0), group=None, ref_given=False), timeout=200,
        bounds='the only landmark group of the images')
