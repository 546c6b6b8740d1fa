"""C12 - multi-scale fitting keeps every shape in the right frame."""
from checks.common import *
from checks.images import interpolation, as_float
from menpo.shape import PointCloud, bounding_box
from menpo.image import Image, MaskedImage
from menpo.landmark import LandmarkManager
from menpo.transform import Affine, AlignmentAffine, AlignmentSimilarity, Scale
from menpofit import fitter as mf
from menpofit.fitter import (MultiScaleNonParametricFitter, MultiScaleParametricFitter,
                             align_shape_with_bounding_box)
from menpofit.result import (NonParametricIterativeResult, ParametricIterativeResult,
                             MultiScaleNonParametricIterativeResult, MultiScaleParametricIterativeResult)

REG = Registry('C12')
REG.assumptions = ['images are represented by their landmarks and by the (arbitrary, invertible) coordinate changes '
                   'that rescaling and features apply to them']
REG.assumptions.append('the affine alignment of two affinely related triangles is that affine map (menpo)')
REG.outside = ['the pixels of rescaled images (menpo)']
SH = np.array([[-1., 2.], [3., 1.], [0., -2.]])


class Frame(object):
    """x -> m * x + t (m diagonal): coordinates of an image inside the one it came from"""

    def __init__(self, m, t):
        self.m, self.t = m, t

    def up(self, p):
        p = np.asarray(p)
        return p * np.asarray(self.m) + np.asarray(self.t)

    def down(self, p):
        p = np.asarray(p)
        return (p - np.asarray(self.t)) / np.asarray(self.m)


class FakeImage(object):
    """an image that knows how its coordinates relate to those of the input"""

    def __init__(self, V, frames=(), log=()):
        self.V, self.frames, self.log = V, list(frames), list(log)
        self.landmarks = LandmarkManager()
        self.pixels = np.zeros((1, 2, 2))
        self.factors = []

    def child(self, frame, what):
        c = FakeImage(self.V, self.frames + [frame], self.log + [what])
        for g in self.landmarks:
            c.landmarks[g] = PointCloud(sarr(frame.down(self.landmarks[g].points).tolist()), copy=False)
        return c

    def to_input(self, p):
        for f in reversed(self.frames):
            p = f.up(p)
        return p

    def rescale_to_pointcloud(self, pc, group=None, **kw):
        self.V.check('rescaled with respect to the initial shape', group in self.landmarks)
        self.V.n_refs = getattr(self.V, 'n_refs', -1) + 1
        s = self.V.real('ref%d' % self.V.n_refs if self.V.n_refs else 'ref', 0.5, 2)
        return self.child(Frame([s, s], [0, 0]), ('ref', np.asarray(pc.points), self.landmarks[group].points.copy()))

    def rescale(self, scale, return_transform=False, **kw):
        # the same scale of the same image is the same change of coordinates
        a = next((b for s, b in self.factors if s == scale), None)
        if a is None:
            self.V.n_rescaled = getattr(self.V, 'n_rescaled', 0) + 1
            a = self.V.real('resc%d' % self.V.n_rescaled, 0.5, 2)
            self.factors.append((scale, a))
        h = np.eye(3, dtype=object if self.V.sym else float)
        h[0, 0] = h[1, 1] = a
        t = Affine(h.view(symnp.SArr) if self.V.sym else h, copy=False, skip_checks=True)
        c = self.child(Frame([a, a], [0, 0]), ('s', scale))
        return (c, t) if return_transform else c

    def copy(self):
        return self.child(Frame([1, 1], [0, 0]), ('copy',))


class Feature(object):
    def __init__(self, V, name):
        self.V, self.name, self.n = V, name, 0
        self.frame = Frame([V.real(name + 'm', 0.5, 2)] * 2, V.reals(name + 't', 2, -3, 3).tolist())

    def __call__(self, im):
        self.n += 1
        return im.child(self.frame, ('f', self.name))


class ExactAffine(Affine):
    """the affine map between two triangles (what an affine alignment of 3 points is)"""

    def __init__(self, source, target):
        p, q = np.asarray(source.points), np.asarray(target.points)
        a, b = (p[1:] - p[0]).T, (q[1:] - q[0]).T
        det = a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
        ai = np.array([[a[1, 1], -a[0, 1]], [-a[1, 0], a[0, 0]]], dtype=object) / det
        L = np.dot(b, ai)
        h = np.empty((3, 3), dtype=object)
        h[:] = [[0.0] * 3, [0.0] * 3, [0.0, 0.0, 1.0]]
        h[:2, :2], h[:2, 2] = L, q[0] - np.dot(L, p[0])
        Affine.__init__(self, h.view(symnp.SArr), copy=False, skip_checks=True)

    def pseudoinverse(self):
        h = np.asarray(self.h_matrix)
        det = h[0, 0] * h[1, 1] - h[0, 1] * h[1, 0]
        o = np.empty((3, 3), dtype=object)
        o[:] = [[0.0] * 3, [0.0] * 3, [0.0, 0.0, 1.0]]
        o[:2, :2] = np.array([[h[1, 1], -h[0, 1]], [-h[1, 0], h[0, 0]]], dtype=object) / det
        o[:2, 2] = -np.dot(o[:2, :2], h[:2, 2])
        return Affine(o.view(symnp.SArr), copy=False, skip_checks=True)


class Alg(object):
    """an algorithm that moves the shape arbitrarily"""

    def __init__(self, V, k, parametric):
        self.V, self.k, self.parametric, self.calls = V, k, parametric, []

    def run(self, image, initial_shape, gt_shape=None, max_iters=20, return_costs=False, **kw):
        self.calls.append((image, initial_shape, gt_shape, max_iters, return_costs, kw))
        d = self.move = self.V.reals('move%d' % self.k, (1, 2), -2, 2)
        p0 = PointCloud(sarr((np.asarray(initial_shape.points)).tolist()), copy=False)
        p1 = PointCloud(sarr((np.asarray(initial_shape.points) + np.asarray(d)).tolist()), copy=False)
        costs = [0.5] if return_costs else None
        if self.parametric:
            return ParametricIterativeResult([p0, p1], [np.zeros(1), np.ones(1)], initial_shape=initial_shape,
                                             gt_shape=gt_shape, image=image, costs=costs)
        return NonParametricIterativeResult([p1], initial_shape=initial_shape, gt_shape=gt_shape,
                                            image=image, costs=costs)


def build(V, feats, scales, parametric):
    F_ = {n: Feature(V, n) for n in sorted(set(feats))}
    algs = [Alg(V, k, parametric) for k in range(len(scales))]
    ref = PointCloud(SH * 4)
    cls = MultiScaleParametricFitter if parametric else MultiScaleNonParametricFitter
    return cls(list(scales), ref, [F_[n] for n in feats], algs), algs, F_, ref


def _fit(feats, scales_, parametric, via_bb=False):
    n = len(scales_)

    def f(V):
        scales = [V.number('scale%d' % k, 0.25, 2) if s is None else s for k, s in enumerate(scales_)]
        fit, algs, feats_, ref = build(V, feats, scales, parametric)
        V.check('scales and features', fit.scales == list(scales) and fit.n_scales == n and
                fit.reference_shape is ref and len(fit.holistic_features) == n)
        im = FakeImage(V)
        im.landmarks['user'] = PointCloud(SH)
        init = PointCloud(sarr((SH + np.asarray(V.reals('off', (1, 2), -3, 3))).tolist()), copy=False)
        init0 = init.points.copy()
        has_gt = V.boolean('ground truth')
        gt = PointCloud(sarr((SH * 2 + np.asarray(V.reals('gto', (1, 2), -3, 3))).tolist()), copy=False) if has_gt else None
        costs = V.boolean('costs')
        iters = list(range(3, 3 + n))
        kw = dict(max_iters=iters, gt_shape=gt, return_costs=costs, lr=7)
        if via_bb:
            bb = PointCloud(SH)
            seen = []

            def align(shape, box):
                seen.append((shape, box))
                return init
            with patched((mf, 'align_shape_with_bounding_box', align),
                         *([(mf, 'AlignmentAffine', ExactAffine)] if V.sym else [])):
                res = fit.fit_from_bb(im, bb, **kw)
            V.check('the reference shape is aligned with the box', len(seen) == 1 and seen[0][0] is ref
                    and seen[0][1] is bb)
        else:
            with patched(*([(mf, 'AlignmentAffine', ExactAffine)] if V.sym else [])):
                res = fit.fit_from_shape(im, init, **kw)
        up = None
        for k, a in enumerate(algs):
            V.check('one run per scale', len(a.calls) == 1)
            image, shape, g, mi, rc, extra = a.calls[0]
            tag = 'scale %d: ' % k
            log = image.log
            V.check(tag + 'image normalised to the reference shape', log[0][0] == 'ref')
            V.eq(tag + 'reference shape', log[0][1], ref.points)
            V.eq(tag + 'normalised by the initial shape', log[0][2], init0)
            V.check(tag + 'features of the scale', [l[1] for l in log if l[0] == 'f'] == [feats[k]])
            V.check(tag + 'rescaled by the scale', [l[1] for l in log if l[0] == 's'] ==
                    ([scales[k]] if scales[k] != 1 else []))
            V.check(tag + 'iterations of the scale', mi == iters[k])
            V.check(tag + 'costs on request', rc is costs)
            V.check(tag + 'options forwarded', extra == {'lr': 7})
            V.eq(tag + 'starts where the previous scale ended', image.to_input(shape.points),
                 init0 if up is None else up)
            up = image.to_input(np.asarray(shape.points) + np.asarray(a.move))
            V.check(tag + 'ground truth passed or not', (g is None) == (gt is None))
            if gt is not None:
                V.eq(tag + 'ground truth in the frame of the scale', image.to_input(g.points), gt.points)
            V.eq(tag + 'final shape of the result in the frame of the input',
                 res.shapes[(2 * k + 2) if parametric else k + 1].points, up)
        V.eq('final shape', res.final_shape.points, up)
        V.eq('initial shape', res.initial_shape.points, init0)
        V.check('class of the result', type(res) is (MultiScaleParametricIterativeResult if parametric else
                                                     MultiScaleNonParametricIterativeResult))
        V.check('ground truth of the result', (res.gt_shape is None) == (gt is None))
        if gt is not None:
            V.eq('ground truth of the result is unchanged', res.gt_shape.points, gt.points)
        V.check('image of the result', res.image.pixels.shape == (1, 2, 2))
        V.check('costs of the result', (res.costs is None) == (not costs))
        V.check('landmarks of the image are left as they were', list(im.landmarks.keys()) == ['user'])
        V.eq('initial shape untouched', init.points, init0)
        V.check('feature computed once per change', all(
            feats_[nm].n == len([k for k in range(n) if feats[k] == nm and (k == 0 or feats[k - 1] != nm)])
            for nm in feats_))
    return f


CASES = [('a', (1.0,)), ('a', (0.5,)), ('aa', (0.5, 1.0)), ('ab', (0.5, 1.0)), ('ab', (1.0, 1.0)), ('aa', (1.0, 1.0)),
         ('ab', (1.0, 0.5)), ('abb', (0.25, 0.5, 1.0)), ('aab', (0.25, 0.5, 1.0)), ('abc', (0.5, 0.5, 1.0)),
         ('aba', (0.5, 0.75, 1.0)), ('aaa', (0.25, 0.5, 1.0)), ('aabb', (0.25, 0.25, 0.5, 1.0)),
         ('aaaaaa', (0.25, 0.5, 0.5, 0.75, 1.0, 1.5)), ('abbcca', (0.25, 0.5, 0.5, 0.75, 1.0, 0.5))]
for par in (False, True):
    for fs, sc in CASES:
        if par and fs in ('abc', 'aabb', 'aaa'):
            continue
        REG.add('fit_%s_%s%s' % (fs, '_'.join(map(str, sc)), '_parametric' if par else ''), _fit(fs, sc, par),
                timeout=200, bounds='scales %s, features %s; any image/feature frames (scale and translation), '
                'any moves of the algorithms, with and without ground truth' % (sc, fs))
for fs, sc in (('a', (None,)), ('aa', (None, None)), ('ab', (None, 1.0)), ('abb', (0.5, None, None))):
    REG.add('any_scale_' + fs, _fit(fs, sc, False), timeout=200, max_paths=200,
            bounds='any scales between 1/4 and 2, features %s' % fs)
REG.add('fit_from_bb', _fit('ab', (0.5, 1.0), True, True), timeout=200, bounds='as fit_ab')


def align_bb(V):
    s = PointCloud(SH)
    lo, d = V.reals('lo', 2, -5, 5), V.reals('d', 2, 0.5, 4)
    bb = bounding_box(lo, np.asarray(lo) + np.asarray(d)) if not V.sym else \
        PointCloud(sarr([[lo[0], lo[1]], [lo[0] + d[0], lo[1]], [lo[0] + d[0], lo[1] + d[1]], [lo[0], lo[1] + d[1]]]),
                   copy=False)
    sb = s.bounding_box()
    for cls, kw in ((AlignmentSimilarity, {}), (AlignmentSimilarity, {'rotation': False}), (AlignmentAffine, {})):
        got = align_shape_with_bounding_box(s, bb, **dict(kw, alignment_transform_cls=cls))
        V.eq('shape moved like its own box %s' % cls.__name__, got.points, cls(sb, bb, **kw).apply(s).points)
    V.eq('default alignment', align_shape_with_bounding_box(s, bb).points,
         AlignmentSimilarity(sb, bb).apply(s).points)
    V.eq('affine alignment fills the box', align_shape_with_bounding_box(s, bb, AlignmentAffine).points.min(axis=0), lo)


REG.add('align_with_bounding_box', align_bb, timeout=100, bounds='any box')


# ------------------------------------------------------------------ real menpo images
def no_feature(im):
    return im


def cropping_feature(im):
    """a feature whose image starts elsewhere (landmarks move along)"""
    return im.crop(np.array([1, 2]), np.array(im.shape))


def shrinking_feature(im):
    return im.rescale(0.5)


def marks_of(im):
    p = as_float(im.landmarks['marks'].points)
    A = np.linalg.inv(np.array([[p[1, 0] - p[0, 0], p[2, 0] - p[0, 0]], [p[1, 1] - p[0, 1], p[2, 1] - p[0, 1]]]))
    return p[0], A


def coords(im, pts):
    """position of the points relative to three marks that move with the image"""
    o, A = marks_of(im)
    return np.dot(np.asarray(pts) - o, A.T)


FEATS = {'n': no_feature, 'c': cropping_feature, 's': shrinking_feature}


def _real(feats, scales, parametric):
    def f(V):
        round_constants(V)
        rng = np.random.RandomState(3)
        im = Image(rng.rand(1, 24, 32))
        im.landmarks['marks'] = PointCloud(np.array([[2., 3.], [20., 4.], [5., 28.]]))
        init = PointCloud(np.array([[6., 8.], [15., 9.], [14., 20.], [7., 19.]]))
        gt = PointCloud(init.points + 1.5)
        algs = [Alg(V, k, parametric) for k in range(len(scales))]
        cls = MultiScaleParametricFitter if parametric else MultiScaleNonParametricFitter
        fit = cls(list(scales), PointCloud(init.points * 0.75 - 1), [FEATS[n] for n in feats], algs)
        px = im.pixels.copy()
        with patched(*interpolation(V)):
            res = fit.fit_from_shape(im, init, gt_shape=gt, max_iters=2)
        want = coords(im, init.points)
        for k, a in enumerate(algs):
            image, shape, g = a.calls[0][:3]
            V.close('scale %d: starts where the previous scale ended' % k, coords(image, shape.points), want, 1e-6)
            V.close('scale %d: ground truth' % k, coords(image, g.points), coords(im, gt.points), 1e-6)
            want = coords(image, np.asarray(shape.points) + np.asarray(a.move))
            V.close('scale %d: shape of the result' % k,
                    coords(im, res.shapes[(2 * k + 2) if parametric else k + 1].points), want, 1e-6)
        V.eq('image untouched', im.pixels, px)
        V.check('landmarks untouched', list(im.landmarks.keys()) == ['marks'])
    return f


for fs, sc in (('n', (0.5,)), ('nn', (0.5, 1.0)), ('nc', (0.5, 1.0)), ('cc', (0.5, 1.0)), ('cs', (0.5, 1.0)),
               ('ncc', (0.5, 0.75, 1.0)), ('csn', (0.75, 0.5, 1.0))):
    for par in (False, True):
        REG.add('real_%s%s' % (fs, '_parametric' if par else ''), _real(fs, sc, par), timeout=100,
                bounds='a fixed menpo image, scales %s, any moves of the algorithms' % (sc,))


def lucas_kanade(V):
    from menpofit.lk import LucasKanadeFitter
    from menpofit.lk.result import LucasKanadeResult
    from menpofit.transform import DifferentiableAlignmentAffine, DifferentiableAlignmentSimilarity
    made = []
    round_constants(V)

    class A(Alg):
        def __init__(self, template, transform, residual):
            Alg.__init__(self, V, len(made), True)
            self.template, self.transform, self.residual = template, transform, residual
            made.append(self)

        def run(self, *a, **k):
            from menpofit.lk.result import LucasKanadeAlgorithmResult
            r = Alg.run(self, *a, **k)
            return LucasKanadeAlgorithmResult(r.shapes[1:], r.shape_parameters, initial_shape=r.initial_shape,
                                              gt_shape=r.gt_shape, costs=r.costs)

        def warped_images(self, image, shapes):
            return [('warped', self.k, image, s) for s in shapes]

        def __str__(self):
            return 'A'

    class Res(object):
        pass
    rng = np.random.RandomState(3)
    box = np.array([[4., 5.], [19., 5.], [19., 25.], [4., 25.]])
    tr = pick(V, 'transform', [DifferentiableAlignmentAffine, DifferentiableAlignmentSimilarity])
    diag = pick(V, 'diagonal', [None, 20])
    template = (MaskedImage if V.boolean('masked') else Image)(rng.rand(1, 24, 32))
    template.landmarks['s'] = PointCloud(box)
    template.landmarks['marks'] = PointCloud(np.array([[2., 3.], [20., 4.], [5., 28.]]))
    with patched(*interpolation(V)):
      fit = LucasKanadeFitter(template, group='s', holistic_features=[no_feature, cropping_feature], diagonal=diag,
                            transform=tr, scales=(0.5, 1.0), algorithm_cls=A, residual_cls=Res)
    V.check('one algorithm per scale', len(made) == 2 and all(a is b for a, b in zip(fit.algorithms, made)))
    V.check('own residual per scale', all(type(a.residual) is Res for a in made)
            and made[0].residual is not made[1].residual)
    V.check('landmarks of the template untouched', sorted(template.landmarks.keys()) == ['marks', 's'])
    d = fit.reference_shape.range()
    s = 1.0 if diag is None else diag / np.sqrt(((box.max(0) - box.min(0)) ** 2).sum())
    # scaled images have a whole number of pixels
    V.close('template normalised to the diagonal', np.sqrt((d * d).sum()) if diag else 1.0,
            float(diag) if diag else 1.0, 0.5)
    for k, a in enumerate(made):
        V.check('transform class', type(a.transform) is tr)
        V.close('source of the warp: the landmarks of the template', coords(a.template, a.transform.source.points),
                coords(template, box), 1e-6)
        V.close('warp starts as the identity', a.transform.target.points, a.transform.source.points, 1e-6)
        V.check('templates listed', fit.templates[k] is a.template)
    a0, a1 = made[0].transform.source.points, made[1].transform.source.points
    V.close('half the size at half the scale', (a0.max(0) - a0.min(0)) * 2, a1.max(0) - a1.min(0), 1.5)
    im = Image(rng.rand(1, 30, 40))
    im.landmarks['marks'] = PointCloud(np.array([[2., 3.], [20., 4.], [5., 28.]]))
    init = PointCloud(box * 0.75 + 2)
    with patched(*interpolation(V)):
        res = fit.fit_from_shape(im, init, gt_shape=PointCloud(box), max_iters=[1, 1], return_costs=True)
    V.check('result class', type(res) is LucasKanadeResult)
    want = coords(im, init.points)
    for k, a in enumerate(made):
        image, shape, g = a.calls[0][:3]
        V.close('starts where the previous scale ended', coords(image, shape.points), want, 1e-6)
        want = coords(image, np.asarray(shape.points) + np.asarray(a.move))
        V.close('shape of the result', coords(im, res.shapes[2 * k + 2].points), want, 1e-6)
    V.check('one iteration per scale', res.n_iters == 2 and len(res.costs) == 2)
    w = fit.warped_images(im, [init, init])
    V.check('warped images of the highest scale', [x[:2] for x in w] == [('warped', 1)] * 2
            and all(x[2] is im and x[3] is init for x in w))
    V.check('description', 'Scales: [0.5, 1.0]' in str(fit))


REG.add('lucas_kanade_fitter', lucas_kanade, timeout=100, bounds='2 scales, two transforms, masked or not, with and '
        'without diagonal, any moves of the algorithms')
