"""C29 - dlib regression trees: conversions, training over scales and fitting."""
import contextlib
import io
import warnings
from checks.common import *
from checks.C12 import FakeImage
from checks.C19 import Box
import dlib
import menpofit.dlib.conversion as dc
import menpofit.dlib.algorithm as da
import menpofit.dlib.fitter as df
from menpofit.dlib import DlibERT, DlibWrapper
from menpo.image import Image
from menpo.shape import PointCloud, bounding_box

REG = Registry('C29')
REG.assumptions = ['dlib predicts arbitrary points per (image, rectangle); its training is recorded',
                   'rescaling an image is an arbitrary change of coordinates (rounding is menpo\'s)']
REG.outside = ['the trees that dlib learns', 'the pixels of rescaled images']


# ------------------------------------------------------------------ dlib
class Point(object):
    def __init__(self, x, y):
        self.x, self.y = x, y


class Rectangle(object):
    def __init__(self, left, top, right, bottom):
        self.v = dict(left=left, top=top, right=right, bottom=bottom)
        for n in self.v:
            setattr(self, n, (lambda n: lambda: self.v[n])(n))


class Detection(object):
    def __init__(self, rect, parts):
        self.rect, self._parts, self.num_parts = rect, list(parts), len(parts)

    def parts(self):
        return self._parts

    def part(self, i):
        return self._parts[i]


class Predictor(object):
    """predicts arbitrary points for every image and rectangle"""

    def __init__(self, V, n=2):
        self.V, self.n, self.table, self.calls = V, n, {}, []

    def __call__(self, pix, rect):
        k = (np.asarray(pix).tobytes(), key_of([rect.v[n] for n in sorted(rect.v)]))
        self.calls.append((pix, rect))
        if k not in self.table:
            i = getattr(self.V, 'n_pred', 0)
            self.V.n_pred = i + 1
            self.table[k] = self.V.reals('pred%d' % i, (self.n, 2), -5, 9)
        return Detection(rect, [Point(x, y) for y, x in np.asarray(self.table[k]).tolist()])


class Fake(object):
    """the part of dlib that is used, with symbolic coordinates"""
    point, rectangle, full_object_detection = Point, Rectangle, Detection
    shape_predictor_training_options = dlib.shape_predictor_training_options

    def __init__(self, V, n=2):
        self.V, self.n, self.trained = V, n, []

    def train_shape_predictor(self, images, detections, options):
        m = Predictor(self.V, self.n)
        self.trained.append((list(images), [list(d) for d in detections], options, m))
        return m

    def shape_predictor(self, path):
        self.loaded = path
        return Predictor(self.V, self.n)

    def patches(self):
        return [(m, 'dlib', self) for m in (dc, da, df)] + [(dc, 'int', self.trunc)]

    @staticmethod
    def trunc(v):
        return v.trunc() if hasattr(v, 'trunc') else int(v)


def truncated(V, got, want):
    """a coordinate cut to an integer, towards zero"""
    if not V.sym:
        return got == int(want)
    return E.bor(E.band(want >= 0, got <= want, got > want - 1), E.band(want < 0, got >= want, got < want + 1))


def same(V, tag, got, want):
    V.eq(tag, sarr(np.asarray(got).tolist()), sarr(np.asarray(want).tolist()))


# ------------------------------------------------------------------ conversions
def parts(V):
    p = V.reals('p', (3, 2), -4, 4)
    with patched(*Fake(V).patches()):
        d = dc.pointcloud_to_dlib_parts(PointCloud(p, copy=False))
    V.check('one part per point', len(d) == 3)
    for k in range(3):
        V.check('rows are y %d' % k, truncated(V, d[k].y, p[k, 0]))
        V.check('columns are x %d' % k, truncated(V, d[k].x, p[k, 1]))


REG.add('points_to_parts', parts, bounds='3 points')


def rects(V):
    p = V.reals('p', (3, 2), -4, 4)
    for k in range(2):
        V.assume(p[0, k] < p[1, k])
        V.assume(p[1, k] < p[2, k])
    order = pick(V, 'order', [(0, 1, 2), (2, 0, 1), (1, 2, 0)])
    q = sarr([[p[i, 0], p[j, 1]] for i, j in zip((0, 1, 2), order)])
    with patched(*Fake(V).patches()):
        r = dc.pointcloud_to_dlib_rect(PointCloud(q, copy=False))
    for n, w in (('top', p[0, 0]), ('bottom', p[2, 0]), ('left', p[0, 1]), ('right', p[2, 1])):
        V.check(n, truncated(V, getattr(r, n)(), w))


REG.add('points_to_rectangle', rects, bounds='3 points')


def back(V):
    c = V.reals('c', 4, -4, 4)
    n = int(V.integer('points', 1, 3))
    p = V.reals('p', (n, 2), -4, 4)
    bb = dc.dlib_rect_to_bounding_box(Rectangle(left=c[0], top=c[1], right=c[2], bottom=c[3]))
    same(V, 'corners of the box', bb.points, bounding_box((c[1], c[0]), (c[3], c[2])).points)
    same(V, 'first corner', bb.points[0], [c[1], c[0]])
    same(V, 'opposite corner', bb.points[2], [c[3], c[2]])
    pc = dc.dlib_full_object_detection_to_pointcloud(Detection(None, [Point(x, y) for y, x in p.tolist()]))
    V.check('a point cloud', isinstance(pc, PointCloud) and pc.n_points == n)
    same(V, 'points are (y, x), in order', pc.points, p)


REG.add('from_dlib', back, bounds='up to 3 points')


def real_detections(V):
    """integer coordinates survive a round trip through dlib itself"""
    y, x = int(V.integer('y', -2, 3)), int(V.integer('x', -2, 3))
    pts = np.array([[y, x], [4., 7.], [5., -3.]])
    box = bounding_box((y - 3., x - 5.), (y + 4., x + 6.))
    d = dc.bounding_box_pointcloud_to_dlib_fo_detection(box, PointCloud(pts))
    V.check('parts', np.array_equal(dc.dlib_full_object_detection_to_pointcloud(d).points, pts))
    V.check('rectangle', np.array_equal(dc.dlib_rect_to_bounding_box(d.rect).points, box.points))


REG.add('round_trip', real_detections, bounds='integer coordinates')


def detections(V):
    p, b = V.reals('p', (2, 2), -4, 4), V.reals('b', 2, 0.5, 3)
    box = PointCloud(sarr([[b[0], b[1]], [b[0] + 2, b[1]], [b[0] + 2, b[1] + 3], [b[0], b[1] + 3]]), copy=False)
    with patched(*Fake(V).patches()):
        d = dc.bounding_box_pointcloud_to_dlib_fo_detection(box, PointCloud(p, copy=False))
    for n, w in (('top', b[0]), ('bottom', b[0] + 2), ('left', b[1]), ('right', b[1] + 3)):
        V.check(n, truncated(V, getattr(d.rect, n)(), w))
    for k in range(2):
        V.check('part %d' % k, E.band(truncated(V, d.part(k).y, p[k, 0]), truncated(V, d.part(k).x, p[k, 1])) if V.sym
                else truncated(V, d.part(k).y, p[k, 0]) and truncated(V, d.part(k).x, p[k, 1]))


REG.add('detection', detections, bounds='2 points, any box')


def pixels(V):
    ch = int(V.integer('channels', 1, 5))
    k = int(V.integer('level', 0, 255))
    px = (np.arange(ch * 6).reshape(ch, 2, 3) * 37 + k) % 256
    im = Image(px / 255.)
    out = dc.image_to_dlib_pixels(im)
    V.check('bytes', out.dtype == np.uint8)
    if ch == 3:
        V.check('colour, channels last', out.shape == (2, 3, 3) and np.array_equal(out, px.transpose(1, 2, 0)))
    else:
        V.check('one channel', out.shape == (2, 3) and np.array_equal(out, px[0]))
    V.check('image left alone', np.array_equal(im.pixels, px / 255.))


REG.add('pixels', pixels, max_paths=1400, bounds='1-5 channels, every level')


OPTS = ('feature_pool_region_padding', 'feature_pool_size', 'lambda_param', 'nu', 'num_test_splits',
        'num_trees_per_cascade_level', 'oversampling_amount', 'tree_depth', 'be_verbose', 'random_seed', 'cascade_depth')


def options(V):
    o = dlib.shape_predictor_training_options()
    vals = dict(feature_pool_region_padding=0.5, feature_pool_size=int(V.integer('pool', 1, 9)), lambda_param=0.25,
                nu=0.75, num_test_splits=7, num_trees_per_cascade_level=11, oversampling_amount=3,
                tree_depth=int(V.integer('depth', 2, 6)), random_seed='abc', be_verbose=True, cascade_depth=4)
    for n, v in vals.items():
        setattr(o, n, v)
    c = dc.copy_dlib_options(o)
    V.check('a copy', c is not o and all(getattr(c, n) == v for n, v in vals.items()))
    its = int(V.integer('iterations', 1, 6))
    a = da.DlibAlgorithm(o, n_iterations=its)
    V.check('number of cascades', a.n_iterations == its and a.dlib_options.cascade_depth == its)
    V.check('other options kept', all(getattr(a.dlib_options, n) == v for n, v in vals.items() if n != 'cascade_depth'))
    a.n_iterations = its + 2
    V.check('changed number of cascades', a.n_iterations == its + 2 and a.dlib_options.cascade_depth == its + 2)
    V.check('given options left alone', all(getattr(o, n) == v for n, v in vals.items()))


def cascades(V):
    """the number of cascades is the last one that was asked for, whatever came before"""
    a = da.DlibAlgorithm(dlib.shape_predictor_training_options(), n_iterations=int(V.integer('first', 1, 4)))
    for k in range(2):
        if bool(V.boolean('train%d' % k)):
            a.dlib_model = object()
        n = int(V.integer('its%d' % k, 1, 4))
        a.n_iterations = n
        V.check('cascades %d' % k, a.n_iterations == n and a.dlib_options.cascade_depth == n)


REG.add('cascades', cascades, max_paths=400, bounds='two changes, numbers 1..4, trained or not')
REG.add('options', options, max_paths=400, bounds='pool sizes, depths and iterations')


# ------------------------------------------------------------------ algorithm
def grey(k, shape=(3, 4)):
    return Image(np.full((1,) + shape, k / 255.))


def algorithm(n_im, n_box, verbose):
    def f(V):
        fk = Fake(V)
        ims = [grey(10 + k) for k in range(n_im)]
        gts = [PointCloud(V.reals('g%d' % k, (2, 2), 0, 6), copy=False) for k in range(n_im)]
        def box(k, b):
            c = V.reals('b%d_%d' % (k, b), 2, 0, 3)
            return bounding_box((c[0], c[1]), (c[0] + 2 + b, c[1] + 3))
        boxes = [[box(k, b) for b in range(n_box)] for k in range(n_im)]
        b0 = [[np.array(b.points) for b in bb] for bb in boxes]
        g0 = [np.array(g.points) for g in gts]
        with patched(*fk.patches()), contextlib.redirect_stdout(io.StringIO()):
            a = da.DlibAlgorithm(dlib.shape_predictor_training_options(), n_iterations=3)
            out = a.train(ims, gts, boxes, prefix='x', verbose=verbose)
            V.check('one training', len(fk.trained) == 1)
            images, dets, opts, model = fk.trained[0]
            V.check('the trained model', a.dlib_model is model)
            V.check('options', opts.cascade_depth == 3 and opts.be_verbose == verbose)
            V.check('every image', len(images) == n_im and all(np.array_equal(p, np.full((3, 4), 10 + k)) for k, p in
                                                               enumerate(images)))
            V.check('every box', [len(d) for d in dets] == [n_box] * n_im)
            V.check('the boxes are returned', len(out) == n_im and all(len(o) == n_box for o in out))
            for k in range(n_im):
                for b in range(n_box):
                    tag = 'image %d box %d: ' % (k, b)
                    d, q = dets[k][b], b0[k][b]
                    for n, w in (('top', q[0, 0]), ('bottom', q[2, 0]), ('left', q[0, 1]), ('right', q[2, 1])):
                        V.check(tag + n, truncated(V, getattr(d.rect, n)(), w))
                    for j in range(2):
                        V.check(tag + 'part %d y' % j, truncated(V, d.part(j).y, g0[k][j, 0]))
                        V.check(tag + 'part %d x' % j, truncated(V, d.part(j).x, g0[k][j, 1]))
                    key = (images[k].tobytes(), key_of([d.rect.v[n] for n in sorted(d.rect.v)]))
                    V.check(tag + 'predicted', key in model.table)
                    if key in model.table:
                        same(V, tag + 'the box of the prediction', out[k][b].points,
                             PointCloud(sarr(np.asarray(model.table[key]).tolist()), copy=False).bounding_box().points)
            # fitting
            im = grey(99)
            st = PointCloud(V.reals('st', (3, 2), 0, 6), copy=False)
            s0 = np.array(st.points)
            V.assume(st.points[0, 0] < st.points[1, 0])
            gt = PointCloud(np.zeros((2, 2)))
            del model.calls[:]
            r = costless(V, lambda c: a.run(im, st, gt_shape=gt, return_costs=c), n_im > 1)
        V.check('one prediction', len(model.calls) == 1 and np.array_equal(model.calls[0][0], np.full((3, 4), 99)))
        rect = model.calls[0][1]
        key = (np.asarray(model.calls[0][0]).tobytes(), key_of([rect.v[n] for n in sorted(rect.v)]))
        same(V, 'the prediction', r.final_shape.points, model.table[key])
        V.check('one shape', len(r.shapes) == 1 and r.n_iters == 1 and r.initial_shape is None and r.costs is None)
        V.check('ground truth', r.gt_shape is gt)
        V.check('image', np.array_equal(r.image.pixels, im.pixels))
        lo, hi = PointCloud(s0, copy=False).bounds()
        for n, w in (('top', lo[0]), ('bottom', hi[0]), ('left', lo[1]), ('right', hi[1])):
            V.check('predicted from the bounds of the start: ' + n, truncated(V, getattr(rect, n)(), w))
        same(V, 'start left alone', st.points, s0)
        for k in range(n_im):
            same(V, 'ground truth %d left alone' % k, gts[k].points, g0[k])
    return f


REG.add('algorithm', algorithm(1, 1, False), timeout=150, max_paths=300, bounds='1 image, 1 box')
REG.add('algorithm_many', algorithm(2, 2, True), timeout=250, max_paths=600, bounds='2 images, 2 boxes each')


# ------------------------------------------------------------------ training over scales
def training(scales_, ref_given=True, glob=None, group='gt', diagonal=None):
    ns = len(scales_)

    def f(V):
        scales = [V.number('scale%d' % k, 0.25, 2) if s is None else s for k, s in enumerate(scales_)]
        made, trained, moves = [], [], {}

        class Alg(object):
            def __init__(self, options, n_iterations=10):
                made.append((options, n_iterations))

            def train(self, images, gt_shapes, bounding_boxes, prefix='', verbose=False):
                k = len(trained)
                trained.append((self, list(images), [np.array(g.points) for g in gt_shapes],
                                [[np.array(c.points) for c in cc] for cc in bounding_boxes]))
                for a, cc in enumerate(bounding_boxes):
                    for b, c in enumerate(cc):
                        d = moves[k, a, b] = np.asarray(V.reals('mv%d_%d_%d' % (k, a, b), (1, 2), -1, 1))
                        c.points = sarr((np.asarray(c.points) + d).tolist())
                return bounding_boxes
        n_im, n_p = 2, 2
        ref = PointCloud(np.array([[0., 0.], [8., 0.], [8., 6.], [0., 6.]]))
        ims = []
        TRI = np.array([[0., 0.], [4., 1.], [1., 3.]])
        for i in range(n_im):
            im = FakeImage(V)
            im.bounds = lambda: (np.zeros(2), np.ones(2))
            im.n_dims = 2
            im.landmarks['gt'] = PointCloud(sarr((TRI * (i + 1) + np.asarray(V.reals('t%d' % i, (1, 2), -2, 2))).tolist()),
                                            copy=False)
            if glob:
                im.landmarks['bb_0'] = PointCloud(np.array([[0., 0.], [2., 0.], [2., 2.], [0., 2.]]) + i)
            ims.append(im)
        boxes = []

        def perturb(gt_bb, bb):
            b = Box(sarr((np.array([[0., 0.], [1., 0.], [1., 1.], [0., 1.]]) +
                          np.asarray(V.reals('bx%d' % len(boxes), (1, 2), -3, 3))).tolist()), copy=False)
            boxes.append(b)
            return b

        def child(self, frame, what):
            c = orig_child(self, frame, what)
            c.bounds, c.n_dims = (lambda: (np.zeros(2) - 100, np.ones(2) + 100)), 2
            return c
        orig_child = FakeImage.child
        means = []

        def mean_shape(shapes, diag, verbose=False):
            means.append(([np.array(s.points) for s in shapes], diag))
            return ref
        its = [2 + k for k in range(ns)]
        kw = dict(feature_padding=[k for k in range(ns)], n_pixel_pairs=[20 + k for k in range(ns)],
                  distance_prior_weighting=[.25 + k for k in range(ns)], regularisation_weight=[.125 / (k + 1) for k in range(ns)],
                  n_split_tests=[3 + k for k in range(ns)], n_trees=[4 + k for k in range(ns)],
                  n_dlib_perturbations=[1 + k for k in range(ns)], n_tree_levels=[2 + k for k in range(ns)])
        with patched((FakeImage, 'child', child), (df, 'DlibAlgorithm', Alg), (df, 'compute_reference_shape', mean_shape)):
            fit = DlibERT(ims, group=group, bounding_box_group_glob=glob, reference_shape=ref if ref_given else None,
                          diagonal=diagonal, scales=list(scales), n_perturbations=n_p, n_iterations=its,
                          perturb_from_gt_bounding_box=perturb, **kw)
        V.check('one algorithm per scale', len(made) == ns and len(trained) == ns and len(fit.algorithms) == ns)
        names = dict(feature_padding='feature_pool_region_padding', n_pixel_pairs='feature_pool_size',
                     distance_prior_weighting='lambda_param', regularisation_weight='nu', n_split_tests='num_test_splits',
                     n_trees='num_trees_per_cascade_level', n_dlib_perturbations='oversampling_amount',
                     n_tree_levels='tree_depth')
        for k in range(ns):
            o, n = made[k]
            V.check('cascades of scale %d' % k, n == its[k])
            V.check('options of scale %d' % k, all(abs(getattr(o, names[x]) - kw[x][k]) < 1e-9 for x in kw))
        V.check('trained in order of scale', all(t[0] is a for t, a in zip(trained, fit.algorithms)))
        V.check('reference shape', fit.reference_shape is ref)
        V.check('scales', list(fit.scales) == list(scales) and fit.n_scales == ns)
        V.check('no features', all(h is df.no_op for h in fit.holistic_features))
        gbb = [PointCloud(sarr(np.asarray(im.landmarks['gt'].points).tolist()), copy=False).bounding_box().points for im in ims]
        V.check('mean shape only when needed', len(means) == (0 if ref_given else 1))
        if means:
            V.check('diagonal', means[0][1] == diagonal)
            for a in range(n_im):
                same(V, 'mean of the ground truth boxes %d' % a, means[0][0][a], gbb[a])
        per = n_p + 1 if glob else n_p
        up, nb = None, 0
        for k in range(ns):
            _, images, gts, cur = trained[k]
            tag = 'scale %d: ' % k
            V.check(tag + 'every image', len(images) == n_im and len(gts) == n_im and len(cur) == n_im)
            V.check(tag + 'every box', [len(c) for c in cur] == [per] * n_im)
            nxt = {}
            for a, im in enumerate(images):
                V.check(tag + 'image %d normalised' % a, im.log[0][0] == 'ref')
                same(V, tag + 'reference %d' % a, im.log[0][1], ref.points)
                same(V, tag + 'normalised by the ground truth box %d' % a, im.log[0][2], gbb[a])
                V.check(tag + 'rescaled by the scale', [l[1] for l in im.log if l[0] == 's'] ==
                        ([scales[k]] if scales[k] != 1 else []))
                same(V, tag + 'ground truth %d in the frame of the scale' % a, im.to_input(gts[a]),
                     ims[a].landmarks['gt'].points)
                for b in range(min(per, len(cur[a]))):
                    if k == 0:
                        q = cur[a][b]
                        for fm in reversed(im.frames[1:]):
                            q = fm.up(q)
                        if glob and b == n_p:
                            same(V, tag + 'the provided box itself %d' % a, im.to_input(cur[a][b]), ims[a].landmarks['bb_0'].points)
                        else:
                            same(V, tag + 'perturbed box %d %d' % (a, b), q, boxes[nb].points)
                            nb += 1
                    else:
                        same(V, tag + 'starts where the previous scale ended %d %d' % (a, b), im.to_input(cur[a][b]), up[a, b])
                    nxt[a, b] = im.to_input(cur[a][b] + moves[k, a, b])
            up = nxt
        for a, im in enumerate(ims):
            V.check('training images keep their landmarks', set(im.landmarks.keys()) == {'gt'} |
                    ({'bb_0'} if glob else set()))
    return f


for sc in ((1.0,), (0.5, 1.0), (0.25, 0.5, 1.0)):
    REG.add('trainer_%d' % len(sc), training(sc), timeout=200, max_paths=100, bounds='2 images, 2 perturbed boxes')
REG.add('trainer_any_scale', training((None, 1.0)), timeout=200, max_paths=100, bounds='any first scale between 1/4 and 2')
REG.add('trainer_any_scales', training((0.5, None, None)), timeout=200, max_paths=300, bounds='any scales between 1/4 and 2')
REG.add('trainer_mean', training((0.5, 1.0), ref_given=False, diagonal=50), timeout=200, max_paths=100, bounds='as above')
REG.add('trainer_boxes', training((0.5, 1.0), glob='bb_*'), timeout=200, max_paths=100, bounds='1 given box per image')
REG.add('trainer_group', training((0.5, 1.0), group=None, ref_given=False), timeout=200, max_paths=100, bounds='as above')


# ------------------------------------------------------------------ fitting
def fitting(V):
    """a trained fitter follows the predictions, from scale to scale; without features and costs"""
    start = V.reals('s', (4, 2), 0, 6)
    asked = []

    def prepare(self, image, box, gt_shape=None):
        asked.append(('p', image, box, gt_shape))
        return 'ims', ['b0', 'b1'], 'gts', 'aff', 'sc'

    def fit_(self, **kw):
        asked.append(('f', kw))
        return 'results'

    def result(self, **kw):
        asked.append(('r', kw))
        return 'result'
    f = DlibERT.__new__(DlibERT)
    b = PointCloud(start, copy=False)
    with patched((DlibERT, '_prepare_image', prepare), (DlibERT, '_fit', fit_), (DlibERT, '_fitter_result', result)):
        gt = object()
        V.check('result', f.fit_from_bb('im', b, gt_shape=gt) == 'result')
        V.check('prepared', asked[0][1:] == ('im', b, gt))
        k = asked[1][1]
        V.check('fitted', (k['images'], k['initial_shape'], k['affine_transforms'], k['scale_transforms']) ==
                ('ims', 'b0', 'aff', 'sc') and not k.get('return_costs') and k['gt_shapes'] == 'gts')
        k = asked[2][1]
        V.check('results of the scales', (k['image'], k['algorithm_results'], k['affine_transforms'], k['scale_transforms'])
                == ('im', 'results', 'aff', 'sc') and k['gt_shape'] is gt)
        del asked[:]
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            V.check('from a shape', f.fit_from_shape('im', b, gt_shape=gt) == 'result')
        V.check('a warning', len(w) >= 1)
        same(V, 'from the tightest box', asked[0][2].points,
             PointCloud(sarr(np.asarray(start).tolist()), copy=False).bounding_box().points)
        V.check('with the ground truth', asked[0][3] is gt)
    same(V, 'start left alone', b.points, start)


REG.add('fitter', fitting, timeout=150, max_paths=300, bounds='any start of 4 points')


def wrapper(V):
    fk = Fake(V)
    with patched(*fk.patches()):
        m = Predictor(V)
        w = DlibWrapper(m)
        V.check('one scale', list(w.scales) == [1])
        im, gt = grey(50), PointCloud(np.zeros((2, 2)))
        st = PointCloud(V.reals('st', (3, 2), 0, 6), copy=False)
        s0 = np.array(st.points)
        lo, hi = PointCloud(s0, copy=False).bounds()
        for how in ('bb', 'shape'):
            del m.calls[:]
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                r = getattr(w, 'fit_from_' + how)(im, st, gt_shape=gt)
            V.check(how + ': one prediction', len(m.calls) == 1)
            pix, rect = m.calls[0]
            V.check(how + ': pixels', np.array_equal(pix, np.full((3, 4), 50)))
            for n, v in (('top', lo[0]), ('bottom', hi[0]), ('left', lo[1]), ('right', hi[1])):
                V.check(how + ': ' + n, truncated(V, getattr(rect, n)(), v))
            key = (np.asarray(pix).tobytes(), key_of([rect.v[n] for n in sorted(rect.v)]))
            same(V, how + ': the prediction', r.final_shape.points, m.table[key])
            V.check(how + ': result', r.gt_shape is gt and r.initial_shape is None and not r.is_iterative and
                    np.array_equal(r.image.pixels, im.pixels))
    same(V, 'start left alone', st.points, s0)


REG.add('wrapper', wrapper, timeout=150, max_paths=300, bounds='any start of 3 points')


def wrapper_files(V):
    import os
    import tempfile
    import shutil
    d = tempfile.mkdtemp()
    try:
        fk = Fake(V)
        p = os.path.join(d, 'm.dat')
        as_path = bool(V.boolean('as_path'))
        from pathlib import Path
        arg = Path(p) if as_path else p
        with patched(*fk.patches()):
            try:
                DlibWrapper(arg)
                missing = False
            except ValueError:
                missing = True
            V.check('missing files are refused', missing)
            open(p, 'w').close()
            w = DlibWrapper(arg)
            V.check('the file is loaded', fk.loaded == p and isinstance(w.algorithm.dlib_model, Predictor))
    finally:
        shutil.rmtree(d)


REG.add('wrapper_files', wrapper_files, bounds='existing and missing files')
