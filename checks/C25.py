"""C25 - perturbation noise stays within its documented ranges."""
from checks.common import *
import numpy.random as npr
from menpo.shape import PointCloud, bounding_box
from menpo.image import Image
from menpo.transform import AlignmentSimilarity, AlignmentAffine, AlignmentUniformScale, Rotation, Translation
from menpofit import fitter as mf
from menpofit.fitter import (noisy_alignment_similarity_transform, noisy_target_alignment_transform,
                             noisy_shape_from_bounding_box, noisy_shape_from_shape,
                             generate_perturbations_from_gt)

REG = Registry('C25')
REG.assumptions = ['draws of numpy.random are arbitrary values of the range of their distribution (|z| <= 4 for normal draws)']
REG.outside = ['the quality of the random number generator of NumPy']
SRC = np.array([[0., 0.], [3., 0.], [3., 4.], [0., 4.]])


class Draws(object):
    """stands in for numpy.random: draws are symbolic (or all of them one symbolic value)"""

    def __init__(self, V, same=None, const=None):
        self.V, self.same, self.const, self.n, self.taken, self.angles = V, same, const, 0, [], []

    def one(self, kind):
        self.taken.append(kind)
        self.n += 1
        if self.const is not None:
            return self.const
        if self.same is not None:
            return self.same
        v = self.V.real('draw%d' % self.n, *((0, 1) if kind == 'u' else (-4, 4)))
        return v

    def make(self, kind, shape):
        if shape is None or shape == ():
            return self.one(kind)
        shape = (shape,) if np.isscalar(shape) else tuple(shape)
        n = int(np.prod(shape))
        return sarr([self.one(kind) for _ in range(n)]).reshape(shape)

    def rand(self, *s):
        return self.make('u', s)

    def randn(self, *s):
        return self.make('n', s)

    def random(self, size=None):
        return self.make('u', size)

    def standard_normal(self, size=None):
        return self.make('n', size)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None:
            size = np.broadcast(low, high).shape
        return low + (np.asarray(high) - low) * self.make('u', size) if size != () else low + (high - low) * self.one('u')

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            size = np.broadcast(loc, scale).shape
        return loc + scale * self.make('n', size)

    def patches(self):
        orig = Rotation.__dict__['init_from_2d_ccw_angle'].__func__

        def init(cls, theta, degrees=True):
            self.angles.append(theta if degrees else theta * 180 / np.pi)
            return orig(cls, theta, degrees=degrees)
        ps = [(npr, k, getattr(self, k)) for k in ('rand', 'randn', 'random', 'standard_normal', 'uniform', 'normal')]
        ps += [(npr, 'random_sample', self.random), (npr, 'ranf', self.random)]
        return ps + [(Rotation, 'init_from_2d_ccw_angle', classmethod(init))]


def target(V, kind):
    a, y, x = V.real('a', 0.5, 3), V.real('y', -5, 5), V.real('x', -5, 5)
    base = {'same': SRC, 'other': SRC[:, ::-1][[0, 3, 2, 1]],
            'quarter': SRC.dot(np.array([[0., 1.], [-1., 0.]]))}[kind]
    return PointCloud(sarr([[a * p[0] + y, a * p[1] + x] for p in base]), copy=False)


def source():
    return PointCloud(SRC.copy())


def lin(h):
    return np.asarray(h)[:2, :2]


def det2(m):
    return m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]


def percentages(V, form):
    if form == 'float':
        return V.real('p', 0, 1), None
    if form == 'one':
        p = V.real('p', 0, 1)
        return [p], p
    return [V.real('ps', 0, 1), V.real('pr', 0, 1), V.real('pt', 0, 1)], None


def parts(p):
    return list(p) * 3 if isinstance(p, (list, tuple)) and len(p) == 1 else list(p) if isinstance(p, (list, tuple)) else [p] * 3


def noise_run(V, kind, noise, form, rotation, draws):
    src, tgt = source(), target(V, kind)
    keep = tgt.points.copy()
    plain = AlignmentSimilarity(source(), PointCloud(tgt.points.copy(), copy=False), rotation=rotation)
    p, _ = percentages(V, form)
    given = list(p) if isinstance(p, list) else p
    with builtin_types(V, mf), patched(*draws.patches()):
        t = noisy_alignment_similarity_transform(src, tgt, noise_type=noise, noise_percentage=p,
                                                 allow_alignment_rotation=rotation)
    if isinstance(p, list):
        V.check('list of percentages left alone', len(p) == len(given) and all(x is y for x, y in zip(p, given)))
    V.eq('source left alone', src.points, SRC)
    V.eq('target left alone', tgt.points, keep)
    return t, plain, tgt, parts(p)


def decomposed(V, t, plain, tgt):
    """scaled rotation S.R with t = (S.R about the centre, then shift) o plain, and the shift"""
    h, g = np.asarray(t.h_matrix), np.asarray(plain.h_matrix)
    c = np.asarray(tgt.points).sum(axis=0) / 4
    hi = h.dot(vinv(V, g))           # what happens after the plain alignment
    L = lin(hi)
    shift = L.dot(c) + hi[:2, 2] - c
    return L, shift


def add_bounds(kind, noise, form, rotation):
    def h(V):
        d = Draws(V)
        t, plain, tgt, (ps, pr, pt) = noise_run(V, kind, noise, form, rotation, d)
        L, shift = decomposed(V, t, plain, tgt)
        V.eq('noise is a similarity (a)', L[0, 0], L[1, 1])
        V.eq('noise is a similarity (b)', L[0, 1], -L[1, 0])
        V.eq('last row', np.asarray(t.h_matrix)[2], [0, 0, 1])
        V.check('four independent draws', d.taken == (['u'] if noise == 'uniform' else ['n']) * 4)
        q = 4. / 3 if noise == 'gaussian' else 1.
        S2 = det2(L)
        lo = 1 - 0.5 * ps * q
        V.le('scale is at most 1 + half the percentage', S2, (1 + 0.5 * ps * q) ** 2 + 1e-6)
        V.implies('scale is at least 1 - half the percentage', lo >= 0, S2 >= lo ** 2 - 1e-6)
        r = tgt.range()
        for k in range(2):
            V.le('shift %d at most percentage of the range' % k, shift[k], pt * r[k] * q + 1e-6)
            V.ge('shift %d at least percentage of the range' % k, shift[k], -pt * r[k] * q - 1e-6)
        if d.angles:
            V.check('one rotation', len(d.angles) == 1)
            V.le('angle below percentage of 180', d.angles[0], pr * 180 * q + 1e-6)
            V.ge('angle above percentage of -180', d.angles[0], -pr * 180 * q - 1e-6)
    REG.add('bounds:%s:%s:%s:rot=%s' % (kind, noise, form, rotation), h, max_paths=300, timeout=150)


for kind_, noise_, form_, rot_ in [('same', 'uniform', 'list', False), ('other', 'uniform', 'float', False),
                                   ('quarter', 'uniform', 'one', True), ('same', 'gaussian', 'list', False),
                                   ('quarter', 'gaussian', 'float', True), ('other', 'gaussian', 'one', False)]:
    add_bounds(kind_, noise_, form_, rot_)


def add_scaling(kind, noise, form):
    """with every draw equal to u, every parameter is its documented multiple of u"""
    def h(V):
        u = V.real('u', 0, 1) if noise == 'uniform' else V.real('u', -4, 4)
        d = Draws(V, same=u)
        t, plain, tgt, (ps, pr, pt) = noise_run(V, kind, noise, form, False, d)
        L, shift = decomposed(V, t, plain, tgt)
        w = 2 * u - 1 if noise == 'uniform' else u / 3
        V.close('squared scale', det2(L), (1 + ps * 0.5 * w) ** 2, tol=1e-6)
        V.close('shift', shift, [pt * v * w for v in tgt.range()], tol=1e-6)
        if d.angles:
            V.close('angle', d.angles[0], 180 * pr * w, tol=1e-6)
    REG.add('amount of noise:%s:%s:%s' % (kind, noise, form), h, max_paths=300, timeout=150)


for kind_ in ('same', 'other'):
    for noise_ in ('uniform', 'gaussian'):
        for form_ in ('float', 'list', 'one'):
            add_scaling(kind_, noise_, form_)


def add_none(kind, noise, rotation):
    """percentages of zero (or draws in the middle of the range): the plain alignment"""
    def h(V):
        d = Draws(V)
        zero = int(V.integer('zero percentage', 0, 1))
        if not zero:
            d = Draws(V, const=0.5 if noise == 'uniform' else 0.)
        src, tgt = source(), target(V, kind)
        plain = AlignmentSimilarity(source(), PointCloud(tgt.points.copy(), copy=False), rotation=rotation)
        p = [0., 0., 0.] if zero else [V.real('ps', 0, 1), V.real('pr', 0, 1), V.real('pt', 0, 1)]
        with builtin_types(V, mf), patched(*d.patches()):
            t = noisy_alignment_similarity_transform(src, tgt, noise_type=noise, noise_percentage=p,
                                                     allow_alignment_rotation=rotation)
        V.close('plain alignment', t.h_matrix, plain.h_matrix, tol=1e-9)
    REG.add('no noise:%s:%s:rot=%s' % (kind, noise, rotation), h, max_paths=300, timeout=150)


for kind_ in ('same', 'other', 'quarter'):
    for noise_ in ('uniform', 'gaussian'):
        for rot_ in (False, True):
            add_none(kind_, noise_, rot_)


@REG.harness('noise types')
def noise_types(V):
    built = ''.join(['gaus', 'sian'])   # an equal but not identical string
    u = V.real('u', 0, 1)
    for nt in (built, ''.join(['uni', 'form'])):
        d = Draws(V, const=u)
        with builtin_types(V, mf), patched(*d.patches()):
            noisy_alignment_similarity_transform(source(), source(), noise_type=nt, noise_percentage=0.1)
        V.check(nt + ' is accepted', d.taken == [nt[0] if nt[0] == 'u' else 'n'] * 4)
    for nt in ('normal', None, '', 'Uniform', 3):
        V.check('%r is refused' % (nt,), raises(ValueError, lambda: noisy_alignment_similarity_transform(
            source(), source(), noise_type=nt)))


def add_defaults(noise):
    def h(V):
        u = V.real('u', 0, 1)
        for f, want in ((lambda a, b: noisy_alignment_similarity_transform(a, b).apply(a), 0.1),
                        (lambda a, b: noisy_shape_from_bounding_box(a, b), 0.05),
                        (lambda a, b: noisy_shape_from_shape(a, b), 0.05)):
            with patched(*Draws(V, same=u).patches()):
                got = f(source(), source())
            with patched(*Draws(V, same=u).patches()):
                t = noisy_alignment_similarity_transform(source(), source(), noise_type='uniform',
                                                         noise_percentage=want, allow_alignment_rotation=False)
            V.close('default %s' % want, got.points, t.apply(SRC), tol=1e-9)
    REG.add('defaults', h, max_paths=300, timeout=150)


add_defaults('uniform')


def add_shape(which, noise, rotation):
    """the noisy shapes apply that transform (of the bounding boxes, or of the shapes)"""
    def h(V):
        pts = np.array([[0., 0.], [3., 1.], [1., 4.], [2., 2.]])   # bounding box: 3 x 4
        sh = PointCloud(pts.copy())
        if which == 'box':
            a, y, x = V.real('a', 0.5, 3), V.real('y', -5, 5), V.real('x', -5, 5)
            tgt = bounding_box([0, 0], [3, 4])
            tgt.points = sarr([[a * p[0] + y, a * p[1] + x] for p in tgt.points])
            ref = sh.bounding_box()
            f = noisy_shape_from_bounding_box
        else:
            sh = source()
            tgt = target(V, 'same')
            ref = source()
            f = noisy_shape_from_shape
        p = [V.real('ps', 0, 1), V.real('pr', 0, 1), V.real('pt', 0, 1)]
        u = V.real('u', 0, 1)
        with builtin_types(V, mf), patched(*Draws(V, same=u).patches()):
            got = f(sh, tgt, noise_type=noise, noise_percentage=p, allow_alignment_rotation=rotation)
        with builtin_types(V, mf), patched(*Draws(V, same=u).patches()):
            t = noisy_alignment_similarity_transform(ref, tgt, noise_type=noise, noise_percentage=p,
                                                     allow_alignment_rotation=rotation)
        V.eq('noisy shape', got.points, t.apply(sh).points)
        V.eq('shape left alone', sh.points, pts if which == 'box' else SRC)
    REG.add('noisy shape:%s:%s:rot=%s' % (which, noise, rotation), h, max_paths=300, timeout=150)


for which_ in ('box', 'shape'):
    for noise_ in ('uniform', 'gaussian'):
        for rot_ in (False, True):
            add_shape(which_, noise_, rot_)


def add_target_noise(n, per_point, cls):
    def h(V):
        base = {2: SRC[[0, 2]], 3: SRC[:3], 4: SRC}[n]
        a, y, x = V.real('a', 0.5, 3), V.real('y', -5, 5), V.real('x', -5, 5)
        tgt = PointCloud(sarr([[a * p[0] + y, a * p[1] + x] for p in base]), copy=False)
        keep = tgt.points.copy()
        std = [V.real('std%d' % k, 0, 1) for k in range(n)] if per_point else V.real('std', 0, 1)
        d = Draws(V)
        seen = []

        def align(s, t, **kw):
            seen.append((s, t, kw))
            return 'aligned'
        src = PointCloud(base.copy())
        with patched(*d.patches()):
            got = noisy_target_alignment_transform(src, tgt, alignment_transform_cls=align, noise_std=std, other=3)
        V.check('the alignment is returned', got == 'aligned' and len(seen) == 1)
        s, t, kw = seen[0]
        V.eq('aligned source', s.points, base)
        V.check('options', kw == {'other': 3})
        V.check('one normal draw per coordinate', d.taken == ['n'] * (2 * n))
        # equal to the documented noise for some assignment of draws to coordinates: check the size point by point
        r = tgt.range()
        noise = np.asarray(t.points) - keep
        for k in range(n):
            sd = std[k] if per_point else std
            for j in range(2):
                V.le('noise of point %d' % k, noise[k, j], 4 * sd * r[j])
                V.ge('noise of point %d' % k, noise[k, j], -4 * sd * r[j])
        V.eq('target left alone', tgt.points, keep)
        u = V.real('u', -4, 4)
        with patched(*Draws(V, same=u).patches()):
            noisy_target_alignment_transform(src, tgt, alignment_transform_cls=align, noise_std=std)
        V.eq('amount of noise', np.asarray(seen[1][1].points) - keep,
             [[u * (std[k] if per_point else std) * r[j] for j in range(2)] for k in range(n)])
    REG.add('noisy target:%d points:%s' % (n, 'per point' if per_point else 'one'), h, max_paths=300, timeout=150)


for n_ in (2, 3, 4):
    for per_ in (False, True):
        add_target_noise(n_, per_, None)


@REG.harness('noisy target: default alignment')
def target_default(V):
    tgt = target(V, 'same')
    with patched(*Draws(V, const=0.).patches()):
        t = noisy_target_alignment_transform(source(), tgt)
    V.check('affine', isinstance(t, AlignmentAffine))


def tri(V, name, lo, hi, dlo, dhi):
    """three points; extent from the first to the last"""
    a, d = V.reals(name, (2,), lo, hi), V.reals(name + 'd', (2,), dlo, dhi)
    return sarr([[a[0] + 0.5 * d[0], a[1]], [a[0], a[1] + d[1]], [a[0] + d[0], a[1] + 0.5 * d[1]]])


def add_generate(n_pert, n_boxes, n_images=2):
    """n_boxes None: the boxes come from the ground truth"""
    many = n_pert > 4 or (n_boxes or 0) > 4 or n_images > 4

    def h(V):
        ims, gts, boxes = [], [], []
        for i in range(n_images):
            im = Image(np.zeros((1, 4 + i, 5)))
            im.landmarks['gt'] = PointCloud(tri(V, 'gt%d' % i, *((0, 1, 1, 1.5) if many else (-2, 1, 1, 1.5))), copy=False)
            im.landmarks['other'] = PointCloud(SRC.copy())
            bs = []
            for b in range(n_boxes or 0):
                p = tri(V, 'bb%d_%d' % (i, b), *((-1, 1, 1, 2) if (i, b) == (0, 0) else (0, 1, 1, 1.5) if many else (0, 1, 1.5, 3)))
                im.landmarks['box_%d' % b] = PointCloud(p, copy=False)
                bs.append(p)
            ims.append(im)
            gts.append(np.asarray(im.landmarks['gt'].points).copy())
            boxes.append(bs)
        calls = []

        def extent(p):
            lo = [symnp.smin_(p[:, k]) if V.sym else p[:, k].min() for k in range(2)]
            hi = [symnp.smax_(p[:, k]) if V.sym else p[:, k].max() for k in range(2)]
            return lo, hi

        def box(p):
            (a, b), (c, d) = extent(np.asarray(p))
            return [[a, b], [c, b], [c, d], [a, d]]

        def perturb(gt, bb):
            k = len(calls)
            out = tri(V, 'p%d' % k, *((0, 1, 1, 2) if k > 1 or many else (-1, 1, 1, 2) if k else (0, 1, 1, 2) if n_boxes else (-3, 4, 1, 4)))
            calls.append((gt.points.copy(), bb.points.copy(), out))
            return PointCloud(out, copy=False)
        f = generate_perturbations_from_gt(ims, n_pert, perturb, gt_group='gt',
                                           bb_group_glob='box_*' if n_boxes is not None else None)
        per = n_pert * max(n_boxes or 0, 1 if n_boxes is None else 0)
        V.check('one call per perturbation', len(calls) == per * n_images)
        c = 0
        for i, im in enumerate(ims):
            got = f(im)
            bound = [3 + i, 4]

            def clipped(b):
                return [[(symnp.clip(sarr([v]), 0, bound[j])[0] if V.sym else min(max(v, 0), bound[j]))
                         for j, v in enumerate(row)] for row in b]
            want = []
            for b in (boxes[i] if n_boxes is not None else [None]):
                src = box(gts[i]) if b is None else box(b)
                for _ in range(n_pert):
                    V.eq('perturbation: ground truth box', calls[c][0], box(gts[i]))
                    V.eq('perturbation: box to start from', calls[c][1], src)
                    want.append(clipped(box(calls[c][2])))
                    c += 1
                if b is not None:
                    want.append(clipped(src))
            V.check('number of boxes', len(got) == len(want))
            for k in range(len(want)):
                V.eq('box %d of image %d' % (k, i), got[k].points, want[k])
            V.eq('ground truth left alone', im.landmarks['gt'].points, gts[i])
            groups = {g for g in im.landmarks if not g.startswith('__generated_bb_')}
            V.check('other groups', groups == {'gt', 'other'} | {'box_%d' % b for b in range(n_boxes or 0)})
    REG.add('generated boxes:%d perturbations:%s boxes:%d images' % (n_pert, n_boxes, n_images), h, max_paths=300, timeout=150)


for n_, b_ in [(1, None), (2, None), (0, 1), (1, 1), (1, 2)]:
    add_generate(n_, b_, n_images=1 if n_ == 2 or b_ == 2 else 2)
add_generate(12, None, n_images=1)
add_generate(5, 2, n_images=1)
add_generate(35, None, n_images=1)
add_generate(1, 12, n_images=1)
add_generate(1, None, n_images=6)


@REG.harness('generated boxes: nothing matches')
def generate_none(V):
    im = Image(np.zeros((1, 4, 5)))
    im.landmarks['gt'] = PointCloud(V.reals('gt', (3, 2), 0, 3), copy=False)
    V.check('ValueError', raises(ValueError, lambda: generate_perturbations_from_gt(
        [im], 2, lambda a, b: b, gt_group='gt', bb_group_glob='box_*')))
    V.check('nothing attached', list(im.landmarks) == ['gt'])
