"""C14 - error metrics equal their formulas."""
from checks.common import *
from menpo.shape import PointCloud
import menpofit.error as err
import menpofit.error.base as eb
import menpofit.error.human.face as face

REG = Registry('C14')
REG.assumptions = ['the normaliser of a normalised error is not zero']
REG.outside = ['floating point rounding']


def dist(V, a, b):
    return vsqrt(V, sum((x - y) * (x - y) for x, y in zip(np.asarray(a).tolist(), np.asarray(b).tolist())))


def eucl(V, a, b):
    return sum(dist(V, x, y) for x, y in zip(np.asarray(a), np.asarray(b))) / len(a)


def rms(V, a, b):
    d = (np.asarray(a) - np.asarray(b)).ravel().tolist()
    return vsqrt(V, sum(x * x for x in d) / len(d))


def pair(V, n, d=2, lo=-3, hi=3):
    a, b = V.reals('a', (n, d), lo, hi), V.reals('b', (n, d), lo, hi)
    return PointCloud(a, copy=False), PointCloud(b, copy=False)


def _basic(n, d):
    def f(V):
        s, g = pair(V, n, d)
        for tag, x, y in (('clouds', s, g), ('arrays', s.points, g.points)):
            V.eq(tag + ': euclidean', err.euclidean_error(x, y), eucl(V, s.points, g.points))
            V.eq(tag + ': rms', err.root_mean_square_error(x, y), rms(V, s.points, g.points))
        V.eq('keywords', err.euclidean_error(shape=s, gt_shape=g), eucl(V, s.points, g.points))
        if n > 5:
            return
        V.eq('symmetric euclidean', err.euclidean_error(g, s), err.euclidean_error(s, g))
        V.eq('symmetric rms', err.root_mean_square_error(g, s), err.root_mean_square_error(s, g))
        V.eq('zero at the ground truth', err.euclidean_error(s, s), 0)
        V.eq('rms zero at the ground truth', err.root_mean_square_error(s, s), 0)
        V.ge('not negative', err.euclidean_error(s, g), 0)
    return f


REG.add('basic_2d', _basic(3, 2), bounds='any two shapes of 3 points in 2-D')
REG.add('basic_2d_many', _basic(12, 2), timeout=200, bounds='any two shapes of 12 points in 2-D')
REG.add('basic_3d', _basic(2, 3), bounds='any two shapes of 2 points in 3-D')


def indices(V):
    s, g = pair(V, 12)
    for i, j in ((0, 1), (3, 1), (2, 2), (11, 4), (9, 10)):
        o = dist(V, g.points[i], g.points[j])
        V.eq('cloud %d %d' % (i, j), err.distance_two_indices(i, j, g), o)
        V.eq('array %d %d' % (i, j), err.distance_two_indices(i, j, g.points), o)


REG.add('distance_two_indices', indices, bounds='any 12 points')


def box(V, pts):
    """height and width by comparison with every point"""
    r = []
    for k in range(2):
        c = [p[k] for p in np.asarray(pts).tolist()]
        hi, lo = c[0], c[0]
        for x in c[1:]:
            hi = symnp._mx(hi, x) if V.sym else max(hi, x)
            lo = symnp._mn(lo, x) if V.sym else min(lo, x)
        r.append(hi - lo)
    return r


def norm_of(V, kind, pts):
    h, w = box(V, pts)
    return {'area': h * w, 'perimeter': 2 * (h + w), 'avg_edge_length': (h + w) / 2,
            'diagonal': vsqrt(V, h * h + w * w)}[kind]


KINDS = ('area', 'perimeter', 'avg_edge_length', 'diagonal')


def bbox(V):
    s, g = pair(V, 3)
    for k, f in (('area', err.bb_area), ('perimeter', err.bb_perimeter),
                 ('avg_edge_length', err.bb_avg_edge_length), ('diagonal', err.bb_diagonal)):
        V.eq(k, f(g.points), norm_of(V, k, g.points))
    V.check('all documented norm types', set(eb.bb_norm_types) == set(KINDS))


REG.add('bounding_box', bbox, bounds='any 3 points')


def ref_box(V, more=0):
    """symbolic points inside a box whose corners are among the last three points"""
    h, w = V.real('h', 0.5, 4), V.real('w', 0.5, 4)
    y, x = V.real('y', -2, 2), V.real('x', -2, 2)
    f, k = (V.real('f', 0, 1), V.real('k', 0, 1)) if not more else (0.5, 0.25)
    g = [[y, x + k * w], [y + h, x], [y + f * h, x + w]]
    g = sarr([[y + h * (j % 4 + 1) / 8, x + w * (j % 3 + 1) / 8] for j in range(more)] + g)
    return PointCloud(g, copy=False), h, w


def _bb(kind, more=0):
    def f(V):
        s, n = pair(V, 3 + more)
        gt, h, w = ref_box(V, more)
        if more:        # the last point is free, the others are off by known amounts
            off = sarr([[(3., 4.), (-6., 8.), (0., 1.)][j % 3] for j in range(2 + more)])
            s.points = sarr((np.asarray(gt.points)[:-1] + off).tolist() + [s.points[-1].tolist()])
            n.points = sarr((np.asarray(s.points)[:-1] + off).tolist() + [n.points[-1].tolist()])
        nf = {'area': h * w, 'perimeter': 2 * (h + w), 'avg_edge_length': (h + w) / 2,
              'diagonal': vsqrt(V, h * h + w * w)}[kind]
        E_, Rm = eucl(V, s.points, gt.points), rms(V, s.points, gt.points)
        V.eq('euclidean', err.euclidean_bb_normalised_error(s, gt, norm_type=kind), E_ / nf)
        V.eq('rms', err.root_mean_square_bb_normalised_error(s, gt, norm_type=kind), Rm / nf)
        # another normalising shape
        V.eq('euclidean, own norm shape', err.euclidean_bb_normalised_error(
            s, n, norm_shape=gt, norm_type=kind), eucl(V, s.points, n.points) / nf)
        V.eq('rms, own norm shape', err.root_mean_square_bb_normalised_error(
            s, n, norm_shape=gt, norm_type=kind), rms(V, s.points, n.points) / nf)
        if kind == 'avg_edge_length':
            V.eq('default type euclidean', err.euclidean_bb_normalised_error(s, gt), E_ / nf)
            V.eq('default type rms', err.root_mean_square_bb_normalised_error(s, gt), Rm / nf)
        c = s.points.copy()
        err.euclidean_bb_normalised_error(s, gt, norm_type=kind)
        V.eq('shape untouched', s.points, c)
    return f


for k in KINDS:
    REG.add('bb_normalised_' + k, _bb(k), timeout=120, bounds='any shapes of 3 points; ground truth box sides in [0.5, 4]')
    REG.add('bb_normalised_many_' + k, _bb(k, 8), timeout=200, bounds='shapes of 11 points, one of them anywhere; ground truth box sides in [0.5, 4]')


def bad_type(V):
    s, g = pair(V, 2)
    for f in (err.euclidean_bb_normalised_error, err.root_mean_square_bb_normalised_error):
        V.check('unknown norm type is refused', raises(ValueError, lambda: f(s, g, norm_type='volume')))


REG.add('unknown_norm_type', bad_type, bounds='any shapes')


def distance(V, npt=3, idx=((0, 2), (2, 1))):
    s, g = pair(V, npt)
    calls = []
    n = V.real('n', 0.5, 4)

    def norm_f(a, b):
        calls.append((np.asarray(a), np.asarray(b)))
        return n
    V.eq('euclidean', err.euclidean_distance_normalised_error(s, g, norm_f), eucl(V, s.points, g.points) / n)
    V.eq('rms', err.root_mean_square_distance_normalised_error(s, g, norm_f), rms(V, s.points, g.points) / n)
    for a, b in calls:
        V.eq('normaliser sees the shape', a, s.points)
        V.eq('normaliser sees the ground truth', b, g.points)
    V.check('both normalised', len(calls) == 2)
    for i, j in idx:
        d = dist(V, g.points[i], g.points[j])
        V.assume(d > 0.25)
        V.eq('euclidean, indices %d %d' % (i, j),
             err.euclidean_distance_indexed_normalised_error(s, g, i, j), eucl(V, s.points, g.points) / d)
        V.eq('rms, indices %d %d' % (i, j),
             err.root_mean_square_distance_indexed_normalised_error(s, g, i, j),
             rms(V, s.points, g.points) / d)


REG.add('distance_normalised_many', lambda V: distance(V, 12, ((0, 11), (10, 3))), timeout=200, bounds='any shapes of 12 points')
REG.add('distance_normalised', distance, timeout=120, bounds='any shapes of 3 points')


# ------------------------------------------------------------------ faces
KEEP49 = [i for i in range(17, 68) if i not in (60, 64)]
SUB = {68: KEEP49, 66: list(range(17, 66)), 51: [i for i in range(51) if i not in (43, 47)], 49: list(range(49))}


def conv49(pts):
    return np.asarray(pts)[SUB[len(pts)]]


def face_pts(V, name, n):
    """n landmarks on a fixed layout, each moved freely inside a small box"""
    base = np.array([[(7 * i) % 23, (5 * i) % 19] for i in range(n)], dtype=float)
    return PointCloud(base + V.reals(name, (n, 2), -0.25, 0.25), copy=False)


def mean_pt(p):
    p = np.asarray(p)
    return [sum(p[:, k].tolist()) / len(p) for k in range(2)]


def pupil(V, p, l, r):
    return dist(V, mean_pt(np.asarray(p)[l]), mean_pt(np.asarray(p)[r]))


def _face68(V):
    s, g = face_pts(V, 's', 68), face_pts(V, 'g', 68)
    e = eucl(V, s.points, g.points)
    V.eq('mean pupil', err.mean_pupil_68_error(s, g), e / pupil(V, g.points, range(36, 42), range(42, 48)))
    V.eq('outer eye corners', err.outer_eye_corner_68_euclidean_error(s, g),
         e / dist(V, g.points[36], g.points[45]))
    h, w = box(V, g.points)
    V.eq('bounding box', err.bb_avg_edge_length_68_euclidean_error(s, g), e / ((h + w) / 2))


REG.add('face_68', _face68, timeout=300, bounds='68 landmarks, each anywhere in a box around a fixed layout')


def _face49(ns, ng):
    def f(V):
        s, g = face_pts(V, 's', ns), face_pts(V, 'g', ng)
        s0, g0 = s.points.copy(), g.points.copy()
        a, b = conv49(s.points), conv49(g.points)
        e = eucl(V, a, b)
        # the 49 point markup: eyes are points 19-24 and 25-30, outer corners 19 and 28
        V.eq('mean pupil', err.mean_pupil_49_error(s, g), e / pupil(V, b, range(19, 25), range(25, 31)))
        V.eq('outer eye corners', err.outer_eye_corner_49_euclidean_error(s, g), e / dist(V, b[19], b[28]))
        if ng == 68:
            h, w = box(V, g.points)
            V.eq('bounding box of all 68 points', err.bb_avg_edge_length_49_euclidean_error(s, g),
                 e / ((h + w) / 2))
        else:
            V.check('the bounding box needs 68 ground truth points',
                    raises(ValueError, lambda: err.bb_avg_edge_length_49_euclidean_error(s, g)))
        V.eq('shape untouched', s.points, s0)
        V.eq('ground truth untouched', g.points, g0)
    return f


for ns, ng in ((68, 68), (66, 68), (51, 68), (49, 68), (51, 66), (49, 51), (68, 49)):
    REG.add('face_49_from_%d_%d' % (ns, ng), _face49(ns, ng), timeout=300,
            bounds='%d and %d landmarks, each anywhere in a box around a fixed layout' % (ns, ng))


def _face51(ns, ng):
    def f(V):
        s, g = face_pts(V, 's', ns), face_pts(V, 'g', ng)
        a = s.points[17:] if ns == 68 else s.points
        b = g.points[17:] if ng == 68 else g.points
        V.eq('outer eye corners', err.outer_eye_corner_51_euclidean_error(s, g),
             eucl(V, a, b) / dist(V, b[19], b[28]))
    return f


for ns, ng in ((68, 68), (51, 68), (68, 51), (51, 51)):
    REG.add('face_51_from_%d_%d' % (ns, ng), _face51(ns, ng), timeout=200,
            bounds='%d and %d landmarks, each anywhere in a box around a fixed layout' % (ns, ng))

OK = {'mean_pupil_68_error': ([68], [68]), 'mean_pupil_49_error': ([68, 66, 51, 49],) * 2,
      'outer_eye_corner_68_euclidean_error': ([68], [68]),
      'outer_eye_corner_51_euclidean_error': ([68, 51],) * 2,
      'outer_eye_corner_49_euclidean_error': ([68, 66, 51, 49],) * 2,
      'bb_avg_edge_length_68_euclidean_error': ([68], [68]),
      'bb_avg_edge_length_49_euclidean_error': ([68, 66, 51, 49], [68])}


def wrong_sizes(V):
    """a symbolic number of landmarks, unsupported ones must be refused"""
    n = V.integer('n', 40, 75)
    which = V.boolean('ground truth')
    k = int(n)
    for name in sorted(OK):
        a, b = OK[name]
        f = getattr(err, name)
        good = PointCloud(np.zeros((a[0] if which else b[0], 2)))
        bad = PointCloud(np.zeros((k, 2)))
        allowed = b if which else a
        if k in allowed:
            continue
        V.check(name + ' refuses other sizes', raises(ValueError, (lambda: f(good, bad)) if which
                                                      else (lambda: f(bad, good))))


REG.add('face_wrong_sizes', wrong_sizes, timeout=120, max_paths=100, bounds='40-75 landmarks')
