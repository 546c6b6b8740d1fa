"""C24 - building blocks of training: reference shapes and frames, normalisation, warping and patches."""
import contextlib
import io
import warnings
from fractions import Fraction as F
from checks.common import *
from checks.images import image, as_float, interpolation, bilinear, warps
from checks.C12 import FakeImage, Feature
from menpo.image import Image, MaskedImage
from menpo.shape import PointCloud, TriMesh
from menpo.transform import Scale
import menpofit.builder as mb
from menpofit.transform import DifferentiablePiecewiseAffine, DifferentiableThinPlateSplines

REG = Registry('C24')
REG.assumptions = ['images are represented by the coordinate changes that rescaling and features apply to them',
                   'generalised Procrustes analysis is menpo\'s']
REG.outside = ['the pixels of rescaled images (menpo)', 'rasterisation of meshes (menpo)']


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        yield


# ------------------------------------------------------------------ reference shape
def add_reference(n, k, kind):
    def h(V):
        pts = [V.reals('s%d' % i, (k, 2), -4, 4) for i in range(n)]
        tri = np.array([[0, 1, 2]])
        shapes = [TriMesh(p, trilist=tri, copy=False) if kind == 'mesh' else PointCloud(p, copy=False) for p in pts]
        keep = [np.array(p) for p in pts]
        mean = sum(np.asarray(p) for p in pts[1:]) + np.asarray(pts[0])
        mean = mean / n
        verbose = bool(V.boolean('verbose'))
        d = None
        if kind != 'none':
            d = V.real('d', 0.5, 8)
        with quiet():
            r = mb.compute_reference_shape(shapes, d, verbose=verbose)
        if kind == 'none':
            V.eq('mean of the shapes', r.points, mean)
            with quiet():
                V.eq('zero is no diagonal', mb.compute_reference_shape(shapes, 0).points, mean)
        else:
            rng = [max(np.asarray(r.points)[:, a].tolist()) - min(np.asarray(r.points)[:, a].tolist()) for a in range(2)]
            V.close('diagonal of the bounding box', rng[0] * rng[0] + rng[1] * rng[1], d * d, 1e-9)
            R = np.asarray(r.points)
            for i in range(k):
                for a in range(2):
                    V.eq('scaled mean %d %d' % (i, a), R[i, a] * mean[0, 0], mean[i, a] * R[0, 0])
                    V.check('not mirrored %d %d' % (i, a), R[i, a] * mean[i, a] >= 0)
        V.check('points', r.n_points == k)
        for a, b in zip(shapes, keep):
            V.eq('shapes left alone', a.points, b)
        if kind == 'mesh':
            V.check('still a mesh', isinstance(r, TriMesh) and np.array_equal(r.trilist, tri))
    REG.add('reference_%d_%d_%s' % (n, k, kind), h, timeout=120, max_paths=300, bounds='%d shapes of %d points' % (n, k))


add_reference(1, 3, 'none')
add_reference(3, 4, 'none')
add_reference(2, 3, 'diagonal')
add_reference(1, 3, 'mesh')
add_reference(7, 2, 'none')
add_reference(5, 2, 'diagonal')


# ------------------------------------------------------------------ normalised images
def pipeline_images(V, n, group='g'):
    ims = []
    for i in range(n):
        im = FakeImage(V)
        im.tag = i
        im.landmarks[group] = PointCloud(V.reals('p%d' % i, (3, 2), -3, 3), copy=False)
        im.landmarks['other'] = PointCloud(np.zeros((3, 2)) + i)
        ims.append(im)
    return ims


def rescaled(V):
    n = int(V.integer('n', 1, 6))
    ims = pipeline_images(V, n)
    ref = PointCloud(V.reals('ref_shape', (3, 2), -3, 3), copy=False)
    seen = []
    for im in ims:
        f = lambda pc, group=None, im=im, **k: (seen.append((im, pc, group)), ('out', im.tag))[1]
        im.rescale_to_pointcloud = f
    verbose = bool(V.boolean('verbose'))
    with quiet():
        out = mb.rescale_images_to_reference_shape(ims, 'g', ref, verbose=verbose)
    V.check('one per image, in order', out == [('out', i) for i in range(n)])
    V.check('landmarks of the group are brought to the reference shape',
            [(s[0], s[2]) for s in seen] == [(im, 'g') for im in ims])
    for s in seen:
        V.eq('reference', s[1].points, ref.points)
    # both steps together
    del seen[:]
    d = pick(V, 'diag', [None, 5.])
    with quiet(), patched((mb, 'compute_reference_shape', lambda s, dd, verbose=False: (s, dd))):
        r, out = mb.normalization_wrt_reference_shape(ims, 'g', d, verbose=verbose)
    V.check('reference of all shapes', [x is im.landmarks['g'] or np.array_equal(x.points, im.landmarks['g'].points)
                                        for x, im in zip(r[0], ims)] == [True] * n and len(r[0]) == n and r[1] == d)
    V.check('normalised', out == [('out', i) for i in range(n)] and [s[0] for s in seen] == ims and
            all(s[1] is r and s[2] == 'g' for s in seen))


REG.add('rescaled_images', rescaled, bounds='1..6 images')


def features(V):
    n = int(V.integer('n', 1, 6))
    ims = pipeline_images(V, n)
    f = Feature(V, 'f')
    verbose = bool(V.boolean('verbose'))
    with quiet():
        out = mb.compute_features(ims, f, prefix=pick(V, 'prefix', ['', 'scale 1: ']), verbose=verbose)
    V.check('computed once per image', f.n == n and len(out) == n)
    for a, b in zip(ims, out):
        V.check('a feature image', b.log == [('f', 'f')])
        V.eq('coordinates', b.to_input(b.landmarks['g'].points), a.landmarks['g'].points)


REG.add('features', features, bounds='1..6 images')


def scaled(V):
    n = int(V.integer('n', 1, 6))
    ims = pipeline_images(V, n)
    for im in ims:
        im.n_dims = 2
    s = pick(V, 'scale', [0.25, 0.5, 1, 1.0, 1.5, 2, None])
    if s is None:
        s = V.real('any scale', 0.25, 2)
    tr, verbose = bool(V.boolean('tr')), bool(V.boolean('verbose'))
    kw = dict(return_transforms=True) if tr else {}
    with quiet():
        r = mb.scale_images(ims, s, prefix=pick(V, 'prefix', ['', 'scale 1: ']), verbose=verbose, **kw)
    out, ts = r if tr else (r, None)
    V.check('one per image', len(out) == n and (ts is None or len(ts) == n))
    for i, (a, b) in enumerate(zip(ims, out)):
        if s == 1:
            V.check('the image itself', b is a)
        else:
            V.check('rescaled by the factor', b.log == [('s', s)])
        V.eq('coordinates', b.to_input(b.landmarks['g'].points), a.landmarks['g'].points)
        V.check('order %d' % i, np.array_equal(np.asarray(a.landmarks['other'].points), np.zeros((3, 2)) + i))
        if tr:
            V.eq('transform to the original image', ts[i].apply(np.asarray(b.landmarks['g'].points).view(symnp.SArr)
                                                               if V.sym else b.landmarks['g'].points),
                 a.landmarks['g'].points)


REG.add('scaled_images', scaled, max_paths=1500, bounds='1..6 images, any scale between 1/4 and 2')

# ------------------------------------------------------------------ frames
SHAPES = {'tri': np.array([[0., 0.], [4., 1.], [1., 5.]]), 'quad': np.array([[-3., 2.], [-1., 6.], [1.5, 2.5], [2., 5.]]),
          'far': np.array([[100., -50.], [103., -50.], [100., -46.], [104., -45.]])}


def weights(p, tri):
    """barycentric coordinates (floats)"""
    (a, b), (c, d), (e, f) = [[float(v) for v in r] for r in tri]
    D = (c - a) * (f - b) - (e - a) * (d - b)
    l2 = ((p[0] - a) * (f - b) - (e - a) * (p[1] - b)) / D
    l3 = ((c - a) * (p[1] - b) - (p[0] - a) * (d - b)) / D
    return [1 - l2 - l3, l2, l3]


def inside(p, tri, eps=1e-9):
    s = []
    for i in range(3):
        a, b = tri[i], tri[(i + 1) % 3]
        s.append((b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0]))
    return all(v >= -eps for v in s) or all(v <= eps for v in s)


def frames(V):
    pts = SHAPES[pick(V, 'shape', sorted(SHAPES))]
    kw = {}
    b = int(V.integer('boundary', -1, 4))
    if b < 0:
        b = 3
    else:
        kw['boundary'] = b
    group = pick(V, 'group', [None, 'g'])
    if group:
        kw['group'] = group
    mesh = bool(V.boolean('mesh'))
    tri = np.array([[0, 1, 2]] + ([[1, 2, 3]] if len(pts) == 4 else []))
    shape = TriMesh(pts, trilist=tri) if mesh else PointCloud(pts)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        f = mb.build_reference_frame(shape, **kw)
    V.check('warned unless the triangulation was given',
            any(issubclass(x.category, mb.MenpoFitModelBuilderWarning) for x in w) == (not mesh))
    V.check('a masked image', isinstance(f, MaskedImage))
    g = group or 'source'
    V.check('landmarks', list(f.landmarks) == [g])
    q = pts - pts.min(0) + b
    V.check('margin on every side', np.allclose(as_float(f.landmarks[g].points), q))
    far = np.array(f.shape) - q.max(0)
    V.check('size', np.all(far >= b - 1e-9) and np.all(far < b + 1))
    m = f.mask.mask
    for y, x in np.ndindex(*f.shape):
        ins = any(inside((y, x), q[t]) for t in tri)
        strictly = any(inside((y, x), q[t], -1e-6) for t in tri)
        if mesh:
            V.check('mask inside the mesh', not m[y, x] or ins)
            V.check('mask covers the mesh', m[y, x] or not strictly)
    V.check('shape left alone', np.array_equal(as_float(shape.points), pts))


REG.add('reference_frames', frames, max_paths=300, timeout=120, bounds='3 shapes, margins 0..4')


def patch_frames(V):
    pts = SHAPES[pick(V, 'shape', sorted(SHAPES))]
    kw = {}
    b = int(V.integer('boundary', -1, 2))
    if b < 0:
        b = 3
    else:
        kw['boundary'] = b
    ps = pick(V, 'patch', [(3, 3), (5, 3), (2, 4), None])
    if ps is None:
        ps = (17, 17)
    else:
        kw['patch_shape'] = ps
    f = mb.build_patch_reference_frame(PointCloud(pts), **kw)
    B = max(ps) + b
    q = pts - pts.min(0) + B
    V.check('landmarks and margin', list(f.landmarks) == ['source'] and np.allclose(as_float(f.landmarks['source'].points), q))
    m = f.mask.mask
    for y, x in np.ndindex(*f.shape):
        near = np.abs(q - [y, x])
        if np.any((near[:, 0] < ps[0] / 2. - 1) & (near[:, 1] < ps[1] / 2. - 1)):
            V.check('patches are in the mask', m[y, x])
        if not np.any((near[:, 0] <= ps[0] / 2. + 1) & (near[:, 1] <= ps[1] / 2. + 1)):
            V.check('nothing else is in the mask', not m[y, x])
    V.check('patch sized', m.sum() <= len(pts) * ps[0] * ps[1])


REG.add('patch_reference_frames', patch_frames, max_paths=300, timeout=200, bounds='3 shapes, margins 0..2, 4 patch shapes')


# ------------------------------------------------------------------ warping
def add_warp(kind, n=2):
    def h(V):
        pts = np.array([[0., 0.], [3., 0.], [0., 3.]]) if kind == 'affine' else np.array([[0., 0.], [0., 3.], [3., 0.], [3., 3.]])
        tri = np.array([[0, 1, 2]] + ([[1, 2, 3]] if kind != 'affine' else []))
        frame = mb.build_reference_frame(TriMesh(pts, trilist=tri), boundary=1)
        src = as_float(frame.landmarks['source'].points)
        ims = [image(V, 'I%d' % i, (7, 8), ch=2, masked=False) for i in range(n)]
        base = [np.array([[1.5, 0.5], [5., 1.], [2., 6.], [6., 6.5]]), np.array([[0.5, 2.], [1., 6.], [6., 1.5], [5., 5.]])]
        base = [base[i % 2] + 0.25 * (i // 2) for i in range(n)]
        for i, im in enumerate(ims):
            im.landmarks['mine'] = PointCloud(np.zeros((1, 2)))
        shapes = [PointCloud(base[i][:len(pts)].copy()) for i in range(n)]
        px = [np.array(im.pixels) for im in ims]
        verbose = bool(V.boolean('verbose'))
        with quiet(), patched(*warps(V)):
            out = mb.warp_images(ims, shapes, frame, DifferentiablePiecewiseAffine, verbose=verbose)
        V.check('one per image', len(out) == n)
        idx = frame.mask.true_indices()
        for i, o in enumerate(out):
            V.check('masked by the frame', isinstance(o, MaskedImage) and np.array_equal(o.mask.mask, frame.mask.mask))
            V.check('landmarks of the frame', list(o.landmarks) == ['source'] and
                    np.array_equal(o.landmarks['source'].points, src))
            V.check('channels', o.n_channels == 2)
            where = []
            for p in idx:
                for t in tri:
                    if inside(p, src[t]):
                        where.append([float(v) for v in np.array(weights(p, src[t])).dot(base[i][t])])
                        break
            want = bilinear(px[i], where) if V.sym else None
            if not V.sym:
                from scipy.ndimage import map_coordinates
                want = np.stack([map_coordinates(c, np.array(where).T, order=1) for c in px[i]])
            V.close('pixels of image %d' % i, np.asarray(o.pixels)[:, frame.mask.mask], want, 1e-9)
            V.check('image landmarks left alone', list(ims[i].landmarks) == ['mine'])
            V.eq('image left alone', ims[i].pixels, px[i])
        V.check('frame left alone', list(frame.landmarks) == ['source'] and np.array_equal(as_float(frame.landmarks['source'].points), src))
        V.check('shapes left alone', all(np.array_equal(as_float(s.points), base[i][:len(pts)]) for i, s in enumerate(shapes)))
    REG.add('warp_%s_%d' % (kind, n), h, timeout=120, bounds='%d images of 7 x 8 with 2 channels, %s frame' % (n, kind))


class Between(object):
    """stand-in for a landmark driven transform: remembers what it maps"""
    n_dims = 2

    def __init__(self, source, target):
        self.source, self.target = source, target

    def set_target(self, t):
        self.target = t
        return self

    def copy(self):
        return Between(self.source, self.target)


def warp_any(V):
    """each image is sampled at the transform to its own shape, however similar the shapes are"""
    n = int(V.integer('n', 1, 6))
    pts = np.array([[0., 0.], [0., 3.], [3., 0.]])
    frame = mb.build_reference_frame(TriMesh(pts, trilist=np.array([[0, 1, 2]])), boundary=1)
    ims = [Image(np.full((1, 4, 4), float(i))) for i in range(n)]
    shapes = [PointCloud(V.reals('s%d' % i, (3, 2), -3, 3), copy=False) for i in range(n)]
    s0 = [np.array(s.points) for s in shapes]
    log = []

    def warp_to_mask(self, mask, transform, warp_landmarks=True, **kw):
        log.append((self, mask, np.array(transform.source.points), np.array(transform.target.points), warp_landmarks))
        return MaskedImage(np.zeros((1,) + mask.shape), mask=mask.copy())
    with quiet(), patched((Image, 'warp_to_mask', warp_to_mask)):
        out = mb.warp_images(ims, shapes, frame, Between)
    V.check('one per image', len(out) == n and len(log) == n)
    for i, (im, mask, a, b, lm) in enumerate(log):
        V.check('image %d' % i, im is ims[i] and np.array_equal(mask.mask, frame.mask.mask))
        V.eq('from the frame %d' % i, sarr(a.tolist()), sarr(np.asarray(frame.landmarks['source'].points).tolist()))
        V.eq('to its shape %d' % i, sarr(b.tolist()), sarr(s0[i].tolist()))
        V.eq('shape left alone %d' % i, shapes[i].points, s0[i])


REG.add('warp_any_shapes', warp_any, timeout=120, bounds='up to 6 images, any shapes of 3 points')


add_warp('affine')
add_warp('affine', 5)
add_warp('two triangles')


def add_patches(ps):
    def h(V):
        n = pick(V, 'n', [1, 2, 6])
        norm, verbose = bool(V.boolean('norm')), bool(V.boolean('verbose'))
        ims = [image(V, 'I%d' % i, (7, 6), ch=2, masked=False) for i in range(n)]
        c = [np.array([[3., 2.], [2., 4.], [4., 3.]]), np.array([[1., 1.], [5., 4.], [0., 5.]])]
        c = [(c[i % 2] + [i // 2, 0]) for i in range(n)]
        shapes = [PointCloud(x) for x in c]
        px = [np.array(im.pixels) for im in ims]
        kw = {}
        if norm:
            kw['normalise_function'] = lambda x: 3 * x + 1
        with quiet():
            out = mb.extract_patches(ims, shapes, ps, verbose=verbose, **kw)
        V.check('one per image', len(out) == n and all(isinstance(o, Image) for o in out))
        for i in range(n):
            want = np.empty((3, 1, 2) + ps, dtype=object)
            for k, ch, y, x in np.ndindex(3, 2, *ps):
                v, u = int(c[i][k, 0]) - ps[0] // 2 + y, int(c[i][k, 1]) - ps[1] // 2 + x
                z = px[i][ch, v, u] if 0 <= v < 7 and 0 <= u < 6 else 0
                want[k, 0, ch, y, x] = 3 * z + 1 if norm else z
            V.eq('patches of image %d' % i, out[i].pixels, sarr(want.tolist()))
            V.eq('image left alone', ims[i].pixels, px[i])
    REG.add('patches_%dx%d' % ps, h, bounds='1, 2 or 6 images of 7 x 6, 3 landmarks, patches %s' % (ps,))


add_patches((3, 3))
add_patches((2, 3))
add_patches((4, 1))


# ------------------------------------------------------------------ dense shapes, alignment
def dense(V):
    pts = np.array([[0., 0.], [0., 4.], [4., 0.], [4., 4.]])
    tri = np.array([[0, 1, 2], [1, 2, 3]])
    frame = mb.build_reference_frame(TriMesh(pts, trilist=tri), boundary=1)
    src = as_float(frame.landmarks['source'].points)
    n = pick(V, 'n', [1, 2, 6])
    shapes = [PointCloud(V.reals('s%d' % i, (4, 2), -5, 5), copy=False) for i in range(n)]
    keep = [np.array(s.points) for s in shapes]
    out = mb.densify_shapes(shapes, frame, DifferentiablePiecewiseAffine)
    V.check('one per shape', len(out) == n)
    idx = frame.mask.true_indices()
    for i in range(n):
        V.check('a point per landmark and frame pixel', out[i].n_points == 4 + len(idx))
        V.eq('landmarks first', np.asarray(out[i].points)[:4], keep[i])
        for k, p in enumerate(idx):
            t = [t for t in tri if inside(p, src[t])][0]
            l = weights(p, src[t])
            want = sum(float(a) * keep[i][j] for a, j in zip(l, t))
            V.close('pixel %d' % k, np.asarray(out[i].points)[4 + k], want, 1e-9)
        V.eq('shape left alone', shapes[i].points, keep[i])


REG.add('dense_shapes', dense, bounds='1, 2 or 6 shapes of 4 points')


def aligned(V):
    n = int(V.integer('n', 1, 6))
    shapes = [PointCloud(V.reals('s%d' % i, (3, 2), -5, 5), copy=False) for i in range(n)]
    keep = [np.array(s.points) for s in shapes]
    seen = []

    def gpa(sources, *a, **k):
        seen.append((sources, a, k))
        return rec(transforms=[rec(aligned_source=lambda i=i: ('aligned', i)) for i in range(len(sources))])
    with patched((mb, 'GeneralizedProcrustesAnalysis', gpa)):
        out = mb.align_shapes(shapes)
    if n == 1:
        # nothing to align with
        V.eq('a single shape is centred', out[0].points, keep[0] - keep[0].sum(0) / 3)
        V.eq('shape left alone', shapes[0].points, keep[0])
        V.check('one shape', len(out) == 1)
        return
    V.check('aligned shapes, in order', list(out) == [('aligned', i) for i in range(n)])
    V.check('all shapes at once', len(seen) == 1 and len(seen[0][0]) == n)
    for i, s in enumerate(seen[0][0]):
        c = keep[i].sum(0) / 3
        V.eq('centred shape %d' % i, s.points, keep[i] - c)
        V.eq('shape left alone', shapes[i].points, keep[i])


REG.add('aligned_shapes', aligned, bounds='1..6 shapes of 3 points')
