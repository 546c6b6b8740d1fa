"""C26 - training: every scale sees the right images, shapes and frames, batch after batch."""
import contextlib
import io
import warnings
from fractions import Fraction as F
from checks.common import *
from checks.C12 import FakeImage, Frame, Feature
from menpo.feature import no_op
from menpo.image import Image, MaskedImage
from menpo.landmark import LandmarkManager
from menpo.model import PCAModel, GMRFModel
from menpo.shape import PointCloud, TriMesh, UndirectedGraph, DirectedGraph, Tree, mean_pointcloud
from menpo.transform import Scale, AlignmentSimilarity
import menpofit.builder as mb
from menpofit.modelinstance import OrthoPDM
from menpofit.transform import DifferentiablePiecewiseAffine, DifferentiableThinPlateSplines
from menpofit.aam.base import (HolisticAAM, MaskedAAM, LinearAAM, LinearMaskedAAM, PatchAAM)
from menpofit.atm.base import HolisticATM, MaskedATM, LinearATM, LinearMaskedATM, PatchATM
from menpofit.clm.base import CLM
from menpofit.aps.base import GenerativeAPS
from menpofit.unified_aam_clm.base import UnifiedAAMCLM

REG = Registry('C26')
REG.assumptions = ['images are represented by the (arbitrary) coordinate changes that rescaling and features apply to them',
                   'landmarks of the training images are fixed shapes where frames are rasterised from them',
                   'the builder functions themselves (decided in C24) and the models (C03, C04) are stand-ins that record what they are given']
REG.outside = ['PCA and Gaussian Markov random fields (menpo)', 'Gaussian smoothing of more than 3 channels of 4 x 5 pixels']

TRI = np.array([[0, 1, 2], [0, 2, 3]])
BASE = np.array([[0., 1.], [9., 0.], [10., 11.], [1., 12.]])
JIT = np.array([[[0, 0], [0, 0], [0, 0], [0, 0]], [[1, 0], [.5, -1], [0, 1], [0, .25]], [[-1, .5], [0, 1], [1, 0], [-.5, 0]],
                [[0, 1], [1, 0], [0, -1], [.75, 0]], [[.5, .5], [0, 0], [-1, 1], [0, 1]]]) * 0.75


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        yield


class Log(object):
    """what the stand-ins were given"""

    def __init__(self):
        self.patches = {}

    def patch_id(self, *what):
        k = 1000. + len(self.patches)
        self.patches[k] = what
        return k


class Img(FakeImage):
    tag, fixed, rec_ = None, False, None
    n_dims, n_channels = 2, 1
    shape = (2, 2)

    def child(self, frame, what):
        c = Img(self.V, self.frames + [frame], self.log + [what])
        c.tag, c.fixed, c.rec_ = self.tag, self.fixed, self.rec_
        for g in self.landmarks:
            p = frame.down(self.landmarks[g].points)
            p = np.asarray(p, dtype=float) if self.fixed else sarr(p.tolist())
            o = self.landmarks[g]
            c.landmarks[g] = TriMesh(p, trilist=o.trilist, copy=False) if isinstance(o, TriMesh) else PointCloud(p, copy=False)
        return c

    def factor(self, key):
        d = self.V.__dict__.setdefault('factors', {})
        k = (self.tag,) + key
        if k not in d:
            if self.fixed:
                d[k] = [.75, 1.5, 1.25, .5, 2., .875, 1.125][len(d) % 7]
            else:
                d[k] = self.V.real('fac%s' % '_'.join(map(str, k)).replace('.', 'p'), 0.5, 2)
        return d[k]

    def rescale_to_pointcloud(self, pc, group=None, round='ceil', order=1, return_transform=False, **kw):
        self.V.check('rescaled with respect to the landmarks of the group', group == 'g')
        s = self.factor(('ref',))
        return self.child(Frame([s, s], [0, 0]), ('ref', np.array(pc.points)))

    def rescale(self, scale, round='ceil', order=1, return_transform=False, **kw):
        s = self.factor(('s', scale))
        c = self.child(Frame([s, s], [0, 0]), ('s', scale))
        return (c, None) if return_transform else c

    def warp_to_mask(self, mask, transform, warp_landmarks=True, **kw):
        return Warped(self, mask, transform)

    def extract_patches(self, centers, patch_shape=(16, 16), sample_offsets=None, as_single_array=True, **kw):
        k = self.rec_.patch_id(self, np.array(centers.points), tuple(patch_shape))
        return np.full((centers.n_points, 1, 1) + tuple(patch_shape), k)


class Warped(object):
    def __init__(self, image, mask, transform):
        self.image, self.mask = image, np.array(mask.pixels)
        self.source, self.target = np.array(transform.source.points), np.array(transform.target.points)
        self.landmarks = LandmarkManager()


class FixedFeature(Feature):
    def __init__(self, V, name):
        self.V, self.name, self.n = V, name, 0
        self.frame = Frame([1.25 if name == 'f' else .875] * 2, [1.5, -2.] if name == 'f' else [0., .5])


def feature_list(V, names, fixed=False):
    made = {n: (no_op if n == 'no' else (FixedFeature if fixed else Feature)(V, n)) for n in sorted(set(names))}
    return [made[n] for n in names]


def images(V, first, n, rec_, fixed, symbolic_marks=False):
    out = []
    for i in range(first, first + n):
        im = Img(V)
        im.tag, im.fixed, im.rec_ = i, fixed, rec_
        p = V.reals('lm%d' % i, (4, 2), -4, 4) if symbolic_marks else BASE + JIT[i % 5]
        im.landmarks['g'] = TriMesh(p, trilist=TRI, copy=False)
        im.landmarks['other'] = PointCloud(np.zeros((4, 2)) + i)
        out.append(im)
    return out


def reference(V, marks, diagonal):
    """independent reference shape"""
    m = sum(marks[1:], marks[0]) / len(marks)
    if diagonal is not None:
        r = m.max(axis=0) - m.min(axis=0)
        m = m * (diagonal / np.sqrt((r * r).sum()))
    return m


def same(V, name, a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    V.check(name + ' (shape)', a.shape == b.shape)
    if a.shape == b.shape:
        V.close(name, a, b, tol)


def like(V, name, a, b):
    """equal up to a similarity"""
    a, b = PointCloud(np.asarray(a, dtype=float)), PointCloud(np.asarray(b, dtype=float))
    V.check(name + ' (points)', a.n_points == b.n_points)
    V.check(name, np.allclose(as_f(AlignmentSimilarity(a, b).apply(a).points), as_f(b.points), atol=1e-6))


class Pipeline(object):
    """where an image must be at a scale, from its input"""

    def __init__(self, V, feats, scales):
        self.V, self.feats, self.scales = V, feats, scales

    def check(self, name, image, original, ref, j):
        V, f, s = self.V, self.feats[j], self.scales[j]
        V.check(name + ': image', image.tag == original.tag)
        V.check(name + ': normalised once', [l[0] for l in image.log].count('ref') == 1 and image.log[0][0] == 'ref')
        same(V, name + ': reference', image.log[0][1], ref)
        V.check(name + ': features of the scale', [l[1] for l in image.log if l[0] == 'f'] ==
                ([] if f is no_op else [f.name]))
        V.check(name + ': rescaled by the scale', [l[1] for l in image.log if l[0] == 's'] == ([s] if s != 1 else []))
        same(V, name + ': landmarks follow', image.to_input(image.landmarks['g'].points), original.landmarks['g'].points)


# ------------------------------------------------------------------ recording models
class Models(object):
    """class level stand-ins of the statistical models (restored afterwards)"""

    def __init__(self, warps=True):
        def pca_init(self, samples, centre=True, n_samples=None, max_n_components=None, inplace=True, verbose=False):
            self.events = [('build', list(samples)[:n_samples], centre)]
            if max_n_components is not None:
                self.events.append(('trim', max_n_components))

        def pca_inc(self, samples, n_samples=None, forgetting_factor=1.0, verbose=False):
            self.events.append(('increment', list(samples)[:n_samples], forgetting_factor))

        def pca_trim(self, n_components=None):
            self.events.append(('trim', n_components))

        def gmrf_init(self, samples, graph, mode='concatenation', n_components=None, dtype=np.float64, sparse=True,
                      n_samples=None, bias=0, incremental=False, verbose=False):
            self.events = [('build', list(samples)[:n_samples])]
            self.graph_, self.mode_, self.n_components_, self.dtype_ = graph, mode, n_components, dtype
            self.sparse_, self.bias_, self.incremental_ = sparse, bias, incremental

        def gmrf_inc(self, samples, n_samples=None, verbose=False):
            self.events.append(('increment', list(samples)[:n_samples]))

        def gmrf_pca(self, max_n_components=None):
            return ('pca of', self)

        def pdm_init(self, data, max_n_components=None):
            self.events = [('build', data if isinstance(data, tuple) else list(data), max_n_components)]

        def pdm_inc(self, shapes, n_shapes=None, forgetting_factor=1.0, max_n_components=None, verbose=False):
            self.events.append(('increment', list(shapes)[:n_shapes], forgetting_factor, max_n_components))
        self.p = [(PCAModel, '__init__', pca_init), (PCAModel, 'increment', pca_inc), (PCAModel, 'trim_components', pca_trim),
                  (GMRFModel, '__init__', gmrf_init), (GMRFModel, 'increment', gmrf_inc),
                  (GMRFModel, 'principal_components_analysis', gmrf_pca),
                  (OrthoPDM, '__init__', pdm_init), (OrthoPDM, 'increment', pdm_inc)]

        def warp_init(self, source, target, *a, **k):
            self._source, self._target = source, target

        def warp_sync(self):
            pass
        graph_init = UndirectedGraph.__init__

        def float_graph(self, adjacency_matrix, *a, **k):
            graph_init(self, adjacency_matrix if getattr(adjacency_matrix, 'dtype', None) != object else as_f(adjacency_matrix), *a, **k)
        self.p.append((UndirectedGraph, '__init__', float_graph))
        if warps:
            for c in (DifferentiablePiecewiseAffine, DifferentiableThinPlateSplines):
                self.p += [(c, '__init__', warp_init), (c, '_sync_state_from_target', warp_sync)]

    def __enter__(self):
        self.c = patched(*self.p)
        self.c.__enter__()

    def __exit__(self, *a):
        self.c.__exit__(*a)


class OtherPDM(OrthoPDM):
    pass


def chunks(l, n):
    l = list(l)
    return [l] if n is None else [l[i:i + n] for i in range(0, len(l), n)]


HISTORIES = [[(3, None)], [(3, 2)], [(2, None), (1, None)], [(3, 2), (2, 1)], [(2, 1), (2, None), (1, None)],
             [(3, None), (2, 1), (2, 1)], [(3, 3), (1, 1), (2, 2)],
             [(9, 2)], [(6, None), (1, None), (1, 1), (2, None), (1, None)]]


class Case(object):
    """options spread over the cases (0 .. N - 1) that the solver chooses from"""

    N = 18

    def __init__(self, V):
        self.i = int(V.integer('case', 0, self.N - 1))
        self.n = 0

    def pick(self, options):
        self.n += 1
        return options[(self.i * (1 + self.n // 2) + self.i // len(options) + self.n) % len(options)]


def history(c):
    """(images of a call, batch size) of the constructor and of up to two increments"""
    return HISTORIES[c.i % len(HISTORIES)]


def batches_of(calls, items):
    """[(first ever?, call index, batch)]"""
    out, pos = [], 0
    for c, (n, b) in enumerate(calls):
        for ch in chunks(items[pos:pos + n], b):
            out.append((not out, c, ch))
        pos += n
    return out


def config(c, scales):
    if len(scales) == 1 and c.pick([True, False]):
        return scales[0]
    return c.pick([list, tuple])(scales)


def frame_of(kind, points, patch_shape=None):
    s = TriMesh(np.asarray(points, dtype=float), trilist=TRI)
    with quiet():
        if 'masked' in kind:
            return mb.build_patch_reference_frame(s, patch_shape=patch_shape)
        return mb.build_reference_frame(s)


def check_pdm(V, tag, model, shapes_per_batch, ffs, n, dense=None):
    V.check(tag + 'one event per batch', [e[0] for e in model.events] == ['build'] + ['increment'] * (len(shapes_per_batch) - 1))
    for i, (e, want) in enumerate(zip(model.events, shapes_per_batch)):
        V.check(tag + 'batch %d: shapes' % i, len(e[1]) == len(want))
        V.check(tag + 'batch %d: components' % i, e[-1] == n)
        if i:
            V.eq(tag + 'batch %d: forgetting factor' % i, e[2], ffs[i])
        for k, (a, b) in enumerate(zip(e[1], want)):
            if dense is None:
                same(V, tag + 'batch %d: shape %d' % (i, k), a.points, b)
            else:
                like(V, tag + 'batch %d: dense shape %d' % (i, k), a.points, dense(b))


def check_pca(V, tag, model, per_batch, ffs, n, one):
    i = -1
    limits = []
    for e in model.events:
        if e[0] == 'trim':
            limits[-1] = e[1]
            continue
        i += 1
        limits.append(None)
        V.check(tag + 'batch %d: built first, then incremented' % i, e[0] == ('build' if i == 0 else 'increment'))
        if i < len(per_batch):
            V.check(tag + 'batch %d: images' % i, len(e[1]) == len(per_batch[i]))
            for k, (a, b) in enumerate(zip(e[1], per_batch[i])):
                one(tag + 'batch %d: image %d' % (i, k), a, b)
        if i:
            V.eq(tag + 'batch %d: forgetting factor' % i, e[2], ffs[i])
        else:
            V.check(tag + 'centred', e[2] is True)
    V.check(tag + 'one update per batch', i == len(per_batch) - 1)
    V.check(tag + 'trimmed after every update', limits == [n] * len(per_batch))


def check_warped(V, tag, w, image_check, frame, own):
    image_check(tag, w.image)
    V.check(tag + ': mask of the frame', w.mask.shape == frame.mask.pixels.shape and bool((w.mask == frame.mask.pixels).all()))
    same(V, tag + ': warped from the frame', w.source, frame.landmarks['source'].points)
    same(V, tag + ': to the landmarks of the image', w.target, w.image.landmarks['g'].points)
    V.check(tag + ': source landmarks', 'source' in w.landmarks and
            np.allclose(as_f(w.landmarks['source'].points), as_f(frame.landmarks['source'].points)))


def as_f(x):
    return np.asarray(x, dtype=float)


# ------------------------------------------------------------------ AAM
AAMS = {'holistic': HolisticAAM, 'masked': MaskedAAM, 'linear': LinearAAM, 'linear_masked': LinearMaskedAAM, 'patch': PatchAAM}
PS = [(3, 5), (5, 3), (3, 3), (5, 5), (3, 7), (7, 5)]


def norm_of(k):
    def n(parts):
        return parts + 0.25 * (k + 1)
    return n


def add_aam(kind, feats, scales, given):
    n = len(scales)
    linear = kind.startswith('linear')

    def h(V):
        round_constants(V)
        rec_ = Log()
        cs = Case(V)
        calls = history(cs)
        fixed = linear
        ims = images(V, 0, sum(c[0] for c in calls), rec_, fixed, kind == 'patch' and given)
        fl = feature_list(V, feats, fixed)
        verbose = cs.pick([True, False])
        diag = cs.pick([None, 20.]) if not given else 20.
        msc, mac = cs.pick([(None, None), ([2 + i for i in range(n)], [5 + i for i in range(n)]), (3, 4)])
        kw = dict(group='g', scales=config(cs, scales), diagonal=diag, holistic_features=fl if len(set(feats)) > 1 else fl[0],
                  max_shape_components=msc, max_appearance_components=mac, batch_size=calls[0][1], verbose=verbose)
        classes = cs.pick([OrthoPDM, [OtherPDM if j % 2 else OrthoPDM for j in range(n)]])
        kw['shape_model_cls'] = classes
        transform = DifferentiableThinPlateSplines if 'masked' in kind else DifferentiablePiecewiseAffine
        if linear and kind == 'linear':
            transform = DifferentiableThinPlateSplines
        if kind == 'holistic':
            transform = cs.pick([DifferentiablePiecewiseAffine, DifferentiableThinPlateSplines])
            kw['transform'] = transform
        ps = [PS[j] for j in range(n)]
        if 'masked' in kind or kind == 'patch':
            kw['patch_shape'] = ps
        norms = [norm_of(j) for j in range(n)]
        if kind == 'patch':
            kw['patch_normalisation'] = norms
        ref = None
        if given:
            kw['reference_shape'] = TriMesh(BASE * 1.5 + 2, trilist=TRI)
            ref = BASE * 1.5 + 2
        before = [{g: np.array(im.landmarks[g].points) for g in im.landmarks} for im in ims]
        ffs_call = [(None, None)]
        with Models(not linear), quiet():
            m = AAMS[kind](ims[:calls[0][0]] if cs.pick([True, False]) else tuple(ims[:calls[0][0]]), **kw)
            pos = calls[0][0]
            for c, (k, b) in enumerate(calls[1:]):
                a, s = V.real('aff%d' % c, 0.25, 1), V.real('sff%d' % c, 0.25, 1)
                ffs_call.append((s, a))
                m.increment(ims[pos:pos + k], group='g', shape_forgetting_factor=s, appearance_forgetting_factor=a,
                            verbose=verbose, batch_size=b)
                pos += k
        bs = batches_of(calls, ims)
        if ref is None:
            ref = reference(V, [as_f(i.landmarks['g'].points) for i in bs[0][2]], diag)
        same(V, 'reference shape', m.reference_shape.points, ref)
        V.check('scales', m.n_scales == n and list(m.scales) == list(scales))
        V.check('one model per scale', len(m.shape_models) == n and len(m.appearance_models) == n)
        for im, b in zip(ims, before):
            for g in b:
                same(V, 'images left alone', im.landmarks[g].points, b[g])
        pipe = Pipeline(V, fl, scales)
        one_ff = [1.0] * 2
        sff = [1.0 if ffs_call[c][0] is None else ffs_call[c][0] for _, c, _ in bs]
        aff = [1.0 if ffs_call[c][1] is None else ffs_call[c][1] for _, c, _ in bs]
        # batches of the constructor after the first increment without forgetting
        for j in range(n):
            tag = 'scale %d: ' % j
            sm, am = m.shape_models[j], m.appearance_models[j]
            V.check(tag + 'class of the shape model', type(sm) is (classes[j] if isinstance(classes, list) else classes))
            nsc = msc[j] if isinstance(msc, list) else msc
            nac = mac[j] if isinstance(mac, list) else mac
            at = {}

            def scaled(im, j=j, at=at):
                if im.tag not in at:
                    p = np.asarray(im.landmarks['g'].points)
                    f = [im.factor(('ref',))]
                    q = p / f[0]
                    if fl[j] is not no_op:
                        q = fl[j].frame.down(q)
                    if scales[j] != 1:
                        q = q / im.factor(('s', scales[j]))
                    at[im.tag] = q
                return at[im.tag]
            shapes = [[scaled(i) for i in b] for _, _, b in bs]
            if linear:
                al = mb.align_shapes([TriMesh(as_f(s), trilist=TRI) for s in shapes[0]])
                frame = frame_of(kind, mean_pointcloud(al).points, ps[j])

                def dense(s):
                    return mb.densify_shapes([TriMesh(as_f(s), trilist=TRI)], frame, transform)[0].points
                check_pdm(V, tag, sm, shapes, sff, nsc, dense)
            else:
                check_pdm(V, tag, sm, shapes, sff, nsc)
                frame = None if kind == 'patch' else frame_of(kind, scales[j] * ref, ps[j])

            def one(name, w, im, j=j, frame=frame):
                ic = lambda nm, x: pipe.check(nm, x, im, ref, j)
                if kind == 'patch':
                    check_patch(V, name, w, rec_, ic, ps[j], 0.25 * (j + 1))
                else:
                    check_warped(V, name, w, ic, frame, im)
            check_pca(V, tag, am, [b for _, _, b in bs], aff, nac, one)
    REG.add('aam_%s_%s_%s%s' % (kind, ''.join(feats), '_'.join(str(s).replace('.', 'p') for s in scales), '_given' if given else ''),
            h, timeout=200, max_paths=3000, bounds='up to 9 images in up to 5 batches, up to four increments, %d scales' % n)


def check_patch(V, name, w, rec_, image_check, ps, shift):
    v = np.unique(as_f(w.pixels))
    V.check(name + ': normalised patches of one image', v.size == 1 and (v[0] - shift) in rec_.patches)
    if v.size != 1 or (v[0] - shift) not in rec_.patches:
        return
    im, centres, shape = rec_.patches[v[0] - shift]
    image_check(name, im)
    same(V, name + ': around its landmarks', centres, im.landmarks['g'].points)
    V.check(name + ': patch shape of the scale', shape == tuple(ps))


add_aam('holistic', ['no', 'no'], [0.5, 1.0], False)
add_aam('holistic', ['f'], [1], True)
add_aam('holistic', ['f', 'f', 'g'], [0.25, 0.5, 1.0], False)
add_aam('holistic', ['f', 'g'], [0.5, 0.75], True)
add_aam('masked', ['no', 'f'], [0.5, 1.0], False)
add_aam('masked', ['f', 'f'], [0.5, 1], True)
add_aam('linear', ['f', 'g'], [0.5, 1.0], False)
add_aam('linear', ['no'], [1.0], True)
add_aam('linear_masked', ['f', 'f'], [0.5, 1.0], False)
add_aam('patch', ['no', 'f'], [0.5, 1.0], False)
add_aam('patch', ['f', 'g', 'f'], [0.25, 0.5, 1.0], True)


# ------------------------------------------------------------------ ATM
ATMS = {'holistic': HolisticATM, 'masked': MaskedATM, 'linear': LinearATM, 'linear_masked': LinearMaskedATM, 'patch': PatchATM}


def add_atm(kind, feats, scales, given):
    n = len(scales)
    linear = kind.startswith('linear')

    def h(V):
        round_constants(V)
        rec_ = Log()
        cs = Case(V)
        calls = history(cs)
        total = sum(c[0] for c in calls)
        free = given and not linear
        shapes = [TriMesh(V.reals('shape%d' % i, (4, 2), -4, 4) if free else BASE + JIT[i % 5], trilist=TRI, copy=False) for i in range(total)]
        keep = [np.array(s.points) for s in shapes]
        templates = images(V, 0, len(calls), rec_, linear, kind == 'patch' and given)
        fl = feature_list(V, feats, linear)
        verbose = cs.pick([True, False])
        diag = cs.pick([None, 20.]) if not given else 20.
        msc = cs.pick([None, [2 + i for i in range(n)], 3])
        kw = dict(group='g', scales=config(cs, scales), diagonal=diag, holistic_features=fl if len(set(feats)) > 1 else fl[0],
                  max_shape_components=msc, batch_size=calls[0][1], verbose=verbose)
        classes = OrthoPDM
        if kind == 'holistic':
            classes = cs.pick([OrthoPDM, [OtherPDM if j % 2 else OrthoPDM for j in range(n)]])
            kw['shape_model_cls'] = classes
        transform = DifferentiableThinPlateSplines
        if kind in ('holistic', 'linear'):
            transform = kw['transform'] = cs.pick([DifferentiablePiecewiseAffine, DifferentiableThinPlateSplines])
        ps = [PS[j] for j in range(n)]
        if 'masked' in kind or kind == 'patch':
            kw['patch_shape'] = ps
        if kind == 'patch':
            kw['patch_normalisation'] = norm_of(0)
        ref = None
        if given:
            kw['reference_shape'] = TriMesh(BASE * 1.5 + 2, trilist=TRI)
            ref = BASE * 1.5 + 2
        ffs_call = [1.0]
        with Models(not linear), quiet():
            m = ATMS[kind](templates[0], shapes[:calls[0][0]] if cs.pick([True, False]) else tuple(shapes[:calls[0][0]]), **kw)
            pos = calls[0][0]
            for c, (k, b) in enumerate(calls[1:]):
                ffs_call.append(V.real('sff%d' % c, 0.25, 1))
                m.increment(templates[c + 1], shapes[pos:pos + k], group='g', shape_forgetting_factor=ffs_call[-1],
                            verbose=verbose, batch_size=b)
                pos += k
        bs = batches_of(calls, list(zip(shapes, keep)))
        if ref is None:
            ref = reference(V, [as_f(p) for _, p in bs[0][2]], diag)
        same(V, 'reference shape', m.reference_shape.points, ref)
        V.check('scales', m.n_scales == n and list(m.scales) == list(scales))
        V.check('one model per scale', len(m.shape_models) == n and len(m.warped_templates) == n)
        for s, p in zip(shapes, keep):
            same(V, 'shapes left alone', s.points, p)
        pipe = Pipeline(V, fl, scales)
        sff = [ffs_call[c] for _, c, _ in bs]
        last = templates[len(calls) - 1]
        for j in range(n):
            tag = 'scale %d: ' % j
            sm, t = m.shape_models[j], m.warped_templates[j]
            V.check(tag + 'class of the shape model', type(sm) is (classes[j] if isinstance(classes, list) else classes))
            nsc = msc[j] if isinstance(msc, list) else msc
            scaled = [[p * scales[j] for _, p in b] for _, _, b in bs]
            frame, dense = None, None
            if linear:
                al = mb.align_shapes([TriMesh(as_f(s), trilist=TRI) for s in scaled[0]])
                frame = frame_of(kind, mean_pointcloud(al).points, ps[j])

                def dense(s):
                    return mb.densify_shapes([TriMesh(as_f(s), trilist=TRI)], frame, transform)[0].points
            elif kind != 'patch':
                frame = frame_of(kind, scales[j] * ref, ps[j])
            check_pdm(V, tag, sm, scaled, sff, nsc, dense)
            ic = lambda nm, x: pipe.check(nm, x, last, ref, j)
            if kind == 'patch':
                check_patch(V, tag + 'template', t, rec_, ic, ps[j], 0.25)
            else:
                check_warped(V, tag + 'template', t, ic, frame, last)
    REG.add('atm_%s_%s_%s%s' % (kind, ''.join(feats), '_'.join(str(s).replace('.', 'p') for s in scales), '_given' if given else ''),
            h, timeout=200, max_paths=3000, bounds='up to 9 shapes in up to 5 batches, up to four increments, %d scales' % n)


for kd, fs in (('holistic', ['f', 'g']), ('masked', ['f', 'f']), ('linear', ['g', 'g']), ('linear_masked', ['g', 'f']), ('patch', ['f', 'f'])):
    add_aam(kd, fs, [0.97, 1.03], False)       # scales that differ little from one
    add_atm(kd, fs, [0.97, 1.03], False)
add_aam('holistic', ['f', 'f'], [1.0, 0.993], True)
add_atm('holistic', ['f', 'f'], [0.5, 1.0], False)
add_atm('holistic', ['f', 'g', 'g'], [0.25, 0.5, 1], True)
add_atm('masked', ['f', 'g'], [0.5, 1.0], False)
add_atm('masked', ['f'], [1.0], True)
add_atm('linear', ['f', 'f'], [0.5, 1.0], False)
add_atm('linear_masked', ['f', 'g'], [0.5, 1.0], True)
add_atm('patch', ['f', 'g'], [0.5, 1.0], True)
add_atm('patch', ['f', 'f'], [0.75, 0.5], False)


# ------------------------------------------------------------------ smoothing
def linear_operator(f):
    """a linear function of arrays, evaluated on symbolic ones by its responses to impulses"""
    known = {}

    def g(x, *a, **k):
        x = np.asarray(x)
        key = x.shape, repr(a), repr(sorted(k.items()))
        if key not in known:
            known[key] = []
            for i in np.ndindex(*x.shape):
                e = np.zeros(x.shape)
                e[i] = 1
                known[key].append(f(e, *a, **k))
        out = zeros(x.shape)
        for v, r in zip(x.ravel().tolist(), known[key]):
            for i in zip(*np.nonzero(r)):
                out[i] = out[i] + v * float(r[i])
        return out.view(symnp.SArr)
    return g


def zeros(shape):
    out = np.empty(shape, dtype=object)
    out.ravel()[:] = [E.R.const(0)] * out.size
    return out


def add_smoothing(ch, feat, n_im=2):
    from scipy.ndimage import gaussian_filter

    def h(V):
        round_constants(V)
        sigma = Case(V).pick([0.75, None, 2.0, 0.5])
        seen = []

        class Done(Exception):
            pass

        def take(images_, *a, **k):
            seen.extend(images_)
            raise Done()

        def f(im):
            seen.append(im)
            if len(seen) == n_im:
                raise Done()
            return im
        px = [V.reals('p%d' % i, (ch, 4, 5), -2, 2) for i in range(n_im)]
        keep = [p.copy() for p in px]
        ims = [Image(p, copy=False) for p in px]
        for im in ims:
            im.landmarks['g'] = TriMesh(BASE, trilist=TRI)
        mod = __import__('menpofit.unified_aam_clm.base', fromlist=['x'])
        gf = linear_operator(gaussian_filter) if V.sym else gaussian_filter
        with quiet(), patched((mod, 'rescale_images_to_reference_shape', lambda i, *a, **k: list(i)),
                              (mod, 'scale_images', take),
                              *([(mod, k, gf) for k in ('gaussian_filter',) if V.sym and hasattr(mod, k)])):
            try:
                UnifiedAAMCLM(ims, group='g', reference_shape=TriMesh(BASE, trilist=TRI), scales=[0.5],
                              holistic_features=f if feat else no_op, sigma=sigma)
            except Done:
                pass
        V.check('every image', len(seen) == n_im)
        for i, im in enumerate(seen):
            want = keep[i] if sigma is None else np.stack([np.asarray(gf(np.asarray(c), sigma, mode='constant')) for c in keep[i]])
            V.close('image %d: every channel smoothed on its own' % i, im.pixels, want, tol=1e-9)
            V.eq('image %d: landmarks' % i, im.landmarks['g'].points, BASE)
            V.eq('image %d left alone' % i, px[i], keep[i])
    REG.add('unified_smoothing_%dch%s' % (ch, '_feature' if feat else ''), h, timeout=100,
            bounds='any images of %d channels of 4 x 5 pixels, 3 widths' % ch)


add_smoothing(1, True)
add_smoothing(3, True)
add_smoothing(2, False)


# ------------------------------------------------------------------ CLM and unified
class Experts(object):
    def __init__(self, images, shapes, patch_shape=(17, 17), patch_normalisation=no_op, cosine_mask=True, context_shape=(34, 34),
                 sample_offsets=None, prefix='', verbose=False, **kw):
        self.args = (tuple(patch_shape), patch_normalisation, cosine_mask, tuple(context_shape), sample_offsets, kw)
        self.events = [(list(images), [np.array(s.points) for s in shapes])]

    def increment(self, images, shapes, prefix='', verbose=False):
        self.events.append((list(images), [np.array(s.points) for s in shapes]))


class OtherExperts(Experts):
    pass


def add_clm(kind, feats, scales, given):
    n = len(scales)

    def h(V):
        round_constants(V)
        rec_ = Log()
        cs = Case(V)
        calls = history(cs) if kind == 'clm' else [[(3, None)], [(2, None)], [(7, None)]][cs.i % 3]
        ims = images(V, 0, sum(c[0] for c in calls), rec_, False, kind == 'clm' and given)
        fl = feature_list(V, feats)
        verbose = cs.pick([True, False])
        diag = cs.pick([None, 20.]) if not given else 20.
        msc, mac = cs.pick([(None, None), ([2 + i for i in range(n)], [5 + i for i in range(n)]), (3, 4)])
        kw = dict(group='g', scales=config(cs, scales), diagonal=diag, holistic_features=fl if len(set(feats)) > 1 else fl[0],
                  max_shape_components=msc, verbose=verbose)
        classes = kw['shape_model_cls'] = cs.pick([OrthoPDM, [OtherPDM if j % 2 else OrthoPDM for j in range(n)]])
        experts = kw['expert_ensemble_cls'] = cs.pick([[Experts if j % 2 else OtherExperts for j in range(n)], Experts])
        ps = [PS[j] for j in range(n)]
        ctx = [(7 + j, 9) for j in range(n)]
        cm, so, nrm = cs.pick([True, False]), cs.pick([None, np.array([[0., 1.], [1., 0.]])]), norm_of(1)
        kw.update(patch_shape=cs.pick([ps, PS[0]]), context_shape=cs.pick([ctx, ctx[0]]), cosine_mask=cm, sample_offsets=so, patch_normalisation=nrm)
        if kw['patch_shape'] is PS[0]:
            ps = [PS[0]] * n
        if kw['context_shape'] is ctx[0]:
            ctx = [ctx[0]] * n
        if kind == 'unified':
            kw['max_appearance_components'] = mac
            kw['transform'] = cs.pick([DifferentiablePiecewiseAffine, DifferentiableThinPlateSplines])
            bnd = kw['boundary'] = cs.pick([3, 1, 2])
        else:
            kw['batch_size'] = calls[0][1]
        ref = None
        if given:
            kw['reference_shape'] = TriMesh(BASE * 1.5 + 2, trilist=TRI)
            ref = BASE * 1.5 + 2
        ffs_call = [1.0]
        before = [{g: np.array(im.landmarks[g].points) for g in im.landmarks} for im in ims]
        with Models(), quiet():
            m = (CLM if kind == 'clm' else UnifiedAAMCLM)(ims[:calls[0][0]], **kw)
            pos = calls[0][0]
            for c, (k, b) in enumerate(calls[1:]):
                ffs_call.append(V.real('sff%d' % c, 0.25, 1))
                m.increment(ims[pos:pos + k], group='g', shape_forgetting_factor=ffs_call[-1], verbose=verbose, batch_size=b)
                pos += k
        bs = batches_of(calls, ims)
        if ref is None:
            ref = reference(V, [as_f(i.landmarks['g'].points) for i in bs[0][2]], diag)
        same(V, 'reference shape', m.reference_shape.points, ref)
        V.check('scales', m.n_scales == n and list(m.scales) == list(scales))
        V.check('one model per scale', len(m.shape_models) == n and len(m.expert_ensembles) == n)
        for im, b in zip(ims, before):
            for g in b:
                same(V, 'images left alone', im.landmarks[g].points, b[g])
        pipe = Pipeline(V, fl, scales)
        sff = [ffs_call[c] for _, c, _ in bs]
        for j in range(n):
            tag = 'scale %d: ' % j
            sm, ee = m.shape_models[j], m.expert_ensembles[j]
            V.check(tag + 'class of the shape model', type(sm) is (classes[j] if isinstance(classes, list) else classes))
            V.check(tag + 'class of the experts', type(ee) is (experts[j] if isinstance(experts, list) else experts))
            nsc = msc[j] if isinstance(msc, list) else msc
            at = {}

            def scaled(im):
                q = np.asarray(im.landmarks['g'].points) / im.factor(('ref',))
                if fl[j] is not no_op:
                    q = fl[j].frame.down(q)
                return q / im.factor(('s', scales[j])) if scales[j] != 1 else q
            check_pdm(V, tag, sm, [[scaled(i) for i in b] for _, _, b in bs], sff, nsc)
            V.check(tag + 'settings of the experts', ee.args[0] == ps[j] and ee.args[1] is nrm and ee.args[2] is cm and
                    ee.args[3] == ctx[j] and ee.args[4] is so and ee.args[5] == {})
            V.check(tag + 'experts see every batch once', len(ee.events) == len(bs))
            for i, ((eim, esh), (_, _, b)) in enumerate(zip(ee.events, bs)):
                V.check(tag + 'batch %d: images of the experts' % i, len(eim) == len(b) and len(esh) == len(b))
                for x, s, im in zip(eim, esh, b):
                    pipe.check(tag + 'batch %d: experts' % i, x, im, ref, j)
                    same(V, tag + 'batch %d: shapes of the experts' % i, s, x.landmarks['g'].points)
            if kind == 'unified':
                with quiet():
                    frame = mb.build_reference_frame(TriMesh(as_f(scales[j] * ref), trilist=TRI), boundary=bnd)

                def one(name, w, im):
                    check_warped(V, name, w, lambda nm, x: pipe.check(nm, x, im, ref, j), frame, im)
                check_pca(V, tag, m.appearance_models[j], [b for _, _, b in bs], [1.0],
                          mac[j] if isinstance(mac, list) else mac, one)
    REG.add('%s_%s_%s%s' % (kind, ''.join(feats), '_'.join(str(s).replace('.', 'p') for s in scales), '_given' if given else ''),
            h, timeout=200, max_paths=3000, bounds='up to 9 images in up to 5 batches, up to four increments, %d scales' % n)


add_clm('clm', ['no', 'f'], [0.5, 1], False)
add_clm('clm', ['f', 'f', 'g'], [0.25, 0.5, 1.0], True)
add_clm('clm', ['f'], [0.5], True)
add_clm('clm', ['f', 'f'], [0.97, 1.03], False)
add_clm('unified', ['g', 'f'], [0.97, 1.03], False)
add_clm('unified', ['no', 'f'], [0.5, 1], False)
add_clm('unified', ['f', 'f', 'g'], [0.25, 0.5, 1.0], True)


# ------------------------------------------------------------------ APS
EDGES = np.array([[0, 1], [1, 2], [2, 3]])


def ungraph(extra=False):
    a = np.zeros((4, 4))
    for i, j in EDGES.tolist() + ([[0, 3]] if extra else []):
        a[i, j] = a[j, i] = 1
    return UndirectedGraph(a)


def digraph(tree=False, root=0):
    a = np.zeros((4, 4))
    for i, j in ([[0, 1], [0, 2], [2, 3]] if root == 0 else [[1, 0], [1, 2], [2, 3]]):
        a[i, j] = 1
    return Tree(a, root) if tree else DirectedGraph(a)


def mst(V, shapes):
    """independent: complete graph weighted by the negative log likelihood of the displacements"""
    from scipy.stats import multivariate_normal
    n = len(shapes[0])
    w = np.zeros((n, n))
    for i in range(n):
        for j in range(i + 1, n):
            d = np.array([s[i] - s[j] for s in shapes])
            mvn = multivariate_normal(d.mean(axis=0), np.cov(d.T))
            w[i, j] = w[j, i] = -mvn.logpdf(d).sum()
    return UndirectedGraph(w).minimum_spanning_tree(0)


WIDE = np.random.RandomState(5).randn(8, 4, 2) * .75


def add_aps(feats, scales, given, auto=False):
    n = len(scales)

    def h(V):
        round_constants(V)
        rec_ = Log()
        cs = Case(V)
        calls = history(cs) if not auto else [[(5, None)], [(4, None), (2, 1)], [(5, None), (1, None)]][cs.i % 3]
        ims = images(V, 0, sum(c[0] for c in calls), rec_, True)
        if auto:
            for i, im in enumerate(ims):
                im.landmarks['g'] = PointCloud(BASE + WIDE[i])
        fl = feature_list(V, feats, True)
        verbose = cs.pick([True, False])
        diag = cs.pick([None, 20.]) if not given else 20.
        msc, mac = cs.pick([(None, None), ([2 + i for i in range(n)], [5 + i for i in range(n)]), (3, 4)])
        ag = cs.pick([ungraph(), [ungraph(j % 2) for j in range(n)]])
        sg = cs.pick([None, ungraph(True), [[None, ungraph()][j % 2] for j in range(n)]])
        dg = cs.pick([digraph(), [digraph(True, j % 2) for j in range(n)], digraph(True, 1)])
        if auto:
            dg = cs.pick([None, [None] + [digraph(True, 1)] * (n - 1)])
        pro, inc = cs.pick([True, False]), cs.pick([False, True])
        dtype = cs.pick([np.float32, np.float64])
        ps, norms = [PS[j] for j in range(n)], [norm_of(j) for j in range(n)]
        kw = dict(group='g', scales=config(cs, scales), diagonal=diag, holistic_features=fl if len(set(feats)) > 1 else fl[0],
                  max_shape_components=msc, n_appearance_components=mac, verbose=verbose, batch_size=calls[0][1],
                  appearance_graph=ag, shape_graph=sg, deformation_graph=dg, use_procrustes=pro, can_be_incremented=inc,
                  precision_dtype=dtype, patch_shape=ps, patch_normalisation=norms)
        ref = None
        if given:
            kw['reference_shape'] = PointCloud(BASE * 1.5 + 2)
            ref = BASE * 1.5 + 2
        before = [{g: np.array(im.landmarks[g].points) for g in im.landmarks} for im in ims]
        with Models(), quiet():
            m = GenerativeAPS(ims[:calls[0][0]], **kw)
            pos = calls[0][0]
            for c, (k, b) in enumerate(calls[1:]):
                m.increment(ims[pos:pos + k], group='g', verbose=verbose, batch_size=b)
                pos += k
        bs = batches_of(calls, ims)
        if ref is None:
            ref = reference(V, [as_f(i.landmarks['g'].points) for i in bs[0][2]], diag)
        same(V, 'reference shape', m.reference_shape.points, ref)
        V.check('scales', m.n_scales == n and list(m.scales) == list(scales))
        V.check('one model per scale', len(m.shape_models) == n and len(m.appearance_models) == n and len(m.deformation_models) == n)
        for im, b in zip(ims, before):
            for g in b:
                same(V, 'images left alone', im.landmarks[g].points, b[g])
        pipe = Pipeline(V, fl, scales)
        each = lambda x, j: x[j] if isinstance(x, list) else x
        tree = None
        if auto:
            tree = mst(V, [as_f(i.landmarks['g'].points) / i.factor(('ref',)) for i in bs[0][2]])
        for j in range(n):
            tag = 'scale %d: ' % j
            sm, am, dm = m.shape_models[j], m.appearance_models[j], m.deformation_models[j]

            def scaled(im):
                q = as_f(im.landmarks['g'].points) / im.factor(('ref',))
                if fl[j] is not no_op:
                    q = fl[j].frame.down(q)
                return as_f(q / im.factor(('s', scales[j])) if scales[j] != 1 else q)
            raw = [[scaled(i) for i in b] for _, _, b in bs]
            aligned = [[as_f(s.points) for s in mb.align_shapes([PointCloud(p) for p in b])] for b in raw]
            # shapes
            g = each(sg, j)
            nsc = each(msc, j)
            ev = list(sm.events)
            if g is not None:
                d = ev[0][1]
                ok = isinstance(d, tuple) and d[0] == 'pca of'
                V.check(tag + 'PCA of the graph model', ok)
                if ok:
                    gm = d[1]
                    V.check(tag + 'graph of the shape model', gm.graph_ is g and gm.mode_ == 'concatenation' and
                            gm.n_components_ is None and gm.incremental_ == inc)
                    ev[0] = ('build', gm.events[0][1], ev[0][2])
                    V.check(tag + 'graph model built once', len(gm.events) == 1)
            V.check(tag + 'shape model: one update per batch', [e[0] for e in ev] == ['build'] + ['increment'] * (len(bs) - 1))
            for i, e in enumerate(ev[:len(bs)]):
                V.check(tag + 'shape model: components', e[-1] == nsc)
                V.check(tag + 'shape model: shapes of batch %d' % i, len(e[1]) == len(raw[i]))
                if i:
                    V.check(tag + 'nothing is forgotten', e[2] == 1)
                for a, b in zip(e[1], raw[i]):
                    like(V, tag + 'shape model: shape of batch %d' % i, a.points, b)
            # deformations
            want = each(dg, j)
            if want is None:
                V.check(tag + 'minimum spanning tree', isinstance(dm.graph_, Tree) and dm.graph_.root_vertex == 0 and
                        bool((dm.graph_.adjacency_matrix != tree.adjacency_matrix).nnz == 0))
            else:
                V.check(tag + 'graph of the deformation model', dm.graph_ is want)
            V.check(tag + 'graph recorded', m.deformation_graph[j] is dm.graph_)
            V.check(tag + 'deformation model', dm.mode_ == 'subtraction' and dm.n_components_ is None and dm.incremental_ == inc)
            V.check(tag + 'deformation model: one update per batch', [e[0] for e in dm.events] == ['build'] + ['increment'] * (len(bs) - 1))
            for i, e in enumerate(dm.events[:len(bs)]):
                V.check(tag + 'deformation model: shapes', len(e[1]) == len(raw[i]))
                for a, b in zip(e[1], aligned[i] if pro else raw[i]):
                    same(V, tag + 'deformation model: shape', a.points, b, 1e-6)
            # appearance
            V.check(tag + 'graph of the appearance model', am.graph_ is each(ag, j) and am.mode_ == 'concatenation' and
                    am.n_components_ == each(mac, j) and am.dtype_ is dtype and am.incremental_ == inc)
            V.check(tag + 'appearance model: one update per batch', [e[0] for e in am.events] == ['build'] + ['increment'] * (len(bs) - 1))
            for e, (_, _, b) in zip(am.events, bs):
                V.check(tag + 'appearance model: images', len(e[1]) == len(b))
                for w, im in zip(e[1], b):
                    check_patch(V, tag + 'appearance', w, rec_, lambda nm, x: pipe.check(nm, x, im, ref, j), ps[j], 0.25 * (j + 1))
    REG.add('aps_%s_%s%s%s' % (''.join(feats), '_'.join(str(s).replace('.', 'p') for s in scales), '_given' if given else '', '_auto' if auto else ''),
            h, timeout=200, max_paths=3000, bounds='up to 9 images in up to 5 batches, up to four increments, %d scales' % n)


add_aps(['no', 'f'], [0.5, 1.0], False)
add_aps(['f', 'g', 'g'], [0.25, 0.5, 1], True)
add_aps(['f', 'f'], [0.5, 1], False, True)
add_aps(['f', 'f'], [0.97, 1.03], False)


# ------------------------------------------------------------------ more scales
MANY = [0.25, 0.5, 0.75, 0.9, 1.0]
for kd in AAMS:
    add_aam(kd, ['f', 'g', 'g', 'f', 'f'], MANY, kd != 'holistic')
    add_atm(kd, ['f', 'f', 'g', 'g', 'f'], MANY, kd != 'patch')
add_clm('clm', ['f', 'g', 'g', 'f', 'f'], MANY, True)
add_clm('unified', ['f', 'g', 'g', 'f', 'f'], MANY, True)
add_aps(['f', 'f', 'g', 'g', 'f'], MANY, True)
