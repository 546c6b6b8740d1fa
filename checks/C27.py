"""C27 - trained models: instances, reconstructions and the fitters built from them."""
import contextlib
import io
import warnings
from fractions import Fraction as F
from checks.common import *
from checks import models as M
from checks.C12 import FakeImage, Frame, Feature, ExactAffine
from checks.C26 import quiet, as_f, same, frame_of, Img, TRI, BASE, JIT, ungraph, digraph
from menpo.feature import no_op
from menpo.image import Image, MaskedImage, BooleanImage
from menpo.landmark import LandmarkManager
from menpo.shape import PointCloud, TriMesh, Tree, PointTree, PointDirectedGraph, DirectedGraph
import menpofit.builder as mb
from menpofit.modelinstance import OrthoPDM
from menpofit.result import MultiScaleParametricIterativeResult
from menpofit.transform import (DifferentiablePiecewiseAffine, DifferentiableThinPlateSplines, OrthoMDTransform,
                                LinearOrthoMDTransform)
from menpofit.aam.base import HolisticAAM, MaskedAAM, LinearAAM, LinearMaskedAAM, PatchAAM
from menpofit.aam.fitter import (LucasKanadeAAMFitter, holistic_sampling_from_scale, holistic_sampling_from_step)
from menpofit.aam.algorithm.lk import (LucasKanadeStandardInterface, LucasKanadeLinearInterface, LucasKanadePatchInterface)
from menpofit.aam.result import AAMAlgorithmResult, AAMResult
from menpofit.atm.base import HolisticATM, MaskedATM, LinearATM, LinearMaskedATM, PatchATM
from menpofit.atm.fitter import LucasKanadeATMFitter
from menpofit.atm.algorithm import (ATMLucasKanadeStandardInterface, ATMLucasKanadeLinearInterface, ATMLucasKanadePatchInterface)
from menpofit.aps.base import GenerativeAPS
from menpofit.aps.fitter import GaussNewtonAPSFitter
from menpofit.aps.algorithm.gn import GaussNewtonBaseInterface
from menpofit.aps.result import APSAlgorithmResult, APSResult
from menpofit.clm.base import CLM
from menpofit.unified_aam_clm.base import UnifiedAAMCLM
from menpofit.unified_aam_clm.fitter import UnifiedAAMCLMFitter
from menpofit.unified_aam_clm.result import UnifiedAAMCLMResult

REG = Registry('C27')
REG.assumptions = ['statistical models are stand-ins that record the weights they are asked for',
                   'warps between frames are those of C02, frames those of C24']
REG.outside = ['pixels of the instances (menpo warping)']

AAMS = {'holistic': HolisticAAM, 'masked': MaskedAAM, 'patch': PatchAAM, 'linear': LinearAAM, 'linear_masked': LinearMaskedAAM}
ATMS = {'holistic': HolisticATM, 'masked': MaskedATM, 'patch': PatchATM, 'linear': LinearATM, 'linear_masked': LinearMaskedATM}
PS = [(3, 5), (5, 3), (3, 3), (5, 5), (3, 7), (1, 3)]


class Warped(object):
    def __init__(self, image, mask, transform, warp_landmarks):
        self.image, self.mask, self.transform, self.warp_landmarks = image, mask, transform, warp_landmarks


class Texture(object):
    """an appearance: a masked image that can be unmasked and warped"""

    def __init__(self, name, source, unmasked=False):
        self.name, self.unmasked = name, unmasked
        self.landmarks = LandmarkManager()
        self.landmarks['source'] = PointCloud(source)
        self.pixels = ('pixels', name)

    def as_unmasked(self, copy=True, fill=None):
        t = Texture(self.name, self.landmarks['source'].points, True)
        return t

    def warp_to_mask(self, mask, transform, warp_landmarks=True, **kw):
        return Warped(self, mask, transform, warp_landmarks)


class Shapes(object):
    """a shape model that returns a fixed shape per scale and records weights"""

    def __init__(self, j, n):
        self.j, self.n_active_components, self.n_components, self.calls = j, n, n + 2, []
        self.model = self

    def instance(self, weights, normalized_weights=False, **kw):
        self.calls.append((weights, normalized_weights))
        return TriMesh(BASE * (1 + .5 * self.j) + JIT[(1 + self.j) % 5], trilist=TRI)

    def mean(self):
        return TriMesh(BASE.copy(), trilist=TRI)


class Appearances(object):
    def __init__(self, j, n):
        self.j, self.n_active_components, self.n_components, self.calls = j, n, n + 3, []

    def instance(self, weights, normalized_weights=False, **kw):
        self.calls.append((weights, normalized_weights))
        return Texture((self.j, len(self.calls)), BASE * 2 + self.j)

    def mean(self):
        return Texture((self.j, 'mean'), BASE * 2 + self.j)


def model(cls, n, **kw):
    m = cls.__new__(cls)
    m.scales = [0.25 * (j + 1) for j in range(n)]
    m.shape_models = [Shapes(j, 3 + j) for j in range(n)]
    m.appearance_models = [Appearances(j, 5 + 2 * j) for j in range(n)]
    m.patch_shape = [PS[j] for j in range(n)]
    m.transform = DifferentiablePiecewiseAffine
    for k, v in kw.items():
        setattr(m, k, v)
    return m


def weights_ok(V, name, calls, want, n=None):
    V.check(name + ': asked once', len(calls) == 1)
    w, norm = calls[0]
    V.check(name + ': in standard deviations', norm is True)
    if n is not None:
        V.check(name + ': one weight per active component', len(np.asarray(w)) == n)
    elif want is None:
        V.check(name + ': the mean', not np.asarray(w).astype(bool).any())
    else:
        V.check(name + ': length', len(w) == len(want))
        V.eq(name + ': weights', sarr(list(w)), sarr(list(want)))


def warped_ok(V, name, w, kind, shape, texture, target, ps, transform, boundaries=(3,)):
    V.check(name + ': an image', isinstance(w, Warped))
    frames = []
    with quiet():
        for b in boundaries:
            if kind == 'masked':
                frames.append(mb.build_patch_reference_frame(shape, patch_shape=ps, boundary=b))
            else:
                frames.append(mb.build_reference_frame(shape, boundary=b))
    ok = [f for f in frames if f.mask.pixels.shape == w.mask.pixels.shape and bool((f.mask.pixels == w.mask.pixels).all())]
    V.check(name + ': on the frame of the shape', len(ok) > 0)
    if ok:
        same(V, name + ': from the frame', w.transform.source.points, ok[0].landmarks['source'].points)
    same(V, name + ': to the template', w.transform.target.points, target)
    V.check(name + ': class of the warp', isinstance(w.transform, transform))
    V.check(name + ': unmasked appearance with landmarks', w.image.unmasked and w.image.name == texture and w.warp_landmarks)


def add_instance(kind, family):
    def h(V):
        n = pick(V, 'scales', [3, 6])
        cls = {'aam': AAMS, 'atm': ATMS}.get(family, {'holistic': UnifiedAAMCLM})[kind]
        m = model(cls, n)
        tr = DifferentiableThinPlateSplines if kind == 'masked' else pick(V, 'transform', [DifferentiablePiecewiseAffine, DifferentiableThinPlateSplines])
        m.transform = tr
        if family == 'atm':
            m.warped_templates = [Texture(('t', j), BASE * 2 + j) for j in range(n)]
        if family == 'unified':
            m.boundary = pick(V, 'boundary', [3, 1])
        j = pick(V, 'scale', [None, 0, 1, 2, -1] if n == 3 else [None, 3, 4, 5, -2])
        kw = {} if j is None else dict(scale_index=j)
        jj = n - 1 if j is None else j % n
        rand = bool(V.boolean('random'))
        ws = wa = None
        if not rand:
            if bool(V.boolean('shape weights')):
                ws = kw['shape_weights'] = V.reals('ws', 2, -3, 3)
            if family != 'atm' and bool(V.boolean('appearance weights')):
                wa = kw['appearance_weights'] = V.reals('wa', 3, -3, 3)
        with quiet():
            r = m.random_instance(**kw) if rand else m.instance(**kw)
        for k in range(n):
            if k != jj:
                V.check('other scales are not used', not m.shape_models[k].calls and not m.appearance_models[k].calls)
        weights_ok(V, 'shape', m.shape_models[jj].calls, ws, 3 + jj if rand else None)
        if family != 'atm':
            weights_ok(V, 'appearance', m.appearance_models[jj].calls, wa, 5 + 2 * jj if rand else None)
        shape = TriMesh(BASE * (1 + .5 * jj) + JIT[(1 + jj) % 5], trilist=TRI)
        name = ('t', jj) if family == 'atm' else (jj, 1)
        if kind == 'patch':
            V.check('shape and patches', len(r) == 2 and r[1].name == name)
            same(V, 'shape', r[0].points, shape.points)
        else:
            warped_ok(V, 'instance', r, kind, shape, name, BASE * 2 + jj, PS[jj], tr, (3,) if family != 'unified' else (3, m.boundary))
    REG.add('instance_%s_%s' % (family, kind), h, max_paths=400, timeout=120, bounds='3 and 6 scales, any weights')


for k_ in ('holistic', 'masked', 'patch'):
    add_instance(k_, 'aam')
    add_instance(k_, 'atm')
add_instance('holistic', 'unified')


def shape_instance(V):
    n = pick(V, 'scales', [3, 6])
    cls = pick(V, 'model', [CLM, UnifiedAAMCLM, GenerativeAPS])
    aps = cls is GenerativeAPS
    m = model(cls, n)
    j = pick(V, 'scale', [None, 0, 1, 2, -1] if n == 3 else [None, 3, 4, 5, -2])
    kw = {} if j is None else dict(scale_index=j)
    jj = n - 1 if j is None else j % n
    ws = None
    rand = graph = False
    if bool(V.boolean('weights')):
        ws = kw['shape_weights'] = V.reals('ws', 2, -3, 3)
    if aps:
        m.deformation_graph = [digraph(True, 1), digraph(), digraph(True), digraph(True), digraph(True, 1), digraph()][:n]
        graph = pick(V, 'graph', [None, False, True])
        if graph is not None:
            kw['as_graph'] = graph
        rand = ws is None and bool(V.boolean('random'))
    r = m.random_instance(**kw) if rand else (m.instance(**kw) if aps else m.shape_instance(**kw))
    weights_ok(V, 'shape', m.shape_models[jj].calls, ws, 3 + jj if rand else None)
    V.check('other scales are not used', all(not m.shape_models[k].calls for k in range(n) if k != jj))
    same(V, 'shape', r.points, BASE * (1 + .5 * jj) + JIT[(1 + jj) % 5])
    if graph:
        g = m.deformation_graph[jj]
        V.check('graph of the deformation model', type(r) is (PointTree if isinstance(g, Tree) else PointDirectedGraph) and
                (r.adjacency_matrix != g.adjacency_matrix).nnz == 0 and
                (not isinstance(g, Tree) or r.root_vertex == g.root_vertex))
    elif aps:
        V.check('a plain shape', isinstance(r, TriMesh))


REG.add('shape_instances', shape_instance, max_paths=300, bounds='3 and 6 scales, any weights')


def reconstructions(V, iters=None):
    n = len(iters) if iters else int(V.integer('scales', 1, 3))
    cls = pick(V, 'model', [HolisticAAM, MaskedAAM, PatchAAM, LinearAAM, UnifiedAAMCLM])
    m = model(cls, n)
    iters = iters or [int(V.integer('it%d' % j, 0, 2)) for j in range(n)]
    cs = [V.reals('c%d' % i, 2, -2, 2) for i in range(sum(iters) + n)]
    via = bool(V.boolean('fitter'))
    if via:
        fc = UnifiedAAMCLMFitter if cls is UnifiedAAMCLM else LucasKanadeAAMFitter
        f = fc.__new__(fc)
        f._model = m
        out = f.appearance_reconstructions(list(cs), list(iters))
    else:
        out = m.appearance_reconstructions(list(cs), list(iters))
    V.check('one per shape', len(out) == len(cs))
    i = 0
    for j in range(n):
        am = m.appearance_models[j]
        V.check('scale %d: one per shape' % j, len(am.calls) == iters[j] + 1)
        for k in range(min(iters[j] + 1, len(am.calls))):
            V.check('scale %d: plain weights' % j, am.calls[k][1] is False)
            V.eq('scale %d: parameters of iteration %d' % (j, k), sarr(list(am.calls[k][0])), sarr(list(cs[i])))
            name = out[i][1] if cls is PatchAAM else out[i].name
            V.check('scale %d: instance %d' % (j, k), name == (j, k + 1))
            i += 1


REG.add('reconstructions', reconstructions, max_paths=600, timeout=120, bounds='1..3 scales of 0..2 iterations')
REG.add('reconstructions_long', lambda V: reconstructions(V, [12, 0, 3, 1, 25, 2]), max_paths=100, timeout=120,
        bounds='6 scales of 12, 0, 3, 1, 25 and 2 iterations')


# ------------------------------------------------------------------ interfaces
def template_of(j, patch=False):
    if patch:
        return Image(np.arange(8. * PS[j][0] * PS[j][1]).reshape(4, 1, 2, *PS[j]) + j, copy=False)
    with quiet():
        f = mb.build_reference_frame(TriMesh(BASE * (.5 + .25 * j) + j, trilist=TRI), boundary=1)
    f.pixels = np.arange(2. * f.shape[0] * f.shape[1]).reshape((2,) + f.shape)
    return f


class Mean(object):
    def __init__(self, t, n):
        self.t, self.n_active_components = t, n

    def mean(self):
        return self.t


def add_interfaces(family, kind, n=2):
    def h(V):
        linear, patch = kind.startswith('linear'), kind == 'patch'
        cls = {'aam': AAMS, 'atm': ATMS}.get(family, {'holistic': UnifiedAAMCLM})[kind]
        m = model(cls, n)
        temps = [template_of(j, patch) for j in range(n)]
        m.appearance_models = [Mean(t, 3 + j) for j, t in enumerate(temps)]
        m.warped_templates = temps
        sms = m.shape_models = [OrthoPDM(M.shape_pca(V, 'quad', 2, seed=j, trilist=None if linear else TRI)) for j in range(n)]
        m.reference_shape = PointCloud(np.array([[0., 0.], [1., 0.], [0., 1.]]))
        m.transform = tr = DifferentiableThinPlateSplines if kind == 'masked' else pick(
            V, 'transform', [DifferentiablePiecewiseAffine, DifferentiableThinPlateSplines])
        norms = [(lambda k: lambda p: k * p)(k + 1) for k in range(n)]
        m.patch_normalisation = norms if family == 'aam' else norms[1]
        if patch:
            grid = [np.zeros(PS[j], dtype=bool) for j in range(n)]
            for g in grid:
                g.flat[1::4] = True
            sampling = pick(V, 'sampling', [[None, None], [grid[0], 3], [2, grid[1]]])
            sampling = sampling + [[None, grid[j], 1 + j][j % 3] for j in range(2, n)]
        else:
            sampling = pick(V, 'sampling', [[None, None], [3, np.array([0, 2, 5])], [np.array([1, 4]), None], [2, 4]])
            sampling = sampling + [[None, np.array([0, j]), 1 + j][j % 3] for j in range(2, n)]
        with quiet():
            out = m.build_fitter_interfaces(sampling)
        V.check('one per scale', len(out) == n)
        want = {'aam': (LucasKanadeStandardInterface, LucasKanadeLinearInterface, LucasKanadePatchInterface),
                'atm': (ATMLucasKanadeStandardInterface, ATMLucasKanadeLinearInterface, ATMLucasKanadePatchInterface)}[
                    'atm' if family == 'atm' else 'aam'][1 if linear else 2 if patch else 0]
        for j, it in enumerate(out):
            tag = 'scale %d: ' % j
            V.check(tag + 'class', type(it) is want)
            V.check(tag + 'template', it.template is temps[j])
            if family != 'atm':
                V.check(tag + 'appearance model', it.appearance_model is m.appearance_models[j] and it.m == 3 + j)
            s = sampling[j]
            if patch:
                full = np.zeros((4, 1, 2) + PS[j], dtype=bool)
                if s is None:
                    full[:] = True
                elif isinstance(s, int):
                    k = np.zeros(PS[j][0] * PS[j][1], dtype=bool)
                    k[::s] = True
                    full[:] = k.reshape(PS[j])
                else:
                    full[:] = s
                V.check(tag + 'sampled pixels', np.array_equal(np.asarray(it.i_mask), np.nonzero(full.ravel())[0]))
                V.check(tag + 'patches', tuple(it.patch_shape) == PS[j] and
                        it.patch_normalisation is (norms[j] if family == 'aam' else norms[1]))
                V.check(tag + 'shape model', it.transform is sms[j])
                continue
            N = temps[j].n_true_pixels()
            k = np.zeros(N, dtype=bool)
            k[(slice(None, None, 1 if s is None else s) if s is None or isinstance(s, int) else s)] = True
            V.check(tag + 'sampled pixels', np.array_equal(np.asarray(it.i_mask), np.nonzero(np.tile(k, 2))[0]))
            t = it.transform
            if linear:
                V.check(tag + 'shape model', isinstance(t, LinearOrthoMDTransform) and t.model is sms[j].model)
                V.check(tag + 'landmarks', t.sparse_target.n_points == 3)
            else:
                V.check(tag + 'shape model', isinstance(t, OrthoMDTransform) and t.pdm is sms[j])
                V.check(tag + 'class of the warp', isinstance(t.transform, tr))
                same(V, tag + 'warps the template', t.source.points if hasattr(t, 'source') else t.transform.source.points,
                     temps[j].landmarks['source'].points)
    REG.add('interfaces_%s_%s_%d' % (family, kind, n), h, max_paths=100, timeout=120, bounds='%d scales' % n)


for k_ in ('holistic', 'masked', 'linear', 'linear_masked', 'patch'):
    add_interfaces('aam', k_)
    add_interfaces('atm', k_)
    add_interfaces('aam', k_, 6)
    add_interfaces('atm', k_, 6)
add_interfaces('unified', 'holistic')
add_interfaces('unified', 'holistic', 6)


# ------------------------------------------------------------------ fitters
from menpofit import fitter as mf  # noqa: E402
from checks.C12 import SH  # noqa: E402


class Alg(object):
    """an algorithm that moves the shape arbitrarily"""

    def __init__(self, *args):
        self.args, self.runs = args, []
        self.interface = args[0]

    def run(self, image, initial_shape, gt_shape=None, max_iters=20, return_costs=False, **kw):
        self.runs.append((image, max_iters, kw))
        V = self.interface.V
        j = self.interface.j
        p0 = PointCloud(np.asarray(initial_shape.points), copy=False)
        p1 = PointCloud(sarr((np.asarray(initial_shape.points) + np.asarray(V.reals('move%d' % j, (1, 2), -1, 1))).tolist()), copy=False)
        self.c = [V.reals('c%d_%d' % (j, k), 2, -2, 2) for k in range(2)]
        kw2 = dict(initial_shape=initial_shape, gt_shape=gt_shape, image=image)
        if self.interface.family == 'aps':
            self.ac, self.dc = [V.real('ac%d_%d' % (j, k), 0, 2) for k in range(2)], [V.real('dc%d_%d' % (j, k), 0, 2) for k in range(2)]
            return APSAlgorithmResult([p0, p1], [np.zeros(1), np.ones(1)], appearance_costs=self.ac if return_costs else None,
                                      deformation_costs=self.dc if return_costs else None,
                                      costs=[a + b for a, b in zip(self.ac, self.dc)] if return_costs else None, **kw2)
        return AAMAlgorithmResult([p0, p1], [np.zeros(1), np.ones(1)], list(self.c), costs=[.5, .25] if return_costs else None, **kw2)


class Interface(object):
    def __init__(self, V, j, family, args=None):
        self.V, self.j, self.family, self.args = V, j, family, args

    def warped_images(self, image, shapes):
        return ('warped', self.j, image, shapes)


def add_fitter(family, many=None):
    def h(V):
        n = many or int(V.integer('scales', 1, 3))
        sms = [OrthoPDM(M.shape_pca(V, 'tri' if False else 'quad', 2, seed=j)) for j in range(n)]
        means = [np.asarray(s.model.mean().points).copy() for s in sms]
        for j, s in enumerate(sms):
            q = sarr([V.real('q%d_%d' % (j, i), -1, 1) for i in range(4)] + [V.real('b%d_%d' % (j, i), -1, 1) for i in range(2)])
            s.from_vector_inplace(q)
        ams = [Appearances(j, 5 + j) for j in range(n)]
        scales = ([0.25, 0.375, 0.4375] if many else []) + [0.5, 0.75, 1.0][-n:]
        feats = [Feature(V, 'f')] * n
        seen = []

        def interfaces(sampling):
            seen.append(sampling)
            return [Interface(V, j, family) for j in range(n)]
        m = rec(shape_models=sms, appearance_models=ams, scales=scales, n_scales=n, holistic_features=feats,
                reference_shape=PointCloud(SH * 4), build_fitter_interfaces=interfaces,
                expert_ensembles=[rec(j=j) for j in range(n)], patch_shape=[PS[j] for j in range(n)], response_covariance=1.5,
                deformation_models=[rec(d=j) for j in range(n)], use_procrustes=bool(V.boolean('procrustes')) if family == 'aps' else True,
                patch_normalisation=[rec(pn=j) for j in range(n)],
                appearance_reconstructions=lambda appearance_parameters, n_iters_per_scale: (appearance_parameters, n_iters_per_scale))
        for a in ams:
            a.mean_ = rec(mean_of=a)
            a.mean = lambda a=a: a.mean_
        nss, nas = [None, 1, [1 + j % 2 for j in range(n)]], [None, 2, [1 + j for j in range(n)]]
        smps, ws = [None, 2, [3 + j for j in range(n)]], [None, 3., [1. + j for j in range(n)]]
        o = int(V.integer('options', 0, 5))
        ns, na, smp = nss[o % 3], nas[(o + o // 3) % 3], smps[(2 * o + o // 3) % 3]
        kw = dict(n_shape=ns, sampling=smp)
        weight = None
        extra = ()
        if family in ('aam', 'unified'):
            kw['n_appearance'] = na
        if family == 'aps':
            weight = ws[(o + 1 + o // 3) % 3]
            if weight is not None:
                kw['weight'] = weight
            made = []

            def gn_init(self, appearance_model, deformation_model, transform, weight, use_procrustes, template, sampling, patch_shape,
                        patch_normalisation):
                self.__dict__.update(V=V, j=len(made), family=family)
                made.append((self, dict(a=appearance_model, d=deformation_model, t=transform, w=weight, u=use_procrustes, te=template,
                                        s=sampling, p=patch_shape, n=patch_normalisation)))
            extra = ((GaussNewtonBaseInterface, '__init__', gn_init),
                     (GaussNewtonBaseInterface, 'warped_images', Interface.warped_images))
        cls, akw = {'aam': (LucasKanadeAAMFitter, 'lk_algorithm_cls'), 'atm': (LucasKanadeATMFitter, 'lk_algorithm_cls'),
                    'aps': (GaussNewtonAPSFitter, 'gn_algorithm_cls'), 'unified': (UnifiedAAMCLMFitter, 'algorithm_cls')}[family]
        kw[akw] = Alg
        with patched(*extra), builtin_types(V):
            f = cls(m, **kw)
            per = lambda x, j: x[j] if isinstance(x, list) else x
            for j in range(n):
                tag = 'scale %d: ' % j
                V.check(tag + 'shape components', sms[j].n_active_components == (2 if ns is None else per(ns, j)))
                if family in ('aam', 'unified'):
                    V.check(tag + 'appearance components', ams[j].n_active_components == (5 + j if na is None else per(na, j)))
                V.close(tag + 'starts at the mean', sms[j].target.points, means[j], 1e-9)
            V.check('one algorithm per scale', len(f.algorithms) == n and all(isinstance(a, Alg) for a in f.algorithms))
            V.check('in order', [a.interface.j for a in f.algorithms] == list(range(n)))
            if family == 'aps':
                for j, (_, k) in enumerate(made):
                    V.check('interface of scale %d' % j, k['a'] is ams[j] and k['d'] is m.deformation_models[j] and k['t'] is sms[j] and
                            k['u'] is m.use_procrustes and k['te'] is ams[j].mean_ and k['p'] == PS[j] and k['n'] is m.patch_normalisation[j])
                    V.check('sampling of scale %d' % j, k['s'] == per(smp, j))
                    V.check('weight of scale %d' % j, k['w'] == (200. if weight is None else per(weight, j)))
            else:
                V.check('sampling', len(seen) == 1 and list(seen[0]) == [per(smp, j) for j in range(n)])
            if family == 'unified':
                for j, a in enumerate(f.algorithms):
                    V.check('experts of scale %d' % j, a.args[1] is m.expert_ensembles[j] and a.args[2] == PS[j] and a.args[3] == 1.5)
                V.check('response covariance', f.response_covariance == 1.5)
            V.check('model', (f.aam if family == 'aam' else f.atm if family == 'atm' else f.aps if family == 'aps' else f.unified_aam_clm) is m)
            V.check('scales and features', f.scales == scales and f.reference_shape is m.reference_shape and list(f.holistic_features) == feats)
            V.check('warped at the final scale', f.warped_images('im', 'shapes') == ('warped', n - 1, 'im', 'shapes'))
            # a fit
            im = FakeImage(V)
            im.landmarks['user'] = PointCloud(SH)
            init = PointCloud(SH + np.array([1., 2.]))
            costs = bool(V.boolean('costs'))
            with patched(*([(mf, 'AlignmentAffine', ExactAffine)] if V.sym else [])):
                r = f.fit_from_shape(im, init, max_iters=5, return_costs=costs)
        V.check('class of the result', type(r) is {'aam': AAMResult, 'aps': APSResult, 'unified': UnifiedAAMCLMResult,
                                                   'atm': MultiScaleParametricIterativeResult}[family])
        V.check('every scale ran once', all(len(a.runs) == 1 for a in f.algorithms))
        V.check('shapes of the result', len(r.shapes) == 2 * n or len(r.shapes) == 2 * n + 1)
        if family in ('aam', 'unified'):
            want = [c for a in f.algorithms for c in a.c]
            got = r.appearance_parameters
            V.check('appearance parameters of all scales', len(got) == len(want))
            for a, b in zip(got, want):
                V.eq('appearance parameters', a, b)
            V.check('reconstructed by the model', f.appearance_reconstructions('p', 'n') == ('p', 'n'))
        if family == 'aps':
            for name, key in (('appearance_costs', 'ac'), ('deformation_costs', 'dc')):
                got = getattr(r, name)
                V.check('%s on request' % name, (got is not None) == costs)
                if costs:
                    want = [c for a in f.algorithms for c in getattr(a, key)]
                    V.check('%s of all scales' % name, len(got) == len(want))
                    for a, b in zip(got, want):
                        V.eq(name, a, b)
    REG.add('fitter_%s%s' % (family, many or ''), h, max_paths=600, timeout=200, bounds='%s scales' % (many or '1..3'))


for f_ in ('aam', 'atm', 'aps', 'unified'):
    add_fitter(f_)
    add_fitter(f_, 6)


# ------------------------------------------------------------------ sampling of holistic models
def mask_template(V, rows, cols, full):
    pts = np.array([[1., 1.], [1., cols - 2.], [rows - 2., 1.], [rows - 2., cols - 2.]])
    im = MaskedImage(np.zeros((1, rows, cols)), mask=np.ones((rows, cols), dtype=bool))
    if not full:
        im.mask.pixels[0, 0, :] = False
        im.mask.pixels[0, :, -1] = False
        im.mask.pixels[0, rows // 2, cols // 2] = False
    im.landmarks['source'] = PointCloud(pts)
    return im


def sampling_step(V):
    rows, cols = pick(V, 'size', [(5, 6), (7, 4)])
    t = mask_template(V, rows, cols, bool(V.boolean('full')))
    before = t.mask.pixels.copy()
    step = int(V.integer('step', 1, 12))
    seen = []
    a = rec(appearance_models=[rec(mean=lambda: t), rec(mean=lambda: seen.append(1))])
    pos, mask = holistic_sampling_from_step(a, step=step)
    n = int(before.sum())
    sel = np.zeros(n, dtype=bool)
    sel[np.asarray(pos)] = True
    V.check('every step-th pixel', [i for i in range(n) if sel[i]] == list(range(0, n, step)))
    V.check('mask of the sampled pixels', np.array_equal(np.argwhere(mask.mask), np.argwhere(before[0])[sel]))
    V.check('template left alone', np.array_equal(before, t.mask.pixels) and not seen)


REG.add('sampling_step', sampling_step, max_paths=100, bounds='2 templates of up to 30 pixels, steps 1..12')


def sampling_scale(V):
    round_constants(V)
    rows, cols = pick(V, 'size', [(5, 6), (7, 4), (9, 10)])
    t = mask_template(V, rows, cols, bool(V.boolean('full')))
    before = t.mask.pixels.copy()
    s = pick(V, 'factor', [.2, .35, .5, .8, 1.])

    def rescale(scale, **kw):
        # menpo: per axis, the size rounded up
        V.check('factor', scale == s)
        fac = np.array([(s * d - 1) / (d - 1) for d in (rows, cols)])
        shape = np.ceil(s * np.array([rows, cols])).astype(int)
        m = np.zeros(tuple(shape), dtype=bool)
        for i, j in np.ndindex(*shape):
            q = [min(int(round(x / f)) if f > 0 else 0, d - 1) for x, f, d in zip((i, j), fac, (rows, cols))]
            m[i, j] = before[0][tuple(q)]
        return rec(landmarks={'source': PointCloud(as_f(t.landmarks['source'].points) * fac)}, mask=BooleanImage(m))
    t.rescale = rescale
    a = rec(appearance_models=[rec(mean=lambda: t), rec(mean=lambda: t)])
    pos, mask = holistic_sampling_from_scale(a, scale=s)
    n = int(before.sum())
    sel = np.zeros(n, dtype=bool)
    sel[np.asarray(pos)] = True
    V.check('mask of the sampled pixels', np.array_equal(np.argwhere(mask.mask), np.argwhere(before[0])[sel]))
    V.check('template left alone', np.array_equal(before, t.mask.pixels))
    if s == 1:
        V.check('all pixels', sel.all())
    V.check('no more pixels than in the scaled frame', sel.sum() <= int(rescale(s).mask.mask.sum()))


REG.add('sampling_scale', sampling_scale, max_paths=100, bounds='3 templates of up to 90 pixels, 5 factors')
