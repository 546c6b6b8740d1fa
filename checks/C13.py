"""C13 - fitting results: frames, counts, errors and what gets shown."""
from checks.common import *
from menpo.shape import PointCloud
from menpo.image import Image
from menpo.transform import Affine, Scale
import menpo.visualize
import menpofit.result as mr
from menpofit.result import (Result, NonParametricIterativeResult, ParametricIterativeResult,
                             MultiScaleNonParametricIterativeResult, MultiScaleParametricIterativeResult)
from menpofit.lk.result import LucasKanadeAlgorithmResult, LucasKanadeResult
from menpofit.aam.result import AAMAlgorithmResult, AAMResult
from menpofit.aps.result import APSAlgorithmResult, APSResult
from menpofit.unified_aam_clm.result import UnifiedAAMCLMAlgorithmResult, UnifiedAAMCLMResult

REG = Registry('C13')
REG.assumptions = ['the renderers of menpo are replaced by recorders of their arguments']
REG.outside = ['the pixels drawn by matplotlib']
N = 3


def cloud(V, name, n=N):
    return PointCloud(V.reals(name, (n, 2), -3, 3), copy=False)


def image(V):
    return Image(V.reals('px', (1, 2, 3), 0, 1), copy=False)


class Show(object):
    """records what is handed to the renderers"""

    def __init__(self):
        self.views, self.curves = [], []

    def view(self, image, groups, **kw):
        self.views.append((image, list(groups), kw))
        return 'view'

    def curve(self, x_axis, y_axis, **kw):
        self.curves.append((x_axis, y_axis, kw))
        return 'curve'

    def patches(self):
        return ((mr, 'view_image_multiple_landmarks', self.view), (menpo.visualize, 'plot_curve', self.curve))


def count_err(V):
    calls = []

    def f(a, b):
        calls.append((a, b))
        d = np.asarray(a.points) - 2 * np.asarray(b.points)
        return sum(d.ravel().tolist())
    return f


def same(V, tag, got, want):
    """lists of shapes"""
    V.check(tag + ': number of shapes', len(got) == len(want))
    for k, (a, b) in enumerate(zip(got, want)):
        V.eq('%s: shape %d' % (tag, k), a.points, getattr(b, 'points', b))


def custom(V, x, y):
    return sum((np.asarray(x) - 2 * np.asarray(y)).ravel().tolist())


def basic_claims(V, r, final, init, gt, im, px, tag=''):
    V.eq(tag + 'final shape', r.final_shape.points, final)
    V.check(tag + 'initial shape kept or absent', (r.initial_shape is None) == (init is None))
    V.check(tag + 'ground truth kept or absent', (r.gt_shape is None) == (gt is None))
    V.check(tag + 'image kept or absent', (r.image is None) == (im is None))
    if init is not None:
        V.eq(tag + 'initial shape', r.initial_shape.points, init)
    if im is not None:
        V.eq(tag + 'image', r.image.pixels, px)
    f = count_err(V)
    if gt is not None:
        V.eq(tag + 'ground truth', r.gt_shape.points, gt)
        V.eq(tag + 'final error', r.final_error(compute_error=f), custom(V, final, gt))
        with patched((mr, 'euclidean_bb_normalised_error', f)):
            V.eq(tag + 'final error, default metric', r.final_error(), custom(V, final, gt))
            if init is not None:
                V.eq(tag + 'initial error, default metric', r.initial_error(), custom(V, init, gt))
    else:
        V.check(tag + 'final error needs the ground truth', raises(ValueError, lambda: r.final_error(f)))
    if init is not None and gt is not None:
        V.eq(tag + 'initial error', r.initial_error(compute_error=f), custom(V, init, gt))
    else:
        V.check(tag + 'initial error needs both shapes', raises(ValueError, lambda: r.initial_error(f)))


def opts(V):
    init = cloud(V, 'init') if V.boolean('initial') else None
    gt = cloud(V, 'gt') if V.boolean('ground truth') else None
    im = image(V) if V.boolean('image') else None
    return init, gt, im, None if im is None else im.pixels.copy()


def pts(pc):
    return None if pc is None else pc.points


def result(V):
    final = cloud(V, 'final')
    init, gt, im, px = opts(V)
    r = Result(final, image=im, initial_shape=init, gt_shape=gt)
    V.check('not iterative', r.is_iterative is False)
    basic_claims(V, r, final.points, pts(init), pts(gt), im, px)
    if im is not None:
        im.pixels[0, 0, 0] = 7.0
        V.eq('the image is a copy', r.image.pixels, px)
    for a in (True, False):
        for b in (True, False):
            for c in (True, False):
                s = Show()
                with patched(*s.patches()):
                    out = r.view(render_final_shape=a, render_initial_shape=b, render_gt_shape=c,
                                 final_line_colour='c1', initial_line_colour='c2', gt_line_colour='c3',
                                 final_marker_face_colour='f1', initial_marker_face_colour='f2',
                                 gt_marker_face_colour='f3', final_marker_edge_colour='e1',
                                 initial_marker_edge_colour='e2', gt_marker_edge_colour='e3', alpha=0.25,
                                 subplots_enabled=False)
                shown, groups, kw = s.views[0]
                want = [(n, p) for on, n, p in ((a, 1, final), (b, 2, init), (c, 3, gt)) if on and p is not None]
                V.check('renderer returned', out == 'view')
                V.check('one group per requested shape', len(groups) == len(want))
                for g, (k, p) in zip(groups, want):
                    V.eq('rendered shape', shown.landmarks[g].points, p.points)
                for key, pre in (('line_colour', 'c'), ('marker_face_colour', 'f'), ('marker_edge_colour', 'e')):
                    V.check(key + ' of each shape', kw[key] == [pre + str(k) for k, _ in want])
                V.check('options forwarded', kw['alpha'] == 0.25 and kw['subplots_enabled'] is False)
                V.check('the image is rendered if there is one', kw['render_image'] is (im is not None))
                if im is not None:
                    V.eq('rendered image', shown.pixels, px)
                V.check('every group has a title', all(g in kw['subplots_titles'] for g in groups))


REG.add('result', result, max_paths=60, bounds='any final, initial and ground truth shapes of 3 points (each optional)')


def text(V):
    class F(object):
        def __init__(self, s):
            self.s = s

        def __format__(self, spec):
            return self.s + ':' + spec
    a, b, g = PointCloud(np.zeros((3, 2))), PointCloud(np.ones((3, 2))), PointCloud(np.ones((3, 2)) * 2)
    names = {id(a): 'A', id(b): 'B'}
    init = V.boolean('initial')
    gt = V.boolean('ground truth')
    with patched((mr, 'euclidean_bb_normalised_error', lambda x, y: F(names[id(x)]))):
        t = str(Result(b, initial_shape=a if init else None, gt_shape=g if gt else None))
    V.check('number of points', '3 landmark points' in t)
    V.check('final error shown with the ground truth', ('Final error: B:.4f' in t) == gt)
    V.check('initial error shown when known', ('Initial error: A:.4f' in t) == (gt and init))


REG.add('text', text, bounds='with and without initial and ground truth shape')


def median(xs, V):
    xs = list(xs)
    n = len(xs)
    mn, mx = (symnp._mn, symnp._mx) if V.sym else (min, max)
    for i in range(n):
        for j in range(n - 1):
            xs[j], xs[j + 1] = mn(xs[j], xs[j + 1]), mx(xs[j], xs[j + 1])
    return (xs[(n - 1) // 2] + xs[n // 2]) / 2, xs[0], xs[-1]


def iterative_claims(V, r, all_shapes, init, gt, costs, tag=''):
    """everything that depends on the list of shapes only"""
    same(V, tag + 'shapes', r.shapes, all_shapes)
    V.check(tag + 'iterative', r.is_iterative is True)
    f = count_err(V)
    if gt is None:
        V.check(tag + 'errors need the ground truth', raises(ValueError, lambda: r.errors(f)))
    else:
        want = [custom(V, s, gt) for s in all_shapes]
        V.eq(tag + 'one error per shape', r.errors(compute_error=f), want)
        with patched((mr, 'euclidean_bb_normalised_error', f)):
            V.eq(tag + 'errors, default metric', r.errors(), want)
    D = []
    for a, b in zip(all_shapes[:-1], all_shapes[1:]):
        d = np.asarray(a) - np.asarray(b)
        D.append([vsqrt(V, x * x + y * y) for x, y in d.tolist()])
    got = r.displacements()
    V.check(tag + 'one displacement per step', len(got) == len(D))
    for k, (a, b) in enumerate(zip(got, D)):
        V.eq(tag + 'displacement %d' % k, a, b)
    st = {'mean': [sum(d) / len(d) for d in D]}
    for s in ('median', 'min', 'max'):
        st[s] = [median(d, V)[('median', 'min', 'max').index(s)] for d in D]
    if D:
        for s in st:
            V.eq(tag + s + ' displacement', r.displacements_stats(stat_type=s), st[s])
        V.eq(tag + 'mean is the default', r.displacements_stats(), st['mean'])
    V.check(tag + 'unknown statistic', raises(ValueError, lambda: r.displacements_stats('mode')))
    V.check(tag + 'costs kept or absent', (r.costs is None) == (costs is None))
    if costs is not None:
        V.eq(tag + 'costs', r.costs, costs)
    sh = Show()
    with patched(*sh.patches()):
        if gt is not None:
            V.check(tag + 'plot errors', r.plot_errors(compute_error=f, line_colour='g') == 'curve')
            x, y, kw = sh.curves.pop()
            V.eq(tag + 'plotted errors', y, [[custom(V, s, gt) for s in all_shapes]])
            V.check(tag + 'plotted iterations', list(x) == list(range(len(all_shapes))))
            V.check(tag + 'options forwarded', kw['line_colour'] == 'g')
        if D:
            for s in sorted(st):
                r.plot_displacements(stat_type=s, marker_size=9)
                x, y, kw = sh.curves.pop()
                V.eq(tag + 'plotted %s displacements' % s, y, [st[s]])
                V.check(tag + 'plotted steps', list(x) == list(range(len(D))))
                V.check(tag + 'options forwarded to displacements', kw['marker_size'] == 9)
        V.check(tag + 'unknown plotted statistic', raises(ValueError, lambda: r.plot_displacements('mode')))
        if costs is not None:
            r.plot_costs(line_width=5)
            x, y, kw = sh.curves.pop()
            V.eq(tag + 'plotted costs', y, [costs])
            V.check(tag + 'plotted cost steps', list(x) == list(range(len(costs))))
            V.check(tag + 'options forwarded to costs', kw['line_width'] == 5)
        else:
            V.check(tag + 'no costs to plot', raises(ValueError, lambda: r.plot_costs()))


def label(k, n_iters):
    return 'iteration {:0{}d}'.format(k, len(str(n_iters)))


def view_claims(V, r, all_shapes, init, recon, n_iters, px, tag=''):
    """the k-th entry of view_iterations shows the k-th shape under the documented name"""
    n = len(all_shapes)
    kinds = []
    k = 0
    for j in range(n):
        if j == 0 and init is not None:
            kinds.append('Initial')
        elif j in recon:
            kinds.append(None)
        else:
            k += 1
            kinds.append('Final' if j == n - 1 else label(k, n_iters))
    V.check(tag + 'iterations counted', k == n_iters)
    for what in (None, n - 1, 0, [n - 1, 0] if n > 1 else [0]):
        s = Show()
        with patched(*s.patches()):
            r.view_iterations(iters=what, line_colour='q', subplots_enabled=True)
        shown, groups, kw = s.views[0]
        idx = list(range(n)) if what is None else ([what] if isinstance(what, int) else what)
        V.check(tag + 'one group per requested iteration', len(groups) == len(idx) == len(set(groups)))
        for g, j in zip(groups, idx):
            V.eq(tag + 'rendered shape of iteration', shown.landmarks[g].points, all_shapes[j])
            V.check(tag + 'name of the iteration', kinds[j] is None or g == kinds[j])
            V.check(tag + 'reconstruction named so', (kinds[j] is None) == ('Reconstruction' in g))
        V.check(tag + 'view options forwarded', kw['line_colour'] == 'q' and kw['subplots_enabled'] is True)
        V.check(tag + 'image rendered if there is one', kw['render_image'] is (px is not None))
        if px is not None:
            V.eq(tag + 'rendered image', shown.pixels, px)
    V.check(tag + 'iters of another type', raises(ValueError, lambda: r.view_iterations(iters='all')))


def to_result_claims(V, r, final, init, gt, px):
    for a in (True, False):
        for b in (True, False):
            for c in (True, False):
                t = r.to_result(pass_image=a, pass_initial_shape=b, pass_gt_shape=c)
                V.check('plain result', t.is_iterative is False and type(t) is Result)
                V.eq('final shape passed', t.final_shape.points, final)
                V.check('image passed on request', (t.image is not None) == (a and px is not None))
                V.check('initial shape passed on request', (t.initial_shape is not None) == (b and init is not None))
                V.check('ground truth passed on request', (t.gt_shape is not None) == (c and gt is not None))
                if t.image is not None:
                    V.eq('same image', t.image.pixels, px)
                if t.initial_shape is not None:
                    V.eq('same initial shape', t.initial_shape.points, init)
                if t.gt_shape is not None:
                    V.eq('same ground truth', t.gt_shape.points, gt)


def nonparam(V, length=None):
    n = length or int(V.integer('n', 1, 3))
    shapes = [cloud(V, 's%d' % k, 1 if length else N) for k in range(n)]
    init, gt, im, px = opts(V)
    costs = V.reals('c', n, 0, 9).tolist() if V.boolean('costs') else None
    r = NonParametricIterativeResult(list(shapes), initial_shape=init, image=im, gt_shape=gt, costs=costs)
    basic_claims(V, r, shapes[-1].points, pts(init), pts(gt), im, px)
    al = ([] if init is None else [init.points]) + [s.points for s in shapes]
    V.check('iterations: the shapes without the initial one', r.n_iters == n)
    iterative_claims(V, r, al, pts(init), pts(gt), costs)
    view_claims(V, r, al, init, [], n, px)
    to_result_claims(V, r, shapes[-1].points, pts(init), pts(gt), px)


REG.add('non_parametric', nonparam, max_paths=200, timeout=150, bounds='1-3 iterations, any shapes of 3 points')
REG.add('non_parametric_long', lambda V: nonparam(V, 31), max_paths=200, timeout=150, bounds='31 iterations, any shapes of 1 point')
REG.add('non_parametric_longer', lambda V: nonparam(V, 101), max_paths=200, timeout=300,
        bounds='101 iterations, any shapes of 1 point')

EXTRA = {'plain': (ParametricIterativeResult, MultiScaleParametricIterativeResult, ()),
         'lk': (LucasKanadeAlgorithmResult, LucasKanadeResult, ()),
         'aam': (AAMAlgorithmResult, AAMResult, ('appearance_parameters',)),
         'aps': (APSAlgorithmResult, APSResult, ('appearance_costs', 'deformation_costs')),
         'unified': (UnifiedAAMCLMAlgorithmResult, UnifiedAAMCLMResult, ('appearance_parameters',))}


def algorithm_result(V, kind, tag, n, init, gt=None, im=None, costs=True, lists=True, np_=2):
    """an algorithm result with n iterations (and 1 + n shapes)"""
    cls, _, extra = EXTRA[kind]
    shapes = [cloud(V, tag + 's%d' % k, np_) for k in range(n + 1)]
    params = [V.reals('%sp%d' % (tag, k), 2, -3, 3) for k in range(n + 1)]
    kw = dict(initial_shape=init, image=im, gt_shape=gt,
              costs=V.reals(tag + 'c', n, 0, 9).tolist() if costs else None)
    ex = {}
    for e in extra:
        ex[e] = [V.reals('%s%s%d' % (tag, e, k), 2, -3, 3) for k in range(n + 1)] if lists else None
    kw.update({k: None if v is None else list(v) for k, v in ex.items()})
    kw['homogeneous_parameters' if kind == 'lk' else 'shape_parameters'] = list(params)
    r = cls(shapes=list(shapes), **kw)
    return r, shapes, params, ex, (None if not costs else list(kw['costs']))


def _param(kind, length=None):
    def f(V):
        n = length or int(V.integer('n', 0, 2))
        np_ = 1 if length else 2
        init = cloud(V, 'init', np_) if V.boolean('initial') else None
        gt = cloud(V, 'gt', np_) if V.boolean('ground truth') else None
        im = image(V) if V.boolean('image') else None
        px = None if im is None else im.pixels.copy()
        costs = V.boolean('costs') if kind == 'plain' else True
        r, shapes, params, ex, cs = algorithm_result(V, kind, '', n, init, gt, im, costs, np_=np_)
        basic_claims(V, r, shapes[-1].points, pts(init), pts(gt), im, px)
        al = ([] if init is None else [init.points]) + [s.points for s in shapes]
        iterative_claims(V, r, al, pts(init), pts(gt), cs)
        V.check('the reconstruction of the initial shape is no iteration', r.n_iters == n)
        V.eq('reconstructed initial shape', r.reconstructed_initial_shape.points, shapes[0].points)
        f_ = count_err(V)
        if gt is None:
            V.check('reconstruction error needs the ground truth',
                    raises(ValueError, lambda: r.reconstructed_initial_error(f_)))
        else:
            V.eq('reconstruction error', r.reconstructed_initial_error(compute_error=f_),
                 custom(V, shapes[0].points, gt.points))
            with patched((mr, 'euclidean_bb_normalised_error', f_)):
                V.eq('reconstruction error, default metric', r.reconstructed_initial_error(),
                     custom(V, shapes[0].points, gt.points))
        param_claims(V, kind, r, params, ex)
        view_claims(V, r, al, init, [0 if init is None else 1], n, px)
        to_result_claims(V, r, shapes[-1].points, pts(init), pts(gt), px)
    return f


def param_claims(V, kind, r, params, ex):
    got = r.homogeneous_parameters if kind == 'lk' else r.shape_parameters
    V.check('one parameter vector per shape', len(got) == len(params))
    for a, b in zip(got, params):
        V.eq('parameters', a, b)
    for k in ex:
        g = getattr(r, k)
        if ex[k] is None:
            V.check(k + ' absent', g is None)
            continue
        V.check('number of ' + k, len(g) == len(ex[k]))
        for a, b in zip(g, ex[k]):
            V.eq(k, a, b)


for k in sorted(EXTRA):
    REG.add('parametric_' + k, _param(k), max_paths=100, timeout=150, bounds='0-2 iterations, any shapes of 2 points')
    REG.add('parametric_long_' + k, _param(k, 23), max_paths=100, timeout=150, bounds='23 iterations, any shapes of 1 point')


def transforms(V, n):
    A, S = [], []
    for k in range(n):
        h = np.eye(3, dtype=object if V.sym else float)
        h[:2] = V.reals('A%d' % k, (2, 3), -2, 2)
        A.append(Affine(h.view(symnp.SArr) if V.sym else h, copy=False, skip_checks=True))
        s = V.real('S%d' % k, 0.25, 4)
        hs = np.eye(3, dtype=object if V.sym else float)
        hs[0, 0] = hs[1, 1] = s
        S.append(Affine(hs.view(symnp.SArr) if V.sym else hs, copy=False, skip_checks=True))
    return A, S


def to_ref(A, S, p):
    h = np.asarray(A.h_matrix)
    return np.dot(np.asarray(p) * S.h_matrix[0, 0], h[:2, :2].T) + h[:2, 2]


def _multi(kind, n_scales, max_n):
    fixed = not isinstance(max_n, int)
    np_ = 1 if fixed else 2

    def f(V):
        ns = list(max_n) if fixed else [int(V.integer('n%d' % k, 0, max_n)) for k in range(n_scales)]
        has_init = V.boolean('initial')
        gt = cloud(V, 'gt', np_) if V.boolean('ground truth') else None
        im = image(V) if n_scales == 1 else None
        px = None if im is None else im.pixels.copy()
        costs = V.boolean('costs') if n_scales > 1 else True
        A, S = transforms(V, n_scales)
        R_, al, params, exs, cs, recon = [], [], [], {}, [], []
        for k in range(n_scales):
            i = cloud(V, 'i%d' % k, np_) if has_init else None
            r, sh, p, ex, c = algorithm_result(V, kind, 'r%d_' % k, ns[k], i, costs=costs, lists=costs, np_=np_)
            R_.append(r)
            if k == 0 and has_init:
                al.append(to_ref(A[0], S[0], i.points))
            recon.append(len(al))
            al += [to_ref(A[k], S[k], s.points) for s in sh]
            params += p
            for e in ex:
                exs[e] = None if ex[e] is None else exs.get(e, []) + ex[e]
            cs += c or []
        before = [(len(r.costs or []), len(r.shapes)) for r in R_]
        scales = [0.5 * (k + 1) for k in range(n_scales)]
        r = EXTRA[kind][1](R_, scales, A, S, image=im, gt_shape=gt)
        init = al[0] if has_init else None
        n = sum(ns)
        basic_claims(V, r, al[-1], init, pts(gt), im, px)
        iterative_claims(V, r, al, init, pts(gt), cs if costs else None)
        V.check('number of iterations', r.n_iters == n)
        V.check('iterations per scale', list(r.n_iters_per_scale) == ns)
        V.check('number of scales', r.n_scales == n_scales)
        same(V, 'reconstructions', r.reconstructed_initial_shapes, [al[j] for j in recon])
        if gt is not None:
            f_ = count_err(V)
            V.eq('reconstruction error', r.reconstructed_initial_error(compute_error=f_),
                 custom(V, al[recon[0]], gt.points))
        else:
            V.check('reconstruction error needs the ground truth',
                    raises(ValueError, lambda: r.reconstructed_initial_error()))
        if kind == 'lk':
            V.check('no shape parameters', raises(AttributeError, lambda: r.shape_parameters))
        param_claims(V, kind, r, params, exs)
        view_claims(V, r, al, init, recon, n, px)
        V.check('the results of the scales are left alone', before == [(len(x.costs or []), len(x.shapes)) for x in R_])
        V.check('scales and results must agree', raises(
            ValueError, lambda: EXTRA[kind][1](R_, scales + [1.0], A, S)))
    return f


for k in sorted(EXTRA):
    REG.add('multi_scale_1_' + k, _multi(k, 1, 2), max_paths=100, timeout=150,
            bounds='1 scale, 0-2 iterations, any shapes of 2 points, any affine and scale transforms')
    REG.add('multi_scale_2_' + k, _multi(k, 2, 1), max_paths=200, timeout=300,
            bounds='2 scales, 0-1 iterations each, any shapes of 2 points, any affine and scale transforms')
REG.add('multi_scale_3_plain', _multi('plain', 3, 1), max_paths=300, timeout=400,
        bounds='3 scales, 0-1 iterations each, any shapes of 2 points, any affine and scale transforms')


for k in sorted(EXTRA):
    REG.add('multi_scale_6_' + k, _multi(k, 6, (3, 1, 0, 27, 2, 5)), max_paths=100, timeout=300,
            bounds='6 scales, 3, 1, 0, 27, 2 and 5 iterations, any shapes of 1 point, any affine and scale transforms')


def _multi_nonparam(n_scales, max_n):
    fixed = not isinstance(max_n, int)
    np_ = 1 if fixed else 2

    def f(V):
        ns = list(max_n) if fixed else [int(V.integer('n%d' % k, 1, max_n)) for k in range(n_scales)]
        has_init = V.boolean('initial')
        gt = cloud(V, 'gt', np_) if V.boolean('ground truth') else None
        costs = V.boolean('costs')
        A, S = transforms(V, n_scales)
        R_, al, cs = [], [], []
        for k in range(n_scales):
            i = cloud(V, 'i%d' % k, np_) if has_init else None
            sh = [cloud(V, 'r%ds%d' % (k, j), np_) for j in range(ns[k])]
            c = V.reals('c%d' % k, ns[k], 0, 9).tolist() if costs else None
            R_.append(NonParametricIterativeResult(list(sh), initial_shape=i, costs=c))
            if k == 0 and has_init:
                al.append(to_ref(A[0], S[0], i.points))
            al += [to_ref(A[k], S[k], s.points) for s in sh]
            cs += list(c or [])
        r = MultiScaleNonParametricIterativeResult(R_, [1.0] * n_scales, A, S, gt_shape=gt)
        init = al[0] if has_init else None
        basic_claims(V, r, al[-1], init, pts(gt), None, None)
        iterative_claims(V, r, al, init, pts(gt), cs if costs else None)
        V.check('number of iterations', r.n_iters == sum(ns))
        V.check('iterations per scale', list(r.n_iters_per_scale) == ns)
        V.check('number of scales', r.n_scales == n_scales)
        view_claims(V, r, al, None if init is None else init, [], sum(ns), None)
        if n_scales == 1:
            r1 = MultiScaleNonParametricIterativeResult(R_[0], 1.0, A, S, gt_shape=gt)
            same(V, 'single result instead of a list', r1.shapes, al)
    return f


for n, m in ((1, 2), (2, 2), (3, 1), (6, (3, 1, 2, 27, 1, 5))):
    REG.add('multi_scale_non_parametric_%d' % n, _multi_nonparam(n, m), max_paths=200, timeout=300,
            bounds='%d scales, 1-%d iterations each, any shapes of 2 points' % (n, m) if isinstance(m, int) else
            '%d scales, %s iterations, any shapes of 1 point' % (n, m))
