"""C30 - tables and plots show the values of the right method, group and statistic."""
import contextlib
import inspect
import io
from checks.common import *
from checks.C15 import errors, fraction
import menpo.visualize
import menpo.visualize.viewmatplotlib as vm
import matplotlib.pyplot as plt
import menpofit.error as err
import menpofit.visualize.base as vb
import menpofit.visualize.textutils as vt
from menpo.image import Image, MaskedImage

REG = Registry('C30')
REG.assumptions = ['the renderers of menpo and matplotlib are replaced by recorders of their arguments',
                   'pandas sorts tables by their columns']
REG.outside = ['the pixels drawn by matplotlib', 'the text printed for tables and progress bars']
KINDS = ['mean', 'std', 'median', 'mad', 'max', 'auc', 'fr']


# ------------------------------------------------------------------ tables
class Stats(object):
    """arbitrary statistics for every method"""

    def __init__(self, V, n):
        self.V, self.n, self.calls = V, n, []
        self.table = {k: [V.real('%s%d' % (k, i), -2, 2) for i in range(n)] for k in KINDS}

    def __call__(self, errors, step_error, max_error, min_error=0.0):
        self.calls.append((errors, step_error, max_error, min_error))
        return tuple(list(self.table[k]) for k in KINDS)


def cell(v):
    return v.item() if hasattr(v, 'item') and not isinstance(v, (R,)) else v


def table(n, sort, types, names, single=False):
    def f(V):
        import pandas as pn
        st = Stats(V, n)
        key = None
        if sort is not None:
            key = st.table[sort]
            for i in range(n):
                for j in range(i):
                    V.assume(E.bor(key[i] < key[j] - 0.001, key[i] > key[j] + 0.001) if V.sym else
                             abs(key[i] - key[j]) > 0.001)
        methods = ['m%d' % i for i in range(n)]
        es = [[0.1 * k, 0.2] for k in range(n)]
        given = es[0] if single else es
        e0 = [list(e) for e in es]
        opts = []
        kw = dict(stats_types=None if types is None else list(types), stats_names=None if names is None else list(names),
                  sort_by=sort)
        old = pn.get_option('display.precision')
        prec = int(V.integer('precision', 2, 6))
        try:
            with patched((err, 'compute_statistical_measures', st)):
                t = vt.statistics_table(given, methods, 0.7, 0.1, auc_min_error=0.05, precision=prec, **kw)
            V.check('precision', pn.get_option('display.precision') == prec)
        finally:
            pn.set_option('display.precision', old)
        V.check('measured once, with the given range', len(st.calls) == 1 and st.calls[0] == (e0, 0.1, 0.7, 0.05))
        cols = list(types or KINDS)
        head = list(names or cols)
        V.check('one column per statistic, in the given order', list(t.columns) == head)
        V.check('one row per method', sorted(t.index) == methods)
        for i, m in enumerate(methods):
            for c, h in zip(cols, head):
                V.eq('%s of %s' % (c, m), cell(t.loc[m, h]), st.table[c][i])
        order = [methods.index(m) for m in t.index]
        if sort is None:
            V.check('order of the methods', order == list(range(n)))
        else:
            for a, b in zip(order, order[1:]):
                V.check('best first', key[a] > key[b] if sort == 'auc' else key[a] < key[b])
        V.check('errors left alone', es == e0)
    return f


REG.add('table', table(3, None, None, None), bounds='3 methods, every statistic')
REG.add('table_one_method', table(1, None, None, None, single=True), bounds='1 method, given as a list of errors')
for _s in KINDS:
    REG.add('table_by_' + _s, table(3, _s, None, None), max_paths=100, bounds='3 methods')
REG.add('table_names', table(3, 'std', ['fr', 'std', 'auc'], ['failures', 'spread', 'area']), max_paths=100, bounds='3 methods')
REG.add('table_names_auc', table(3, 'auc', ['auc', 'mean'], ['mean', 'auc']), max_paths=100, bounds='3 methods')
REG.add('table_types', table(2, None, ['median', 'max', 'mad'], None), bounds='2 methods')


def refused(V):
    st = Stats(V, 2)
    es, ms = [[.1], [.2]], ['a', 'b']
    what = int(V.integer('what', 0, 3))
    kw = [dict(stats_types=['mean', 'mode']), dict(stats_types=['mean'], stats_names=['a', 'b']),
          dict(stats_types=['mean'], sort_by='std'), dict(sort_by='mode')][what]
    with patched((err, 'compute_statistical_measures', st)):
        V.check('refused', raises(ValueError, lambda: vt.statistics_table(es, ms, 1., .1, **kw)))


REG.add('table_refused', refused, bounds='4 wrong calls')


def progress(V):
    n = int(V.integer('n', 0, 4))
    verbose = bool(V.boolean('verbose'))
    items = [object() for _ in range(n)]
    with contextlib.redirect_stdout(io.StringIO()) as out:
        got = list(vt.print_progress(items, prefix='p', verbose=verbose))
        lazy = vt.print_progress(iter(items), n_items=n, verbose=verbose)
        got2 = list(lazy)
    V.check('every item once, in order', [id(x) for x in got] == [id(x) for x in items] and got2 == got)
    if not verbose:
        V.check('silent', out.getvalue() == '')


REG.add('progress', progress, bounds='0 to 4 items')


# ------------------------------------------------------------------ cumulative error distribution
def ced(n_methods, n, bins, legend, limits, flat=False, fixed=0):
    def f(V):
        calls = []

        def curve(x_axis, y_axis, **kw):
            calls.append((x_axis, y_axis, kw))
            return 'curve'
        rng = None if bins is None else list(bins)
        opts = {k: 'given ' + k for k in inspect.signature(vb.plot_cumulative_error_distribution).parameters if k not in
                ('errors', 'error_range', 'legend_entries', 'axes_x_limits', 'axes_y_limits')}
        axis = np.arange(*(bins or (0., 0.101, 0.005))).tolist()
        es = [errors(V, 'e%d' % k, n, axis, axis[-1] * 1.5).tolist() + [((k + 3) * i * i % 29) / 40. + .013 for i in range(fixed)]
              for k in range(n_methods)]
        copies = [list(e) for e in es]
        kw = {}
        if legend:
            kw['legend_entries'] = ['L%d' % k for k in range(n_methods)]
        if limits:
            kw.update(axes_x_limits=(0.01, 0.3), axes_y_limits=(0.2, 0.9))
        with patched((menpo.visualize, 'plot_curve', curve)):
            r = vb.plot_cumulative_error_distribution(es[0] if flat else es, error_range=rng,
                                                      **dict(opts, **kw))
        V.check('one plot, returned', r == 'curve' and len(calls) == 1)
        x, y, k = calls[0]
        V.close('errors on the horizontal axis', x, axis, 1e-12)
        V.check('one curve per method', len(y) == n_methods)
        for i in range(n_methods):
            V.close('share of errors of method %d' % i, y[i], [fraction(V, copies[i], b) for b in axis], 1e-9)
        V.check('legend', list(k['legend_entries']) == kw.get('legend_entries', ['Curve %d' % i for i in range(n_methods)]))
        V.check('limits', tuple(k['axes_x_limits']) == (0.01, 0.3) and tuple(k['axes_y_limits']) == (0.2, 0.9) if limits else
                k['axes_x_limits'][0] == 0 and abs(k['axes_x_limits'][1] - axis[-1]) < 1e-12 and tuple(k['axes_y_limits']) == (0, 1))
        V.check('options', all(k.get(o) == v for o, v in opts.items()))
        V.check('errors left alone', all(a is b for e, c in zip(es, copies) for a, b in zip(e, c)))
    return f


REG.add('ced_one', ced(1, 2, (0., 1.1, 0.5), False, False, flat=True), max_paths=300, bounds='2 errors, 3 bins')
REG.add('ced_two', ced(2, 2, (0., 1.1, 0.5), True, False), max_paths=400, bounds='2 methods, 2 errors each, 3 bins')
REG.add('ced_three', ced(3, 1, (0.25, 0.6, 0.25), False, True), max_paths=400, bounds='3 methods, 1 error each, 2 bins')
REG.add('ced_many', ced(2, 1, (0., 1.1, 0.5), True, True, fixed=70), max_paths=400, bounds='2 methods, 71 errors each (one any)')
REG.add('ced_default_range', ced(1, 1, None, False, False), max_paths=400, bounds='1 error, 21 bins')


def ced_legend(V):
    n = int(V.integer('n', 1, 4))
    calls = []
    with patched((menpo.visualize, 'plot_curve', lambda *a, **k: calls.append(a))):
        V.check('as many names as methods', raises(ValueError, lambda: vb.plot_cumulative_error_distribution(
            [[.1], [.2]], legend_entries=['x'] * n)) == (n != 2))


REG.add('ced_legend', ced_legend, bounds='1 to 4 names')


# ------------------------------------------------------------------ landmarks
class Recorder(object):
    def __init__(self):
        self.log = []
        self.figure_id = None

    def patches(self):
        o = self

        class Renderer(object):
            def __init__(self, figure_id=None, new_figure=False):
                self.figure_id = 'fig%s%s' % (figure_id, new_figure)
                o.log.append(('figure', figure_id, new_figure))

        class Subplots(object):
            def _subplot_layout(self, n):
                o.log.append(('layout', n))
                return [3, 4]

        class Axes(object):
            def legend(self, names, **kw):
                o.log.append(('legend', list(names), kw))
        return ((vm, 'MatplotlibRenderer', Renderer), (vm, 'MatplotlibSubplots', Subplots),
                (plt, 'subplot', lambda *a: o.log.append(('subplot',) + a)),
                (plt, 'title', lambda t, **kw: o.log.append(('title', t, kw))),
                (plt, 'gca', lambda: Axes()))


def make_image(rec_, masked, groups):
    class Pic(MaskedImage if masked else Image):
        def view_landmarks(self, **kw):
            rec_.log.append(('landmarks', kw['group'], kw))
            return type('R', (), dict(figure_id='after ' + kw['group']))()

        def view(self, **kw):
            rec_.log.append(('image', None, kw))
            return type('R', (), dict(figure_id='image'))()
    im = Pic(np.zeros((3, 2, 2)))

    def shape(g):
        return rec(view=lambda **kw: rec_.log.append(('shape', g, kw)))
    return im, {g: shape(g) for g in groups}


PER_GROUP = ('render_lines', 'line_style', 'line_width', 'line_colour', 'render_markers', 'marker_style', 'marker_size',
             'marker_edge_width', 'marker_edge_colour', 'marker_face_colour')


LEGEND = {k: 'given legend_' + v for k, v in dict(
    title='title', loc='location', bbox_to_anchor='bbox_to_anchor', borderaxespad='border_axes_pad', ncol='n_columns',
    columnspacing='horizontal_spacing', labelspacing='vertical_spacing', frameon='border', borderpad='border_padding',
    shadow='shadow', fancybox='rounded_corners', markerscale='marker_scale').items()}
LEGEND['prop'] = {k: 'given legend_font_' + v for k, v in dict(family='name', size='size', style='style', weight='weight').items()}


def view(n, form, masked, subplots, render_image, render_landmarks, legend):
    groups = ['g%d' % k for k in range(n)]

    def f(V):
        rec_ = Recorder()
        im, shapes = make_image(rec_, masked, groups)
        m = n if form == 'list' else 1
        vals = dict(render_lines=[k % 2 == 0 for k in range(m)], line_style=['s%d' % k for k in range(m)],
                    line_width=[V.real('lw%d' % k, 0.5, 3) for k in range(m)], line_colour=['c%d' % k for k in range(m)],
                    render_markers=[k % 2 == 1 for k in range(m)], marker_style=['t%d' % k for k in range(m)],
                    marker_size=[V.real('ms%d' % k, 1, 9) for k in range(m)],
                    marker_edge_width=[V.real('mw%d' % k, 1, 9) for k in range(m)],
                    marker_edge_colour=['e%d' % k for k in range(m)], marker_face_colour=['f%d' % k for k in range(m)])
        args = {k: v[0] if form == 'one' else list(v) for k, v in vals.items()}
        # colour lists are menpo's to check
        given = {k: list(v) for k, v in args.items() if isinstance(v, list) and 'colour' not in k}
        if n >= 2:
            args['with_labels'] = [['a'], ['b', 'c'], ['d'], ['e', 'a', 'f']][:n]
        opts = {k: 'given ' + k for k in inspect.signature(vb.view_image_multiple_landmarks).parameters if k not in
                PER_GROUP + ('image', 'groups', 'with_labels', 'figure_id', 'new_figure', 'subplots_enabled', 'subplots_titles',
                             'render_image', 'render_landmarks', 'masked', 'channels', 'image_view', 'render_legend')}
        # the default titles are the names of the groups
        default = form == 'single'
        titles = {g: g if default else 'title of ' + g for g in groups} if legend else None
        channels = [2, 0]
        type(im).landmarks = property(lambda self: shapes)
        with patched(*rec_.patches()), builtin_types(V, vb):
            r = vb.view_image_multiple_landmarks(
                im, groups, figure_id=7, new_figure=False, subplots_enabled=subplots, subplots_titles=None if default else titles,
                render_image=render_image, render_landmarks=render_landmarks, masked=False, channels=channels,
                render_legend=legend, image_view='iv', **dict(args, **opts))
        log = rec_.log
        V.check('the figure', log[0] == ('figure', 7, False))
        drawn = [x for x in log if x[0] in ('landmarks', 'shape', 'image')]
        if not render_landmarks or not n:
            V.check('only the image', [x[0] for x in drawn] == (['image'] if render_image else []))
            if render_image:
                kw = drawn[0][2]
                names = [k for k in opts if k[:6] not in ('legend', 'number', 'render') or k == 'render_axes']
                V.check('options of the image', all(kw.get(k) == opts[k] for k in names) and kw['channels'] == 2)
                V.check('mask only for masked images', kw.get('masked') is (False if masked else None))
            return
        V.check('every group once, in order', [(x[0], x[1]) for x in drawn] ==
                [('landmarks' if render_image else 'shape', g) for g in groups])
        for k, (_, g, kw) in enumerate(drawn):
            for o in PER_GROUP:
                a, b = kw[o], vals[o][k if m > 1 else 0]
                V.check('%s of group %d' % (o, k), (a is b or bool(V.eq('%s %d' % (o, k), a, b)) or True)
                        if isinstance(b, (R, float)) else a == b)
            names = set(opts) if render_image else {o for o in opts if o[:4] == 'axes' or o in ('render_axes', 'figure_size')}
            V.check('options of group %d' % k, all(kw.get(o) == opts[o] for o in names))
            if render_image:
                V.check('labels of group %d' % k, kw['with_labels'] == (args['with_labels'][k] if n >= 2 else None))
                V.check('mask only for masked images %d' % k, kw.get('masked') is (False if masked else None))
                V.check('channel %d' % k, kw['channels'] == 2)
                V.check('same figure %d' % k, kw['figure_id'] == ('fig7False' if k == 0 else 'after g%d' % (k - 1)) and
                        kw['new_figure'] is False)
                V.check('one legend for all groups %d' % k, kw['render_legend'] is (legend and not subplots))
            else:
                V.check('image axes %d' % k, kw['image_view'] == 'iv')
        if subplots:
            V.check('layout for every group', [x for x in log if x[0] == 'layout'] == [('layout', n)])
            V.check('one subplot per group', [x for x in log if x[0] == 'subplot'] ==
                    [('subplot', 3, 4, k + 1) for k in range(n)])
            V.check('titles', [x[1] for x in log if x[0] == 'title'] ==
                    ([titles[g] for g in groups] if legend else []))
            V.check('font of the titles', all(x[2] == {'font' + o: 'given legend_font_' + o for o in
                                                       ('name', 'style', 'weight', 'size')} for x in log if x[0] == 'title'))
            seq = [x[0] for x in log if x[0] in ('subplot', 'landmarks', 'shape')]
            V.check('drawn in its subplot', seq == ['subplot', 'landmarks' if render_image else 'shape'] * n)
        else:
            V.check('no subplots', not [x for x in log if x[0] in ('subplot', 'layout', 'title')])
            V.check('legend', [x[1] for x in log if x[0] == 'legend'] == ([[titles[g] for g in groups]] if legend else []))
            V.check('options of the legend', all(x[2] == LEGEND for x in log if x[0] == 'legend'))
        V.check('given lists left alone', all(len(args[k]) == len(v) and all(x is y for x, y in zip(args[k], v))
                                              for k, v in given.items()))
        V.check('channels left alone', channels == [2, 0])
    REG.add('view_%d_%s%s%s%s%s%s' % (n, form, '_masked' if masked else '', '_subplots' if subplots else '',
                                      '' if render_image else '_no_image', '' if render_landmarks else '_no_landmarks',
                                      '_legend' if legend else ''), f, timeout=60, bounds='%d groups' % n)


for _n, _form in ((1, 'one'), (2, 'one'), (2, 'list'), (3, 'list'), (3, 'single'), (2, 'single')):
    for _img in (True, False):
        view(_n, _form, _n == 2, _form != 'list', _img, True, True)
        view(_n, _form, False, _form == 'list', _img, True, _n == 3)
view(0, 'one', False, True, True, True, True)
view(2, 'one', True, True, True, False, True)
view(2, 'one', False, False, True, False, False)
view(2, 'one', False, False, False, False, False)


def wrong(V):
    """options for another number of groups are refused"""
    o = pick(V, 'option', ['render_lines', 'line_style', 'line_width', 'render_markers', 'marker_style', 'marker_size',
                           'marker_edge_width', 'with_labels'])
    n = int(V.integer('n', 1, 4))
    good = dict(render_lines=True, line_style='-', line_width=1, render_markers=True, marker_style='o', marker_size=2.5,
                marker_edge_width=3, with_labels=['a'])[o]
    rec_ = Recorder()
    groups = ['a', 'b']
    im, shapes = make_image(rec_, False, groups)
    type(im).landmarks = property(lambda self: shapes)
    with patched(*rec_.patches()):
        def go():
            vb.view_image_multiple_landmarks(im, groups, **{o: [good] * n})
        ok = (2,) if o == 'with_labels' else (1, 2)
        V.check('as many values as groups', raises(ValueError, go) == (n not in ok))
        bad = {'with_labels': 3, 'render_lines': 'x', 'render_markers': 1.5}.get(o, None)
        if o != 'with_labels':
            V.check('values of another type are refused', raises(
                ValueError, lambda: vb.view_image_multiple_landmarks(im, groups, **{o: bad})))


REG.add('view_refused', wrong, max_paths=100, bounds='lists of 1-4 values for 2 groups')


# ------------------------------------------------------------------ deformation models
def deformation(edges, n, tree):
    """the model of an arbitrary spread of every child around its parent, drawn"""
    from menpo.shape import DirectedGraph, Tree, PointCloud, PointTree, PointDirectedGraph
    from menpofit.aps.base import GenerativeAPS

    def f(V):
        log, graphs, models, covs_of = [], [], [], []
        mean = np.array([[1., 2.], [5., 3.], [4., 8.], [9., 7.]])[:n]
        sets = [[(i, i + 1) for i in range(n - 1)], edges]
        for s_, es in enumerate(sets):
            adj = np.zeros((n, n))
            cov, P = {}, [[0. for _ in range(2 * n)] for _ in range(2 * n)]
            for i, j in es:
                adj[i, j] = 1
                nm = '%d%d%d' % (s_, i, j)
                a, b, c = V.real('a' + nm, 1, 4), V.real('b' + nm, -0.75, 0.75), V.real('c' + nm, 1, 4)
                cov[j, i] = [[a, b], [b, c]]
                d = a * c - b * b
                q = [[c / d, -b / d], [-b / d, a / d]]
                for r, s in np.ndindex(2, 2):
                    P[2 * i + r][2 * i + s] = P[2 * i + r][2 * i + s] + q[r][s]
                    P[2 * j + r][2 * j + s] = P[2 * j + r][2 * j + s] + q[r][s]
                    P[2 * i + r][2 * j + s] = P[2 * i + r][2 * j + s] - q[r][s]
                    P[2 * j + r][2 * i + s] = P[2 * j + r][2 * i + s] - q[r][s]
            graphs.append(Tree(adj, es[0][0]) if tree and s_ else DirectedGraph(adj))
            covs_of.append(cov)
            models.append((rec(precision=sarr(P)), rec(model=rec(mean=lambda p=mean + 20 * (1 - s_): PointCloud(p)))))
        m = GenerativeAPS.__new__(GenerativeAPS)
        m.deformation_models, m.shape_models = [o[0] for o in models], [o[1] for o in models]
        m.deformation_graph, m.scales = graphs, [0.5, 1.0]
        k = int(V.integer('scale', -1, 1))
        opts = {o: 'given ' + o for o in inspect.signature(GenerativeAPS.view_deformation_model).parameters
                if o not in ('self', 'scale_index')}

        def graph_view(self, **kw):
            log.append(('graph', self, kw))
            return rec(figure_id='drawn')

        def ellipses(covariances, means, **kw):
            log.append(('ellipses', covariances, means, kw))
            return 'the renderer'
        with patched((PointTree, 'view', graph_view), (PointDirectedGraph, 'view', graph_view),
                     (menpo.visualize, 'plot_gaussian_ellipses', ellipses)):
            r = m.view_deformation_model(scale_index=k, **opts) if k >= 0 else m.view_deformation_model(**opts)
        cov, es, top = covs_of[k], sets[k], mean if k else mean + 20
        V.check('the renderer is returned', r == 'the renderer')
        V.check('graph, then ellipses', [x[0] for x in log] == ['graph', 'ellipses'])
        (_, g, kw), (_, covs, means, kw2) = log
        V.check('kind of graph', isinstance(g, PointTree) == (tree and k != 0) and isinstance(g, PointDirectedGraph))
        V.check('edges of the graph', sorted(map(tuple, np.asarray(g.edges).tolist())) == sorted(es))
        V.check('mean shape', np.array_equal(g.points, top))
        V.check('one ellipse per edge', len(covs) == len(means) == len(es))
        for e, (p, c) in enumerate(graphs[k].edges.tolist()):
            V.eq('centre %d' % e, means[e], top[c])
            V.eq('spread %d' % e, covs[e], sarr(cov[c, p]))
        want = {o[6:] if o.startswith('graph_') else o: v for o, v in opts.items()}
        want = dict({o: opts[o] for o in kw if o in opts},
                    **{'line_' + o: opts['graph_line_' + o] for o in ('colour', 'style', 'width')})
        want['render_lines'] = opts['render_graph_lines']
        V.check('options of the graph', kw == want and set(want) >= {
            'figure_id', 'new_figure', 'image_view', 'figure_size', 'render_axes', 'marker_style', 'marker_size',
            'marker_face_colour', 'marker_edge_colour', 'marker_edge_width', 'render_markers'})
        want = dict({o: opts[o] for o in kw2 if o in opts},
                    **{'line_' + o: opts['ellipse_line_' + o] for o in ('colour', 'style', 'width')})
        want.update(figure_id='drawn', new_figure=False)
        label = kw2.pop('colour_bar_label', None)
        V.check('options of the ellipses', label is not None and kw2 == want and set(want) >= {
            'n_std', 'render_colour_bar', 'colour_map', 'crop_proportion', 'image_view', 'figure_size', 'render_markers'})
    REG.add('deformation_%s_%d' % ('tree' if tree else 'graph', n), f, timeout=60,
            bounds='%d landmarks, %d edges, any spread' % (n, len(edges)))


deformation([(0, 1), (0, 2)], 3, True)
deformation([(1, 0), (1, 2), (2, 3)], 4, True)
deformation([(0, 1), (2, 1)], 3, False)
