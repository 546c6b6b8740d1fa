"""C15 - CED, area under the curve, failure rate, summary statistics."""
from checks.common import *
import menpofit.error as err
from menpofit.error import (compute_cumulative_error, mad, area_under_curve_and_failure_rate,
                            compute_statistical_measures)

REG = Registry('C15')
REG.assumptions = ['no error lies within 1e-6 of a bin (bins are floats)']
REG.outside = ['plots']


TOL = 1e-9


def errors(V, name, n, bins, hi):
    e = V.reals(name, n, 0, hi)
    for x in e.tolist():
        for b in bins:
            d = x - b
            if V.sym:
                V.assume((d > 1e-6) | (d < -1e-6))
            else:
                V.assume(abs(d) > 1e-6)
    return e


MANY = [0.9375, 0.03125, 0.65625, 0.34375, 1.21875, 0.15625, 0.03125, 0.71875, 0.46875, 0.84375, 1.40625, 0.28125, 0.59375]


def many(V, name, bins, hi, at=1, free=2):
    """thirteen errors, of which `free`, spread over the list, are anything up to hi"""
    e = errors(V, name, free, bins, hi)
    out = V.frac(MANY) if V.sym else np.array(MANY)
    out = np.asarray(out).tolist()
    for k, x in enumerate(e.tolist()):
        out[(at + 8 * k) % 13] = x
    return sarr(out)


def fraction(V, e, x):
    """share of errors at most x"""
    k = 0
    for v in np.asarray(e).tolist():
        c = v <= x
        k = k + (c.as_real() if isinstance(c, B) else int(c))
    return k / len(e)


def _ced(n, bins):
    def f(V):
        e = errors(V, 'e', n, bins, 1) if n < 13 else many(V, 'e', bins, 1, free=1)
        want = [fraction(V, e, b) for b in bins]
        for tag, x, b in (('array', e, bins), ('list', e.tolist(), bins), ('array bins', e, np.array(bins)),
                          ('reversed errors', e[::-1], bins)):
            got = compute_cumulative_error(x, b)
            V.check(tag + ': one value per bin', len(got) == len(bins))
            V.close(tag + ': share of errors within each bin', got, want, TOL)
        got = compute_cumulative_error(e, bins)
        for k in range(len(bins) - 1):
            V.le('never decreases', got[k], got[k + 1])
    return f


REG.add('ced_3', _ced(3, [0.0, 0.125, 0.5, 0.9]), max_paths=400, bounds='3 errors, 4 bins')
REG.add('ced_1', _ced(1, [0.25, 0.5]), bounds='1 error, 2 bins')
REG.add('ced_4', _ced(4, [0.25, 0.625]), max_paths=400, bounds='4 errors, 2 bins')
REG.add('ced_13', _ced(13, [0.0, 0.0625, 0.125, 0.25, 0.375, 0.5, 0.625, 0.75, 0.875, 1.0]), max_paths=400, timeout=200,
        bounds='13 errors of which one is any, 10 bins')


def ced_edge(V):
    """an error exactly on a bin counts"""
    e = V.real('e', 0, 1)
    V.eq('error on the bin', compute_cumulative_error(sarr([e]), [e]), [1.0])
    b = V.real('b', 0, 1)
    V.eq('any bin', compute_cumulative_error(sarr([e, e]), [b]), [fraction(V, [e], b)])


REG.add('ced_edge', ced_edge, bounds='any error and bin')


def simpson(y, h):
    """composite Simpson rule, even number of intervals"""
    n = len(y) - 1
    return h / 3 * (y[0] + y[n] + 4 * sum(y[1:n:2]) + 2 * sum(y[2:n - 1:2]))


def _auc(n, step, mx, mn, k):
    bins = [mn + i * step for i in range(k + 1)]

    def f(V):
        e = errors(V, 'e', n, bins, mx + 2 * step) if n < 13 else many(V, 'e', bins, mx + 2 * step)
        auc, fr = area_under_curve_and_failure_rate(e, step, mx, mn)
        V.close('failure rate: share of errors above max_error', fr, 1 - fraction(V, e, mx), TOL)
        if k % 2 == 0:
            ced = [fraction(V, e, b) for b in bins]
            V.close('area under the CED over max_error', auc, simpson(ced, step) / mx, TOL)
        a2, f2 = area_under_curve_and_failure_rate(e.tolist(), step, mx, mn)
        V.eq('list: same area', a2, auc)
        V.eq('list: same failure rate', f2, fr)
        if mn == 0:
            a3, f3 = area_under_curve_and_failure_rate(e, step, mx)
            V.eq('default min_error: area', a3, auc)
            V.eq('default min_error: failure rate', f3, fr)
        # extremes
        V.le('area at most that of perfect results', auc, (mx - mn) / mx * 1.0 + 1e-9)
    return f


for n, step, mx, mn, k in ((2, 0.25, 1.0, 0.0, 4), (3, 0.5, 1.0, 0.0, 2), (2, 0.1, 0.2, 0.0, 2),
                           (1, 0.1, 0.7, 0.0, 7), (2, 0.05, 0.15, 0.0, 3), (2, 0.125, 0.5, 0.25, 2),
                           (1, 0.005, 0.01, 0.0, 2), (1, 0.1, 0.6, 0.0, 6), (13, 0.125, 1.0, 0.0, 8),
                           (1, 0.025, 0.5, 0.0, 20)):
    REG.add('auc_%d_%g_%g_%g' % (n, step, mx, mn), _auc(n, step, mx, mn, k), max_paths=600, timeout=200,
            bounds='%d errors, bins from %g to %g in steps of %g' % (n, mn, mx, step))


def extremes(V):
    e = V.real('e', 1e-3, 5)
    a, f = area_under_curve_and_failure_rate(sarr([e + 1, e + 2]), 0.25, 1.0)
    V.eq('all failed: no area', a, 0)
    V.eq('all failed: failure rate one', f, 1)
    a, f = area_under_curve_and_failure_rate(sarr([-e, -e / 2]), 0.25, 1.0)
    V.eq('perfect: area one', a, 1)
    V.eq('perfect: no failure', f, 0)


REG.add('extremes', extremes, bounds='all errors beyond, or all below, the range')


def median(V, xs):
    xs = list(xs)
    n = len(xs)
    mn, mx = (symnp._mn, symnp._mx) if V.sym else (min, max)
    if n >= 13:         # opaque, the same for equal data
        return symnp.median(sarr(xs)) if V.sym else np.median(xs)
    for i in range(n):
        for j in range(n - 1):
            xs[j], xs[j + 1] = mn(xs[j], xs[j + 1]), mx(xs[j], xs[j + 1])
    return (xs[(n - 1) // 2] + xs[n // 2]) / 2


def largest(V, xs):
    r = xs[0]
    for x in xs[1:]:
        r = symnp._mx(r, x) if V.sym else max(r, x)
    return r


def measures(V, e, bins, step, mx):
    e = np.asarray(e).tolist()
    n = len(e)
    m = sum(e) / n
    md = median(V, e)
    ced = [fraction(V, e, b) for b in bins]
    return (m, vsqrt(V, sum((x - m) * (x - m) for x in e) / n), md,
            median(V, [abs(x - md) for x in e]), largest(V, e), simpson(ced, step) / mx,
            1 - fraction(V, e, mx))


NAMES = ('mean', 'standard deviation', 'median', 'median absolute deviation', 'maximum', 'area', 'failure rate')


def _stats(n, hi=2):
    bins = [0.0, 0.5, 1.0]

    def f(V):
        e = errors(V, 'e', n, bins, hi) if n < 13 else many(V, 'e', bins, hi, free=1)
        want = measures(V, e, bins, 0.5, 1.0)
        for tag, x in (('array', e), ('list', e.tolist())):
            got = compute_statistical_measures(x, 0.5, 1.0)
            V.check(tag + ': seven measures', len(got) == 7)
            for nm, g, w in zip(NAMES, got, want):
                V.close(tag + ': ' + nm, g, w, TOL)
        V.eq('mad', mad(e), want[3])
        V.eq('mad of a list', mad(e.tolist()), want[3])
    return f


for n, hi in ((1, 2), (2, 2), (3, 2), (4, 0.4375), (13, 2)):
    REG.add('measures_%d' % n, _stats(n, hi), timeout=200, max_paths=400, bounds='%d errors in [0, %g]' % (n, hi))


def stats_multi(V):
    bins = [0.0, 0.5, 1.0]
    a, b = errors(V, 'a', 2, bins, 2), errors(V, 'b', 1, bins, 2)
    got = compute_statistical_measures([a.tolist(), b.tolist()], 0.5, 1.0, 0.0)
    ga = compute_statistical_measures(a, 0.5, 1.0)
    gb = compute_statistical_measures(b, 0.5, 1.0)
    V.check('seven lists', len(got) == 7)
    for k in range(7):
        V.check('one entry per method', len(got[k]) == 2)
        V.eq('first method: ' + NAMES[k], got[k][0], ga[k])
        V.eq('second method: ' + NAMES[k], got[k][1], gb[k])


def stats_many(V):
    """ten methods"""
    bins = [0.0, 0.5, 1.0]
    es = [errors(V, 'a', 1, bins, 2).tolist() + [0.25 + k / 16] for k in range(1)]
    es += [[0.03125 * k + 0.3125, 0.21875 + 0.0625 * k, 1.25 - 0.0625 * k] for k in range(8)]
    es.append(errors(V, 'b', 1, bins, 2).tolist() + [0.125])
    got = compute_statistical_measures([list(e) for e in es], 0.5, 1.0)
    V.check('seven lists of ten', [len(g) for g in got] == [10] * 7)
    for j, e in enumerate(es):
        one = compute_statistical_measures(e, 0.5, 1.0)
        for k in range(7):
            V.eq('method %d: %s' % (j, NAMES[k]), got[k][j], one[k])


REG.add('measures_of_ten_methods', stats_many, timeout=200, max_paths=400, bounds='ten methods with 2 or 3 errors')
REG.add('measures_of_methods', stats_multi, timeout=200, max_paths=400, bounds='two methods with 2 and 1 errors')


def stats_range(V):
    """the range arguments reach the AUC and failure rate"""
    bins = [0.25, 0.375, 0.5]
    e = errors(V, 'e', 2, bins, 1)
    got = compute_statistical_measures(e, 0.125, 0.5, 0.25)
    a, f = area_under_curve_and_failure_rate(e, step_error=0.125, max_error=0.5, min_error=0.25)
    V.eq('area', got[5], a)
    V.eq('failure rate', got[6], f)
    got = compute_statistical_measures([e, e], 0.125, 0.5, 0.25)
    V.eq('area, methods', got[5], [a, a])
    V.eq('failure rate, methods', got[6], [f, f])


REG.add('measures_range', stats_range, timeout=200, max_paths=400, bounds='2 errors')
