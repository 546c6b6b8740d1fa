"""C18 - convolutions in the Fourier domain and correlation filters."""
import warnings
from checks.common import *
from checks.images import image
import menpofit.math.fft_utils as fu
import menpofit.math.correlationfilter as cf

REG = Registry('C18')
REG.assumptions = ['discrete Fourier transforms and sparse solvers (NumPy, SciPy) are exact']
REG.outside = ['padded sizes whose Fourier factors are irrational, except where a tolerance is stated',
               'floating point rounding of the transforms']


def zeros(shape):
    a = np.empty(shape, dtype=object)
    a.fill(0)
    return a


def start(n, N):
    """first row of an array of size n centred in a canvas of size N"""
    return (N - n + 1) // 2


def padded(x, shape, symmetric=False):
    x = np.asarray(x)
    (h, w), (H, W) = x.shape[-2:], shape
    out = zeros(x.shape[:-2] + tuple(shape))
    a, b = start(h, H), start(w, W)
    for i in range(H):
        for j in range(W):
            u, v = i - a, j - b
            if symmetric:
                u, v = reflect(u, h), reflect(v, w)
            if 0 <= u < h and 0 <= v < w:
                out[..., i, j] = x[..., u, v]
    return out


def reflect(i, n):
    i %= 2 * n
    return i if i < n else 2 * n - 1 - i


def cropped(x, shape):
    x = np.asarray(x)
    a, b = start(shape[0], x.shape[-2]), start(shape[1], x.shape[-1])
    return x[..., a:a + shape[0], b:b + shape[1]]


def convolution(x, f, mode):
    """spatial convolution of (h, w) arrays"""
    (h, w), (k, l) = x.shape, f.shape
    full = zeros((h + k - 1, w + l - 1))
    for i in range(h):
        for j in range(w):
            for u in range(k):
                for v in range(l):
                    full[i + u, j + v] = full[i + u, j + v] + x[i, j] * f[u, v]
    if mode == 'full':
        return full
    if mode == 'same':
        return full[k // 2:k // 2 + h, l // 2:l // 2 + w]
    return full[k - 1:h, l - 1:w]


def per_channel(x, f, mode):
    return sarr([convolution(a, b, mode).tolist() for a, b in zip(np.asarray(x), np.asarray(f))])


# ------------------------------------------------------------------ canvas
def add_canvas(h, w, H, W, boundary):
    def hh(V):
        x = V.reals('x', (2, h, w), -2, 2)
        x0 = x.copy()
        p = fu.pad(x, (H, W), boundary=boundary)
        V.eq('central pixel stays central', p, sarr(padded(x, (H, W), boundary == 'symmetric').tolist()))
        V.eq('cropping undoes padding', fu.crop(p, (h, w)), x)
        y = V.reals('y', (2, 1, H, W), -2, 2)
        V.eq('crop keeps the centre', fu.crop(y, (h, w)), cropped(y, (h, w)))
        V.eq('input left alone', x, x0)
        lead = V.reals('z', (2, 2, h, w), -2, 2)
        V.eq('leading dimensions', fu.pad(lead, np.array([H, W]), boundary=boundary),
             sarr(padded(lead, (H, W), boundary == 'symmetric').tolist()))
    REG.add('canvas_%dx%d_in_%dx%d_%s' % (h, w, H, W, boundary), hh, bounds='images of %d x %d in canvases of %d x %d' %
            (h, w, H, W))


for _s in ((2, 3, 2, 3), (2, 3, 4, 4), (3, 2, 4, 4), (1, 4, 4, 4), (3, 3, 4, 6), (2, 2, 5, 3), (3, 1, 3, 2), (9, 8, 14, 15)):
    add_canvas(*_s, 'constant')
for _s in ((2, 3, 4, 4), (3, 2, 5, 3), (2, 2, 3, 4), (9, 8, 12, 10)):
    add_canvas(*_s, 'symmetric')


# ------------------------------------------------------------------ convolution
SIZES = {1: [(1, 1)], 2: [(2, 1), (1, 2)], 4: [(4, 1), (3, 2), (2, 3)]}


def add_convolution(hx, hf, wx, wf, C, boundary='constant'):
    def h(V):
        x, f = V.reals('x', (C, hx, wx), -2, 2), V.reals('f', (C, hf, wf), -2, 2)
        x0, f0 = x.copy(), f.copy()
        ext = (hx + hf - 1, wx + wf - 1)

        def reference(mode):
            if boundary == 'constant':
                return per_channel(x, f, mode)
            # the canvas is filled by reflection and the convolution is circular
            X, F = padded(x, ext, True), padded(f, ext)
            N, M = ext
            c = ((N - hf + 1) // 2 + hf // 2, (M - wf + 1) // 2 + wf // 2)
            out = zeros((C, N, M))
            for k in range(C):
                for i in range(N):
                    for j in range(M):
                        out[k, i, j] = sum(F[k, u, v] * X[k, (i + c[0] - u) % N, (j + c[1] - v) % M]
                                           for u in range(N) for v in range(M))
            shape = {'full': ext, 'same': (hx, wx), 'valid': (hx - hf + 1, wx - wf + 1)}[mode]
            return sarr(cropped(out, shape).tolist())
        valid = hx >= hf and wx >= wf
        for mode in ('full', 'same') + (('valid',) if valid else ()):
            want = reference(mode)
            V.eq(mode, fu.fft_convolve2d(x, f, mode=mode, boundary=boundary), want)
            s = np.asarray(want).sum(axis=0)
            V.eq(mode + ' sum', fu.fft_convolve2d_sum(x, f, mode=mode, boundary=boundary), s[None])
            V.eq(mode + ' sum, no channel axis',
                 fu.fft_convolve2d_sum(x, f, mode=mode, boundary=boundary, keepdims=False), s)
        if boundary == 'constant':
            V.eq('same size by default', fu.fft_convolve2d(x, f), reference('same'))
            V.eq('same size sum by default', fu.fft_convolve2d_sum(x, f), np.asarray(reference('same')).sum(axis=0)[None])
            # sets of images and filters, summed over the second axis
            xs, fs = sarr([x.tolist(), (2 * x).tolist()]), sarr([f.tolist(), (f - 1).tolist()])
            want = sarr([np.asarray(per_channel(a, b, 'same')).sum(axis=0)[None].tolist() for a, b in zip(xs, fs)])
            V.eq('sets of images', fu.fft_convolve2d_sum(xs, fs, axis=1), want)
        V.check('unknown mode', raises(ValueError, lambda: fu.fft_convolve2d(x, f, mode='all')))
        V.check('unknown mode of the sum', raises(ValueError, lambda: fu.fft_convolve2d_sum(x, f, mode='all')))
        V.eq('image left alone', x, x0)
        V.eq('filter left alone', f, f0)
    REG.add('convolution_%dx%d_filter_%dx%d_C%d_%s' % (hx, wx, hf, wf, C, boundary), h, timeout=120,
            bounds='image %d x %d, filter %d x %d, %d channels' % (hx, wx, hf, wf, C))


for _H in (1, 2, 4):
    for _W in (1, 2, 4):
        for _a in SIZES[_H]:
            for _b in SIZES[_W]:
                if _H * _W < 16 or (_a, _b) in (((3, 2), (2, 3)), ((2, 3), (2, 3)), ((3, 2), (4, 1))):
                    add_convolution(*_a, *_b, 2 if _H * _W < 16 else 1)
add_convolution(3, 2, 2, 1, 1, 'symmetric')
add_convolution(2, 3, 1, 2, 1, 'symmetric')
add_convolution(2, 3, 3, 2, 1, 'symmetric')


def add_irrational(hx, hf):
    """padded sizes with irrational Fourier factors (rounded to 40 digits)"""
    def h(V):
        X = np.array([[((3 * i + 5 * j) % 7) - 3. for j in range(3)] for i in range(hx)])
        x = sarr(X[None].tolist())
        f = V.reals('f', (1, hf, 2), -2, 2)
        modes = ('full', 'same') + (('valid',) if hf <= hx else ())
        for mode in modes:
            V.close(mode, fu.fft_convolve2d(x, f, mode=mode), per_channel(x, f, mode), 1e-9)
        g = V.reals('g', (1, hx, 3), -2, 2)
        F = sarr(np.array([[((2 * i + j) % 5) - 2. for j in range(2)] for i in range(hf)])[None].tolist())
        for mode in modes:
            V.close('sum ' + mode, fu.fft_convolve2d_sum(g, F, mode=mode), per_channel(g, F, mode), 1e-9)
    REG.add('convolution_rows_%d_filter_%d' % (hx, hf), h, timeout=120,
            bounds='%d and %d rows, symbolic filter or symbolic image, tolerance 1e-9' % (hx, hf))


for _p in ((5, 3), (5, 4), (4, 3), (4, 4), (7, 3), (6, 5), (3, 5)):
    add_irrational(*_p)


def add_many(hx, wx, hf, wf, C):
    """known images (or filters) and filters (or images) that vary along a line"""
    def h(V):
        def pattern(k, h, w):
            return sarr(((((np.arange(C * h * w) + k) ** 2 * 3 + np.arange(C * h * w) * (k + 2)) % 11 - 5.) / 4).reshape(C, h, w).tolist())
        x, f = pattern(1, hx, wx), pattern(2, hf, wf) + V.real('t', -2, 2) * pattern(3, hf, wf)
        big = hx > 5
        for mode in ('full', 'same', 'valid'):
            want = per_channel(x, f, mode)
            V.close(mode, fu.fft_convolve2d(x, f, mode=mode), want, 1e-9)
            V.close('sum ' + mode, fu.fft_convolve2d_sum(x, f, mode=mode), np.asarray(want).sum(axis=0)[None], 1e-9)
        if not big:
            xs = sarr([(np.asarray(x) * (k + 1)).tolist() for k in range(8)])
            fs = sarr([(np.asarray(f) - k).tolist() for k in range(8)])
            want = sarr([np.asarray(per_channel(a, b, 'same')).sum(axis=0)[None].tolist() for a, b in zip(xs, fs)])
            V.close('sets of images', fu.fft_convolve2d_sum(xs, fs, axis=1), want, 1e-9)
    REG.add('convolution_many_%dx%d_filter_%dx%d_C%d' % (hx, wx, hf, wf, C), h, timeout=200,
            bounds='image %d x %d, filter %d x %d on a line, %d channels, tolerance 1e-9' % (hx, wx, hf, wf, C))


add_many(3, 2, 2, 1, 8)
add_many(7, 7, 4, 2, 1)


def add_frequency(h_, w_):
    """filters given in the frequency domain, padded to 1.5 times their size, as the experts keep them"""
    def h(V):
        x, f = V.reals('x', (1, h_, w_), -2, 2), V.reals('f', (1, h_, w_), -2, 2)
        ext = (3 * h_ // 2, 3 * w_ // 2)
        F = fu.fft2(fu.pad(f, ext))
        want = per_channel(x, f, 'same')
        V.eq('same', fu.fft_convolve2d(x, F, fft_filter=True), want)
        V.eq('same sum', fu.fft_convolve2d_sum(x, F, fft_filter=True), want)
        V.eq('valid', fu.fft_convolve2d(x, F, mode='valid', fft_filter=True), per_channel(x, f, 'valid'))
        V.eq('valid sum', fu.fft_convolve2d_sum(x, F, mode='valid', fft_filter=True), per_channel(x, f, 'valid'))
        V.check('full size', fu.fft_convolve2d(x, F, mode='full', fft_filter=True).shape == (1,) + ext)
    REG.add('frequency_filter_%dx%d' % (h_, w_), h, timeout=120, bounds='images and filters of %d x %d' % (h_, w_))


add_frequency(3, 3)
add_frequency(3, 1)
add_frequency(1, 3)


def frequency_irrational(V):
    for n in (2, 4, 5):
        x = sarr((((np.arange(n * 3).reshape(1, n, 3) * 5) % 7) - 3.).tolist())
        f = V.reals('f%d' % n, (1, n, 3), -2, 2)
        F = fu.fft2(fu.pad(f, (3 * n // 2, 4)))
        V.close('same, %d rows' % n, fu.fft_convolve2d(x, F, fft_filter=True), per_channel(x, f, 'same'), 1e-9)
        V.close('sum, %d rows' % n, fu.fft_convolve2d_sum(x, F, fft_filter=True), per_channel(x, f, 'same'), 1e-9)


REG.add('frequency_filter_rows', frequency_irrational, timeout=200, bounds='2, 4, 5 rows, tolerance 1e-9')


def images(V):
    im, f = image(V, 'x', (3, 2), ch=2, masked=False), image(V, 'f', (2, 1), ch=2, masked=False)
    px, fx = im.pixels, f.pixels
    want = per_channel(px, fx, 'same')
    for name, r in (('image and filter image', fu.fft_convolve2d(im, f)), ('image and array', fu.fft_convolve2d(im, fx))):
        V.check(name + ' gives an image', type(r) is type(im) and r is not im)
        V.eq(name, r.pixels, want)
    V.eq('array and array', fu.fft_convolve2d(px, fx), want)
    for mode in ('full', 'valid'):
        full = per_channel(px, fx, mode)
        for name, a, b in (('two images', im, f), ('image, array', im, fx), ('array, image', px, f), ('arrays', px, fx)):
            r = fu.fft_convolve2d(a, b, mode=mode)
            V.eq(name + ' ' + mode, r if a is px else r.pixels, full)
            r = fu.fft_convolve2d_sum(a, b, mode=mode)
            V.eq('sum of %s %s' % (name, mode), r if a is px else r.pixels, np.asarray(full).sum(axis=0)[None])
    s = fu.fft_convolve2d_sum(im, f)
    V.eq('sum', s.pixels, np.asarray(want).sum(axis=0)[None])
    V.eq('image left alone', im.pixels, px)


REG.add('convolution_of_images', images, bounds='two channels, 3 x 2')


# ------------------------------------------------------------------ correlation filters
def spdiags(data, diags, m, n):
    out = zeros((m, n))
    data, diags = np.atleast_2d(np.asarray(data)), np.atleast_1d(diags)
    for row, k in zip(data, diags):
        for j, v in enumerate(row.tolist()):
            if 0 <= j - int(k) < m and j < n:
                out[j - int(k), j] = v
    return out.view(symnp.SArr)


def sparse(V):
    if not V.sym:
        return patched()
    return patched((cf, 'spdiags', spdiags), (cf, 'speye', lambda n: np.eye(n).astype(object).view(symnp.SArr)),
                   (cf, 'spsolve', lambda A, b: symnp.solve(np.asarray(A), np.asarray(b))))


def residual(xs, ws, y, h, l, ext, symmetric=False):
    """gradient of sum_j w_j |sum_c x_jc * h_c - y|^2 + l |h|^2 (circular convolution on the padded canvas), halved;
    h has its origin at the first pixel"""
    N, M = ext
    Y = padded(y, ext)[0]
    C = len(h)
    g = [[[l * h[c][i, j] for j in range(M)] for i in range(N)] for c in range(C)]
    for x, w in zip(xs, ws):
        X = padded(x, ext, symmetric)
        e = zeros((N, M))
        for i in range(N):
            for j in range(M):
                e[i, j] = sum(X[c, (i - u) % N, (j - v) % M] * h[c][u, v]
                              for c in range(C) for u in range(N) for v in range(M)) - Y[i, j]
        for c in range(C):
            for u in range(N):
                for v in range(M):
                    g[c][u][v] = g[c][u][v] + w * sum(X[c, (i - u) % N, (j - v) % M] * e[i, j]
                                                      for i in range(N) for j in range(M))
    return sarr(g)


def to_origin(f, y_shape):
    """roll a centred filter so that its origin is the first pixel"""
    f = np.asarray(f)
    c = [start(n, N) + n // 2 for n, N in zip(y_shape, f.shape[-2:])]
    return np.roll(f, (-c[0], -c[1]), axis=(-2, -1))


CH = {'mosse': (cf.mosse, cf.imosse), 'mccf': (cf.mccf, cf.imccf)}


def solves(V, name, kind, f, xs, ws, y, l, ext, symmetric=False):
    h = to_origin(f, np.asarray(y).shape[-2:])
    C = len(h)
    V.check(name + ', shape', tuple(np.asarray(f).shape) == (C,) + ext)
    groups = [[c] for c in range(C)] if kind == 'mosse' else [list(range(C))]
    for k, g in enumerate(groups):
        r = residual([np.asarray(x)[g] for x in xs], ws, y, [h[c] for c in g], l, ext, symmetric)
        V.eq('%s, least squares %d' % (name, k), r, np.zeros(r.shape))


def samples(V, name, n, C, h, w, symbolic):
    if symbolic:
        return V.reals(name, (n, C, h, w), -2, 2)
    s = sum(map(ord, name))
    return sarr(((((np.arange(n * C * h * w) + s) * 7) % 11 - 5.) / 2).reshape(n, C, h, w).tolist())


def add_filter(kind, C, n, hx, hy, wx, wy, symbolic, increments=True, symmetric=False, timeout=200):
    batch, inc = CH[kind]
    ext = (hx + hy - 1, wx + wy - 1)

    def h(V):
        explicit_inverses(V)
        X = samples(V, 'x', n, C, hx, wx, symbolic)
        y = V.reals('y', (1, hy, wy), -1, 1)
        l = V.real('l', 0.25, 2) if symbolic else 0.5
        kw = {'boundary': 'symmetric'} if symmetric else {}
        X0, y0 = X.copy(), y.copy()
        with sparse(V):
            f, A, B = batch(X, y, l=l, crop_filter=False, **kw)
            solves(V, 'batch', kind, f, X, [1] * n, y, l, ext, symmetric)
            fc = batch(X, y, l=l, **kw)[0]
            V.eq('cropped to the response', fc, cropped(f, (hy, wy)))
            if increments:
                X2 = samples(V, 'z', 1, C, hx, wx, symbolic)
                phi = V.real('phi', 0.25, 1) if symbolic else V.real('phi', 1, 1)
                Xa = sarr(X.tolist() + X2.tolist())
                f2, A2, B2 = inc(A, B, n, X2, y, l=l, crop_filter=False, f=phi, **kw)
                solves(V, 'increment', kind, f2, Xa, [phi] * n + [1], y, l, ext, symmetric)
                f3, A3, B3 = inc(A, B, n, X2, y, l=l, **kw)
                fb, Ab, Bb = batch(Xa, y, l=l, **kw)
                V.eq('equals batch training', f3, fb)
                f4, A4, B4 = batch(X[:1], y, l=l, **kw)
                for k in range(1, len(Xa)):
                    f4, A4, B4 = inc(A4, B4, k, Xa[k:k + 1], y, l=l, **kw)
                V.eq('one by one equals batch training', f4, fb)
        V.eq('samples left alone', X, X0)
        V.eq('response left alone', y, y0)
    REG.add('%s_C%d_n%d_%dx%d_response_%dx%d%s%s' % (kind, C, n, hx, wx, hy, wy, '' if symbolic else '_given_samples',
                                                    '_symmetric' if symmetric else ''), h, timeout=timeout,
            bounds='%d + 1 samples of %d channels, %d x %d pixels, %d x %d responses' % (n, C, hx, wx, hy, wy))


for _k in ('mosse', 'mccf'):
    add_filter(_k, 1, 2, 2, 1, 2, 1, True)
    add_filter(_k, 2, 1, 2, 1, 1, 1, True)
    add_filter(_k, 1, 2, 1, 2, 2, 1, True)
    add_filter(_k, 1, 2, 3, 2, 1, 1, True, timeout=300)
    add_filter(_k, 1, 2, 2, 3, 2, 1, False)
    add_filter(_k, 2, 2, 3, 2, 2, 3, False)
    add_filter(_k, 2, 2, 2, 3, 1, 1, False, symmetric=True)
    add_filter(_k, 1, 2, 3, 2, 1, 4, False)
    add_filter(_k, 7, 8, 2, 1, 1, 2 if _k == 'mosse' else 1, False)


def add_impulse(kind, hx, hy):
    """a filter trained on an impulse at the centre of its samples reproduces the response, centred"""
    def h(V):
        for k, (sx, sy) in enumerate((((hx, 1), (hy, 1)), ((1, hx), (1, hy)))):
            def impulse(shape):
                x = np.zeros((1,) + shape)
                x[0, shape[0] // 2, shape[1] // 2] = 1
                return sarr(x.tolist())
            y = V.reals('y%d' % k, (1,) + sy, -1, 1)
            with sparse(V):
                f = CH[kind][0](sarr([impulse(sx).tolist()]), y, l=0.5)[0]
            V.close('response of the impulse', f, np.asarray(y) / 1.5, 1e-9)
            # the filter applied to the impulse gives the response back
            V.close('detection of the impulse', fu.fft_convolve2d_sum(impulse(sy), f), np.asarray(y) / 1.5, 1e-9)
    REG.add('%s_impulse_%d_response_%d' % (kind, hx, hy), h, timeout=200,
            bounds='samples of %d x 1 and 1 x %d, responses of %d, tolerance 1e-9' % (hx, hx, hy))


for _p in ((2, 3), (3, 2), (3, 3), (5, 3), (4, 4), (6, 3), (4, 2), (5, 5), (6, 4), (7, 4)):
    add_impulse('mosse', *_p)
for _p in ((3, 3), (3, 2), (4, 2), (4, 3)):
    add_impulse('mccf', *_p)


def defaults(V):
    """regularisation 0.01, zero boundary, cropped filters"""
    X, X2 = samples(V, 'x', 2, 1, 2, 2, False), samples(V, 'z', 1, 1, 2, 2, False)
    y = V.reals('y', (1, 1, 3), -1, 1)
    with sparse(V):
        for kind in sorted(CH):
            b, i = CH[kind]
            f, A, B = b(X, y)
            V.eq(kind + ' defaults', f, b(X, y, l=0.01, boundary='constant', crop_filter=True)[0])
            V.eq(kind + ' increment defaults', i(A, B, 2, X2, y)[0],
                 i(A, B, 2, X2, y, l=0.01, boundary='constant', crop_filter=True, f=1.0)[0])


REG.add('filter_defaults', defaults, bounds='two samples')
