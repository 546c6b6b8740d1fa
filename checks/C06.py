"""C06 - Lucas-Kanade residuals: Jacobian images, Hessian, update, cost."""
from checks.common import *
from checks.images import *
from menpo.shape import PointCloud
from menpo.transform import Translation
from menpofit.lk import SSD, FourierSSD, ECC, GradientImages, GradientCorrelation

REG = Registry('C06')
REG.assumptions = ['images are at least 3x3 with an all-true mask', 'image sampling of menpo: bilinear',
                   'ECC: neither image constant; gradient residuals: no vanishing gradient']
S = (3, 4)
N = S[0] * S[1]


def sdi_oracle(G, dW):
    d, C, H, W = G.shape
    P = dW.shape[-1]
    out = np.empty((C * H * W, P), dtype=object)
    for c in range(C):
        for y in range(H):
            for x in range(W):
                for p in range(P):
                    out[(c * H + y) * W + x, p] = sum(G[k, c, y, x] * dW[k, y, x, p] for k in range(d))
    return out


def setup(V, ch, P, S=S):
    I, T = image(V, 'I', S, ch), image(V, 'T', S, ch)
    dW = V.reals('dW', (2,) + S + (P,), -2, 2)
    return I, T, dW


def unchanged(V, I, I0, T, T0, dW, dW0):
    V.eq('image untouched', I.pixels, I0)
    V.eq('template untouched', T.pixels, T0)
    V.eq('warp Jacobian untouched', dW, dW0)


def _ssd(ch, P):
    def f(V):
        I, T, dW = setup(V, ch, P)
        I0, T0, dW0 = I.pixels.copy(), T.pixels.copy(), dW.copy()
        r = SSD()
        fJ, J = r.steepest_descent_images(T, dW)
        o = sdi_oracle(grad_of(T.pixels), dW)
        V.eq('steepest descent images', J, o)
        V.eq('no kernel, no filter', fJ, o)
        V.eq('hessian', r.hessian(fJ, sdi2=J), np.dot(o.T, o))
        V.eq('hessian of one argument', r.hessian(J), np.dot(o.T, o))
        e = (np.asarray(I.pixels) - np.asarray(T.pixels)).ravel()
        V.eq('update', r.steepest_descent_update(fJ, I, T), np.dot(o.T, e))
        V.eq('cost', r.cost_closure(), (e * e).sum())
        V.eq('swapped update', r.steepest_descent_update(fJ, T, I), -np.dot(o.T, e))
        V.eq('aligned: no update', r.steepest_descent_update(fJ, T, T), np.zeros(P))
        V.eq('aligned: no cost', r.cost_closure(), 0)
        unchanged(V, I, I0, T, T0, dW, dW0)
    return f


REG.add('ssd_1ch', _ssd(1, 3), bounds='any 3x4 images, 1 channel; any warp Jacobian with 3 parameters')
REG.add('ssd_2ch', _ssd(2, 2), bounds='any 3x4 images, 2 channels; any warp Jacobian with 2 parameters')


SQ = (4, 4)          # exact roots of unity


@REG.harness(bounds='any 4x4 images, 2 channels, any warp Jacobian: Fourier = spatial', timeout=120)
def fourier_ssd(V):
    I, T, dW = setup(V, 2, 2, SQ)
    I0, T0, dW0 = I.pixels.copy(), T.pixels.copy(), dW.copy()
    r, f = SSD(), FourierSSD()
    fJ, J = r.steepest_descent_images(T, dW)
    ff, F = f.steepest_descent_images(T, dW)
    V.eq('hessian', f.hessian(ff, sdi2=F), 16 * np.asarray(r.hessian(fJ, sdi2=J)))
    V.eq('hessian of one argument', f.hessian(ff), 16 * np.dot(np.asarray(fJ).T, np.asarray(fJ)))
    V.eq('update', f.steepest_descent_update(ff, I, T), 16 * np.asarray(r.steepest_descent_update(fJ, I, T)))
    V.eq('cost', f.cost_closure(), r.cost_closure())
    unchanged(V, I, I0, T, T0, dW, dW0)


def kernel(V, ch=None):
    """symmetric real filter spectrum"""
    K = V.reals('K', (ch, 3, 3), 0, 2) if ch else V.reals('K', (3, 3), 0, 2)
    H, W = SQ
    idx = {}
    out = np.empty(((ch,) if ch else ()) + SQ, dtype=K.dtype)
    n = 0
    for u in range(H):
        for v in range(W):
            k = min((u, v), (-u % H, -v % W))
            if k not in idx:
                idx[k] = n
                n += 1
            j = idx[k]
            out[..., u, v] = K[..., (j // 3) % 3, j % 3]
    return out.view(type(K))


def _kernel(ch, kch):
    def f(V):
        I, T, dW = setup(V, ch, 1, SQ)
        K = kernel(V, kch)
        r, f = SSD(kernel=K), FourierSSD(kernel=K)
        fJ, J = r.steepest_descent_images(T, dW)
        o = sdi_oracle(grad_of(T.pixels), dW)
        V.eq('steepest descent images', J, o)
        ff, F = f.steepest_descent_images(T, dW)
        fJ4 = np.asarray(fJ).reshape((ch,) + SQ + (1,))
        from numpy.fft import fftn as _f
        fft = symnp.fft.fftn if V.sym else _f
        KK = np.asarray(K) if kch else np.broadcast_to(np.asarray(K), (ch,) + SQ)
        V.eq('filtered spectrum', fft(np.asarray(fJ4).view(type(K)), axes=(-3, -2)),
             KK[..., None] * np.asarray(fft(np.asarray(J).reshape(fJ4.shape).view(type(K)), axes=(-3, -2))))
        V.eq('hessian', f.hessian(ff, sdi2=F), 16 * np.asarray(r.hessian(fJ, sdi2=J)))
        V.eq('update', f.steepest_descent_update(ff, I, T), 16 * np.asarray(r.steepest_descent_update(fJ, I, T)))
        e = np.asarray(I.pixels) - np.asarray(T.pixels)
        E_ = np.asarray(fft(e.view(type(K)), axes=(-2, -1)))
        cost = (KK * E_ * np.conjugate(E_)).sum() / 16
        V.eq('cost is the filtered energy', r.cost_closure(), cost)
        V.eq('Fourier cost', f.cost_closure(), cost)
    return f


REG.add('ssd_kernel', _kernel(1, None), timeout=200, bounds='4x4 images, 1 channel, 1 parameter, any symmetric '
        'real kernel shared by the channels')
REG.add('ssd_kernel_channels', _kernel(2, 2), timeout=200, bounds='4x4 images, 2 channels, one symmetric kernel each')


def centred_norm(px):
    v = np.asarray(px).ravel()
    v = v - v.sum() / len(v)
    return v, v / symnp.ssqrt((v * v).sum()) if v.dtype == object else v / np.sqrt((v * v).sum())


def nonconst_image(V, px):
    v, _ = np.asarray(px).ravel(), 0
    v = v - v.sum() / len(v)
    V.assume((v * v).sum() >= 0.0625)


def few(V, name, k, base):
    px = np.array([[[base[y][x] for x in range(S[1])] for y in range(S[0])]], dtype=float)
    px = np.array(V.const(px) if V.sym else px).view(symnp.SArr if V.sym else np.ndarray)
    for n, (y, x) in enumerate([(1, 1), (2, 3), (0, 2), (1, 3)][:k]):
        px[0, y, x] = px[0, y, x] + V.real('%s%d' % (name, n), -1, 1)
    return MaskedImage(px, copy=False)


@REG.harness(bounds='3x4 images with 2 free pixels each, any interior warp Jacobian with 1 parameter', timeout=250)
def ecc(V):
    I = few(V, 'I', 2, [[1, 0, 2, 1], [3, 1, 4, 0], [2, 2, 0, 5]])
    T = few(V, 'T', 2, [[0, 1, 1, 3], [2, 5, 1, 1], [0, 1, 2, 4]])
    dW = np.zeros((2,) + S + (1,), dtype=object if V.sym else float)
    dW[:, 1:2, 1:3] = np.asarray(V.reals('dW', (2, 1, 2, 1), -2, 2))
    dW = dW.view(symnp.SArr if V.sym else np.ndarray)
    nonconst_image(V, I.pixels)
    nonconst_image(V, T.pixels)
    I0, T0, dW0 = I.pixels.copy(), T.pixels.copy(), dW.copy()
    r = ECC()
    fJ, J = r.steepest_descent_images(T, dW)
    _, t = centred_norm(T.pixels)
    _, w = centred_norm(I.pixels)
    o = sdi_oracle(grad_of(t.reshape((1,) + S)), dW)
    V.eq('steepest descent images', J, o)
    V.eq('same', fJ, o)
    H = r.hessian(fJ, sdi2=J)
    V.eq('hessian', H, np.dot(o.T, o))
    V.eq('hessian of one argument', ECC().hessian(fJ), np.dot(o.T, o))
    u = np.asarray(r.steepest_descent_update(fJ, I, T))
    V.eq('cost', r.cost_closure(), (t * w).sum())
    # lambda of the paper
    Hi = np.asarray(symnp.inv(H)) if V.sym else np.linalg.inv(H)
    gt, gw = np.dot(o.T, t), np.dot(o.T, w)
    wPw, tPw, tPt = np.dot(gw, np.dot(Hi, gw)), np.dot(gt, np.dot(Hi, gw)), np.dot(gt, np.dot(Hi, gt))
    den = (t * w).sum() - tPw
    if den > 0:
        num, dd = 1 - wPw, den          # w has unit norm
    else:
        l1 = (symnp.ssqrt if V.sym else np.sqrt)(wPw / tPt)
        l2 = -den / tPt
        num, dd = (l1, 1) if l1 >= l2 else (l2, 1)
    V.eq('update', (u + gt) * dd, num * gw)
    unchanged(V, I, I0, T, T0, dW, dW0)


@REG.harness(bounds='any gain in [0.25,4], any bias, any non-constant 3x4 image', timeout=200)
def ecc_photometric(V):
    T = image(V, 'T', S, 1)
    nonconst_image(V, T.pixels)
    dW = V.reals('dW', (2,) + S + (1,), -2, 2)
    g, b = V.real('g', 0.25, 4), V.real('b', -4, 4)
    I = MaskedImage(g * T.pixels + b, copy=False)
    r = ECC()
    fJ, J = r.steepest_descent_images(T, dW)
    fI, _ = r.steepest_descent_images(I, dW)
    V.eq('Jacobian unaffected by gain and bias', np.asarray(fI) - np.asarray(J), np.zeros(J.shape))
    V.eq('normalised image', np.asarray(r._normalise_images(I).pixels) - np.asarray(r._normalise_images(T).pixels),
         np.zeros(T.pixels.shape))


BIG = (7, 8)


def patterned(V, name, k=4, seed=0):
    """7x8 image with k free pixels on a fixed background of distinct gradients"""
    px = np.array([[[(3 * y * y + 5 * x * y + 2 * x * x + seed * (x + 2 * y)) / 16.0 for x in range(8)]
                    for y in range(7)]])
    px = V.const(px) if V.sym else px
    px = np.array(px, dtype=object if V.sym else float).view(symnp.SArr if V.sym else np.ndarray)
    for j, (y, x) in enumerate([(2, 3), (4, 2), (3, 5), (1, 6)][:k]):
        px[0, y, x] = px[0, y, x] + V.real('%s%d' % (name, j), -0.25, 0.25)
    return MaskedImage(px, copy=False)


def reg_grad(V, px):
    g = grad_of(px)
    d, C, H, W = g.shape
    flat = g.reshape((d * C, H, W))
    ab = (flat * flat).sum(axis=0)
    if V.sym:
        ab = symnp.emap(symnp.ssqrt, ab)
        m = symnp.median(ab)
    else:
        ab = np.sqrt(ab)
        m = np.median(ab)
    return flat / (ab + m)


def median_positive(V, px):
    # more than half of the pixels have a gradient: the median is positive
    if V.sym:
        g = grad_of(px).reshape((-1,) + px.shape[1:])
        V.c.assume_t(E.bt(symnp.median(symnp.emap(symnp.ssqrt, (g * g).sum(axis=0))) > 0))


@REG.harness(bounds='7x8 images with 4 free pixels each on a fixed background; any warp Jacobian on 2 columns', timeout=300)
def gradient_images(V):
    I, T = patterned(V, 'i', 3, 1), patterned(V, 't', 3, 0)
    dW = np.zeros((2,) + BIG + (2,), dtype=object if V.sym else float)
    dv = V.reals('dW', (2, 5, 2), -2, 2)
    dW[:, 1:6, 2:4, :] = dv[:, :, None, :] if not V.sym else np.asarray(dv)[:, :, None, :]
    dW[:, 6, 7, :] = 1
    dW[:, 4, 7, 1] = 2
    dW = dW.view(type(dv))
    median_positive(V, I.pixels)
    median_positive(V, T.pixels)
    I0, T0, dW0 = I.pixels.copy(), T.pixels.copy(), dW.copy()
    r = GradientImages()
    fJ, J = r.steepest_descent_images(T, dW)
    n = reg_grad(V, T.pixels)
    g2 = grad_of(n).reshape((2, 2, 1) + BIG)
    g2[1, 0] = g2[0, 1]
    o = np.concatenate([sdi_oracle(g2[:, j], dW) for j in range(2)])
    V.eq('steepest descent images', J, o)
    V.eq('same', fJ, o)
    e = (reg_grad(V, I.pixels) - n).ravel()
    J = np.asarray(J)
    u = r.steepest_descent_update(fJ, I, T)
    V.eq('update', u, np.dot(J.T, e))
    V.eq('cost', r.cost_closure(), (e * e).sum())
    V.eq('aligned: no update', r.steepest_descent_update(fJ, T, T), np.zeros(2))
    V.eq('aligned: no cost', r.cost_closure(), 0)
    # the image of the Jacobian is not the reference of the comparison
    r.steepest_descent_images(I, dW)
    V.eq('update uses the template given', r.steepest_descent_update(fJ, I, T), u)
    unchanged(V, I, I0, T, T0, dW, dW0)


@REG.harness(bounds='hessian of the gradient residuals: any 6x2 Jacobians')
def gradient_hessians(V):
    A, C = V.reals('A', (6, 2)), V.reals('C', (6, 2))
    for cls in (GradientImages, GradientCorrelation):
        V.eq(cls.__name__, cls().hessian(A), np.dot(np.asarray(A).T, A))
        V.eq(cls.__name__ + ' two', cls().hessian(A, sdi2=C), np.dot(np.asarray(A).T, C))


def igo(V, px):
    g = grad_of(px)
    C = len(px)
    sin = np.zeros((C,) + px.shape[1:], dtype=g.dtype)
    cos = sin.copy()
    for i in np.ndindex(*sin.shape):
        gy, gx = g[(0,) + i], g[(1,) + i]
        if V.sym:
            if gy.c == 0 and gx.c == 0:
                sin[i], cos[i] = R.const(0), R.const(1)
                continue
            m = symnp.ssqrt(gx * gx + gy * gy)
        else:
            m = np.hypot(gx, gy)
            if m == 0:
                sin[i], cos[i] = 0, 1
                continue
        sin[i], cos[i] = gy / m, gx / m
    return sin, cos


def nz_grad(V, px):
    g = grad_of(px)
    for i in np.ndindex(*px.shape):
        if 0 < i[1] < S[0] - 1 and 0 < i[2] < S[1] - 1:
            V.assume((g[(slice(None),) + i] ** 2).sum() >= 0.0625)


def _gc(ch):
    def f(V):
        I, T, dW = setup(V, ch, 2)
        nz_grad(V, I.pixels)
        nz_grad(V, T.pixels)
        I0, T0, dW0 = I.pixels.copy(), T.pixels.copy(), dW.copy()
        r = GradientCorrelation()
        fJ, J = r.steepest_descent_images(T, dW)
        s, c = igo(V, T.pixels)
        si, ci = igo(V, I.pixels)
        gs, gc = grad_of(s), grad_of(c)
        o = sdi_oracle(c * gs - s * gc, dW)       # d(angle)/dp
        V.eq('steepest descent images', J, o)
        V.eq('same', fJ, o)
        e = (c * si - s * ci).ravel()
        qp = (c * ci + s * si).sum()
        u = np.asarray(r.steepest_descent_update(fJ, I, T))
        V.eq('update', u * qp, ch * N * np.dot(np.asarray(J).T, e))
        V.eq('cost is the mean correlation', r.cost_closure(), qp / (ch * N))
        V.eq('aligned: no update', r.steepest_descent_update(fJ, T, T), np.zeros(2))
        V.eq('aligned: full correlation', r.cost_closure(), 1)
        r.steepest_descent_images(I, dW)
        V.eq('update uses the template given', np.asarray(r.steepest_descent_update(fJ, I, T)), u)
        unchanged(V, I, I0, T, T0, dW, dW0)
    return f


REG.add('gradient_correlation', _gc(1), timeout=300, bounds='any 3x4 images, 1 channel, interior gradients not '
        'vanishing; any warp Jacobian, 2 parameters')


def _forward(cls):
    def f(V):
        # the warp moves the 3x4 window inside a 4x5 image by half a pixel
        I = image(V, 'I', (4, 5), 1)
        T = image(V, 'T', S, 1)
        dW = V.reals('dW', (2,) + S + (1,), -2, 2)
        tr = Translation([0.5, 0.25])
        I0 = I.pixels.copy()
        r = cls()
        if cls is ECC:
            nonconst_image(V, I.pixels[:, 1:3, 1:3])
        with patched(*warps(V)):
            W = I.warp_to_mask(T.mask, tr, warp_landmarks=False)
            if cls is ECC:
                nonconst_image(V, W.pixels)
            fJ, J = r.steepest_descent_images(I, dW, forward=(T, tr))
            G = [MaskedImage(g.copy().view(type(dW)), copy=False).warp_to_mask(T.mask, tr, warp_landmarks=False).pixels
                 for g in grad_of(I.pixels, boundary=False)]
        o = sdi_oracle(np.array([np.asarray(g) for g in G]), dW)
        if cls is ECC:
            v, _ = centred_norm(W.pixels)
            nv = symnp.ssqrt((v * v).sum()) if V.sym else np.sqrt((v * v).sum())
            V.eq('scaled with the norm of the warped image', np.asarray(J) * nv, o)
            V.eq('same', fJ, J)
        elif cls is FourierSSD:
            from numpy.fft import fftn as _f
            ft = symnp.fft.fftn if V.sym else _f
            V.eq('spectrum of the gradient sampled at the warped points', J,
                 np.asarray(ft(o.reshape((1,) + S + (1,)).astype(object if V.sym else float).view(type(dW)),
                               axes=(-3, -2))).reshape(-1, 1))
        else:
            V.eq('gradient sampled at the warped points', J, o)
        V.eq('image untouched', I.pixels, I0)
    return f


for cls in (SSD, FourierSSD, ECC):
    REG.add('forward_' + cls.__name__, _forward(cls), timeout=120,
            bounds='any 4x5 image, fixed sub-pixel translation, any warp Jacobian')


# ---- more channels ------------------------------------------------------------------------
REG.add('ssd_6ch', _ssd(6, 2), bounds='any 3x4 images, 6 channels; any warp Jacobian with 2 parameters')
REG.add('ssd_8_parameters', _ssd(1, 8), bounds='any 3x4 images, 1 channel; any warp Jacobian with 8 parameters')
REG.add('ssd_kernel_5_channels', _kernel(5, 5), timeout=300, bounds='4x4 images, 5 channels, one symmetric kernel each')
REG.add('gradient_correlation_3ch', _gc(3), timeout=300, bounds='any 3x4 images, 3 channels, interior gradients not '
        'vanishing; any warp Jacobian, 2 parameters')


@REG.harness(bounds='9x9 images whose gradients are opposite but at a few pixels', timeout=250)
def gradient_correlation_opposite(V):
    n = 9
    base = np.array([[[3 * y + 4 * x for x in range(n)] for y in range(n)]], dtype=float)
    ims = []
    for name, s in (('t', 1), ('i', -1)):
        px = V.const(s * base) if V.sym else s * base
        px = np.array(px, dtype=object if V.sym else float).view(symnp.SArr if V.sym else np.ndarray)
        for j, (y, x) in enumerate([(3, 4), (6, 2)]):
            px[0, y, x] = px[0, y, x] + V.real('%s%d' % (name, j), -2, 2)
        ims.append(MaskedImage(px, copy=False))
    T, I = ims
    dW = np.zeros((2, n, n, 1), dtype=object if V.sym else float)
    dW[:, 2:5, 3:5, :] = np.asarray(V.reals('dW', (2, 3, 1), -2, 2))[:, :, None, :]
    dW[:, 8, 8, :] = 1
    dW[:, 5, 7, :] = 2
    dW = dW.view(symnp.SArr if V.sym else np.ndarray)
    r = GradientCorrelation()
    fJ, J = r.steepest_descent_images(T, dW)
    s, c = igo(V, T.pixels)
    si, ci = igo(V, I.pixels)
    e = (c * si - s * ci).ravel()
    qp = (c * ci + s * si).sum()
    V.check('negative correlation', qp < 0)
    gs, gc = grad_of(s), grad_of(c)
    V.eq('steepest descent images', J, sdi_oracle(c * gs - s * gc, dW))
    V.eq('update', np.asarray(r.steepest_descent_update(fJ, I, T)) * qp, n * n * np.dot(np.asarray(J).T, e))
    V.eq('cost is the mean correlation', r.cost_closure() * (n * n), qp)


def _channels_ecc(ch):
    """ECC and gradient images of several channels: all channels are normalised together"""
    def f(V):
        bg = np.array([[[(3 * y * y + 5 * x * y + (2 + k) * x * x + k * y) / 16.0 for x in range(8)]
                        for y in range(7)] for k in range(ch)])

        def im(name, seed):
            px = V.const(bg + seed) if V.sym else bg + seed
            px = np.array(px, dtype=object if V.sym else float).view(symnp.SArr if V.sym else np.ndarray)
            for k in range(ch):
                px[k, 3, 4] = px[k, 3, 4] + V.real('%s%d' % (name, k), -0.25, 0.25)
            return MaskedImage(px, copy=False)
        I, T = im('i', 0.5 * bg ** 2), im('t', 0)
        dW = np.zeros((2,) + BIG + (1,), dtype=object if V.sym else float)
        dW[:, 2:4, 3:5, :] = np.asarray(V.reals('dW', (2, 2, 1), -2, 2))[:, :, None, :]
        dW = dW.view(symnp.SArr if V.sym else np.ndarray)
        r = ECC()
        fJ, J = r.steepest_descent_images(T, dW)
        _, t = centred_norm(T.pixels)
        V.eq('ECC: steepest descent images', J, sdi_oracle(grad_of(t.reshape((ch,) + BIG)), dW))
        median_positive(V, I.pixels)
        median_positive(V, T.pixels)
        r = GradientImages()
        fJ, J = r.steepest_descent_images(T, dW)
        n = reg_grad(V, T.pixels)
        g2 = grad_of(n).reshape((2, 2, ch) + BIG)
        g2[1, 0] = g2[0, 1]
        V.eq('gradient images: steepest descent images', J, np.concatenate([sdi_oracle(g2[:, j], dW) for j in range(2)]))
        e = (reg_grad(V, I.pixels) - n).ravel()
        V.eq('gradient images: update', r.steepest_descent_update(fJ, I, T), np.dot(np.asarray(J).T, e))
        V.eq('gradient images: cost', r.cost_closure(), (e * e).sum())
    return f


REG.add('many_channels', _channels_ecc(5), timeout=300, bounds='7x8 images with 5 channels and one free pixel per '
        'channel on a fixed background')


@REG.harness(bounds='one object used with 3x4 images, then with 4x5 images', timeout=250)
def other_size(V):
    px = np.array([[[3 * y * y + 5 * x * y + 2 * x for x in range(5)] for y in range(4)]], dtype=float)

    def im(name, H, W, seed):
        a = (px + seed * px ** 2 / 8)[:, :H, :W]
        a = np.array(V.const(a) if V.sym else a).view(symnp.SArr if V.sym else np.ndarray)
        a[0, 1, 2] = a[0, 1, 2] + V.real(name, -0.25, 0.25)
        return MaskedImage(a, copy=False)
    sets = []
    for k, (H, W) in enumerate([(3, 4), (4, 5)]):
        sets.append((im('i%d' % k, H, W, 1), im('t%d' % k, H, W, 0), V.reals('dW%d' % k, (2, H, W, 1), -2, 2)))
    for cls in (SSD, FourierSSD, ECC, GradientCorrelation):
        out = []
        for fresh in (False, True):
            r = cls()
            for I, T, dW in sets[1:] if fresh else sets:
                fJ, J = r.steepest_descent_images(T, dW)
                H = r.hessian(fJ, sdi2=J)
                u = r.steepest_descent_update(fJ, I, T)
                c = r.cost_closure()
            out.append((J, H, u, c))
        for n, a, b in zip(('images', 'hessian', 'update', 'cost'), *out):
            V.eq('%s: %s as with a fresh object' % (cls.__name__, n), a, b)
