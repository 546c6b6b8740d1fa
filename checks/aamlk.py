"""Stand-ins and the specification of the AAM Lucas-Kanade algorithms."""
from fractions import Fraction as F
from checks.common import *
from checks.images import *
from checks.models import free_basis
from menpo.model import PCAModel
from menpo.shape import PointCloud
from menpo.image import MaskedImage
from menpofit.aam.algorithm import lk
from menpofit.aam.algorithm.lk import LucasKanadeStandardInterface

ALGS = {'po': 'ProjectOut', 'sim': 'Simultaneous', 'alt': 'Alternating', 'mod': 'ModifiedAlternating',
        'wib': 'Wiberg'}
NAMES = [(a, d) for a in ALGS for d in ('fc', 'ic')]


def cls_of(a, d):
    return getattr(lk, ALGS[a] + {'fc': 'ForwardCompositional', 'ic': 'InverseCompositional'}[d])


class Warp(object):
    """a warp with n parameters (the first coordinates of its target) and an arbitrary Jacobian"""
    n_dims = 2
    BASE = np.array([[0., 0.], [0., 4.], [2., 0.]])
    at = 0                               # the first coordinate moved

    def __init__(self, n, dW, eig=(), noise=1):
        self.n_parameters = n
        self.dW = dW
        self.p = np.zeros(n)
        self.pdm = rec(model=rec(noise_variance=lambda: noise, eigenvalues=eig))
        self.asked = []

    def as_vector(self):
        return np.array(self.p).view(type(self.p))

    def _from_vector_inplace(self, v):
        self.p = np.asarray(v).view(type(v)).copy()

    from_vector_inplace = _from_vector_inplace

    def set_target(self, pc):
        self.p = sarr(self.params(pc.points).tolist())

    def params(self, pts):
        return (np.asarray(pts).ravel() - self.BASE.ravel())[self.at:self.at + self.n_parameters]

    def points(self, p):
        z = np.array(self.BASE.ravel(), dtype=object)
        z[self.at:self.at + self.n_parameters] = z[self.at:self.at + self.n_parameters] + np.asarray(p)
        return sarr(z.reshape(-1, 2).tolist())

    @property
    def target(self):
        return PointCloud(self.points(self.p))

    def d_dp(self, pts):
        self.asked.append(np.asarray(pts))
        return self.dW


def any_start(V, warp, n, name='s'):
    """an arbitrary shape: the n coordinates the warp can follow, and the others"""
    z = np.array(warp.points(V.reals(name, (n,), -2, 2)), dtype=object).ravel()
    rest = np.delete(np.arange(len(z)), np.arange(warp.at, warp.at + n))
    if len(rest):
        z[rest] = z[rest] + np.asarray(V.reals(name + '_off', (len(rest),), -2, 2))
    return sarr(z.reshape(-1, 2).tolist())


def const_jacobian(shape, n):
    """Jacobian of an affine-like warp with n <= 6 parameters: (pixels, n, 2)"""
    if n > 6:
        return np.array([[[(7 * i * (q + 1) + 5 * q * q + 3 * i * i * d) % 11 - 5 for d in range(2)] for q in range(n)]
                         for i in range(shape[0] * shape[1])]) * 1.0
    o = np.zeros((shape[0] * shape[1], 6, 2))
    k = 0
    for y, x in np.ndindex(*shape):
        o[k, 0], o[k, 1], o[k, 2], o[k, 3], o[k, 4], o[k, 5] = (y, x), (1, 0), (-x, y), (0, 1), (y * x, 1), (x, y * y)
        k += 1
    return o[:, :n]


def family(V, name, shape, k, dim=1):
    """a fixed image plus unknown multiples of ``dim`` others"""
    size = int(np.prod(shape))

    def pat(a):
        return np.array([F((7 * i * i + (3 + 4 * a) * i + 5 * a) % 11 - 5, 4) for i in range(size)])
    out = np.asarray(V.frac(pat(3 * k))) * 1
    for j in range(dim):
        out = out + np.asarray(V.frac(pat(3 * k + j + 1))) * V.real('%s_%d_%d' % (name, k, j), -2, 2)
    return sarr(out.reshape(shape).tolist())


class Family(Sampler):
    """sampled images come from a small family (one unknown each)"""

    def get(self, im, mask, transform):
        k = (key_of(im.pixels), key_of(transform.as_vector()), tuple(mask.shape))
        if k not in self.table:
            self.table[k] = family(self.V, getattr(self, 'name', '') + 'w', (im.n_channels,) + tuple(mask.shape), len(self.table) + 1)
        return self.table[k]


class Setup(object):
    """template/mean, appearance components, warp, interface and sampler"""

    def __init__(self, V, shape=(4, 5), ch=1, m=1, n=1, noise=(1, 1), eig=(), mask=None, sampling=None, tag='',
                 symJ=False, app_eig=None, const=False, mean=None, comps=None, warp=None):
        self.V, self.shape, self.ch, self.m, self.n, self.mask = V, shape, ch, m, n, mask
        npx = shape[0] * shape[1] if mask is None else int(mask.sum())
        self.npx = npx
        px = mean if mean is not None else V.reals(tag + 'A', (ch,) + tuple(shape), -2, 2) if not const else \
            family(V, tag + 'A', (ch,) + tuple(shape), 0)
        self.mean = MaskedImage(px, mask=mask, copy=False)
        if mask is not None:
            self.mean.pixels[:, ~mask] = px[:, ~mask] * 0
        if comps is None:
            comps = free_basis(ch * npx, m, 1) if m else []
            # components that are not orthonormal (as after sub-sampling) and dense
            comps = [[F((3 * i + 5 * j * (k + 1)) % 7 - 3, 2) + c for j, c in enumerate(r)]
                     for k, (i, r) in enumerate(enumerate(comps))]
        self.A = np.asarray(V.frac(comps)).T            # (pixels, m)
        self.S = V.frac([F(3, k + 1) for k in range(m)]) if app_eig is None else app_eig
        self.am = PCAModel.init_from_components(
            V.frac(comps).view(type(px)), self.S, self.mean, 10, True)
        self.noise = noise
        am_noise = noise[0]
        self.am.noise_variance = lambda: am_noise
        dW = V.reals(tag + 'W', (npx, n, 2), -2, 2) if symJ else \
            const_jacobian(shape, n)[slice(None) if mask is None else mask.ravel()]
        self.dW = dW
        self.warp = (warp or Warp)(n, dW, eig, noise[1])
        self.eig = eig
        self.sampling = sampling
        self.iface = LucasKanadeStandardInterface(self.am, self.warp, self.mean, sampling=sampling)
        keep = np.zeros(npx, dtype=bool)
        if sampling is None:
            keep[:] = True
        elif isinstance(sampling, int):
            keep[::sampling] = True
        else:
            keep[sampling] = True
        self.keep = keep
        self.rows = np.tile(keep, ch)

    # ---- specification -------------------------------------------------
    def vec(self, px):
        """masked pixels, channel by channel, at the sampled positions"""
        px = np.asarray(px)
        m = np.ones(self.shape, dtype=bool) if self.mask is None else self.mask
        return px[:, m].ravel()[self.rows]

    def J(self, px):
        """gradient of an image contracted with the warp Jacobian"""
        g = masked_grad(px, self.mask)
        m = np.ones(self.shape, dtype=bool) if self.mask is None else self.mask
        g = g[:, :, m]                                   # dims, ch, pixels
        o = np.empty((self.ch, self.npx, self.n), dtype=object)
        for c, k, p in np.ndindex(*o.shape):
            o[c, k, p] = sum(g[d, c, k] * self.dW[k, p, d] for d in range(2))
        o = o.reshape(-1, self.n)[self.rows]
        return o if self.V.sym else o.astype(float)

    def Am(self):
        return self.A[self.rows]

    def pinv(self):
        A = self.Am()
        return vsolve(self.V, A.T.dot(A), A.T)

    def instance(self, c):
        """pixels of the appearance model instance"""
        v = self.A.dot(np.asarray(c))
        m = np.ones(self.shape, dtype=bool) if self.mask is None else self.mask
        px = np.array(self.mean.pixels, dtype=object)
        px[:, m] = px[:, m] + v.reshape(self.ch, -1)
        return px if self.V.sym else px.astype(float)

    def priors(self):
        """weights of the parameters in the posterior: ratio of noise variances over eigenvalue"""
        s2 = self.noise[0] / (self.noise[1] or 1)
        return np.array([1.0] * 4 + [s2 / l for l in np.asarray(self.eig).tolist()], dtype=object), \
            np.array([s2 / l for l in np.asarray(self.S).tolist()], dtype=object)


def masked_grad(px, mask):
    """central differences (one sided at the array border), zero on the boundary of the mask"""
    g = grad_of(px, boundary=False)
    H, W = np.asarray(px).shape[1:]
    m = np.ones((H, W), dtype=bool) if mask is None else mask
    for y, x in np.ndindex(H, W):
        nb = [(y, x), (y - 1, x), (y + 1, x), (y, x - 1), (y, x + 1)]
        if not all(0 <= u < H and 0 <= v < W and m[u, v] for u, v in nb):
            g[:, :, y, x] = g[:, :, y, x] * 0
    return g


def check_run(V, st, a, d, alg, res, sam, image, init, max_iters, costs, map_inference=False, tag='', stop=True):
    P, S = res.shape_parameters, res.shapes
    n = len(P) - 1
    V.check(tag + 'iterations within the bound', n <= max_iters and res.n_iters == n)
    V.check(tag + 'one shape per parameter vector and the initial one', len(S) == n + 2)
    V.eq(tag + 'initial shape first', S[0].points, init)
    V.check(tag + 'costs', (res.costs is None) if not costs else len(res.costs) == n + 1)
    po = a == 'po'
    C = res.appearance_parameters
    V.check(tag + 'appearance parameters', (C is None) if po else len(C) == n + 1)
    A, Ai = st.Am(), st.pinv()
    abar = st.vec(st.mean.pixels)
    Q = lambda x: x - A.dot(Ai.dot(x))     # noqa: E731
    dL, dS = (st.priors() if map_inference else (None, None))
    V.eq(tag + 'starts at the initial shape', P[0], st.warp.params(init))
    carry = 0
    c = None
    for k in range(n + 1):
        p = np.asarray(P[k])
        V.eq(tag + 'shape %d' % k, S[k + 1].points, st.warp.points(p))
        I = np.asarray(sam.table[(key_of(image.pixels), key_of(p), st.shape)])
        i = st.vec(I)
        ebar = i - abar
        if po:
            J = st.J(I if d == 'fc' else -np.asarray(st.mean.pixels))
        else:
            c = np.asarray(C[k])
            if k == 0 or a == 'mod':
                V.eq(tag + 'appearance %d is the projection' % k, c, Ai.dot(ebar))
            elif a == 'wib':
                V.eq(tag + 'appearance %d' % k, c, cp + Ai.dot(i - ap + carry))
            am = st.instance(c)
            e = i - st.vec(am)
            J = st.J(I if d == 'fc' else -am)
        if costs:
            V.eq(tag + 'cost %d' % k, res.costs[k],
                 (ebar * Q(ebar)).sum() if a in ('po', 'wib') else (e * e).sum())
        if k == n:
            break
        pp = p if d == 'fc' else -p        # the increment of the warp moves p by +dp or -dp
        if a in ('po', 'wib'):
            QJ = Q(J)
            M, rhs = QJ.T.dot(J), QJ.T.dot(ebar)
            if map_inference:
                M, rhs = add_d(M, dL), rhs + dL * pp
            dp = -vsolve(V, M, rhs)
        elif a == 'sim':
            Js = np.hstack([-A, J])
            M, rhs = Js.T.dot(Js), Js.T.dot(e)
            if map_inference:
                w = np.hstack([dS, dL])
                M, rhs = add_d(M, w), rhs + w * np.hstack([c, pp])
            x = -vsolve(V, M, rhs)
            dc, dp = x[:st.m], x[st.m:]
        else:
            if a == 'alt':
                if map_inference:
                    dc = vsolve(V, add_d(A.T.dot(A), dS), A.T.dot(e + carry) - dS * c)
                else:
                    dc = Ai.dot(e + carry)
                r = e - A.dot(dc)
            else:
                r = e
            M, rhs = J.T.dot(J), J.T.dot(r)
            if map_inference:
                M, rhs = add_d(M, dL), rhs + dL * pp
            dp = -vsolve(V, M, rhs)
        q = np.asarray(P[k + 1])
        V.eq(tag + 'step %d' % k, q, p + dp if d == 'fc' else p - dp)
        if a in ('sim', 'alt'):
            V.eq(tag + 'appearance step %d' % k, C[k + 1], c + dc)
        carry = J.dot(dp)
        if not po:
            cp, ap = c, st.vec(am)
        if stop:
            moved = vsqrt(V, ((q - p) ** 2).sum())
            if k < n - 1:
                V.check(tag + 'went on after a real step %d' % k, moved > alg.eps)
            elif n < max_iters:
                V.check(tag + 'stopped after a negligible step', moved <= alg.eps)
    return P


def add_d(M, d):
    M = np.array(M)
    for i in range(len(M)):
        M[i, i] = M[i, i] + d[i]
    return M


# ---- long runs: images that differ by unknown offsets keep every step linear ----------------
class Offsets(Sampler):
    """sampled images: a fixed pattern each, plus an unknown brightness per channel"""

    def get(self, im, mask, transform):
        k = (key_of(im.pixels), key_of(transform.as_vector()), tuple(mask.shape))
        if k not in self.table:
            j = len(self.table) + 1
            self.table[k] = offset_image(self.V, 'w%d' % j, j, (im.n_channels,) + tuple(mask.shape))
        return self.table[k]


def offset_image(V, name, j, shape):
    px = np.array([F((7 * i * i + (3 + 4 * j) * i + 5 * j) % 11 - 5, 4) for i in range(int(np.prod(shape)))])
    t = np.asarray(V.reals(name, (shape[0], 1, 1), -2, 2))
    return sarr((np.asarray(V.frac(px)).reshape(shape) + t).tolist())


def offset_setup(V, n, m, n_eig=0, shape=(5, 5), warp=None, noise=(1, 1)):
    """m components, each constant on one of the m + 1 channels"""
    ch = m + 1
    comps = [[F(1 if j // (shape[0] * shape[1]) == k else 0, 2 + k) for j in range(ch * shape[0] * shape[1])]
             for k in range(m)]
    return Setup(V, shape=shape, ch=ch, m=m, n=n, eig=np.arange(1, n_eig + 1) / 2. if n_eig else np.zeros(0),
                 mean=offset_image(V, 'A', 0, (ch,) + shape), comps=comps, warp=warp, noise=noise)


class BigWarp(Warp):
    BASE = np.array([[3. * k, (k * k) % 7] for k in range(10)])


class LastWarp(BigWarp):
    at = 17
