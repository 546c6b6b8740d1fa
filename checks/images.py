"""Symbolic images and exact stand-ins for image warps."""
import numpy as np
from menpo.image import Image, MaskedImage, BooleanImage
from vlib import engine as E
from vlib import symnp
from vlib.engine import R


def image(V, name, shape, ch=1, lo=-2, hi=2, masked=True):
    px = V.reals(name, (ch,) + tuple(shape), lo, hi)
    return (MaskedImage if masked else Image)(px, copy=False)


def as_px(im):
    return np.asarray(im.pixels)


def grad_of(px, boundary=True):
    """(dims, ch, H, W) central differences; zero on the image border"""
    px = np.asarray(px)
    C, H, W = px.shape
    out = np.zeros((2, C, H, W), dtype=px.dtype)
    if px.dtype == object:
        for i in np.ndindex(*out.shape):
            out[i] = R.const(0)
    for c in range(C):
        for y in range(H):
            for x in range(W):
                if boundary and (y in (0, H - 1) or x in (0, W - 1)):
                    continue
                ym, yp = max(y - 1, 0), min(y + 1, H - 1)
                xm, xp = max(x - 1, 0), min(x + 1, W - 1)
                out[0, c, y, x] = (px[c, yp, x] - px[c, ym, x]) / (yp - ym)
                out[1, c, y, x] = (px[c, y, xp] - px[c, y, xm]) / (xp - xm)
    return out


def bilinear(px, pts):
    """exact order-1 sampling at constant points; 0 outside"""
    px = np.asarray(px)
    C, H, W = px.shape
    out = np.empty((C, len(pts)), dtype=object)
    for k, (y, x) in enumerate(pts):
        y, x = E.to_fraction(y.c if isinstance(y, R) else y), E.to_fraction(x.c if isinstance(x, R) else x)
        if not (0 <= y <= H - 1 and 0 <= x <= W - 1):
            out[:, k] = R.const(0)
            continue
        y0, x0 = int(y), int(x)
        y1, x1 = min(y0 + 1, H - 1), min(x0 + 1, W - 1)
        a, b = y - y0, x - x0
        for c in range(C):
            s = R.const(0)
            for w, v in (((1 - a) * (1 - b), px[c, y0, x0]), ((1 - a) * b, px[c, y0, x1]),
                         (a * (1 - b), px[c, y1, x0]), (a * b, px[c, y1, x1])):
                if w:
                    s = s + R.const(w) * v
            out[c, k] = s
    return out


def warp_to_mask(self, template_mask, transform, warp_landmarks=True, order=1, mode='constant', cval=0.0,
                 batch_size=None, return_transform=False):
    """menpo's warp_to_mask (order 1) for a transform with constant parameters"""
    pts = np.asarray(transform.apply(template_mask.true_indices().astype(float)))
    s = bilinear(self.pixels, pts)
    px = np.empty((self.n_channels,) + tuple(template_mask.shape), dtype=object)
    px[...] = R.const(0)
    px[:, template_mask.mask] = s
    return MaskedImage(px.view(symnp.SArr), mask=template_mask.copy(), copy=False)


def warps(V):
    """attribute replacements for ``patched`` (symbolic runs only)"""
    if not V.sym:
        return ()
    return ((Image, 'warp_to_mask', warp_to_mask), (MaskedImage, 'warp_to_mask', warp_to_mask))


class Sampler(object):
    """Stand-in for image sampling: an arbitrary (free) warped image for every
    distinct (image, transform) pair, the same one whenever it is asked again."""

    def __init__(self, V, lo=-2, hi=2):
        self.V, self.lo, self.hi = V, lo, hi
        self.table = {}
        self.calls = []

    def get(self, im, mask, transform):
        from checks.common import key_of
        params = transform.as_vector() if hasattr(transform, 'as_vector') else transform.h_matrix
        k = (key_of(im.pixels), key_of(params), tuple(mask.shape))
        if k not in self.table:
            self.table[k] = self.V.reals('w%d' % len(self.table), (im.n_channels,) + tuple(mask.shape),
                                         self.lo, self.hi)
        return self.table[k]

    def patches(self):
        outer = self

        def warp_to_mask(self, template_mask, transform, warp_landmarks=True, **kw):
            outer.calls.append((self, template_mask, np.array(transform.as_vector())))
            px = outer.get(self, template_mask, transform)
            return MaskedImage(px.copy(), mask=template_mask.copy(), copy=False)
        return ((Image, 'warp_to_mask', warp_to_mask), (MaskedImage, 'warp_to_mask', warp_to_mask))


def as_float(a):
    """float array when every entry is a constant, else None"""
    a = np.asarray(a)
    if a.dtype != object:
        return a
    out = np.empty(a.shape)
    for i, v in np.ndenumerate(a):
        if isinstance(v, R):
            if v.c is None:
                return None
            v = v.c
        out[i] = float(v)
    return out


def interpolation(V):
    """replacements (symbolic runs): menpo's interpolation of constant pixels, and exact order 1
    interpolation of symbolic pixels, at constant points"""
    import menpo.image.base as mib
    if not V.sym:
        return ()

    def interp(pixels, pts, mode='constant', order=1, cval=0.0):
        p, x = as_float(pts), as_float(pixels)
        if p is None:
            raise E.Unsupported('sampling at symbolic points')
        if x is not None:
            from scipy.ndimage import map_coordinates
            out = np.stack([map_coordinates(c, p.T, mode=mode, order=order, cval=cval) for c in x])
            return out.astype(object).view(symnp.SArr)
        return bilinear(pixels, p.tolist()).view(symnp.SArr)
    return ((mib, 'scipy_interpolation', interp),)
