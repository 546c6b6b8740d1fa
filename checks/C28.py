"""C28 - packaged fitters: frames, arguments and downloads."""
import os
import shutil
import tempfile
from pathlib import Path
from checks.common import *
from menpo.image import Image
from menpo.shape import PointCloud
from menpo.transform import Affine, Translation, Scale
import menpofit.base as mbase
import menpofit.io as mio
from menpofit.io import PickleWrappedFitter, image_greyscale_crop_preprocess
from menpofit.result import (Result, NonParametricIterativeResult, ParametricIterativeResult,
                             MultiScaleNonParametricIterativeResult, MultiScaleParametricIterativeResult)

REG = Registry('C28')
REG.assumptions = ['images are cropped as menpo documents it (the warp of pixels is a recorder)']
REG.outside = ['the network', 'pickling of the models']
N = 2


def cloud(V, name, n=N):
    return PointCloud(V.reals(name, (n, 2), -3, 3), copy=False)


def transforms(V, kind):
    """how points of the pre-processed image map to the original image"""
    if kind == 'crop':
        return Translation(V.reals('t', 2, -5, 5))
    if kind == 'scale':
        return Scale(V.real('sc', 0.25, 4), 2)
    h = np.asarray(V.frac(np.eye(3)))
    m = V.reals('m', (2, 3), -1, 1)
    h = sarr([[2 + m[0, 0], 0.5, m[0, 2]], [0.25, 2 + m[1, 1], m[1, 2]], [0, 0, 1]])
    return Affine(h)


def fit_result(V, kind, initial, shapes, image, gt, costs):
    """the result a fitter gives, in the frame of the image it sees"""
    if kind == 'plain':
        return Result(shapes[-1], image=image, initial_shape=initial, gt_shape=gt)
    if kind == 'iterative':
        return NonParametricIterativeResult(shapes, initial_shape=initial, image=image, gt_shape=gt, costs=costs)
    ident = Scale(1.0, 2)
    if kind == 'multi_parametric':
        r = [ParametricIterativeResult(list(shapes), [np.zeros(3)] * len(shapes), initial_shape=initial, image=image,
                                       gt_shape=gt, costs=costs)]
        cls = MultiScaleParametricIterativeResult
    else:
        r = [NonParametricIterativeResult(list(shapes), initial_shape=initial, image=image, gt_shape=gt, costs=costs)]
        cls = MultiScaleNonParametricIterativeResult
    return cls(r, [1], [ident], [ident], image=image, gt_shape=gt)


class Fitter(object):
    """answers every fit with arbitrary shapes; records what it is asked"""

    def __init__(self, *args, **kw):
        self.args, self.kw, self.calls = args, kw, []

    def answer(self, how, image, start, kw):
        self.calls.append((how, image, np.array(start.points), dict(kw)))
        return self.reply(image, start, kw)

    def fit_from_bb(self, image, bounding_box, **kw):
        return self.answer('bb', image, bounding_box, kw)

    def fit_from_shape(self, image, initial_shape, **kw):
        return self.answer('shape', image, initial_shape, kw)


def add_fit(how, kind, trans_kind, has_init, has_gt, n=2):
    def h(V):
        im = Image(V.reals('px', (1, 2, 3), 0, 1), copy=False)
        px0 = np.array(im.pixels)
        proc = Image(np.zeros((1, 4, 5)))
        tr = None if trans_kind == 'none' else transforms(V, trans_kind)
        asked = []

        def pre(image, shape):
            asked.append((image, np.array(shape.points)))
            return proc, tr
        bbk, shk = dict(max_iters=[3, 4], return_costs=False), dict(max_iters=7, other='x')
        bb0, sh0 = dict(bbk), dict(shk)
        w = PickleWrappedFitter(Fitter, ('a', 'b'), dict(c=1), bbk, shk,
                                image_preprocess=None if tr is None else pre)
        f = w.wrapped_fitter
        V.check('the fitter is made with its arguments', f.args == ('a', 'b') and f.kw == dict(c=1))
        found = [cloud(V, 'f%d' % k) for k in range(n)]
        init = cloud(V, 'i') if has_init else None
        costs = [1.0] * n if kind != 'plain' else None
        f.reply = lambda image, start, kw: fit_result(V, kind, init, list(found), image, kw.get('gt_shape'), costs)
        f0 = [np.array(s.points) for s in found]
        start = cloud(V, 's')
        s0 = np.array(start.points)
        gt = cloud(V, 'g')
        g0 = np.array(gt.points)
        kw = dict(max_iters=9, new='y')
        if has_gt:
            kw['gt_shape'] = gt
        res = getattr(w, 'fit_from_' + how)(im, start, **kw)
        call = f.calls[0]
        V.check('one fit, of the asked kind', len(f.calls) == 1 and call[0] == how)
        want = dict(bb0 if how == 'bb' else sh0)
        want.update(max_iters=9, new='y')
        got = {k: v for k, v in call[3].items() if k != 'gt_shape'}
        V.check('stored arguments, overridden by the given ones', got == want)
        V.check('stored arguments kept', bbk == bb0 and shk == sh0)
        if tr is None:
            ap = np.asarray
        else:
            hm = np.asarray(tr.h_matrix)

            def ap(p):
                p = np.asarray(p)
                return np.array([[sum(hm[r, c] * q[c] for c in range(2)) + hm[r, 2] for r in range(2)] for q in p])
        if tr is not None:
            V.check('pre-processed once, with the image and the start', len(asked) == 1 and asked[0][0] is im)
            V.eq('start given to the pre-processing', asked[0][1], s0)
        V.check('image that is fitted', call[1] is (im if tr is None else proc))
        V.eq('start in the frame of the fitted image', ap(call[2]), s0)
        V.check('ground truth given when known', ('gt_shape' in call[3] and call[3]['gt_shape'] is not None) == has_gt)
        if has_gt:
            V.eq('ground truth of the result, in the frame of the given image', res.gt_shape.points, g0)
        else:
            V.check('no ground truth', res.gt_shape is None)
        V.eq('final shape in the frame of the given image', res.final_shape.points, ap(f0[-1]))
        if has_init:
            V.eq('initial shape in the frame of the given image', res.initial_shape.points, ap(init.points))
        else:
            V.check('no initial shape', res.initial_shape is None)
        V.check('iterative', res.is_iterative == (kind != 'plain'))
        if res.is_iterative:
            wanted = ([init.points] if has_init else []) + f0
            V.check('number of shapes', len(res.shapes) == len(wanted))
            for k, s in enumerate(wanted):
                V.eq('shape %d in the frame of the given image' % k, res.shapes[k].points, ap(s))
            V.check('costs kept', res.costs == costs or list(res.costs) == costs)
        V.eq('image of the result', res.image.pixels, px0)
        V.eq('start left alone', start.points, s0)
        V.eq('ground truth left alone', gt.points, g0)
        V.eq('image left alone', im.pixels, px0)
        # the stored arguments alone, a second time
        getattr(w, 'fit_from_' + how)(im, start)
        V.check('stored arguments alone', {k: v for k, v in f.calls[1][3].items() if k != 'gt_shape'} ==
                (bb0 if how == 'bb' else sh0) and f.calls[1][3].get('gt_shape') is None)
    REG.add('fit_%s_%s_%s%s%s' % (how, kind, trans_kind, '' if has_init else '_no_initial', '_gt' if has_gt else ''), h,
            timeout=120, bounds='%d shapes of %d points' % (n, N))


for _how in ('bb', 'shape'):
    for _kind in ('plain', 'iterative', 'multi', 'multi_parametric'):
        add_fit(_how, _kind, 'crop', True, False)
        add_fit(_how, _kind, 'affine', True, True)
    for _kind in ('plain', 'iterative', 'multi'):
        add_fit(_how, _kind, 'scale', False, False)
    add_fit(_how, 'iterative', 'none', True, True)
    add_fit(_how, 'plain', 'none', False, False)


# ------------------------------------------------------------------ pre-processing
def add_crop(ch, prop):
    def h(V):
        shape = (6, 7)
        px = V.reals('px', (ch, 1, 1), 0, 1)
        full = np.zeros((ch,) + shape, dtype=object) + np.asarray(px)
        im = Image(sarr(full.tolist()), copy=False)
        y0, x0 = V.real('y0', -1, 1), 2.25
        hgt, wid = V.real('h', 1.5, 3), 1.75
        if prop is None:
            y0, hgt = 1.5, 2.5
            x0, wid = V.real('x0', 1, 3), V.real('w', 2, 4)
        pts = sarr([[y0, x0 + wid], [y0 + hgt, x0], [y0 + hgt / 2, x0 + wid / 3]])
        pc = PointCloud(pts, copy=False)
        calls = []

        def warp_to_shape(self, template_shape, transform, warp_landmarks=True, return_transform=False, **kw):
            calls.append((self, tuple(template_shape), transform, return_transform))
            out = Image(np.zeros((self.n_channels, 1, 1)))
            return (out, transform) if return_transform else out
        with patched((Image, 'warp_to_shape', warp_to_shape)):
            args = () if prop is None else (prop,)
            new, tr = image_greyscale_crop_preprocess(im, pc, *args)
        src, size, t, _ = calls[0]
        V.check('one crop', len(calls) == 1)
        V.check('a new image', new is not im and src is not im)
        off = np.asarray(t.h_matrix)[:2, 2]
        V.eq('the transform of the crop: no rotation or scaling', np.asarray(tr.h_matrix)[:2, :2], np.eye(2))
        V.eq('the transform of the crop', np.asarray(tr.h_matrix)[:2, 2], off)
        p = 1.0 if prop is None else prop
        short = V.real('short', -20, 20)
        V.assume(E.bor(short == hgt, short == wid) if V.sym else True)
        if V.sym:
            V.assume(short <= hgt)
            V.assume(short <= wid)
        else:
            short = min(hgt, wid)
        lo, hi = [y0, x0], [y0 + hgt, x0 + wid]
        for d in range(2):
            a, b = lo[d] - p * short, hi[d] + p * short
            end = off[d] + size[d]
            # the padded point cloud, clipped to the image, and at most one pixel more on every side
            V.check('begins before the shape %d' % d, E.bor(off[d] <= a, off[d] == 0) if V.sym else
                    (off[d] <= a + 1e-9 or off[d] == 0))
            V.check('begins within a pixel %d' % d, E.bor(off[d] > a - 1, off[d] == shape[d]) if V.sym else off[d] > a - 1 - 1e-9)
            V.check('ends after the shape %d' % d, E.bor(end >= b, end == shape[d]) if V.sym else
                    (end >= b - 1e-9 or end == shape[d]))
            V.check('ends within a pixel %d' % d, end < b + 1 if V.sym else end < b + 1 + 1e-9)
            V.check('inside the image %d' % d, E.band(off[d] >= 0, end <= shape[d]) if V.sym else
                    (off[d] >= 0 and end <= shape[d]))
        V.check('greyscale', src.n_channels == (1 if ch == 3 else ch) and src.shape == shape)
        c = np.linalg.inv(np.array([[1.0, .956, .621], [1, -.272, -.647], [1, -1.106, 1.703]]))[0]
        for y, x in ((0, 0), (5, 6)):
            if ch == 3:
                V.close('luminosity', src.pixels[0, y, x], sum(c[k] * full[k, y, x] for k in range(3)), 1e-9)
            else:
                V.eq('channels kept', src.pixels[:, y, x], full[:, y, x])
        V.eq('point cloud left alone', pc.points, pts)
        V.check('image left alone', im.n_channels == ch)
        V.eq('pixels left alone', im.pixels[:, 0, 0], px.ravel())
    REG.add('crop_%d_channels_%s' % (ch, prop), h, timeout=200, max_paths=300,
            bounds='6 x 7 pixels, point clouds partly outside, moving and growing along one axis')


add_crop(3, 0.25)
add_crop(1, None)
add_crop(2, 0.5)


def default_preprocess(V):
    w = PickleWrappedFitter(Fitter, (), {}, {}, {})
    V.check('greyscale crops by default', w._image_preprocess is image_greyscale_crop_preprocess)


REG.add('default_preprocess', default_preprocess, bounds='the constructor')


# ------------------------------------------------------------------ files
class Stream(object):
    def __init__(self, chunks, size):
        self.data, self.pos, self.closed, self.headers = bytes(chunks), 0, False, {'content-length': str(size)}

    def read(self, n=-1):
        b = self.data[self.pos:self.pos + n if n >= 0 else None]
        self.pos += len(b)
        return b

    def close(self):
        self.closed = True


def copying(V):
    n, length = int(V.integer('bytes', 0, 9)), int(V.integer('length', 1, 4))
    data = bytes(range(n))
    src, out = Stream(data, n), []
    k = 0
    for _ in mio.copy_and_yield(src, rec(write=lambda b: out.append(b)), length=length):
        k += 1
    V.check('every byte once, in order', b''.join(out) == data)
    V.check('one step per chunk', k == -(-n // length) and all(0 < len(b) <= length for b in out))


REG.add('copy_chunks', copying, bounds='up to 9 bytes in chunks of 1-4')


def files(V):
    name = pick(V, 'name', ['aam', 'balanced_frontal_face_aam'])
    fn = mio.filename_for_fitter(name)
    V.check('the name', fn.startswith(name + '_v%d_' % mio.MENPOFIT_BINARY_VERSION) and fn.endswith('.pkl'))
    V.check('the address', mio.url_of_fitter(name) == mio.MENPO_URL + '/menpofit/' + fn)
    exists = bool(V.boolean('exists'))
    broken = bool(V.boolean('broken'))
    verbose = []
    d = tempfile.mkdtemp()
    try:
        got = []
        with patched((mio, 'menpofit_src_dir_path', lambda: Path(d)), (mbase, 'menpofit_src_dir_path', lambda: Path(d))):
            path = mio.path_of_fitter(name)
            V.check('one directory', path == Path(d) / 'data' / fn and path.parent.is_dir())
            if exists:
                path.write_bytes(b'old')

            def urlopen(url):
                got.append(url)
                s = Stream(b'new' * 5, 15)
                got.append(s)
                return s

            def import_pickle(p):
                if broken:
                    raise IOError('damaged')
                return lambda: (p, Path(p).read_bytes())
            with patched((mio, 'urlopen', urlopen), (mio, 'import_pickle', import_pickle)):
                import contextlib
                import io
                with contextlib.redirect_stdout(io.StringIO()):
                    try:
                        r = mio.load_fitter(name)
                        failed = False
                    except IOError:
                        failed = True
            V.check('downloaded only when needed', (got[:1] == []) if exists else
                    (got[0] == mio.url_of_fitter(name) and len(got) == 2))
            V.check('connection closed', exists or got[1].closed)
            V.check('failures are raised', failed == broken)
            if broken:
                V.check('damaged files are removed', not path.exists())
            else:
                V.check('the content of the file', r == (path, b'old' if exists else b'new' * 5))
                V.check('the file is kept', path.exists())
    finally:
        shutil.rmtree(d)


REG.add('load_fitter', files, bounds='file present or not, damaged or not')


def download(V):
    n = int(V.integer('kib', 0, 3))
    size = n * 512 * 1024 + int(V.integer('extra', 0, 2))
    verbose = bool(V.boolean('verbose'))
    data = bytes(bytearray((7 * i) % 251 for i in range(97))) * (size // 97 + 1)
    data = data[:size]
    d = tempfile.mkdtemp()
    try:
        s = Stream(data, size)
        import contextlib
        import io
        with patched((mio, 'urlopen', lambda url: s)), contextlib.redirect_stdout(io.StringIO()):
            mio.download_file('http://x/y', Path(d) / 'f', verbose=verbose)
        V.check('every byte', (Path(d) / 'f').read_bytes() == data)
        V.check('closed', s.closed)
    finally:
        shutil.rmtree(d)


REG.add('download', download, bounds='0 to 3 chunks of 512 KiB, and up to two bytes more')


def interrupted(V):
    """downloads that fail at any point never leave a fitter that loads wrongly or cannot be loaded again"""
    import contextlib
    import io
    import menpofit.aam.pretrained as pre
    whole = [b'abc', b'de']
    faults = [pick(V, 'fault%d' % k, ['connect', 'first', 'second', 'short', 'empty', 'none']) for k in range(2)]
    d = tempfile.mkdtemp()
    try:
        tries, loads = [], []

        class Source(object):
            def __init__(self, fault):
                self.fault, self.k, self.headers = fault, 0, {'content-length': '5'}

            def read(self, n=-1):
                k, self.k = self.k, self.k + 1
                if self.fault == ('first', 'second')[k] if k < 2 else False:
                    raise IOError('connection lost')
                if self.fault == 'empty' or self.fault == 'short' and k or k >= len(whole):
                    return b''
                return whole[k]

            def close(self):
                pass

        def urlopen(url):
            tries.append(url)
            fault = faults[len(tries) - 1] if len(tries) <= len(faults) else 'none'
            if fault == 'connect':
                raise IOError('no route')
            return Source(fault)

        def import_pickle(p):
            data = Path(p).read_bytes()
            loads.append(data)
            if data != b''.join(whole):
                raise EOFError('truncated')
            return lambda: 'the fitter'
        with patched((mio, 'menpofit_src_dir_path', lambda: Path(d)), (mbase, 'menpofit_src_dir_path', lambda: Path(d)),
                     (mio, 'urlopen', urlopen), (mio, 'import_pickle', import_pickle)), \
                contextlib.redirect_stdout(io.StringIO()):
            outcomes = []
            for k in range(5):
                try:
                    outcomes.append(pre.load_balanced_frontal_face_fitter())
                except (IOError, EOFError):
                    outcomes.append(None)
            V.check('the fitter or an error', set(outcomes) <= {'the fitter', None})
            V.check('loads in the end, and from then on', outcomes[4] == 'the fitter' and
                    outcomes == [None] * outcomes.count(None) + ['the fitter'] * outcomes.count('the fitter'))
            V.check('one download when nothing fails', len(tries) == 1 or faults[0] != 'none')
            V.check('the right file', all(t == mio.url_of_fitter('balanced_frontal_face_aam') for t in tries))
            V.check('no download once it is there', len(tries) <= outcomes.count(None) + 1 and len(tries) <= 3)
    finally:
        shutil.rmtree(d)


REG.add('interrupted_downloads', interrupted, max_paths=100, bounds='two attempts that fail at any of 5 points, 5 calls')
