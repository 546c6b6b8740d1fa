"""C17 - regressors solve their least squares problems, and increments equal retraining."""
from fractions import Fraction as F
from checks.common import *
import menpofit.math.regression as reg
from menpofit.math import (IRLRegression, IIRLRegression, PCRRegression, OptimalLinearRegression, OPPRegression)

REG = Registry('C17')
REG.assumptions = ['feature matrices have full column rank where no regularisation is used',
                   'singular value and eigen decompositions (NumPy, menpo.math.pca) are correct']
REG.outside = ['decompositions of symbolic matrices (their factors are given)', 'OPPRegression(whiten=True)']

CX = {1: np.array([[1.], [2.], [-1.], [3.]]), 2: np.array([[1., 0.], [2., -1.], [0., 1.], [1., 3.]]),
      8: np.array([[(3 * i * i + 5 * j * (i + 1) + i * j * j) % 13 - 6. for j in range(8)] for i in range(12)])}


def ones(V, X):
    n = len(X)
    return sarr(np.hstack([np.asarray(X, dtype=object), np.ones((n, 1), dtype=object)]).tolist())


def data(V, tag, n, f, d, lo=-2, hi=2):
    return V.reals('X' + tag, (n, f), lo, hi), V.reals('Y' + tag, (n, d), lo, hi)


def gram(A):
    A = np.asarray(A)
    return A.T.dot(A)


def add_diag(M, a):
    M = np.array(M)
    for i in range(len(M)):
        M[i, i] = M[i, i] + a
    return M


def regular(V, M):
    """assume that a matrix is invertible"""
    V.assume(detn(M) ** 2 > 0.01)


def detn(M):
    M = np.asarray(M)
    if len(M) == 1:
        return M[0, 0]
    if len(M) == 2:
        return M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]
    return sum((-1) ** k * M[0, k] * detn(np.delete(M[1:], k, axis=1)) for k in range(len(M)))


def predictions(V, r, X, Xb, W, tag=''):
    V.eq(tag + 'prediction of several samples', r.predict(X), np.asarray(Xb).dot(np.asarray(W)))
    V.eq(tag + 'prediction of one sample', r.predict(np.asarray(X)[0]), np.asarray(Xb)[0].dot(np.asarray(W)))


def add_irl(n, f, d, alpha, bias):
    def h(V):
        X, Y = data(V, '', n, f, d)
        X0, Y0 = X.copy(), Y.copy()
        a = V.real('alpha', 0.25, 4) if alpha else 0
        Xb = ones(V, X) if bias else X
        G = add_diag(gram(Xb), a)
        regular(V, G)
        r = IRLRegression(alpha=a, bias=bias)
        r.train(X, Y)
        V.eq('solution of the normal equations', r.W, vsolve(V, G, np.asarray(Xb).T.dot(Y)))
        predictions(V, r, X, Xb, r.W)
        V.eq('features left alone', X, X0)
        V.eq('targets left alone', Y, Y0)
        W = np.array(r.W)
        V.check('not incrementable by default', raises(ValueError, lambda: r.increment(X, Y)))
        V.eq('unchanged by the refusal', r.W, W)
        # training again forgets
        X2, Y2 = data(V, '2', n, f, d)
        Xb2 = ones(V, X2) if bias else X2
        G2 = add_diag(gram(Xb2), a)
        regular(V, G2)
        r.train(X2, Y2)
        V.eq('retrained', r.W, vsolve(V, G2, np.asarray(Xb2).T.dot(Y2)))
    REG.add('irl_n%d_f%d_d%d%s%s' % (n, f, d, '_alpha' if alpha else '', '_bias' if bias else ''), h, timeout=120,
            bounds='%d samples, %d features, %d outputs' % (n, f, d))


add_irl(3, 1, 2, False, True)
add_irl(3, 1, 2, True, True)
add_irl(3, 2, 1, False, False)
add_irl(2, 2, 2, True, False)
add_irl(3, 2, 1, True, True)


def earlier(V, r, f, d, incremented):
    """the regressor was trained (and incremented) before, with other data"""
    n = f + 2
    X = np.array([[(3 * i * i + 5 * j + i * j) % 7 - 3. for j in range(f)] for i in range(2 * n)])
    Y = np.array([[(2 * i + 3 * j * i) % 5 - 1. for j in range(d)] for i in range(2 * n)])
    c = V.const
    r.train(c(X[:n]), c(Y[:n]))
    if incremented:
        r.increment(c(X[n:]), c(Y[n:]))


def add_inc(sizes, f, d, alpha, bias, fixed=False, again=None):
    def h(V):
        explicit_inverses(V)
        a = V.real('alpha', 0.25, 4) if alpha else 0
        parts_ = [data(V, str(k), n, f, d) for k, n in enumerate(sizes)]
        if fixed:
            parts_[0] = (sarr(CX[f][:sizes[0]].tolist()), parts_[0][1])
        r = IRLRegression(alpha=a, bias=bias, incrementable=True)
        if again is not None:
            earlier(V, r, f, d, again)
        if not alpha:
            regular(V, gram(ones(V, parts_[0][0]) if bias else parts_[0][0]))
        r.train(*parts_[0])
        for k in range(1, len(sizes)):
            X, Y = parts_[k]
            X0, Y0 = X.copy(), Y.copy()
            r.increment(X, Y)
            V.eq('features left alone', X, X0)
            V.eq('targets left alone', Y, Y0)
            XX = np.vstack([p[0] for p in parts_[:k + 1]])
            YY = np.vstack([p[1] for p in parts_[:k + 1]])
            Xb = ones(V, XX) if bias else XX
            G = add_diag(gram(Xb), a)
            V.eq('increment %d: normal equations of all samples' % k, G.dot(np.asarray(r.W)), np.asarray(Xb).T.dot(YY))
        predictions(V, r, XX, Xb, r.W)
    REG.add('inc_%s_f%d_d%d%s%s%s' % ('_'.join(map(str, sizes)), f, d, '_alpha' if alpha else '', '_bias' if bias else '',
                                      '' if again is None else '_again%d' % again), h,
            timeout=200, bounds='batches of %s samples, %d features, %d outputs' % (sizes, f, d))


add_inc((2, 1), 1, 1, False, True)
add_inc((2, 1), 1, 2, True, True)
add_inc((1, 2), 1, 1, True, False)
add_inc((2, 1, 1), 1, 1, True, False)
add_inc((2, 1), 2, 1, True, False)
add_inc((2, 1), 1, 1, True, True, again=False)
add_inc((2, 1), 1, 2, False, True, again=True)
add_inc((1, 1), 2, 1, True, False, again=True)


def indirect(V, X, Y, a, a2):
    J = vsolve(V, add_diag(gram(Y), a), np.asarray(Y).T.dot(np.asarray(X)))
    H = add_diag(J.dot(J.T), a2)
    return J, H


def add_iirl(sizes, f, d, alpha, alpha2, again=None):
    def h(V):
        a = V.real('alpha', 0.25, 4) if alpha else 0
        explicit_inverses(V)
        a2 = V.real('alpha2', 0.25, 4) if alpha2 else 0
        parts_ = [data(V, str(k), n, f, d) for k, n in enumerate(sizes)]
        r = IIRLRegression(alpha=a, alpha2=a2, incrementable=len(sizes) > 1)
        if again is not None:
            earlier(V, r, f, d, again)
        if not alpha:
            regular(V, gram(parts_[0][1]))
        for k in range(len(sizes)):
            X, Y = parts_[k]
            X0, Y0 = X.copy(), Y.copy()
            XX = np.vstack([p[0] for p in parts_[:k + 1]])
            YY = np.vstack([p[1] for p in parts_[:k + 1]])
            J, H = indirect(V, XX, YY, a, a2)
            if not alpha2:
                regular(V, H)
            (r.increment if k else r.train)(X, Y)
            V.eq('features left alone', X, X0)
            V.eq('targets left alone', Y, Y0)
            V.eq('batch %d: pseudoinverse of the indirect solution' % k, np.asarray(r.W).dot(H), J.T)
        predictions(V, r, XX, XX, r.W)
        if len(sizes) == 1:
            V.check('not incrementable by default', raises(ValueError, lambda: r.increment(X, Y)))
            predictions(V, r, XX, XX, r.W, 'after refusal: ')
    REG.add('iirl_%s_f%d_d%d%s%s%s' % ('_'.join(map(str, sizes)), f, d, '_alpha' if alpha else '', '_alpha2' if alpha2 else '',
                                       '' if again is None else '_again%d' % again), h,
            timeout=200, bounds='batches of %s samples, %d features, %d outputs' % (sizes, f, d))


add_iirl((2,), 2, 1, False, False)
add_iirl((2,), 2, 1, True, True)
add_iirl((1,), 2, 2, True, True)
add_iirl((2, 1), 2, 1, True, True)
add_iirl((1, 1, 1), 1, 1, True, True)
add_iirl((2,), 2, 1, True, True, again=False)
add_iirl((1, 1), 2, 1, True, True, again=True)


@REG.harness('iirl_exact', bounds='2 targets, 3 features, 2 samples with features exactly linear in the targets')
def iirl_exact(V):
    Y = V.reals('Y', (2, 2), -2, 2)
    explicit_inverses(V)
    A = np.array([[1., 2., 0.], [0., -1., 1.]])
    regular(V, gram(Y))
    r = IIRLRegression()
    X = np.asarray(Y).dot(A)
    r.train(X, Y)
    V.eq('recovers the targets', r.predict(X), Y)


# orthonormal rational factors
U4 = np.array([[1, 1, 1, 1], [1, -1, 1, -1], [1, 1, -1, -1], [1, -1, -1, 1]]) / 2.
V3 = np.array([[1., 2., 2.], [2., 1., -2.], [2., -2., 1.]]) / 3.
V2 = np.array([[.6, .8], [-.8, .6]])


class Svd(object):
    """numpy's svd for matrices whose factors are known"""

    def __init__(self, V, M, U, s, Vt):
        self.V, self.known = V, (M, U, s, Vt)

    def patches(self):
        return ((np.linalg, 'svd', self), (symnp.linalg, 'svd', self)) if self.V.sym else ()

    def __call__(self, A, full_matrices=True, compute_uv=True, **k):
        M, U, s, Vt = self.known
        if np.shape(A) != np.shape(M) or full_matrices:
            raise E.Unsupported('svd of another matrix')
        self.V.close('decomposed matrix', A, M, tol=1e-9)
        return (U.copy(), s.copy(), Vt.copy()) if compute_uv else s.copy()


def add_pcr(f, variance):
    def h(V):
        if f == 3:
            s = sarr([V.real('s0', 4, 8), V.real('s1', 2, 3.9), V.real('s2', 0.5, 1.9)])
        else:
            s = sarr([V.real('s0', 2, 8), V.real('s1', 0.5, 1.9)])
        Q = V3 if f == 3 else V2
        U = U4[:, :f]
        X = sarr((U * np.asarray(s)).dot(Q).tolist())
        Y = V.reals('Y', (4, 2), -2, 2)
        X0, Y0 = X.copy(), Y.copy()
        r = PCRRegression(variance=V.real('variance', 0.05, 1) if variance else None, bias=False)
        with patched(*Svd(V, X, U, s, Q).patches()):
            r.train(X, Y)
        V.eq('features left alone', X, X0)
        V.eq('targets left alone', Y, Y0)
        k = f
        if variance:
            tot, run, k = s.sum(), 0, 0
            for v in s:
                run = run + v
                if run < r.variance * tot:
                    k += 1
        want = U[:, :k].dot(U[:, :k].T).dot(np.asarray(Y))
        V.close('projection of the targets on the leading components', r.predict(X), want, tol=1e-6)
        V.close('one sample', r.predict(np.asarray(X)[1]), want[1], tol=1e-6)
        z = V.reals('z', (f,), -1, 1)
        proj = Q[:k].T.dot(Q[:k]).dot(np.asarray(z))
        V.close('only the leading components of a sample count', r.predict(z), r.predict(proj), tol=1e-6)
        V.check('cannot be incremented', raises(NotImplementedError, lambda: r.increment(X, Y)))
    REG.add('pcr_f%d%s' % (f, '_variance' if variance else ''), h, timeout=150, max_paths=60,
            bounds='4 samples, %d features with any singular values, 2 outputs' % f)


add_pcr(2, False)
add_pcr(3, False)
add_pcr(2, True)
add_pcr(3, True)



def add_ols(cls, name, f, bias, d=1):
    """constant features (decomposed numerically), any targets: ordinary least squares"""
    def h(V):
        round_constants(V)
        X = CX[f].copy()
        if d == 1:
            t = V.real('t', -2, 2)
            Y = sarr(([[1. + t], [2.], [t - 0.5], [1. - 2 * t]] * 3)[:len(X)])
            V.assume(abs_sum(V, np.asarray(Y).T.dot(ones(V, X) if bias else X)) > 0.1)
        else:
            Y = V.reals('Y', (len(X), d), -2, 2)
        Y0 = Y.copy()
        r = cls(bias=bias)
        with patched(*pca_patches(V)):
            r.train(X, Y)
        Xb = np.asarray(ones(V, X) if bias else X).astype(float)
        V.close('normal equations', Xb.T.dot(np.asarray(r.predict(X)) - np.asarray(Y)), np.zeros((Xb.shape[1], d)), tol=1e-5)
        V.close('one sample', r.predict(X[2]), np.asarray(r.predict(X))[2], tol=1e-9)
        V.eq('targets left alone', Y, Y0)
        V.eq('features left alone', X, CX[f])
        V.check('cannot be incremented', raises(NotImplementedError, lambda: r.increment(X, Y)))
    REG.add('%s_f%d%s_d%d' % (name, f, '_bias' if bias else '', d), h, timeout=150,
            bounds='%d fixed samples of %d features, %s targets' % (len(CX[f]), f, 'any' if d > 1 else 'a line of'))


def abs_sum(V, a):
    return sum(v * v for v in np.ravel(a).tolist())


def pca_patches(V):
    orig = reg.pca

    def pca(X, centre=True, inplace=True, **k):
        X = np.asarray(X)
        if symnp._consts(X) is not None:
            return orig(symnp._consts(X), centre=centre, **k)
        if centre or X.shape[0] != X.shape[1]:
            raise E.Unsupported('pca')
        if len(X) == 1:
            return np.zeros((1, 1)), np.zeros(1), np.zeros(1)     # menpo divides by the number of rows less one
        V_, l = eig(X)
        return sarr(np.asarray(V_).T.tolist()), sarr([l[0] ** 2 / len(X)]), np.zeros(len(X))

    def eig(X, is_inverse=False, eps=1e-10):
        # symmetric rank one matrix b.b^T: the component is b / |b|
        X = np.asarray(X)
        if is_inverse or X.shape[0] != X.shape[1]:
            raise E.Unsupported('eigenvalue decomposition')
        n = len(X)
        j = 0
        for i in range(n):
            if E.CTX is not None and bool(X[i, i] > 1e-3):
                j = i
                break
        else:
            raise Skip()
        b = X[:, j] / symnp.ssqrt(X[j, j])
        nb = symnp.ssqrt((b * b).sum())
        V.close('matrix of rank one', np.outer(b, b), X, tol=1e-5)
        return sarr((b / nb).reshape(-1, 1).tolist()), sarr([nb ** 2])
    return tuple((reg, k, f) for k, f in (('pca', pca), ('eigenvalue_decomposition', eig))
                 if hasattr(reg, k)) if V.sym else ()


for f_ in (1, 2):
    for b_ in (False, True):
        add_ols(PCRRegression, 'pcr_const', f_, b_, 2)
add_ols(PCRRegression, 'pcr_const', 8, True, 9)
add_ols(PCRRegression, 'pcr_const', 8, False, 7)
for f_, b_ in ((1, True), (1, False), (2, False), (8, True)):
    add_ols(OptimalLinearRegression, 'optimal', f_, b_, 1)


@REG.harness(bounds='fixed samples of 8 features, any share of the variance, any targets', timeout=200, max_paths=60)
def pcr_many_variance(V):
    round_constants(V)
    X = CX[8].copy()
    Y = V.reals('Y', (len(X), 3), -2, 2)
    r = PCRRegression(variance=V.real('variance', 0.05, 1), bias=False)
    with patched(*pca_patches(V)):
        r.train(X, Y)
    U, s, Q = np.linalg.svd(CX[8].astype(float), full_matrices=False)
    tot, run, k = s.sum(), 0, 0
    for v in s:
        run = run + float(v)
        d = run - r.variance * float(tot)
        V.assume((d > 1e-6) | (d < -1e-6) if V.sym else abs(d) > 1e-6)
        if d < 0:
            k += 1
    U = U[:, :k]
    V.close('projection of the targets on the leading components', r.predict(X), U.dot(U.T).dot(np.asarray(Y)), tol=1e-5)
    V.close('one sample', r.predict(CX[8][9]), U[9].dot(U.T.dot(np.asarray(Y))), tol=1e-5)


@REG.harness(bounds='fixed samples of 8 features, any share of the variance up to 3/4, a line of targets', timeout=200, max_paths=60)
def optimal_many_variance(V):
    round_constants(V)
    X = CX[8].copy()
    t = V.real('t', -2, 2)
    Y = sarr(([[1. + t], [2.], [t - 0.5], [1. - 2 * t]] * 3)[:len(X)])
    U, s, Q = np.linalg.svd(CX[8].astype(float), full_matrices=False)
    r = OptimalLinearRegression(variance=V.real('variance', 0.05, 0.75), bias=False)
    l = s * s
    tot, run, k = l.sum(), 0, 0
    for v in l:
        run = run + float(v)
        d = run - r.variance * float(tot)
        V.assume((d > 1e-6) | (d < -1e-6) if V.sym else abs(d) > 1e-6)
        if d < 0:
            k += 1
    V.assume(k > 0)
    U = U[:, :k]
    V.assume(abs_sum(V, U.T.dot(np.asarray(Y))) > 0.1)
    with patched(*pca_patches(V)):
        r.train(X, Y)
    V.close('least squares on the leading components', r.predict(X), U.dot(U.T).dot(np.asarray(Y)), tol=1e-4)
    V.close('one sample', r.predict(CX[8][9]), U[9].dot(U.T.dot(np.asarray(Y))), tol=1e-4)
    V.eq('features left alone', X, CX[8])


def add_opp(f, bias):
    def h(V):
        m = f + bias
        # features with known inverse of the transpose: targets are chosen to give X^T Y = U s V
        X = {2: np.array([[1., 2.], [0., 1.]]), 3: np.array([[1., 2., 1.], [0., 1., 1.], [2., 1., 1.]])}[m]
        U = (V3[:, :2] if m == 3 else V2)
        s = sarr([V.real('s0', 2, 8), V.real('s1', 0.5, 1.9)])
        c = V2.T
        M = sarr((U * np.asarray(s)).dot(c).tolist())
        Y = sarr(np.linalg.inv(X.T).round(9).dot(np.asarray(M)).tolist())
        X = X[:, :f].copy()
        keep, Y0 = X.copy(), Y.copy()
        r = OPPRegression(bias=bias)
        with patched(*Svd(V, M, U, s, c).patches()):
            r.train(X, Y)
        R_ = np.asarray(r.R)
        V.close('orthonormal', R_.T.dot(R_), np.eye(2), tol=1e-6)
        S = R_.T.dot(np.asarray(M))
        V.close('symmetric (optimal rotation)', S[0, 1], S[1, 0], tol=1e-5)
        V.ge('positive (optimal rotation): trace', S[0, 0] + S[1, 1], 0)
        V.ge('positive (optimal rotation): determinant', detn(S), 0)
        Xb = ones(V, X) if bias else X
        V.close('prediction of several samples', r.predict(X), np.asarray(Xb).dot(R_), tol=1e-9)
        V.close('prediction of one sample', r.predict(X[0]), np.asarray(Xb)[0].dot(R_), tol=1e-9)
        V.eq('features left alone', X, keep)
        V.eq('targets left alone', Y, Y0)
        V.check('cannot be incremented', raises(NotImplementedError, lambda: r.increment(X, Y)))
    REG.add('opp_f%d%s' % (f, '_bias' if bias else ''), h, timeout=100,
            bounds='fixed features, any singular values of the correlation of features and targets')


def add_whitened_opp(f):
    def h(V):
        # targets generated linearly from the features by W = U s c
        X = {2: CX[2], 3: np.array([[1., 2., 1.], [0., 1., 1.], [2., 1., 1.], [3., 0., -1.]])}[f].astype(float)
        U = (V3[:, :2] if f == 3 else V2)
        s = sarr([V.real('s0', 2, 8), V.real('s1', 0.5, 1.9)])
        c = V2.T
        W = (U * np.asarray(s)).dot(c)
        Y = sarr(X.dot(W).tolist())
        keep, Y0 = X.copy(), Y.copy()
        r = OPPRegression(bias=False, whiten=True)
        n = len(X) - 1
        svd = Svd(V, sarr((W * n).tolist()), U, sarr((np.asarray(s) * n).tolist()), c)
        with patched(*svd.patches(), *pca_patches(V)):
            r.train(X, Y)
        R_ = np.asarray(r.R)
        V.close('orthonormal', R_.T.dot(R_), np.eye(2), tol=1e-6)
        S = R_.T.dot(np.asarray(W))
        V.close('symmetric (rotation nearest to the least squares solution)', S[0, 1], S[1, 0], tol=1e-5)
        V.ge('positive: trace', S[0, 0] + S[1, 1], 0)
        V.ge('positive: determinant', detn(S), 0)
        V.close('prediction of several samples', r.predict(X), keep.dot(R_), tol=1e-9)
        V.close('prediction of one sample', r.predict(X[0]), keep[0].dot(R_), tol=1e-9)
        V.eq('features left alone', X, keep)
        V.eq('targets left alone', Y, Y0)
    REG.add('opp_whitened_f%d' % f, h, timeout=100,
            bounds='4 fixed samples, targets linear in them, any singular values of the map')


add_whitened_opp(2)
add_whitened_opp(3)
add_opp(2, False)
add_opp(3, False)
add_opp(2, True)


# ------------------------------------------------------------------ larger problems
def known(V, n, m, k=0):
    """full rank rational matrices"""
    A = [[F((3 * i * i + 5 * j * (i + 1) + i * j * j + k * (i + 2 * j)) % 13 - 6, 2) for j in range(m)] for i in range(n)]
    return V.frac(A)


def many_irl(bias, incrementable):
    def h(V):
        n, f, d = 12, 8, 8
        r = IRLRegression(alpha=0.5, bias=bias, incrementable=incrementable)
        explicit_inverses(V)
        XX, YY = None, None
        for k in range(4 if incrementable else 1):
            X = known(V, n - k, f, k)
            Y = sarr(np.asarray(V.reals('Y%d' % k, (n - k, d), -2, 2)).tolist())
            XX = X if XX is None else np.vstack([XX, X])
            YY = Y if YY is None else np.vstack([YY, Y])
            (r.increment if k else r.train)(X, Y)
            Xb = ones(V, XX) if bias else XX
            V.close('batch %d: normal equations of all samples' % k, add_diag(gram(Xb), 0.5).dot(np.asarray(r.W)),
                    np.asarray(Xb).T.dot(YY), tol=1e-6)
        V.close('prediction of several samples', r.predict(XX), np.asarray(Xb).dot(np.asarray(r.W)), tol=1e-6)
        V.close('prediction of one sample', r.predict(np.asarray(XX)[-1]), np.asarray(Xb)[-1].dot(np.asarray(r.W)), tol=1e-6)
    REG.add('many_irl%s%s' % ('_bias' if bias else '', '_increments' if incrementable else ''), h, timeout=200,
            bounds='%s samples with 8 known features and 8 outputs of any value' % ('12 + 11 + 10 + 9' if incrementable else '12'))


def many_iirl(batches, d):
    def h(V):
        n, f = 10, 8
        explicit_inverses(V)
        a2 = V.real('alpha2', 0.25, 4) if d < 4 else 0.75
        r = IIRLRegression(alpha=0.5, alpha2=a2, incrementable=batches > 1)
        XX, YY = None, None
        for k in range(batches):
            X, Y = known(V, n + k, f, k), known(V, n + k, d, k + 3)
            XX = X if XX is None else np.vstack([XX, X])
            YY = Y if YY is None else np.vstack([YY, Y])
            J, H = indirect(V, XX, YY, 0.5, a2)
            (r.increment if k else r.train)(X, Y)
            V.close('batch %d: pseudoinverse of the indirect solution' % k, np.asarray(r.W).dot(H), J.T, tol=1e-6)
        Z = V.reals('Z', (9, f), -1, 1) if d >= 4 else known(V, 9, f, 7)
        V.close('predictions', r.predict(Z), np.asarray(Z).dot(np.asarray(r.W)), tol=1e-6)
    REG.add('many_iirl_%d_d%d' % (batches, d), h, timeout=200,
            bounds='%d batches of 10 or more known samples with 8 features, %d outputs' % (batches, d))


for b_ in (False, True):
    for i_ in (False, True):
        many_irl(b_, i_)
many_iirl(1, 3)
many_iirl(3, 7)


@REG.harness('opp_many', bounds='12 known samples of 8 features and 7 outputs, any prediction inputs', timeout=100)
def opp_many(V):
    round_constants(V)
    X, Y = CX[8].copy(), np.array([[(5 * i * j + 3 * i + j * j) % 11 - 5. for j in range(7)] for i in range(12)])
    r = OPPRegression(bias=False)
    r.train(X, Y)
    R_ = np.asarray(r.R)
    V.close('orthonormal', R_.T.dot(R_), np.eye(7), tol=1e-6)
    S = R_.T.dot(CX[8].T.dot(Y))
    V.close('symmetric (optimal rotation)', S, S.T, tol=1e-5)
    V.check('positive (optimal rotation)', np.linalg.eigvalsh(S.astype(float) + S.T.astype(float)).min() > -1e-6)
    Z = V.reals('Z', (9, 8), -2, 2)
    V.close('prediction of several samples', r.predict(Z), np.asarray(Z).dot(R_), tol=1e-9)
    V.close('prediction of one sample', r.predict(Z[-1]), np.asarray(Z)[-1].dot(R_), tol=1e-9)
