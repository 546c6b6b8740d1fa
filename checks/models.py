"""Exact (rational) statistical models used by several checks."""
from fractions import Fraction as F
import numpy as np
from menpo.model import PCAModel
from menpo.shape import PointCloud, TriMesh

# centred 4-point shapes whose norm is an integer (so that the orthonormal
# similarity basis is rational)
LAYOUTS = {
    'quad': [(-4, 3), (3, 2), (3, -2), (-2, -3)],
    'zig': [(1, 3), (-1, 2), (-4, -1), (4, -4)],
    'diamond': [(2, 0), (0, 2), (-2, 0), (0, -2)],
    'mesh': [(-3, -2), (4, -1), (3, 0), (-4, 3)],     # triangle areas are powers of two
    'nine': [(-3, -4), (-4, -1), (-4, 5), (-1, -3), (-1, 1), (1, 3), (4, -5), (5, 0), (3, 4)],
    'wide': [(-3, 2), (3, -1), (-2, 1), (2, -2)],
}

# triangles of the 3 x 3 grid of 'nine'
NINE = np.array([t for i in (0, 1) for j in (0, 1) for a in [3 * i + j] for t in ([a, a + 1, a + 3], [a + 1, a + 4, a + 3])])


def _fr(a):
    return [[F(x) for x in r] for r in a]


def _matmul(a, b):
    return [[sum(x * y for x, y in zip(r, c)) for c in zip(*b)] for r in a]


def _isqrt(f):
    from math import isqrt
    f = F(f)
    p, q = isqrt(f.numerator), isqrt(f.denominator)
    assert p * p == f.numerator and q * q == f.denominator, f
    return F(p, q)


def sim_basis(pts):
    """rational orthonormal rows: mean, rotated mean, x, y translations"""
    n = len(pts)
    mean = [F(c) for p in pts for c in p]
    rot = [F(c) for p in pts for c in (-p[1], p[0])]
    nm = _isqrt(sum(x * x for x in mean))
    nt = _isqrt(n)
    return [[x / nm for x in mean], [x / nm for x in rot],
            [F(1 - i % 2) / nt for i in range(2 * n)], [F(i % 2) / nt for i in range(2 * n)]]


def _householder_complete(rows):
    """rational orthogonal matrix whose first rows are ``rows``"""
    d = len(rows[0])
    H = [[F(int(i == j)) for j in range(d)] for i in range(d)]   # product
    for k, q in enumerate(rows):
        # y = H^T q restricted should be e_k after the reflection
        y = [sum(H[i][j] * q[i] for i in range(d)) for j in range(d)]
        e = [F(int(j == k)) for j in range(d)]
        v = [a - b for a, b in zip(y, e)]
        vv = sum(x * x for x in v)
        if vv == 0:
            continue
        # reflect: P = I - 2 v v^T / vv ;  H <- H P
        Hv = [sum(H[i][j] * v[j] for j in range(d)) for i in range(d)]
        H = [[H[i][j] - 2 * Hv[i] * v[j] / vv for j in range(d)] for i in range(d)]
    return [[H[i][j] for i in range(d)] for j in range(d)]


def _rot_rows(rows, seed):
    """mix rows with rational rotations (3,4,5)"""
    rows = [list(r) for r in rows]
    tr = [(F(3, 5), F(4, 5)), (F(5, 13), F(12, 13)), (F(8, 17), F(15, 17))]
    k = seed
    for i in range(len(rows)):
        for j in range(i + 1, len(rows)):
            c, s = tr[k % 3]
            k += 1
            a, b = rows[i], rows[j]
            rows[i] = [c * x - s * y for x, y in zip(a, b)]
            rows[j] = [s * x + c * y for x, y in zip(a, b)]
    return rows


def shape_basis(layout, n_comp, seed=0):
    """(mean points, components) orthonormal to the similarity basis"""
    pts = LAYOUTS[layout]
    full = _householder_complete(sim_basis(pts))
    rest = _rot_rows(full[4:], seed)
    return [[F(c) for c in p] for p in pts], rest[:n_comp]


def free_basis(d, n_comp, seed=0):
    """rational orthonormal rows in dimension d (not tied to a shape)"""
    eye = [[F(int(i == j)) for j in range(d)] for i in range(d)]
    return _rot_rows(eye, seed)[:n_comp]


def pca(V, mean, comps, eig, n_samples=10, trilist=None, centred=True):
    """PCAModel from exact data"""
    m = V.frac(mean)
    mean_pc = PointCloud(m) if trilist is None else TriMesh(m, trilist=trilist)
    return PCAModel.init_from_components(np.array(V.frac(comps)).view(type(V.frac([0]))), V.frac(eig),
                                         mean_pc, n_samples, centred)


def shape_pca(V, layout='quad', n_comp=2, seed=0, trilist=None, eig=None):
    mean, comps = shape_basis(layout, n_comp, seed)
    eig = eig or [F(4, 2 ** i) for i in range(n_comp)]
    return pca(V, mean, comps, eig, trilist=trilist)
