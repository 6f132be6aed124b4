"""Shared material of the checks: crystallographic operations and lattices."""
import itertools
from fractions import Fraction as F
import numpy as np


# ------------------------------------------------------------- lattices
# families: name -> (number of parameters, builder(S, params) -> 3x3 nested list of rows, numeric params)
def _cubic(S, p):
    a, = p
    return [[a, 0, 0], [0, a, 0], [0, 0, a]]


def _tetra(S, p):
    a, c = p
    return [[a, 0, 0], [0, a, 0], [0, 0, c]]


def _ortho(S, p):
    a, b, c = p
    return [[a, 0, 0], [0, b, 0], [0, 0, c]]


def _hexa(S, p):
    a, c = p
    s3 = S.sqrt(S.rat(3))
    return [[a, 0, 0], [-a / 2, a * s3 / 2, 0], [0, 0, c]]


def _mono(S, p):
    a, b, c, x = p
    return [[a, 0, 0], [0, b, 0], [x, 0, c]]


def _tric(S, p):
    a, b, c, x, y, z = p
    return [[a, 0, 0], [x, b, 0], [y, z, c]]


def _fcc(S, p):
    a, = p
    return [[0, a / 2, a / 2], [a / 2, 0, a / 2], [a / 2, a / 2, 0]]


def _bcc(S, p):
    a, = p
    return [[-a / 2, a / 2, a / 2], [a / 2, -a / 2, a / 2], [a / 2, a / 2, -a / 2]]


def _rhomb(S, p):
    # obverse setting rows in terms of the hexagonal axes
    h = _hexa(S, p)
    rows = [[F(2, 3), F(1, 3), F(1, 3)], [F(-1, 3), F(1, 3), F(1, 3)], [F(-1, 3), F(-2, 3), F(1, 3)]]
    return [[sum((S.rat(r[k]) * h[k][j] for k in range(3)), 0 * h[0][0]) for j in range(3)] for r in rows]


LATT = {"cubic": (1, _cubic, [3.1]), "tetra": (2, _tetra, [3.1, 4.3]), "ortho": (3, _ortho, [3.1, 3.7, 4.9]),
        "hexa": (2, _hexa, [3.1, 4.7]), "mono": (4, _mono, [3.1, 3.7, 4.9, 0.61]),
        "tric": (6, _tric, [3.1, 3.7, 4.9, .61, .83, -1.07]),
        "fcc": (1, _fcc, [4.3]), "bcc": (1, _bcc, [4.3]), "rhomb": (2, _rhomb, [3.1, 8.3])}


class _Plain:
    @staticmethod
    def sqrt(x):
        return float(x) ** .5

    @staticmethod
    def rat(p, q=1):
        return float(F(p) / q)


def plain_lattice(fam):
    n, f, p = LATT[fam]
    return np.array(f(_Plain, p), dtype=float)


def lattice(S, fam, name="", symbolic=True):
    n, f, p = LATT[fam]
    if symbolic:
        par = []
        for i in range(n):
            if i < 3 and not (fam == "mono" and i == 3):
                par.append(S.real("lat%s%d" % (name, i), F(1, 2), 20))
            else:
                par.append(S.real("lat%s%d" % (name, i), -3, 3))
    else:
        par = [S.rat(F(str(x))) for x in p]
    return S.array(f(S, par))


_ops = {}


def point_ops(fam):
    """all integer matrices preserving the metric of a generic lattice of the family (concrete ints)"""
    if fam in _ops:
        return _ops[fam]
    L = plain_lattice(fam)
    g = L @ L.T
    cols = [np.array(c) for c in itertools.product((-1, 0, 1), repeat=3)]
    per = [[c for c in cols if abs(c @ g @ c - g[i, i]) < 1e-8] for i in range(3)]
    out = []
    for a in per[0]:
        for b in per[1]:
            if abs(a @ g @ b - g[0, 1]) > 1e-8:
                continue
            for c in per[2]:
                if abs(a @ g @ c - g[0, 2]) < 1e-8 and abs(b @ g @ c - g[1, 2]) < 1e-8:
                    out.append(np.array([a, b, c]).T)
    _ops[fam] = sorted(([[int(x) for x in r] for r in m] for m in out), key=lambda m: (round(np.linalg.det(m)) < 0, m))
    return _ops[fam]


I3 = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
INV = [[-1, 0, 0], [0, -1, 0], [0, 0, -1]]


def mm(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def idet(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def iinv(m):
    """exact inverse of a rational 3x3 matrix (Fractions)"""
    d = F(idet(m))
    c = [[None] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            a = [[m[r][s] for s in range(3) if s != i] for r in range(3) if r != j]
            c[i][j] = (a[0][0] * a[1][1] - a[0][1] * a[1][0]) * (-1) ** (i + j) / d
    return [[x.numerator if x.denominator == 1 else x for x in r] for r in c]


def mv(m, v):
    return [sum(m[i][k] * v[k] for k in range(3)) for i in range(3)]


def vm(v, m):
    return [sum(v[k] * m[k][j] for k in range(3)) for j in range(3)]


def op_kind(m):
    """(fold of proper part, improper?)"""
    d = idet(m)
    tr = (m[0][0] + m[1][1] + m[2][2]) * d
    return {3: 1, 2: 6, 1: 4, 0: 3, -1: 2}[tr], d < 0


def distinct_kinds(fam, extra=0):
    """one representative operation per kind of the family"""
    seen = {}
    for m in point_ops(fam):
        seen.setdefault(op_kind(m), []).append(m)
    return [m for k in seen for m in seen[k][:1 + extra]]


def is_int_congruent(S, a, b, span=8):
    """a-b integer vector? (symbolic: via round)"""
    d = a - b
    return S.And(*[S.eq(x, S.round(x)) for x in d])


def mat3(S, name, build):
    return S.array(build)


def dot(S, A, B):
    return A.dot(B)
