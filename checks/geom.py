"""Contracts of the linear-algebra black boxes used by SymmetryOperation."""
from fractions import Fraction as F
from .common import *


def rotation(S, name="q"):
    """arbitrary proper rotation matrix from three real inputs (unit quaternion)"""
    q1, q2, q3 = [S.real(name + str(i), -1, 1) for i in (1, 2, 3)]
    r = 1 - q1 * q1 - q2 * q2 - q3 * q3
    S.assume(r >= 0)
    q0 = S.sqrt(r)
    return S.array([[q0 * q0 + q1 * q1 - q2 * q2 - q3 * q3, 2 * (q1 * q2 - q0 * q3), 2 * (q1 * q3 + q0 * q2)],
                    [2 * (q1 * q2 + q0 * q3), q0 * q0 - q1 * q1 + q2 * q2 - q3 * q3, 2 * (q2 * q3 - q0 * q1)],
                    [2 * (q1 * q3 - q0 * q2), 2 * (q2 * q3 + q0 * q1), q0 * q0 - q1 * q1 - q2 * q2 + q3 * q3]])


def frame(S, rot, L0):
    """(n, e1, e2, fold): right-handed orthonormal frame of the proper part of the cartesian operation (exact)"""
    fold, improper = op_kind(rot)
    Rp = S.np.dot(S.np.dot(L0.T, S.array(rot)), S.np.linalg.inv(L0).T)
    if improper:
        Rp = -Rp
    I = S.array(I3)
    P = I
    X = I
    for _ in range(fold - 1):
        X = X.dot(Rp)
        P = P + X
    P = P / fold
    if fold == 1:
        P = S.array([[0, 0, 0], [0, 0, 0], [0, 0, 1]])

    def pick_col(Q):
        best, bj = None, None
        for j in range(3):
            c = Q[j, j]
            c = c.const() if hasattr(c, "const") else c
            if c is None:
                raise RuntimeError("projector is not constant")
            if best is None or c > best + F(1, 10**6):
                best, bj = c, j
        return Q[:, bj] / S.sqrt(Q[bj, bj])
    n = pick_col(P)
    e1 = pick_col(I - P) if fold > 1 else S.array([1, 0, 0])
    e2 = S.np.cross(n, e1)
    return n, e1, e2, fold


def eig_contract(S, rot, L0, O):
    """np.linalg.eig of the cartesian operation: any eigenvector order, axis sign and phase of the complex pair.

    symbolic run: returns the decomposition of the *intended* matrix after asserting that the matrix handed over is that
    matrix; concrete run: the real routine with the columns permuted the same way"""
    import itertools
    fold, improper = op_kind(rot)
    perm = S.pick("eig order", list(itertools.permutations(range(3))))
    sgn = S.pick("axis sign", [1, -1])
    if S.symbolic:
        n, e1, e2, fold = frame(S, rot, L0)
        n, e1, e2 = O.dot(n), O.dot(e1), O.dot(e2)
        u = S.phase("pair phase") if fold in (3, 4, 6) else None

        def f(a):
            # handedness, rotation sense and eigenvalues are read off the matrix that the code hands over
            d = S.np.linalg.det(a)
            d = -1 if S.is_true(d < 0) else 1
            A_ = a * d
            c = e1.dot(A_.dot(e1))
            s = e2.dot(A_.dot(e1))
            if fold == 1:
                vals, vecs = [1, 1, 1], [n * sgn, e1, e2]
            elif fold == 2:
                vals, vecs = [1, -1, -1], [n * sgn, e1, e2]
            else:
                r2 = S.sqrt(S.rat(2))
                vals = [1, c + s * S.I, c - s * S.I]
                vecs = [n * sgn, (e1 - e2 * S.I) * u / r2, (e1 + e2 * S.I) * u.conjugate() / r2]
            E = S.array([vals[k] * d for k in perm])
            V = S.array([vecs[k] for k in perm]).T
            S.check("matrix given to eig is the cartesian operation", S.eq(a.dot(V), V * E))
            return E, V
        S.hook("eig", f)
    else:
        real = np.linalg.eig

        def g(a):
            E, V = real(a)
            # canonical order: the axis first, then the pair
            d = 1 if np.linalg.det(a) > 0 else -1
            k0 = int(np.argmin(abs(E * d - 1)))
            idx = [k0] + [k for k in range(3) if k != k0]
            V = V[:, idx].copy()
            E = E[idx]
            V[:, 0] = V[:, 0] * sgn
            return E[list(perm)], V[:, list(perm)]
        S.np_patch("linalg.eig", g)


def expm_contract(S):
    """expm of a 2x2 matrix M with M^2 = -b^2 I : cos b + M sin(b)/b (exact)"""
    if not S.symbolic:
        return

    def f(a):
        from symx.num import Num, PI
        m2 = a.dot(a)
        k = -m2[0, 0]
        ok = S.And(S.eq(m2[0, 1], 0), S.eq(m2[1, 0], 0), S.eq(m2[0, 0], m2[1, 1]))
        if ok is not True and not bool(ok):
            from symx.num import Unsupported
            raise Unsupported("expm argument is outside of the contract")
        if hasattr(k, "is_zero") and k.is_zero():
            return S.array([[1, 0], [0, 1]]) + a
        b = S.np.sqrt(k)
        return S.array([[1, 0], [0, 1]]) * S.np.cos(b) + a * (S.np.sin(b) / b)
    S.hook("expm", f)


def eig_std(S):
    """eig of a constant crystallographic rotation (any finite-order orthogonal matrix): exact decomposition"""
    if not S.symbolic:
        return

    def f(a):
        d = S.np.linalg.det(a)
        d = -1 if S.is_true(d < 0) else 1
        Rp = a * d
        I = S.array(I3)
        fold, X, P = 1, Rp, I
        while not S.is_true(S.eq(X, I)):
            P = P + X
            X = X.dot(Rp)
            fold += 1
            if fold > 6:
                from symx.num import Unsupported
                raise Unsupported("eig of a matrix that is not a crystallographic rotation")
        P = P / fold
        if fold == 1:
            P = S.array([[0, 0, 0], [0, 0, 0], [0, 0, 1]])

        def col(Q):
            c = [Q[j, j].const() if hasattr(Q[j, j], "const") else Q[j, j] for j in range(3)]
            j = max(range(3), key=lambda i: c[i])
            return Q[:, j] / S.sqrt(Q[j, j])
        n = col(P)
        e1 = col(I - P) if fold > 1 else S.array([1, 0, 0])
        e2 = S.np.cross(n, e1)
        c, s = e1.dot(Rp.dot(e1)), e2.dot(Rp.dot(e1))
        if fold <= 2:
            v = 1 if fold == 1 else -1
            vals, vecs = [1, v, v], [n, e1, e2]
        else:
            r2 = S.sqrt(S.rat(2))
            vals = [1, c + s * S.I, c - s * S.I]
            vecs = [n, (e1 - e2 * S.I) / r2, (e1 + e2 * S.I) / r2]
        return S.array([v * d for v in vals]), S.array(vecs).T
    S.hook("eig", f)


class Obj:
    def __init__(self, **k):
        self.__dict__.update(k)


def group_closure(gens):
    out = [I3]
    todo = [I3]
    while todo:
        g = todo.pop()
        for h in gens:
            x = mm(g, h)
            if x not in out:
                out.append(x)
                todo.append(x)
    return out


GROUPS = {  # generators in the basis of the named lattice family
    "1": ("tric", []), "-1": ("tric", [INV]),
    "2/m": ("mono", [[[-1, 0, 0], [0, 1, 0], [0, 0, -1]], INV]),
    "222": ("ortho", [[[-1, 0, 0], [0, -1, 0], [0, 0, 1]], [[1, 0, 0], [0, -1, 0], [0, 0, -1]]]),
    "mm2": ("ortho", [[[-1, 0, 0], [0, -1, 0], [0, 0, 1]], [[1, 0, 0], [0, -1, 0], [0, 0, 1]]]),
    "4": ("tetra", [[[0, -1, 0], [1, 0, 0], [0, 0, 1]]]),
    "-4": ("tetra", [[[0, 1, 0], [-1, 0, 0], [0, 0, -1]]]),
    "3": ("hexa", [[[0, -1, 0], [1, -1, 0], [0, 0, 1]]]),
    "-3": ("hexa", [[[0, -1, 0], [1, -1, 0], [0, 0, 1]], INV]),
    "6": ("hexa", [[[1, -1, 0], [1, 0, 0], [0, 0, 1]]]),
    "32": ("hexa", [[[0, -1, 0], [1, -1, 0], [0, 0, 1]], [[0, 1, 0], [1, 0, 0], [0, 0, -1]]]),
    "4mm": ("tetra", [[[0, -1, 0], [1, 0, 0], [0, 0, 1]], [[1, 0, 0], [0, -1, 0], [0, 0, 1]]]),
    "23": ("cubic", [[[-1, 0, 0], [0, -1, 0], [0, 0, 1]], [[0, 0, 1], [1, 0, 0], [0, 1, 0]]]),
    "m-3m": ("cubic", [[[0, -1, 0], [1, 0, 0], [0, 0, 1]], [[0, 0, 1], [1, 0, 0], [0, 1, 0]], INV]),
}


def group(name):
    fam, gens = GROUPS[name]
    return fam, group_closure(gens)


def make_op(S, M, rot, t=None, fam="cubic", ind=1, spinor=True, U=None, L=None):
    """a SymmetryOperation built by its constructor, with the documented attributes translation / spinor_rotation then set"""
    eig_std(S)
    expm_contract(S)
    if L is None:
        L = lattice(S, fam, symbolic=False)
    op = M.spacegroup.SymmetryOperation(S.array(rot), S.array([0, 0, 0]) * S.rat(1), L, ind=ind, spinor=spinor)
    if t is not None:
        op.translation = S.array(t)
    if U is not None:
        op.spinor_rotation = U
    return op


def make_sg(S, M, ops, tables=None, refUC=None, shiftUC=None, L=None, name="P1", number=1, spinor=False, positions=None, typat=None, alat=None):
    """a SpaceGroup with all its documented attributes set, without running spglib"""
    sg = M.spacegroup.SpaceGroup.__new__(M.spacegroup.SpaceGroup)
    sg.symmetries = list(ops)
    sg.symmetries_tables = tables
    sg.name, sg.number, sg.spinor, sg.order, sg.alat = name, number, spinor, len(ops), alat
    sg.Lattice = S.array(I3) if L is None else L
    sg.positions = S.array([[0, 0, 0]]) if positions is None else positions
    sg.typat = [1] if typat is None else typat
    sg.refUC = S.array(I3) if refUC is None else refUC
    sg.shiftUC = S.array([0, 0, 0]) if shiftUC is None else shiftUC
    return sg


_NUM = [0]


def fresh_number():
    """number of a space group that nothing in this process has asked for"""
    _NUM[0] += 1
    return _NUM[0]
