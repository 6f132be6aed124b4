"""C01 -- SymmetryOperation: geometric data and SU(2) lift."""
from fractions import Fraction as F
from .common import *
from .geom import *

ID = "C01"
BOUNDS = ("rotations: one operation per kind (1,2,3,4,6-fold, each with and without inversion; thorough: every operation) of the "
          "point groups of cubic, hexagonal, fcc, bcc, rhombohedral, monoclinic and triclinic lattices; lattice parameters any reals "
          "in [1/2,20]; orientation of the crystal any rotation (free unit quaternion); translation components any reals in [-3,3]; "
          "eigenvector order, axis sign and phase returned by numpy.linalg.eig arbitrary.")
ASSUMPTIONS = ["floating point treated as exact real arithmetic",
               "numpy.linalg.eig returns eigenpairs (unit vectors, conjugate pairs for complex eigenvalues) in any order",
               "scipy.linalg.expm(M) is the matrix exponential (closed form when M^2 is a negative multiple of the identity)"]
SIG = [[[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]]


def tasks(tier):
    out = []
    for fam in ["cubic", "hexa", "fcc", "bcc", "rhomb", "mono", "tric"]:
        ops = point_ops(fam) if tier == "thorough" else distinct_kinds(fam, 1 if fam in ("cubic", "hexa") else 0)
        for k, m in enumerate(ops):
            out.append(dict(name="geom-%s-%d" % (fam, k), params=dict(fam=fam, rot=m), opts=dict(budget=100, max_paths=200)))
    out.append(dict(name="translation", body="trans", params={}, opts=dict(budget=100)))
    return out


def trans(S, M, p):
    expm_contract(S)
    t = [S.real("t%d" % i, -3, 3) for i in range(3)]
    L = S.array([[2, 0, 0], [0, 3, 0], [0, 0, 5]])
    R = S.array([[-1, 0, 0], [0, -1, 0], [0, 0, 1]])
    r = S.call(M.spacegroup.SymmetryOperation, R, S.array(t), L, spinor=True)
    S.check("constructor", r.ok, r.err)
    if not r.ok:
        return
    tt = r.val.translation
    for i in range(3):
        d = tt[i] - t[i]
        S.check("translation in [0,1)", S.And(tt[i] >= 0, tt[i] < 1))
        near = S.abs(d - S.round(d))
        # congruent to the input; a value within 1e-5 below an integer may be snapped to 0
        S.check("translation congruent to the input", S.Or(S.le(near, 0), S.And(S.eq(tt[i], 0), S.le(near, F(1, 10**5)))))
        S.check("no value within 1e-5 below 1", 1 - tt[i] > S.rat(F(9, 10**6)))


def body(S, M, p):
    rot = p["rot"]
    fold, improper = op_kind(rot)
    L0 = lattice(S, p["fam"])
    O = rotation(S)
    Lat = L0.dot(O.T)
    eig_contract(S, rot, L0, O)
    expm_contract(S)
    t = S.array([S.rat(1, 2), S.rat(0), S.rat(1, 3)])
    r = S.call(M.spacegroup.SymmetryOperation, S.array(rot), t, Lat, ind=3, spinor=True)
    S.check("constructor", r.ok, r.err)
    if not r.ok:
        return
    op = r.val
    S.check("inversion flag is the sign of the determinant", bool(op.inversion) == improper)
    Rc = S.np.dot(S.np.dot(L0.T, S.array(rot)), S.np.linalg.inv(L0).T)
    Rp = O.dot(-Rc if improper else Rc).dot(O.T)
    n, a = op.axis, op.angle
    if fold > 1:        # the axis of the identity and of the inversion is meaningless
        S.check("unit axis", S.eq(n.dot(n), 1))
        S.check("axis is fixed by the proper part", S.eq(Rp.dot(n), n))
    S.check("angle in (-pi, pi]", S.And(a > -S.pi, a <= S.pi * S.rat(10**6 + 1, 10**6)))
    c, s = S.np.cos(a), S.np.sin(a)
    K = S.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
    rod = S.array(I3) * c + K * s + S.np.outer(n, n) * (1 - c)
    S.check("Rodrigues rotation of (axis, angle) is the proper part", S.eq(rod, Rp))
    k = abs_fold(op.angle_str)
    S.check("angle string", k is not None and bool(S.is_true(S.eq(a, S.pi * S.rat(k)))), op.angle_str)
    U = op.spinor_rotation
    Ud = U.conj().T
    S.check("spinor rotation is unitary", S.eq(U.dot(Ud), S.array([[1, 0], [0, 1]])))
    S.check("spinor rotation has determinant 1", S.eq(U[0, 0] * U[1, 1] - U[0, 1] * U[1, 0], 1))
    sig = [S.array(x) for x in SIG]
    for j in range(3):
        rhs = sig[0] * Rp[0, j] + sig[1] * Rp[1, j] + sig[2] * Rp[2, j]
        S.check("U sigma_j U^+ = sum_i R_ij sigma_i", S.eq(U.dot(sig[j]).dot(Ud), rhs))
    S.check("trace of the lift is 2cos(angle/2)", S.eq(U[0, 0] + U[1, 1], 2 * S.np.cos(a / 2)))
    S.check("rotation kept", S.eq(op.rotation, S.array(rot)))
    S.check("index and sign", op.ind == 3 and op.sign == 1)


def abs_fold(s):
    """multiple of pi denoted by an angle string such as '-2/3 pi'"""
    s = s.strip()
    if s == "0":
        return F(0)
    if not s.endswith("pi"):
        return None
    try:
        return F(s[:-2].strip())
    except ValueError:
        return None
