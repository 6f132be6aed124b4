"""C06 -- signs of the spinor rotations with respect to the tables."""
from fractions import Fraction as F
from .common import *
from .geom import *
from .c04 import permutation, spglib_stub

ID = "C06"
BOUNDS = ("point groups 1, -1, 2/m, 222, 4, 3, 32, -4 (thorough: 6, 4mm, 23, -3); spinor matrices of the structure computed by the constructor; table "
          "matrices = sign_j * W S_j W^+ with W any SU(2) matrix (free unit quaternion) and two sign patterns, or an arbitrary pattern "
          "chosen per operation; the minimiser returns W^+ up to an arbitrary common phase, or, for table matrices scaled by any factor in [0,9/10], the point it ends at.")
ASSUMPTIONS = ["floating point treated as exact real arithmetic", "scipy.optimize.minimize returns a point and the value of the objective there"]


def tasks(tier):
    out = []
    for g in ["1", "-1", "2/m", "222", "4", "3", "32", "-4"] + (["6", "4mm", "23", "-3"] if tier == "thorough" else []):
        for pat in ("alt", "pairs", "none"):
            for order in ("rev", "rot"):
                out.append(dict(name="%s-%s-%s" % (g.replace("/", ""), pat, order), params=dict(g=g, pat=pat, order=order, mode="ok"),
                                opts=dict(budget=150, max_paths=100)))
        out.append(dict(name="%s-fail" % g.replace("/", ""), params=dict(g=g, pat="alt", order="rev", mode="fail"), opts=dict(budget=150)))
    return out


def su2(S, name="w"):
    q1, q2, q3 = [S.real(name + str(i), -1, 1) for i in (1, 2, 3)]
    r = 1 - q1 * q1 - q2 * q2 - q3 * q3
    S.assume(r >= 0)
    q0 = S.sqrt(r)
    return S.array([[q0 + q3 * S.I, q2 + q1 * S.I], [-q2 + q1 * S.I, q0 - q3 * S.I]])


def body(S, M, p):
    eig_std(S)
    expm_contract(S)
    fam, ops = group(p["g"])
    n = len(ops)
    Lat = lattice(S, fam, symbolic=False)
    perm = permutation(n, p["order"])
    sgn = [1 if p["pat"] == "none" else (-1) ** j if p["pat"] == "alt" else (-1) ** (j // 2 + 1) for j in range(n)]
    zero = S.array([S.rat(0)] * 3)
    SO = M.spacegroup.SymmetryOperation
    S1 = []
    for o in ops:
        r = S.call(SO, S.array(o), S.array([S.rat(0)] * 3), Lat, spinor=True)
        S.check("operation built", r.ok, r.err)
        if not r.ok:
            return
        S1.append(r.val.spinor_rotation)
    W = su2(S) if p["mode"] == "ok" else S.array([[S.rat(1), S.rat(0)], [S.rat(0), S.rat(1)]])
    delta = S.real("delta", F(1, 10), 1) if p["mode"] == "fail" else 0
    Wd = W.conj().T
    ph = S.phase("common phase")
    tab = [None] * n
    for j in range(n):
        b = W.dot(S1[j]).dot(Wd) * sgn[j]
        if p["mode"] == "fail":
            # not a unitary transform of the structure's matrix: other determinant
            b = b * (1 - delta)
        tab[perm[j]] = Obj(R=S.array(ops[j]), t=zero, S=b)
    seen = {}
    S.hook("random", lambda *a, **k: S.array([S.rat(1, 3)] * 8))

    def flat(R):
        R = R.reshape(-1)
        return S.array([v.real for v in R] + [v.imag for v in R])

    def minimize(fun, x0, *a, **k):
        if p["mode"] == "fail":
            x = flat(S.array([[1 + 0 * S.I, 0 * S.I], [0 * S.I, 1 + 0 * S.I]]))
            return Obj(x=x, fun=fun(x))
        for R in (Wd, W, W.T, Wd.T):
            x = flat(R * ph)
            f = fun(x)
            z = S.eq(f, 0)
            if z is True or (z is not False and S.symbolic and not hasattr(z, "e")):
                break
            if not S.symbolic and abs(f) < 1e-9:
                break
            if S.symbolic and hasattr(f, "is_zero") and f.is_zero():
                break
        else:
            if S.symbolic:
                from symx.num import Unsupported
                raise Unsupported("none of the known solutions minimises the objective")
            import scipy.optimize
            return scipy.optimize.minimize(fun, x0, *a, **k)
        seen["fun"] = f
        return Obj(x=x, fun=f)
    S.patch("spacegroup.minimize", minimize)
    S.patch("spacegroup.spglib", spglib_stub(dict(
        international="P1", number=fresh_number(), transformation_matrix=S.array(I3), origin_shift=zero,
        rotations=[S.array(o) for o in ops], translations=[S.array([S.rat(0)] * 3) for _ in ops])))
    S.patch("spacegroup.IrrepTable", lambda *a, **k: Obj(symmetries=tab))
    kw = dict(refUC=S.array(I3), shiftUC=S.array([S.rat(0)] * 3), search_cell=True)
    r = S.call(M.spacegroup.SpaceGroup, (Lat, S.array([[0, 0, 0]]), [1]), spinor=True, **kw)
    if p["mode"] == "fail":
        S.check("no common unitary transformation: refused", r.raised(RuntimeError), r.err)
        return
    S.check("constructor", r.ok, r.err)
    if not r.ok:
        return
    for i, o in enumerate(r.val.symmetries):
        j = perm.index(i)
        S.check("sign relates the structure's spinor rotation to the table's", S.eq(o.sign, sgn[j]), "%s %s" % (o.sign, sgn[j]))
        S.check("table matrix = sign * W U W^+", S.eq(tab[i].S, W.dot(o.spinor_rotation).dot(Wd) * o.sign))
