"""C03 -- operations referred to the reference cell."""
from fractions import Fraction as F
from .common import *
from .geom import make_op

ID = "C03"
BOUNDS = ("reference-cell matrices: the listed rational 3x3 bases (identity, permutations, I/F/C/A/R centrings, doubled cell) (exact; the first two also with one entry off by any |eps|<=1e-8); "
          "rotations: every operation of the lattice families' point groups (one representative per "
          "kind in quick); shiftUC and translations any reals in [-2,2].")
ASSUMPTIONS = ["floating point treated as exact real arithmetic"]

REFS = {
    "P": [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    "perm": [[0, 1, 0], [0, 0, 1], [1, 0, 0]],
    "I": [[0, 1, 1], [1, 0, 1], [1, 1, 0]],
    "F": [[-1, 1, 1], [1, -1, 1], [1, 1, -1]],
    "C": [[1, 1, 0], [-1, 1, 0], [0, 0, 1]],
    "R": [[1, 0, 1], [-1, 1, 1], [0, -1, 1]],
    "half": [[F(1, 2), F(1, 2), 0], [F(-1, 2), F(1, 2), 0], [0, 0, 1]],
    "big": [[2, 0, 0], [0, 1, 0], [0, 0, 1]],
}


def tasks(tier):
    out = []
    fams = ["cubic", "hexa", "bcc", "fcc", "rhomb"]
    for ref in REFS:
        for fam in fams:
            out.append(dict(name="%s-%s" % (ref, fam), params=dict(ref=ref, fam=fam, n=0 if tier == "quick" else 100),
                            opts=dict(budget=100)))
    for ref in ["P", "perm"]:
        for k in range(3):
            out.append(dict(name="noise-%s-%d" % (ref, k), body="noise", params=dict(ref=ref, k=k), opts=dict(budget=100)))
    return out


def noise(S, M, p):
    """reference cell given with rounding noise (an entry off by at most 1e-8)"""
    B = REFS[p["ref"]]
    Bi = iinv(B)
    rot = S.pick("rot", distinct_kinds("cubic"))
    want = mm(mm(Bi, rot), B)
    if not all(F(x).denominator == 1 for r in want for x in r):
        return
    op = make_op(S, M, rot, fam="cubic")
    e = S.real("eps", F(-1, 10**8), F(1, 10**8))
    b = [[S.rat(x) for x in r] for r in B]
    b[p["k"]][(p["k"] + 1) % 3] = b[p["k"]][(p["k"] + 1) % 3] + e
    r = S.call(op.rotation_refUC, S.array(b))
    S.check("noisy reference cell accepted", r.ok, r.err)
    if r.ok:
        S.check("rotation rounded to the nearest integers", S.eq(r.val, S.array(want)))


def body(S, M, p):
    B = REFS[p["ref"]]
    Bi = iinv(B)
    rot = S.pick("rot", distinct_kinds(p["fam"], p["n"]))
    op = make_op(S, M, rot, fam=p["fam"])
    Rm = S.array(rot)
    t = S.array([S.real("t%d" % i, -2, 2) for i in range(3)])
    s = S.array([S.real("s%d" % i, -2, 2) for i in range(3)])
    op.rotation, op.translation = Rm, t
    ref = S.array([[S.rat(x) for x in r] for r in B])
    # exact reference transform
    want = mm(mm(Bi, rot), B)
    integer = all(F(x).denominator == 1 for r in want for x in r)
    # asked before with another cell and origin: the answer does not depend on it
    z = S.call(op.rotation_refUC, S.array(I3) * S.rat(1))
    S.check("rotation in the cell of the calculation", z.ok and bool(S.is_true(S.eq(z.val, S.array(rot)))), z.err)
    z = S.call(op.translation_refUC, S.array(I3) * S.rat(1), S.array([0, 0, 0]))
    S.check("translation in the cell of the calculation", z.ok and bool(S.is_true(S.eq(z.val, t))), z.err)
    r = S.call(op.rotation_refUC, ref)
    if integer:
        S.check("integer rotation accepted", r.ok, r.err)
        if r.ok:
            S.check("rotation in the reference cell", S.eq(r.val, S.array(want)))
    else:
        S.check("non-integer rotation is refused", r.raised(RuntimeError), r.err)
    tr = S.call(op.translation_refUC, ref, s)
    S.check("translation_refUC runs", tr.ok, tr.err)
    if not tr.ok:
        return
    # the operation x -> Rx + t with x = B y + s   (s: origin of the standard setting) acts as y -> want y + t_ref
    y = S.array([S.real("y%d" % i, -2, 2) for i in range(3)])
    lhs = Rm.dot(ref.dot(y) + s) + t
    W = S.array([[S.rat(x) for x in q] for q in want])
    rhs = ref.dot(W.dot(y) + tr.val) + s
    S.check("same affine map in both settings", S.eq(lhs, rhs))
    S.check("input operation untouched", S.And(S.eq(op.rotation, S.array(rot)), S.eq(op.translation, t)))
