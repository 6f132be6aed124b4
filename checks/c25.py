"""C25 -- prefix.sym files: written and read symmetry operations (write_sym_file, read_sym_file, cart_to_crystal, _findsym)."""
from fractions import Fraction as F
from .common import *
from .geom import *

ID = "C25"
BOUNDS = ("lattices of the listed families with any parameters, one operation of every kind with any translation, alone or in groups of up to 4 (12) operations; any lattice parameter alat given to the "
          "writer, stored in the space group, or missing (1).")
ASSUMPTIONS = ["floating point treated as exact real arithmetic (the file has 15 decimals)", "spglib replaced by a data set of operations in another order"]
FAMS = ["cubic", "hexa", "fcc", "bcc", "rhomb", "mono", "tric", "ortho", "tetra"]


def tasks(tier):
    out = []
    for fam in FAMS:
        ops = point_ops(fam) if tier == "thorough" else distinct_kinds(fam)
        n = 2 if fam != "tric" else 2
        for a in range(0, len(ops), n):
            out.append(dict(name="%s-%d" % (fam, a), params=dict(fam=fam, ops=ops[a:a + n]), opts=dict(budget=90, max_paths=150)))
    for g in ("2/m", "222", "3", "-1"):
        out.append(dict(name="group-" + g.replace("/", "_"), params=dict(group=g), opts=dict(budget=90, max_paths=150)))
    for fam in FAMS:
        ops = point_ops(fam) if tier == "thorough" else distinct_kinds(fam)
        out.append(dict(name="noise-" + fam, body="noise", params=dict(fam=fam, ops=ops), opts=dict(budget=90, max_paths=150)))
    for fam in ("cubic", "tric"):
        out.append(dict(name="refuse-" + fam, body="refuse", params=dict(fam=fam), opts=dict(budget=60, max_paths=100)))
    return out


def same_mod1(S, a, b):
    """equal modulo lattice translations (up to the 1e-5 that the constructor rounds away)"""
    d = a - b
    return S.le(S.abs(d - S.round(d)), F(11, 10**6))


def body(S, M, p):
    if "group" in p:
        fam, rots = group(p["group"])
    else:
        fam, rots = p["fam"], p["ops"]
    L = lattice(S, fam)
    B = M.utility.BOHR
    ts = [[S.real("t%d_%d" % (i, a), 0, F(999, 1000)) if i < 2 else S.rat(F(i + a, 8)) for a in range(3)] for i in range(len(rots))]
    ops = [make_op(S, M, r, t=t, fam=fam, ind=i + 1) for i, (r, t) in enumerate(zip(rots, ts))]
    for o in ops:
        o.Lattice = L
    how = S.pick("lattice parameter", ["argument", "stored", "missing", "both"])
    al = S.real("alat", F(1, 2), 40) if how != "missing" else S.rat(1)
    sg = make_sg(S, M, ops, L=L, alat=None if how in ("argument", "missing") else al if how == "stored" else S.rat(77))
    r = S.call(sg.write_sym_file, "x.sym", **({"alat": al} if how in ("argument", "both") else {}))
    S.check("writer runs", r.ok, r.err)
    if not r.ok:
        return
    t = S.read_file("x.sym")
    w = [l.split() for l in (t or "").splitlines() if l.strip()]
    S.check("file: number of operations and four lines for each", len(w) == 1 + 4 * len(rots) and w[0] == [str(len(rots))] and all(len(x) == 3 for x in w[1:]), len(w))
    if not (len(w) == 1 + 4 * len(rots) and all(len(x) == 3 for x in w[1:])):
        return
    Li = S.np.linalg.inv(L)
    for i, (A, tt) in enumerate(zip(rots, ts)):
        Rc = L.T.dot(S.array(A)).dot(Li.T)
        for a in range(3):
            S.check("file: rotation in cartesian coordinates", S.And(*[S.textnum(x, Rc[a, c], 8) for c, x in enumerate(w[1 + 4 * i + a])]), w[1 + 4 * i + a])
        tc = [-sum((tt[a] * L[a, c] for a in range(3)), S.rat(0)) / al / B for c in range(3)]
        S.check("file: minus the translation in cartesian coordinates and units of alat", S.And(*[S.textnum(x, y, 8) for x, y in zip(w[4 + 4 * i], tc)]), w[4 + 4 * i])
    r = S.call(M.spacegroup.read_sym_file, "x.sym")
    S.check("reader runs", r.ok, r.err)
    if not r.ok:
        return
    rot, tr = r.val
    r = S.call(M.spacegroup.cart_to_crystal, rot, tr, L, al)
    S.check("conversion runs", r.ok, r.err)
    if not r.ok:
        return
    rc, tc = r.val
    S.check("rotations read back are those written", len(rc) == len(rots) and S.And(*[S.eq(S.array(rc[i]), S.array(rots[i])) for i in range(len(rots))]))
    S.check("translations read back are those written", len(tc) == len(rots) and S.And(*[close(S, tc[i][a], ts[i][a]) for i in range(len(rots)) for a in range(3)]))
    # the space group built from the file: operations of the file in their order, whatever the library finds
    data = Obj(international="X 1", number=17, transformation_matrix=S.array(I3), origin_shift=S.array([0, 0, 0]),
               rotations=S.array([I3] + [INV] * 2), translations=S.array([[S.rat(1, 7)] * 3] * 3))
    new = S.pick("library", ["2.5.0", "2.4.9"]) == "2.5.0"
    S.patch("spacegroup.spglib", Obj(get_symmetry_dataset=lambda cell: data if new else data.__dict__, __version__="2.5.0" if new else "2.4.9"))
    S.patch("spacegroup.SymmetryOperation", Op)
    g2 = M.spacegroup.SpaceGroup.__new__(M.spacegroup.SpaceGroup)
    g2.spinor = not new
    cell = (L, S.array([[S.rat(0)] * 3]), [1])
    r = S.call(g2._findsym, cell, "x.sym", al)
    S.check("operations taken from the file", r.ok, r.err)
    if r.ok:
        sy = r.val[0]
        S.check("all operations of the file, numbered in their order", [o.ind for o in sy] == list(range(1, len(rots) + 1)), [o.ind for o in sy])
        if len(sy) == len(rots):
            S.check("rotation and translation of each, in the lattice of the crystal", S.And(*[S.And(S.eq(S.array(o.rot), S.array(A)), S.eq(S.array(o.L), L), *[close(S, o.trans[a], t[a]) for a in range(3)])
                                                                                            for o, A, t in zip(sy, rots, ts)]))
        S.check("spin matrices for spinors only", all(bool(o.spinor) == g2.spinor for o in sy))
        S.check("name and number of the library", (r.val[1], r.val[2]) == ("X 1", 17), r.val[1:3])
    r = S.call(g2._findsym, cell, None, al)
    S.check("operations of the library: spin matrices for spinors only", r.ok and all(bool(o.spinor) == g2.spinor for o in r.val[0]), r.err)
    S.check("operations of the library without a file", r.ok and len(r.val[0]) == 3 and S.And(*[S.eq(o.trans[0], S.rat(1, 7)) for o in r.val[0]]), r.err)
    r = S.call(g2._findsym, cell, "x.sym", None)
    S.check("a file without lattice parameter is refused", not r.ok, r.err)


class Op:
    def __init__(self, rot, trans, Lattice, ind=-1, spinor=True):
        self.rot, self.trans, self.L, self.ind, self.spinor = rot, trans, Lattice, ind, spinor


def close(S, a, b):
    """equal: exactly in the symbolic run, up to the 15 printed decimals in the real one"""
    return S.And(S.le(a - b, F(1, 10**9)), S.le(b - a, F(1, 10**9)))


def noise(S, M, p):
    """files with fewer decimals (other writers): the rotations are the nearest ones that preserve the lattice"""
    L = lattice(S, p["fam"])
    A = S.pick("operation", p["ops"])
    a, c = S.pick("component", [(0, 0), (1, 0), (2, 2), (0, 1)])
    e = S.real("e", F(-1, 10**8), F(1, 10**8))
    # the noise is in lattice coordinates, of the size of 8 decimals
    N = S.array([[S.rat(A[i][j]) + (e if (i, j) == (a, c) else 0) for j in range(3)] for i in range(3)])
    Li = S.np.linalg.inv(L)
    other = S.pick("after another operation", [0, 1])
    rots = ([S.array(I3) * S.rat(1)] if other else []) + [L.T.dot(N).dot(Li.T)]
    tr = [[S.rat(0)] * 3 for _ in rots]
    al = S.rat(1) / M.utility.BOHR
    r = S.call(M.spacegroup.cart_to_crystal, S.array(rots), S.array(tr), L, al)
    S.check("runs", r.ok, r.err)
    if r.ok:
        S.check("rotation with numerical noise: the exact one", S.eq(S.array(r.val[0][other]), S.array(A)), r.val[0][other])


def refuse(S, M, p):
    """rotations that do not map the lattice onto itself"""
    L = lattice(S, p["fam"])
    d = S.real("d", F(1, 1000), F(999, 1000))
    A = S.array([[S.rat(1), d, S.rat(0)], [S.rat(0), S.rat(1), S.rat(0)], [S.rat(0), S.rat(0), S.rat(1)]])
    Rc = L.T.dot(A).dot(S.np.linalg.inv(L).T)
    n = S.pick("operations before it", [0, 1])
    r = S.call(M.spacegroup.cart_to_crystal, S.array([S.array(I3) * S.rat(1)] * n + [Rc]), S.array([[S.rat(0)] * 3] * (n + 1)), L, S.rat(10))
    S.check("rotation that is not a symmetry of the lattice is refused", not r.ok, r.err)
