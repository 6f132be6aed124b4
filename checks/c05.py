"""C05 -- choice of the transformation to the reference cell."""
from fractions import Fraction as F
from .common import *
from .geom import *
from .c04 import spglib_stub

ID = "C05"
BOUNDS = ("precedence: command-line refUC/shiftUC given or not (4 cases) x searchcell, all 12 numbers and the library's 12 numbers any reals "
          "in [-3,3]; thresholds 1e-5 and (with inexact translations) 1/500; automatic search: table groups P1, P-1, P2, P2_1, P2_1/c, C2/m, I2/m, F222, Fmmm, P4/m, I4/m, R3, R-3, I-4 with the DFT cell primitive, "
          "origin of the standard setting anywhere (any reals), the library's origin exact, off by a lattice vector, or off by the listed "
          "rational vectors; mismatching tables: one operation off by any translation outside the threshold.")
ASSUMPTIONS = ["floating point treated as exact real arithmetic", "spglib returns operations and a transformation matrix that are mutually "
               "consistent (its origin may be wrong)"]
H = F(1, 2)
Q = F(1, 4)
M2 = [[-1, 0, 0], [0, 1, 0], [0, 0, -1]]
MM = [[1, 0, 0], [0, -1, 0], [0, 0, 1]]
R3 = [[0, -1, 0], [1, -1, 0], [0, 0, 1]]
R32 = mm(R3, R3)
neg = lambda m: [[-x for x in r] for r in m]
S4 = [[0, 1, 0], [-1, 0, 0], [0, 0, -1]]
Z2 = [[-1, 0, 0], [0, -1, 0], [0, 0, 1]]
REFB = {"P": I3, "C": [[1, 1, 0], [-1, 1, 0], [0, 0, 1]], "I": [[0, 1, 1], [1, 0, 1], [1, 1, 0]],
        "F": [[-1, 1, 1], [1, -1, 1], [1, 1, -1]], "R": [[1, 0, 1], [-1, 1, 1], [0, -1, 1]],
        "A": [[1, 0, 0], [0, 1, 1], [0, -1, 1]]}
# standard-setting operations (rotation, translation)
TAB = {
    "P1": ("tric", [(I3, [0, 0, 0])]),
    "P-1": ("tric", [(I3, [0, 0, 0]), (INV, [0, 0, 0])]),
    "P2": ("mono", [(I3, [0, 0, 0]), (M2, [0, 0, 0])]),
    "P2_1": ("mono", [(I3, [0, 0, 0]), (M2, [0, H, 0])]),
    "P2_1/c": ("mono", [(I3, [0, 0, 0]), (M2, [0, H, H]), (INV, [0, 0, 0]), (MM, [0, H, H])]),
    "C2/m": ("mono", [(I3, [0, 0, 0]), (M2, [0, 0, 0]), (INV, [0, 0, 0]), (MM, [0, 0, 0])]),
    "C2/c": ("mono", [(I3, [0, 0, 0]), (M2, [0, 0, H]), (INV, [0, 0, 0]), (MM, [0, 0, H])]),
    "A2/m": ("mono", [(I3, [0, 0, 0]), (M2, [0, 0, 0]), (INV, [0, 0, 0]), (MM, [0, 0, 0])]),
    "I2/c": ("mono", [(I3, [0, 0, 0]), (M2, [0, 0, H]), (INV, [0, 0, 0]), (MM, [0, 0, H])]),
    "F222": ("ortho", [(I3, [0, 0, 0]), (Z2, [0, 0, 0]), (M2, [0, 0, 0]), ([[1, 0, 0], [0, -1, 0], [0, 0, -1]], [0, 0, 0])]),
    "Fddd": ("ortho", [(I3, [0, 0, 0]), (Z2, [F(3, 4), F(3, 4), 0]), (M2, [F(3, 4), 0, F(3, 4)]),
                       ([[1, 0, 0], [0, -1, 0], [0, 0, -1]], [0, F(3, 4), F(3, 4)]),
                       (INV, [0, 0, 0]), (neg(Z2), [Q, Q, 0]), (neg(M2), [Q, 0, Q]),
                       (neg([[1, 0, 0], [0, -1, 0], [0, 0, -1]]), [0, Q, Q])]),
    "Fmmm": ("ortho", [(I3, [0, 0, 0]), (Z2, [0, 0, 0]), (M2, [0, 0, 0]), ([[1, 0, 0], [0, -1, 0], [0, 0, -1]], [0, 0, 0]),
                       (INV, [0, 0, 0]), (neg(Z2), [0, 0, 0]), (neg(M2), [0, 0, 0]), (neg([[1, 0, 0], [0, -1, 0], [0, 0, -1]]), [0, 0, 0])]),
    "P4/m": ("tetra", [(I3, [0, 0, 0]), (Z2, [0, 0, 0]), (neg(S4), [0, 0, 0]), (neg(mm(S4, Z2)), [0, 0, 0]),
                       (INV, [0, 0, 0]), (neg(Z2), [0, 0, 0]), (S4, [0, 0, 0]), (mm(S4, Z2), [0, 0, 0])]),
    "I4/m": ("tetra", [(I3, [0, 0, 0]), (Z2, [0, 0, 0]), (neg(S4), [0, 0, 0]), (neg(mm(S4, Z2)), [0, 0, 0]),
                       (INV, [0, 0, 0]), (neg(Z2), [0, 0, 0]), (S4, [0, 0, 0]), (mm(S4, Z2), [0, 0, 0])]),
    "R3": ("hexa", [(I3, [0, 0, 0]), (R3, [0, 0, 0]), (R32, [0, 0, 0])]),
    "R-3": ("hexa", [(I3, [0, 0, 0]), (R3, [0, 0, 0]), (R32, [0, 0, 0]), (INV, [0, 0, 0]), (neg(R3), [0, 0, 0]), (neg(R32), [0, 0, 0])]),
    "I-4": ("tetra", [(I3, [0, 0, 0]), (Z2, [0, 0, 0]), (S4, [0, 0, 0]), (mm(S4, Z2), [0, 0, 0])]),
}
QUICK = ["P1", "P-1", "P2_1", "P2_1/c", "C2/m", "C2/c", "A2/m", "I2/c", "F222", "Fmmm", "P4/m", "I4/m", "R3", "R-3", "I-4"]


def tasks(tier):
    out = [dict(name="precedence-%s%s%s" % (a, b, c), body="prec", params=dict(a=a, b=b, c=c), opts=dict(budget=60))
           for a in (0, 1) for b in (0, 1) for c in (0, 1) if a or b or not c]
    out.append(dict(name="candidates", body="candidates", params=dict(), opts=dict(budget=60)))
    for g in QUICK if tier == "quick" else list(TAB):
        offs = [[0, 0, 0], "lattice"]
        if any(o == INV for o, _ in TAB[g][1]):
            offs += [[Q, 0, Q], [0, Q, Q]] + ([[Q, Q, Q], [Q, Q, 0], [H, 0, 0], [0, Q, 0]] if tier == "thorough" else [])
        for k, o in enumerate(offs):
            out.append(dict(name="search-%s-%d" % (g.replace("/", ""), k), body="search",
                            params=dict(g=g, off=[str(x) for x in o] if o != "lattice" else o),
                            opts=dict(budget=150 if tier == "quick" else 600, max_paths=300)))
        if g in ("P2_1", "C2/m", "P2_1/c"):
            for k, o in enumerate(offs if g in ("C2/m", "P2_1/c") else offs[1:2]):
                out.append(dict(name="coarse-%s-%d" % (g.replace("/", ""), k), body="search",
                                params=dict(g=g, off=[str(x) for x in o] if o != "lattice" else o, thresh="1/500"),
                                opts=dict(budget=150 if tier == "quick" else 600, max_paths=300)))
        out.append(dict(name="refuse-%s" % g.replace("/", ""), body="refuse", params=dict(g=g),
                        opts=dict(budget=150 if tier == "quick" else 600, max_paths=300)))
    return out


T1, T2 = F(1, 3), F(2, 3)
CENT = {"P": [], "C": [(H, H, 0)], "I": [(H, H, H)], "F": [(0, H, H), (H, 0, H), (H, H, 0)], "A": [(0, H, H)], "R": [(T2, T1, T1), (T1, T2, T2)]}


def candidates(S, M, p):
    """origins that are tried: centring vectors of the lattice, and half of the lattice vectors from an inversion centre"""
    import itertools
    c = S.pick("letter", sorted(CENT))
    sg = make_sg(S, M, [], [], name=c + S.pick("rest", ["m", "-1", "222"]))
    if hasattr(sg, "vecs_centering"):
        r = S.call(sg.vecs_centering)
        S.check("centring vectors", r.ok, r.err)
        if r.ok:
            got = [[x for x in v] for v in r.val]
            want = [(0, 0, 0)] + CENT[c]
            mod = lambda v, w: S.And(*[S.le(S.abs((a - b) - S.round(a - b)), F(1, 10**9)) for a, b in zip(v, w)])
            for w in want:
                S.check("every centring vector is tried", S.Or(*[mod(v, [S.rat(x) for x in w]) for v in got]))
            for v in got:
                S.check("only centring vectors are tried", S.Or(*[mod(v, [S.rat(x) for x in w]) for w in want]))
    if hasattr(sg, "vecs_inv_centers"):
        r = S.call(sg.vecs_inv_centers)
        S.check("lattice vectors", r.ok, r.err)
        if r.ok:
            got = [[x for x in v] for v in r.val]
            for w in [(0, 0, 0)] + CENT[c]:
                for n in itertools.product((0, 1), repeat=3):
                    S.check("every inversion centre is tried", S.Or(*[S.And(*[S.le(S.abs((a - S.rat(F(b) + m)) / 2 - S.round((a - S.rat(F(b) + m)) / 2)), F(1, 10**9))
                                                                             for a, b, m in zip(v, w, n)]) for v in got]))


def prec(S, M, p):
    sg = make_sg(S, M, [], [])
    ref = S.array([[S.real("r%d%d" % (i, j), -3, 3) for j in range(3)] for i in range(3)]) if p["a"] else None
    sh = S.array([S.real("s%d" % i, -3, 3) for i in range(3)]) if p["b"] else None
    libr = S.array([[S.real("lr%d%d" % (i, j), -3, 3) for j in range(3)] for i in range(3)])
    libs = S.array([S.real("ls%d" % i, -3, 3) for i in range(3)])
    r = S.call(sg.determine_basis_transf, refUC_cli=ref, shiftUC_cli=sh, refUC_lib=libr, shiftUC_lib=libs,
               search_cell=bool(p["c"]), trans_thresh=1e-5, v=0)
    S.check("no error", r.ok, r.err)
    if not r.ok:
        return
    R, s = r.val
    S.check("refUC: transposed command-line matrix, else identity", S.eq(R, ref.T if p["a"] else S.array(I3)))
    S.check("shiftUC: command-line vector, else zero", S.eq(s, sh if p["b"] else S.array([0, 0, 0])))


def build(S, M, p, spoil=None, noise=None):
    """space group whose standard setting is the table, seen from the DFT cell  x = B y + s"""
    fam, ops = TAB[p["g"]]
    B = REFB[p["g"][0]]
    Bi = iinv(B)
    ref = S.array([[S.rat(x) for x in r] for r in B])
    refi = S.array([[S.rat(x) for x in r] for r in Bi])
    s = S.array([S.real("s%d" % i, -1, 1) for i in range(3)])
    rots, trs = [], []
    for R, t in ops:
        D = [[int(x) for x in r] for r in mm(mm(B, R), Bi)]
        rots.append(D)
        tt = ref.dot(S.array([S.rat(x) for x in t])) + s - S.array(D).dot(s)
        # spglib returns translations in [0,1)
        tt = tt - S.array([S.floor(x) for x in tt])
        if noise is not None and R not in (I3, INV):
            tt = tt + noise
        for x in tt:       # stay away from the 1e-5 snapping zone of the constructor
            S.assume(S.Or(x <= S.rat(1 - F(1, 10**4))))
        trs.append(tt)
    L = S.np.dot(S.array([[S.rat(Bi[j][i]) for j in range(3)] for i in range(3)]), lattice(S, fam, symbolic=False))
    sg = make_sg(S, M, [make_op(S, M, D, t, L=L, ind=j + 1, spinor=False) for j, (D, t) in enumerate(zip(rots, trs))], name=p["g"], L=L)
    n = len(ops)
    tab = []
    for k in range(n):
        R, t = ops[(k + 1) % n]
        t = S.array([S.rat(x) for x in t])
        if spoil is not None and (k + 1) % n == spoil[0]:
            t = t + spoil[1]
        tab.append(Obj(R=S.array(R), t=t))
    sg.symmetries_tables = tab
    return sg, ref, refi, s, rots, trs, tab


def search(S, M, p):
    thresh = F(p.get("thresh", "1/100000"))
    # a coarser threshold: translations of low precision
    noise = S.array([S.rat(0), S.real("e", thresh / 8, thresh / 6), S.rat(0)]) if "thresh" in p else None
    sg, ref, refi, s, rots, trs, tab = build(S, M, p, noise=noise)
    if p["off"] == "lattice":
        d = refi.dot(S.array([S.int("m%d" % i, -1, 1) for i in range(3)]))
    else:
        d = S.array([S.rat(F(x)) for x in p["off"]])
    if "thresh" in p and S.pick("by the constructor", [0, 1]):
        eig_std(S)
        expm_contract(S)
        Lat = refi.T.dot(lattice(S, TAB[p["g"]][0], symbolic=False))
        ds = dict(international=p["g"], number=fresh_number(), transformation_matrix=refi, origin_shift=d - refi.dot(s),
                  rotations=[S.array(o) for o in rots], translations=trs)
        S.patch("spacegroup.spglib", spglib_stub(ds))
        S.patch("spacegroup.IrrepTable", lambda *a, **k: Obj(symmetries=tab))
        r = S.call(M.spacegroup.SpaceGroup, (Lat, S.array([[0, 0, 0]]), [1]), spinor=False, search_cell=True, trans_thresh=float(thresh))
        S.check("the search succeeds", r.ok, r.err)
        if r.ok:
            verify(S, (r.val.refUC, r.val.shiftUC), ref, refi, rots, trs, tab, 2 * thresh)
            S.check("operations in the order of the tables", [o.ind for o in r.val.symmetries] == list(range(1, len(rots) + 1)))
        return
    r = S.call(sg.determine_basis_transf, refUC_cli=None, shiftUC_cli=None, refUC_lib=refi, shiftUC_lib=d - refi.dot(s),
               search_cell=True, trans_thresh=float(thresh), v=0)
    S.check("the search succeeds", r.ok, r.err)
    if not r.ok:
        return
    verify(S, r.val, ref, refi, rots, trs, tab, 2 * thresh)


def verify(S, val, ref, refi, rots, trs, tab, tol=F(2, 10**5)):
    R, sh = val
    S.check("refUC is the inverse of the library's matrix", S.eq(R, ref))
    for D, t in zip(rots, trs):
        Rr = refi.dot(S.array(D)).dot(ref)
        tr = refi.dot(S.array(D).dot(sh) + t - sh)
        hits = []
        for o in tab:
            if S.is_true(S.eq(o.R, Rr)):
                z = ref.dot(o.t - tr)
                hits.append(S.And(*[S.le(S.abs(x - S.round(x)), tol) for x in z]))
        S.check("every operation becomes one of the table (mod lattice)", S.And(len(hits) == 1, *hits))


def refuse(S, M, p):
    """no transformation maps the operations onto the table: the search must not return one"""
    B = REFB[p["g"][0]]
    Bi = iinv(B)
    refi = S.array([[S.rat(x) for x in r] for r in Bi])
    ops = TAB[p["g"]][1]
    # the identity of the table carries a non-lattice translation: no origin can repair that
    c = S.pick("component", [0, 1, 2])
    d = S.real("delta", F(1, 10**4), 1 - F(1, 10**4))
    v = [0, 0, 0]
    v[c] = d
    sg, ref, refi, s, rots, trs, tab = build(S, M, p, (0, refi.dot(S.array(v))))
    mode = S.pick("mode", ["direct", "ctor"])
    if mode == "direct":
        r = S.call(sg.determine_basis_transf, refUC_cli=None, shiftUC_cli=None, refUC_lib=refi, shiftUC_lib=-refi.dot(s),
                   search_cell=True, trans_thresh=1e-5, v=0)
        S.check("the search refuses", r.raised(RuntimeError), r.err)
        return
    # constructor: refused with searchcell, tolerated without
    eig_std(S)
    expm_contract(S)
    fam = TAB[p["g"]][0]
    Lat = refi.T.dot(lattice(S, fam, symbolic=False))
    ds = dict(international=p["g"], number=fresh_number(), transformation_matrix=refi, origin_shift=-refi.dot(s),
              rotations=[S.array(o) for o in rots], translations=trs)
    S.patch("spacegroup.spglib", spglib_stub(ds))
    S.patch("spacegroup.IrrepTable", lambda *a, **k: Obj(symmetries=tab))
    sc = S.pick("searchcell", [True, False])
    cli = S.pick("command line", [0, 1, 2, 3])
    kw = dict(refUC=ref.T if cli & 1 else None, shiftUC=s if cli & 2 else None)
    r = S.call(M.spacegroup.SpaceGroup, (Lat, S.array([[0, 0, 0]]), [1]), spinor=False, search_cell=sc, **kw)
    if sc:
        S.check("constructor refuses a mismatch when the cell is searched", r.raised(RuntimeError), r.err)
    else:
        S.check("constructor tolerates a mismatch otherwise", r.ok, r.err)
        if r.ok:
            S.check("operations keep the library's order", S.And(len(r.val.symmetries) == len(rots), *[
                S.And(S.eq(o.rotation, S.array(D)), o.ind == j + 1) for j, (o, D) in enumerate(zip(r.val.symmetries, rots))]))
