"""C04 -- matching of the operations with those of the tables."""
from fractions import Fraction as F
from .common import *
from .geom import *

ID = "C04"
BOUNDS = ("point groups 1, -1, 2/m, 222, 4, 3, 32, 4mm, 6 (thorough: 23, m-3m, -3 as well); reference cells P, I, C, R(primitive/hexagonal); table "
          "translations = translation in the reference cell + any lattice vector with components in [-3,3] + any noise below a quarter of "
          "the threshold (1e-5, 1e-6 or 1/500); origin shift and translations any reals; the order of the table any of the listed permutations; deviations: one "
          "translation off by any amount larger than 1.5 thresholds mod lattice, one rotation missing, one operation duplicated.")
ASSUMPTIONS = ["floating point treated as exact real arithmetic"]
REFS = {"P": I3, "I": [[0, 1, 1], [1, 0, 1], [1, 1, 0]], "C": [[1, 1, 0], [-1, 1, 0], [0, 0, 1]],
        "R": [[1, 0, 1], [-1, 1, 1], [0, -1, 1]]}


def setups(tier):
    out = []
    for g in ["1", "-1", "2/m", "222", "4", "3", "32", "4mm", "6"] + (["23", "-3", "m-3m"] if tier == "thorough" else []):
        for ref in REFS:
            if (ref == "R") != (g in ("3", "-3", "32")) and ref != "P":
                continue
            fam, ops = group(g)
            B = REFS[ref]
            Bi = iinv(B)
            # operations are given in the reference cell; the DFT-cell matrices are B op B^-1
            dft = [mm(mm(B, o), Bi) for o in ops]
            if not all(F(x).denominator == 1 for o in dft for r in o for x in r):
                continue
            out.append((g, ref))
    return out


def tasks(tier):
    out = []
    k = 0
    for g, ref in setups(tier):
        n = len(group(g)[1])
        for mode in ["match", "translation", "rotation", "duplicate"] + (["sort"] if ref in ("P", "I") else []):
            if n == 1 and mode == "duplicate":
                continue
            for perm in (["rev", "rot"] if mode in ("match", "sort") and n > 1 else ["rev"]):
                k += 1
                out.append(dict(name="%s-%s-%s-%s" % (g.replace("/", ""), ref, mode, perm), body="body" if mode != "sort" else "sort",
                                params=dict(g=g, ref=ref, mode=mode, perm=perm, thresh=["1/100000", "1/500", "1/1000000"][k % 3], lim=60 if tier == "quick" else 200),
                                opts=dict(budget=150 if tier == "quick" else 600, max_paths=400)))
    return out


def permutation(n, kind):
    if kind == "rev":
        return list(range(n))[::-1]
    return [(i + 1) % n for i in range(n)] if n % 2 else [(3 * i + 1) % n if n % 3 else (5 * i + 1) % n for i in range(n)]


def setting(S, M, p, thresh, real_t=True):
    fam, ops = group(p["g"])
    B = REFS[p["ref"]]
    Bi = iinv(B)
    dft = [[[int(x) for x in r] for r in mm(mm(B, o), Bi)] for o in ops]
    n = len(ops)
    ref = S.array([[S.rat(x) for x in r] for r in B])
    refi = S.array([[S.rat(x) for x in r] for r in Bi])
    s = S.array([S.real("s%d" % i, -1, 1) for i in range(3)])
    ts = [S.array([S.real("t%d_%d" % (j, i), 0, 1) for i in range(3)]) for j in range(n)]
    # exact expectation, from the affine map x -> Rx+t written in y, x = B y + s
    tref = [refi.dot(S.array(dft[j]).dot(s) + ts[j] - s) for j in range(n)]
    nv, tab_t = [], []
    for j in range(n):
        v = S.array([S.int("n%d_%d" % (j, i), -3, 3) for i in range(3)])
        e = S.array([S.real("e%d_%d" % (j, i), -thresh / 4, thresh / 4) for i in range(3)])
        nv.append(refi.dot(v))
        tab_t.append(tref[j] + refi.dot(v + e))
    return ops, dft, ref, refi, s, ts, tref, nv, tab_t


def body(S, M, p):
    thresh = F(p["thresh"])
    ops, dft, ref, refi, s, ts, tref, nv, tab_t = setting(S, M, p, thresh)
    n = len(ops)
    mode = p["mode"]
    perm = permutation(n, p["perm"])          # operation j sits at position perm[j] of the table
    bad = n - 1 if mode != "match" else None
    tabR = [None] * n
    tabt = [None] * n
    for j in range(n):
        tabR[perm[j]] = ops[j]
        tabt[perm[j]] = tab_t[j]
    if mode == "translation":
        # off by more than the threshold in one component of the DFT lattice basis
        c = S.pick("component", [0, 1, 2])
        d = S.real("delta", F(3, 2) * thresh, 1 - F(3, 2) * thresh)
        v = [0, 0, 0]
        v[c] = d
        tabt[perm[bad]] = tabt[perm[bad]] + refi.dot(S.array(v))
    if mode == "rotation":
        other = [[1, 1, 0], [0, 1, 0], [0, 0, 1]]
        tabR[perm[bad]] = other
    if mode == "duplicate":
        dft = list(dft)
        dft[bad], ts = dft[0], ts[:-1] + [ts[0]]
    fam, Bi = group(p["g"])[0], iinv(REFS[p["ref"]])
    L = S.np.dot(S.array([[S.rat(Bi[j][i]) for j in range(3)] for i in range(3)]), lattice(S, fam, symbolic=False))
    ops = [make_op(S, M, dft[j], ts[j], L=L, ind=j + 1, spinor=False) for j in range(n)]
    sg = make_sg(S, M, ops, [Obj(R=S.array(tabR[i]), t=tabt[i]) for i in range(n)], L=L)
    explicit = S.pick("arguments", [True, False])
    if explicit:
        r = S.call(sg.match_symmetries, ref, s, trans_thresh=float(thresh))
    else:
        sg.refUC, sg.shiftUC = ref, s
        r = S.call(sg.match_symmetries, trans_thresh=float(thresh))
    if mode != "match":
        S.check("mismatch (%s) is refused" % mode, r.raised(RuntimeError), r.err)
        return
    S.check("matching operations are accepted", r.ok, r.err)
    if not r.ok:
        return
    ind, dt, signs = r.val
    S.check("positions in the table", [int(i) for i in ind] == perm, str(ind))
    for j in range(n):
        S.check("translation difference table - structure", S.eq(dt[j], tabt[perm[j]] - tref[j]))
    S.check("no spinor signs requested", S.eq(S.array(list(signs)), S.array([1] * n)))


def sort(S, M, p):
    """the constructor orders the operations like the tables"""
    eig_std(S)
    expm_contract(S)
    fam, ops = group(p["g"])
    B = REFS[p["ref"]]
    Bi = iinv(B)
    dft = [[[int(x) for x in r] for r in mm(mm(B, o), Bi)] for o in ops]
    n = len(ops)
    L0 = lattice(S, fam, symbolic=False)
    refi = S.array([[S.rat(x) for x in r] for r in Bi])
    ref = S.array([[S.rat(x) for x in r] for r in B])
    Lat = refi.T.dot(L0)          # rows of the DFT cell: conventional rows L0 = B^T Lat
    ts = [S.array([S.real("t%d_%d" % (j, i), F(1, 100), F(99, 100)) for i in range(3)]) for j in range(n)]
    s = S.array([S.real("s%d" % i, -1, 1) for i in range(3)])
    perm = permutation(n, p["perm"])
    thresh = F(p["thresh"])
    noise = [S.array([S.real("e%d_%d" % (j, i), -thresh / 4, thresh / 4) for i in range(3)]) if thresh > F(1, 10**5) and j == n - 1 else S.array([0, 0, 0]) for j in range(n)]
    tab = [None] * n
    for j in range(n):
        tab[perm[j]] = Obj(R=S.array(ops[j]), t=refi.dot(S.array(dft[j]).dot(s) + ts[j] + noise[j] - s), S=None)
    ds = dict(international="P1", number=fresh_number(), transformation_matrix=refi, origin_shift=S.array([0, 0, 0]),
              rotations=[S.array(o) for o in dft], translations=ts)
    S.patch("spacegroup.spglib", spglib_stub(ds))
    S.patch("spacegroup.IrrepTable", lambda *a, **k: Obj(symmetries=tab))
    cell = (Lat, S.array([[0, 0, 0]]), [1])
    kw = dict(trans_thresh=float(thresh)) if thresh != F(1, 10**5) else {}
    r = S.call(M.spacegroup.SpaceGroup, cell, spinor=False, refUC=ref.T, shiftUC=s, **kw)
    S.check("constructor", r.ok, r.err)
    if not r.ok:
        return
    g = r.val
    S.check("number of operations", len(g.symmetries) == n and g.order == n, len(g.symmetries))
    S.check("indices run from 1 in table order", [o.ind for o in g.symmetries] == list(range(1, n + 1)))
    for i, o in enumerate(g.symmetries):
        j = perm.index(i)
        S.check("operation i is operation i of the table", S.And(S.eq(o.rotation, S.array(dft[j])), S.eq(o.translation, ts[j])))
        S.check("sign of a scalar calculation", o.sign == 1)
        S.check("no spin matrix in a scalar calculation", not o.spinor)
    S.check("same transformation kept", S.And(S.eq(g.refUC, ref), S.eq(g.shiftUC, s)))


def spglib_stub(ds):
    return Obj(__version__="2.8.0", get_symmetry_dataset=lambda *a, **k: Obj(**ds))
