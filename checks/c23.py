"""C23 -- length along the k-path and the band-structure file (KPOINTSline, write_plotfile)."""
from fractions import Fraction as F
from .common import *
from .geom import *
from .bands import *

ID = "C23"
BOUNDS = ("paths of 1 to 4 (thorough 5) k-points, any coordinates, any reciprocal lattice of the listed families, any threshold for jumps; supercells: 5 listed integer matrices; file: up to "
          "3 k-points with 3 or 4 bands in any grouping of levels, any energies.")
ASSUMPTIONS = ["floating point treated as exact real arithmetic", "numbers written with %8.4f: claimed up to this rounding"]
CELLS = {"unit": None, "d": [[2, 0, 0], [0, 1, 0], [0, 0, 3]], "shear": [[2, 1, 0], [0, 1, 0], [0, 0, 1]], "rot": [[1, 1, 0], [-1, 1, 0], [0, 0, 1]], "low": [[1, 0, 0], [2, 1, 0], [0, 3, 1]]}


def tasks(tier):
    out = []
    for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
        out.append(dict(name="line-%d" % n, params=dict(n=n, fam="diag", cell="unit"), opts=dict(budget=80, max_paths=200)))
    for fam in ("tri", "sym"):
        out.append(dict(name="line-2-" + fam, params=dict(n=2, fam=fam, cell="unit"), opts=dict(budget=80, max_paths=200)))
    for c in CELLS:
        if c != "unit":
            out.append(dict(name="cell-" + c, params=dict(n=2, fam="tri" if tier == "thorough" else "tri0", cell=c), opts=dict(budget=80, max_paths=200)))
    out.append(dict(name="given", params=dict(n=3, fam="diag", cell="unit", given=True), opts=dict(budget=80, max_paths=200)))
    for g in (((1, 1, 1), (1, 1, 1)), ((2, 1), (1, 2)), ((3,), (1, 1, 1), (1, 2)), ((3,),), ((1, 2, 1), (1, 1, 2))):
        out.append(dict(name="plot-" + "_".join("".join(map(str, x)) for x in g), body="plot", params=dict(groups=g), opts=dict(budget=60, max_paths=100)))
    return out


def rec_lattice(S, fam):
    a, b, c = [S.real("b%d" % i, F(1, 10), 3) for i in range(3)]
    z = S.rat(0)
    if fam == "diag":
        return S.array([[a, z, z], [z, b, z], [z, z, c]])
    if fam == "sym":
        return S.array([[-a, a, a], [a, -a, a], [a, a, -a]])
    if fam == "tri0":
        return S.array([[a, z, z], [S.rat(F(3, 10)), b, z], [z, z, c]])
    return S.array([[a, z, z], [S.real("x", -1, 1), b, z], [S.real("y", -1, 1), S.rat(F(1, 3)), c]])


def body(S, M, p):
    n = p["n"]
    rec = rec_lattice(S, p["fam"])
    sc = CELLS[p["cell"]]
    ks = [[S.real("k%d_%d" % (i, a), -1, 1) for a in range(3)] for i in range(n)]
    own = [[S.real("o%d_%d" % (i, a), -1, 1) for a in range(3)] for i in range(n)] if p.get("given") or sc is not None else ks
    bs = make_bands(S, M, [make_kpoint(S, M, [S.rat(0)], k=k, rec=rec) for k in own], rec=rec)
    kw = {}
    if own is not ks:
        kw["kpred"] = S.array(ks) if S.pick("form", [0, 1]) else [S.array(k) for k in ks]
    if sc is not None:
        kw["supercell"] = S.array(sc)
    if S.pick("threshold", [True, False]):
        th = kw["breakTHRESH"] = S.real("th", F(1, 100), 20)
    else:
        th = S.rat(1, 10)
    r = S.call(bs.KPOINTSline, **kw)
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    K = r.val
    S.check("one number per k-point, the first is zero", len(K) == n and S.eq(K[0], 0))
    # the reciprocal vectors of the primitive cell: lattice of the supercell = sc . primitive lattice
    R = rec if sc is None else S.array(sc).T.dot(rec)
    for i in range(n - 1):
        d = [ks[i + 1][a] - ks[i][a] for a in range(3)]
        v = [sum((d[a] * R[a, c] for a in range(3)), S.rat(0)) for c in range(3)]
        q = v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
        L = S.sqrt(q)
        S.check("step: distance of the neighbouring k-points in the reciprocal lattice, zero for a jump", S.eq(K[i + 1] - K[i], S.ite(L > th, S.rat(0), L)))


def plot(S, M, p):
    groups = p["groups"]
    nk = len(groups)
    kps, en = [], []
    for i, g in enumerate(groups):
        e, lev, x = [], [], S.real("e%d" % i, -20, 20)
        for q, m in enumerate(g):
            if q:
                x = x + S.real("d%d_%d" % (i, q), F(1, 100), 5)
            e += [x] * m
        kp = make_kpoint(S, M, e, k=[S.rat(i, 50), 0, 0], ik=i)
        kps.append(kp)
        en.append(e)
    bs = make_bands(S, M, kps)
    name = S.pick("file", [None, "out.dat"])
    r = S.call(bs.write_plotfile, *([] if name is None else [name]))
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    t = S.read_file(name or "bands-tognuplot.dat")
    S.check("file written", t is not None)
    if t is None:
        return
    blocks = [[l for l in b.split("\n") if l.strip()] for b in t.split("\n\n")]
    nb = sum(groups[0])
    rows = [l.split() for l in t.split("\n")[1:] if l.strip()]
    S.check("one line per band and k-point", len(rows) == nb * nk and all(len(x) == 2 for x in rows), len(rows))
    if len(rows) != nb * nk or not all(len(x) == 2 for x in rows):
        return
    S.check("bands separated by blank lines", [len(b) for b in blocks if b][-nb + 1:] == [nk] * (nb - 1) if nb > 1 else True, [len(b) for b in blocks])
    for b in range(nb):
        for i in range(nk):
            x, y = rows[b * nk + i]
            S.check("position along the path and energy of the band", S.And(S.textnum(x, S.rat(i, 50)), S.textnum(y, en[i][b])), (x, y))
