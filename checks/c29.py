"""C29 -- Abinit interface: WFK file (irrep/readfiles.py)."""
from fractions import Fraction as F
from .common import *
from .geom import *

ID = "C29"
BOUNDS = ("header: 1 to 3 k-points, 1 to 3 atoms, 1 or 2 kinds, 1 or 2 operations, with and without PAW, strings of 6 and 8 characters for the version, any other number; blocks of 1 to 3 bands and 1 to 3 plane waves, "
          "different at each k-point, any energies and coefficients; k-points read in any order, with repetitions.")
ASSUMPTIONS = ["floating point treated as exact real arithmetic", "fortio returns the numbers of the record asked for, or fails when its size does not match the format"]
HARTREE = 2 * 13.605693
CASES = [dict(nk=1, nat=1, typ=1, nsym=1, sp=0), dict(nk=1, nat=2, typ=2, nsym=2, sp=1), dict(nk=2, nat=1, typ=1, nsym=2, sp=1), dict(nk=2, nat=3, typ=2, nsym=1, sp=0), dict(nk=3, nat=2, typ=1, nsym=2, sp=0),
         dict(nk=3, nat=2, typ=2, nsym=1, sp=1)]


def tasks(tier):
    out = []
    for i, c in enumerate(CASES):
        for paw in (0, 1):
            out.append(dict(name="header-%d-%d" % (i, paw), body="header", params=dict(c, paw=paw), opts=dict(budget=60, max_paths=60)))
    for i, c in enumerate(CASES):
        if c["nk"] > 1 or i == 0:
            out.append(dict(name="kpoints-%d" % i, body="kpoints", params=dict(c, paw=i % 2), opts=dict(budget=60, max_paths=60)))
    out.append(dict(name="refused", body="refused", params={}, opts=dict(budget=60)))
    return out


def write_wfk(S, p, nsppol=1, headform=80, occopt=1, istwfk=1, nspinor=None, name="wfk"):
    nk, nat, ntyp, nsym, paw = p["nk"], p["nat"], p["typ"], p["nsym"], p["paw"]
    nspinor = nspinor or (2 if p["sp"] else 1)
    D = dict(nband=[[2, 1, 3][ik] for ik in range(nk)], npw=[[2, 3, 1][ik] for ik in range(nk)])
    npsp = ntyp
    nshift0, nshift = S.pick("shifts", [(1, 1), (2, 2), (1, 2), (2, 1)])
    D["ecut"] = S.real("ecut", 1, 50)
    D["lat"] = [[S.real("l%d%d" % (i, j), -9, 9) for j in range(3)] for i in range(3)]
    D["k"] = [[S.real("k%d_%d" % (ik, i), -2, 2) for i in range(3)] for ik in range(nk)]
    D["x"] = [[S.real("x%d_%d" % (a, i), -2, 2) for i in range(3)] for a in range(nat)]
    D["typ"] = [1 + (a * (ntyp - 1)) % 2 for a in range(nat)]
    D["ef"] = S.real("ef", -1, 1)
    nb = sum(D["nband"])
    j = [0]

    def fill(n):
        out = []
        for _ in range(n):
            j[0] += 1
            out.append(S.rat(F(j[0], 7)) if S.symbolic else j[0] / 7.0)
        return out
    R = [[("a8" if S.pick("version", ["9", "8"]) == "9" else "a6", ["9.6.2"]), ("i4", [headform, 2])]]
    i18 = [nb, 20200101, 0, 1, nat, 12, 12, 12, nk, 1, nspinor, nsppol, nsym, npsp, ntyp, occopt, 0, paw]
    f19 = [D["ecut"]] + fill(6) + [v for r in D["lat"] for v in r] + fill(3)
    i4 = [0, nshift0, nshift, max(D["nband"])]
    R.append([("i4", i18), ("f8", f19), ("i4", i4)])
    R.append([("i4", (istwfk if isinstance(istwfk, list) else [istwfk] * nk) + D["nband"] + D["npw"] + [1] * npsp + [1] * nsym + [0] * (9 * nsym) + D["typ"]),
              ("f8", [v for k in D["k"] for v in k] + fill(nb) + fill(3 * nsym) + fill(ntyp) + fill(nk))])
    R.append([("f8", fill(1) + [v for x in D["x"] for v in x] + fill(1) + [D["ef"]] + fill(ntyp))])
    R.append([("i4", [1, 0]), ("f8", fill(2)), ("i4", [0] + [1] * 18), ("f8", fill(3 * nshift0 + 3 * nshift))])
    for _ in range(npsp):
        R.append([("a132", ["Ga"]), ("f8", fill(2)), ("i4", [1, 2, 3, 4, 5]), ("a32", ["md5"])])
    if paw:
        R += [[("i4", [7])], [("i4", [7, 8])]]
    D["e"], D["c"], D["g"] = [], [], []
    for ik in range(nk):
        n, m = D["nband"][ik], D["npw"][ik]
        g = [[S.int("g%d_%d_%d" % (ik, q, i), -9, 9) if q == 0 else q * (i - 1) + ik for i in range(3)] for q in range(m)]
        e = [S.real("e%d_%d" % (ik, b), -5, 5) for b in range(n)]
        c = [[S.cplx("c%d_%d_%d" % (ik, b, q)) if (b + q) % 2 == 0 else S.rat(F(q + 1, 4)) + S.rat(F(b - ik, 2)) * S.I for q in range(m * nspinor)] for b in range(n)]
        R.append([("i4", [m, nspinor, n])])
        R.append([("i4", [v for q in g for v in q])])
        R.append([("f8", e + fill(n))])
        for b in range(n):
            R.append([("f8", [v for z in c[b] for v in (z.real, z.imag)])])
        D["e"].append(e)
        D["c"].append(c)
        D["g"].append(g)
    S.file_records(name, R)
    return D


def start(S, M, p):
    D = write_wfk(S, p)
    r = S.call(M.readfiles.ParserAbinit, "wfk")
    S.check("opened", r.ok, r.err)
    if not r.ok:
        return None
    r2 = S.call(r.val.parse_header)
    S.check("header read", r2.ok, r2.err)
    return (D, r.val, r2.val) if r2.ok else None


def header(S, M, p):
    q = start(S, M, p)
    if q is None:
        return
    D, ps, (nband, nk, lat, ecut, spinor, typ, x, ef) = q
    S.check("number of k-points and of bands", int(nk) == p["nk"] and [int(v) for v in nband] == D["nband"], (nk, nband))
    S.check("lattice vectors as rows", S.eq(lat, S.array(D["lat"])))
    S.check("cutoff in eV", S.eq(ecut, D["ecut"] * HARTREE))
    S.check("spinors", bool(spinor) is bool(p["sp"]), spinor)
    S.check("kinds of the atoms, one per atom", S.np.shape(typ) == (p["nat"],) and [int(v) for v in typ] == D["typ"], typ)
    S.check("positions of the atoms", tuple(x.shape) == (p["nat"], 3) and S.eq(x, S.array(D["x"])))
    S.check("Fermi energy in eV", S.eq(ef, D["ef"] * HARTREE))
    S.check("coordinates of every k-point", tuple(ps.kpt.shape) == (p["nk"], 3) and S.eq(ps.kpt, S.array(D["k"])))
    S.check("bands of every k-point kept", [int(v) for v in ps.nband] == D["nband"], ps.nband)


def kpoints(S, M, p):
    q = start(S, M, p)
    if q is None:
        return
    D, ps, _ = q
    order = {1: [[0], [0, 0]], 2: [[0, 1], [1], [1, 0]], 3: [[0, 1, 2], [2], [1, 2], [0, 2], [2, 0, 1], [1, 1]]}[p["nk"]]
    for ik in S.pick("order", order):
        r = S.call(ps.parse_kpoint, ik)
        S.check("k-point read", r.ok, r.err)
        if not r.ok:
            return
        C, E, g = r.val
        S.check("energies in eV", tuple(E.shape) == (D["nband"][ik],) and S.eq(E, S.array(D["e"][ik]) * HARTREE))
        S.check("plane waves", tuple(g.shape) == (D["npw"][ik], 3) and S.eq(g, S.array(D["g"][ik])))
        S.check("one row of coefficients per band", tuple(C.shape) == (D["nband"][ik], D["npw"][ik] * (2 if p["sp"] else 1)) and S.eq(C, S.array(D["c"][ik])))


def refused(S, M, p):
    what = S.pick("what", [dict(nsppol=2), dict(headform=57), dict(istwfk=2), dict(istwfk=[2, 1]), dict(istwfk=[1, 3]), dict(occopt=9), dict(nspinor=4)])
    write_wfk(S, dict(nk=2 if isinstance(what.get("istwfk"), list) else 1, nat=2, typ=1, nsym=1, sp=0, paw=0), **what)
    r = S.call(M.readfiles.ParserAbinit, "wfk")
    S.check("opened", r.ok, r.err)
    if r.ok:
        r = S.call(r.val.parse_header)
        S.check("spin-polarised, old or symmetry-reduced wave functions are refused", r.raised(RuntimeError) or r.raised(ValueError), r.err)
