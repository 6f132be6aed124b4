"""C30 -- Quantum Espresso interface: data-file-schema.xml and wfc files (irrep/readfiles.py)."""
from fractions import Fraction as F
from .common import *
from .geom import *
from .c29 import HARTREE

ID = "C30"
BOUNDS = ("1 to 3 k-points, 1 to 3 bands, 1 to 3 plane waves (different at each k-point), 1 to 3 atoms of 1 or 2 kinds, scalar, spinor and spin-polarised; any lattice, position, cutoff, Fermi energy (or none), energies, "
          "k-point and coefficients; reciprocal vectors: triangular with any numbers; lower and upper case names of the files.")
ASSUMPTIONS = ["floating point treated as exact real arithmetic", "energies of both spins of a k-point are one list, up first, as written by Quantum Espresso"]
CASES = [dict(nk=1, nb=1, npw=[1], nat=1, kinds=1, mode="scalar"), dict(nk=2, nb=2, npw=[2, 3], nat=2, kinds=2, mode="spinor"), dict(nk=3, nb=3, npw=[2, 1, 3], nat=3, kinds=2, mode="scalar"),
         dict(nk=2, nb=2, npw=[2, 1], nat=2, kinds=1, mode="up"), dict(nk=2, nb=2, npw=[1, 2], nat=2, kinds=1, mode="dw"), dict(nk=1, nb=3, npw=[2], nat=1, kinds=1, mode="dw"), dict(nk=1, nb=1, npw=[2], nat=1, kinds=1, mode="up")]


def tasks(tier):
    out = []
    for i, c in enumerate(CASES):
        out.append(dict(name="header-%d" % i, body="header", params=c, opts=dict(budget=60, max_paths=60)))
        out.append(dict(name="kpoints-%d" % i, body="kpoints", params=c, opts=dict(budget=60, max_paths=60)))
    return out


def write(S, p):
    nk, nb, nat = p["nk"], p["nb"], p["nat"]
    spol = p["mode"] in ("up", "dw")
    D = dict(nup=nb if p["mode"] == "up" else nb + 1, ndw=nb if p["mode"] == "dw" else nb - 1 if nb > 1 else 1)
    D["alat"], D["ecut"], D["ef"] = S.real("alat", 1, 20), S.real("ecut", 1, 50), S.real("ef", -2, 2)
    D["efermi"] = S.pick("Fermi energy", [1, 0])
    D["A"] = [[S.real("a%d" % i, 1, 9) if i == j else S.real("b%d" % i, -3, 3) if j == (i + 1) % 3 and i < 2 else S.rat(0) for j in range(3)] for i in range(3)]
    D["x"] = [[S.real("x%d%d" % (i, j), -3, 3) if i < 2 else S.rat(F(j, 2)) for j in range(3)] for i in range(nat)]
    names = ["Ga", "As"][:p["kinds"]]
    D["kind"] = [(names + names[::-1])[i] for i in range(nat)]
    D["k"] = [[S.real("k%d_%d" % (ik, i), -2, 2) for i in range(3)] for ik in range(nk)]
    D["B"] = [[S.real("B%d" % i, F(1, 2), 3) if i == j else S.real("C%d" % i, -1, 1) if j == (i + 1) % 3 and i < 2 else S.rat(0) for j in range(3)] for i in range(3)]
    D["e"], D["c"], D["g"] = [], [], []
    v3 = lambda r: "  ".join(S.fmt(v) for v in r)
    x = ['<?xml version="1.0" encoding="UTF-8"?>', '<qes:espresso xmlns:qes="http://www.quantum-espresso.org/ns/qes/qes-1.0">', "<input>"]
    x += ['<atomic_species ntyp="%d">' % len(names)] + ['<species name="%s"><mass>1.0</mass></species>' % n for n in names] + ["</atomic_species>"]
    x += ['<atomic_structure nat="%d" alat="%s">' % (nat, S.fmt(D["alat"])), "<atomic_positions>"]
    x += ['<atom name="%s" index="%d"> %s </atom>' % (D["kind"][i], i + 1, v3(D["x"][i])) for i in range(nat)]
    x += ["</atomic_positions>", "<cell>"] + ["<a%d>%s</a%d>" % (i + 1, v3(D["A"][i]), i + 1) for i in range(3)] + ["</cell>", "</atomic_structure>"]
    x += ["<basis><ecutwfc>%s</ecutwfc></basis>" % S.fmt(D["ecut"]), "</input>", "<output>", "<band_structure>"]
    x += ["<lsda>%s</lsda>" % ("true" if spol else "false"), "<noncolin>%s</noncolin>" % ("true" if p["mode"] == "spinor" else "false")]
    x += ["<nbnd_up>%d</nbnd_up>" % D["nup"], "<nbnd_dw>%d</nbnd_dw>" % D["ndw"]] if spol else ["<nbnd>%d</nbnd>" % nb]
    if D["efermi"]:
        x.append("<fermi_energy>%s</fermi_energy>" % S.fmt(D["ef"]))
    for ik in range(nk):
        n = p["npw"][ik]
        eu = [S.real("e%d_%d" % (ik, b), -5, 5) for b in range(nb)]
        other = [S.rat(F(b, 3) + 7 + ik) for b in range(D["ndw"] if p["mode"] == "up" else D["nup"])]
        allE = eu + other if p["mode"] == "up" else other + eu if p["mode"] == "dw" else eu
        x += ["<ks_energies>", '<k_point weight="1.0">%s</k_point>' % v3(D["k"][ik]), "<npw>%d</npw>" % n, '<eigenvalues size="%d">' % len(allE)]
        x += [v3(allE[i:i + 2]) for i in range(0, len(allE), 2)] + ["</eigenvalues>", "</ks_energies>"]
        D["e"].append(eu)
        g = [[S.int("g%d_%d_%d" % (ik, q, i), -9, 9) if q == 0 else q * (i - 1) + ik for i in range(3)] for q in range(n)]
        m = n * (2 if p["mode"] == "spinor" else 1)
        c = [[S.cplx("c%d_%d_%d" % (ik, b, q)) if (b + q) % 2 == 0 else S.rat(F(q + 1, 4)) + S.rat(F(b - ik, 2)) * S.I for q in range(m)] for b in range(nb)]
        R = [[("i4", [ik + 1]), ("f8", D["k"][ik]), ("i4", [1, 0]), ("f8", [S.rat(1)])], [("i4", [n, n, m // n, nb])], [("f8", [v for r in D["B"] for v in r])], [("i4", [v for r in g for v in r])]]
        for b in range(nb):
            R.append([("f8", [v for z in c[b] for v in (z.real, z.imag)])])
        wf = "wfc%s%d" % ({"up": "up", "dw": "dw"}.get(p["mode"], ""), ik + 1)
        S.file_records("run/x.save/%s.dat" % (wf.upper() if D["ef"] is not None and p["nk"] == 2 and ik == 1 else wf), R)
        if spol:        # the other spin: another file
            S.file_records("run/x.save/wfc%s%d.dat" % ({"up": "dw", "dw": "up"}[p["mode"]], ik + 1), R[:3] + [[("i4", [5] * (3 * n))]] + [[("f8", [S.rat(9)] * (2 * m))]] * nb)
        D["g"].append(g)
        D["c"].append(c)
    x += ["</band_structure>", "</output>", "</qes:espresso>"]
    S.file_text("run/x.save/data-file-schema.xml", "\n".join(x))
    return D


def start(S, M, p):
    D = write(S, p)
    r = S.call(M.readfiles.ParserEspresso, "run/x")
    S.check("opened", r.ok, r.err)
    return (D, r.val) if r.ok else None


def header(S, M, p):
    q = start(S, M, p)
    if q is None:
        return
    D, ps = q
    S.check("spinors", ps.spinor is (p["mode"] == "spinor"), ps.spinor)
    r = S.call(ps.parse_header)
    S.check("header read", r.ok, r.err)
    if not r.ok:
        return
    spol, ecut, ef, nk, nbl = r.val
    pol = p["mode"] in ("up", "dw")
    S.check("spin polarisation", bool(spol) is pol, spol)
    S.check("cutoff in eV", S.eq(ecut, D["ecut"] * HARTREE))
    S.check("Fermi energy in eV, or none", S.eq(ef, D["ef"] * HARTREE) if D["efermi"] and ef is not None else (ef is None and not D["efermi"]), ef)
    S.check("number of k-points", nk == p["nk"], nk)
    S.check("number of bands of each spin, up first", [int(v) for v in nbl] == ([D["nup"], D["ndw"]] if pol else [p["nb"]]), nbl)
    r = S.call(ps.parse_lattice)
    S.check("crystal read", r.ok, r.err)
    if not r.ok:
        return
    lat, pos, typ, alat = r.val
    bohr = M.utility.BOHR
    S.check("lattice vectors as rows, in angstrom", S.eq(lat, S.array(D["A"]) * bohr))
    S.check("direct positions", tuple(pos.shape) == (p["nat"], 3) and S.eq(S.np.dot(pos, S.array(D["A"])), S.array(D["x"])))
    S.check("lattice parameter", S.eq(alat, D["alat"]))
    S.check("one kind per atom, the same for the atoms of an element", len(typ) == p["nat"] and all((typ[i] == typ[j]) == (D["kind"][i] == D["kind"][j]) for i in range(p["nat"]) for j in range(p["nat"])), typ)


def kpoints(S, M, p):
    q = start(S, M, p)
    if q is None:
        return
    D, ps = q
    order = {1: [[0]], 2: [[0, 1], [1, 0]], 3: [[0, 1, 2], [2, 0]]}[p["nk"]]
    ch = p["mode"] if p["mode"] in ("up", "dw") else None
    for ik in S.pick("order", order):
        r = S.call(ps.parse_kpoint, ik, p["nb"], ch)
        S.check("k-point read", r.ok, r.err)
        if not r.ok:
            return
        WF, E, g, k = r.val
        n = p["npw"][ik]
        S.check("energies of the bands of the chosen spin, in eV", tuple(E.shape) == (p["nb"],) and S.eq(E, S.array(D["e"][ik]) * HARTREE), E.shape)
        S.check("plane waves", tuple(g.shape) == (n, 3) and S.eq(g, S.array(D["g"][ik])))
        S.check("direct coordinates of the k-point", S.eq(S.np.dot(k, S.array(D["B"])), S.array(D["k"][ik])))
        S.check("one row of coefficients per band", tuple(WF.shape) == (p["nb"], n * (2 if p["mode"] == "spinor" else 1)) and S.eq(WF, S.array(D["c"][ik])))
