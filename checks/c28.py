"""C28 -- VASP interface: POSCAR and WAVECAR (irrep/readfiles.py)."""
from fractions import Fraction as F
from .common import *
from .geom import *

ID = "C28"
BOUNDS = ("POSCAR: any scale, lattice vectors and positions, 1 to 3 (4) atoms of 1 or 2 kinds, with or without the line of elements, selective dynamics, flags, comments, blank or unreadable lines, direct and "
          "cartesian; WAVECAR: 1 to 3 k-points, 1 to 3 bands, 1 to 4 plane waves, any cutoff, lattice, k-point, energies, occupations and coefficients; k-points read in any order.")
ASSUMPTIONS = ["floating point treated as exact real arithmetic (texts and single-precision numbers have the exact value)", "record length larger than the numbers of a record, as written by VASP"]
NAT = [[1], [2], [1, 1], [2, 1], [1, 2]]


def tasks(tier):
    out = []
    for nat in NAT + ([[1, 1, 2], [3, 1]] if tier == "thorough" else []):
        for mode in ("Direct", "direct", "Cartesian", "cart"):
            out.append(dict(name="poscar-%s-%s" % ("_".join(map(str, nat)), mode), body="poscar", params=dict(nat=nat, mode=mode), opts=dict(budget=60, max_paths=300)))
    out.append(dict(name="poscar-bad", body="poscar_bad", params={}, opts=dict(budget=60)))
    for nk, nb, npw, sp in [(1, 1, 1, 0), (2, 2, 2, 1), (3, 1, 3, 0), (2, 3, 4, 1), (1, 2, 2, 0)]:
        out.append(dict(name="wavecar-%d-%d-%d-%d" % (nk, nb, npw, sp), body="wavecar", params=dict(nk=nk, nb=nb, npw=npw, spinor=bool(sp)), opts=dict(budget=60, max_paths=100)))
    out.append(dict(name="wavecar-bad", body="wavecar_bad", params={}, opts=dict(budget=60)))
    return out


def poscar(S, M, p):
    nat, mode = p["nat"], p["mode"]
    n = sum(nat)
    scale = S.real("scale", F(1, 10), 10)
    A = [[S.real("a%d%d" % (i, j), -5, 5) if (i, j) != (2, 1) else S.rat(0) for j in range(3)] for i in range(3)] if mode[0] in "dD" else \
        [[S.real("a", 1, 5), S.rat(0), S.real("b", -1, 1)], [S.rat(-1), S.rat(2), S.rat(0)], [S.rat(0), S.rat(0), S.real("c", 1, 5)]]
    X = [[S.real("x%d%d" % (i, j), -3, 3) if (i < 2) else S.rat(F(i + j, 8)) for j in range(3)] for i in range(n)]
    L = ["title line 1 2 3", " " + S.fmt(scale)]
    L += ["  ".join(S.fmt(v) for v in r) for r in A]
    names, sel, extra = S.pick("elements", [0, 1]), S.pick("selective", ["", "Selective dynamics", "selective"]), S.pick("extra lines", [0, 1, 2])
    if names:
        L.append("Ga  As Ge"[:3 * len(nat)].strip() if len(nat) < 3 else "Ga As Ge")
    L.append(" ".join(map(str, nat)))
    if sel:
        L.append(sel)
    L.append(mode)
    for i, r in enumerate(X):
        if extra == 1 and i < 2:
            L.append("")
        if extra == 2 and i == 1:
            L.append("! second atom is here")
        L.append("  ".join(S.fmt(v) for v in r) + ("  T F T" if sel else " Ga" if extra == 2 else ""))
    if extra:
        L += ["", "  0.1 0.2 0.3", "0.0 0.0 0.0"]          # velocities
    S.file_text("POSCAR", "\n".join(L) + "\n")
    r = S.call(M.readfiles.ParserVasp, "POSCAR", "WAVECAR", True)
    S.check("opened without WAVECAR", r.ok, r.err)
    if not r.ok:
        return
    r = S.call(r.val.parse_poscar, **({"v": S.pick("verbosity", [0, 2])} if not names else {}))
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    lat, pos, typ = r.val
    S.check("lattice vectors scaled", S.eq(lat, S.array([[scale * v for v in q] for q in A])))
    S.check("one position per atom", tuple(pos.shape) == (n, 3), pos.shape)
    S.check("one kind per atom, the same for the atoms of a kind", [int(t) for t in typ] == [i + 1 for i, c in enumerate(nat) for _ in range(c)], typ)
    if tuple(pos.shape) == (n, 3):
        if mode[0] in "dD":
            S.check("direct positions", S.eq(pos, S.array(X)))
        else:
            S.check("cartesian positions, scaled, in direct coordinates", S.eq(S.np.dot(pos, S.array(A)), S.array(X)))


def poscar_bad(S, M, p):
    what = S.pick("what", ["missing atom", "mode"])
    L = ["t", "1.0", "2 0 0", "0 2 0", "0 0 2", "2 1", "Direct" if what == "missing atom" else "kartesian", "0 0 0", S.fmt(S.real("x", 0, 1)) + " 0 0"]
    if what == "mode":
        L.append("0 0 0.5")
    S.file_text("POSCAR", "\n".join(L) + "\n")
    r = S.call(M.readfiles.ParserVasp, "POSCAR", None, True)
    S.check("opened", r.ok, r.err)
    if r.ok:
        r = S.call(r.val.parse_poscar)
        S.check("refused", r.raised(RuntimeError), r.err)


def write_wavecar(S, nk, nb, npw, ispin=1, iprec=45200):
    rl = 8 * max(12, 4 + 3 * nb, npw) + 8 * S.pick("record length", [0, 3])
    cells, D = {}, {}

    def put(rec, vals, t="f8"):
        for i, v in enumerate(vals):
            cells[rec * rl + 8 * i] = (t, v)
    put(0, [rl, ispin, iprec])
    D["ecut"] = S.real("ecut", 1, 500)
    D["lat"] = [[S.real("l%d%d" % (i, j), -9, 9) for j in range(3)] for i in range(3)]
    put(1, [nk, nb, D["ecut"]] + [v for r in D["lat"] for v in r])
    D["k"], D["e"], D["c"] = [], [], []
    for ik in range(nk):
        k = [S.real("k%d_%d" % (ik, i), -2, 2) for i in range(3)]
        e = [S.real("e%d_%d" % (ik, b), -50, 50) for b in range(nb)]
        v = [npw] + k
        for b in range(nb):
            v += [e[b], S.rat(0), S.real("occ%d_%d" % (ik, b), 0, 1)]
        put(2 + ik * (nb + 1), v)
        c = [[S.cplx("c%d_%d_%d" % (ik, b, g)) if (ik + b + g) % 2 == 0 else S.rat(F(g + 1, 4)) + S.rat(F(b - ik, 2)) * S.I for g in range(npw)] for b in range(nb)]
        for b in range(nb):
            put(3 + ik * (nb + 1) + b, c[b], "c8")
        D["k"].append(k)
        D["e"].append(e)
        D["c"].append(c)
    S.file_cells("WAVECAR", cells, rl * (2 + nk * (nb + 1)))
    return D


def wavecar(S, M, p):
    nk, nb, npw = p["nk"], p["nb"], p["npw"]
    D = write_wavecar(S, nk, nb, npw)
    r = S.call(M.readfiles.ParserVasp, "POSCAR", "WAVECAR")
    S.check("opened", r.ok, r.err)
    if not r.ok:
        return
    ps = r.val
    r = S.call(ps.parse_header)
    S.check("header read", r.ok, r.err)
    if not r.ok:
        return
    NK, NB, ecut, lat = r.val
    S.check("numbers of k-points and bands", (int(NK), int(NB)) == (nk, nb), (NK, NB))
    S.check("cutoff in eV", S.eq(ecut, D["ecut"]))
    S.check("lattice vectors as rows", S.eq(lat, S.array(D["lat"])))
    order = {1: [[0], [0, 0]], 2: [[0, 1], [1, 0]], 3: [[0, 1, 2], [2, 0], [1, 2, 1]]}[nk]
    for ik in S.pick("order", order):
        r = S.call(ps.parse_kpoint, ik, nb, p["spinor"])
        S.check("k-point read", r.ok, r.err)
        if not r.ok:
            return
        WF, E, k, n = r.val
        S.check("number of plane waves", int(n) == npw, n)
        S.check("coordinates of the k-point", S.eq(k, S.array(D["k"][ik])))
        S.check("energies of the bands", S.eq(E, S.array(D["e"][ik])))
        S.check("one row of coefficients per band", tuple(WF.shape) == (nb, npw), WF.shape)
        S.check("coefficients", S.eq(WF, S.array(D["c"][ik])))


def wavecar_bad(S, M, p):
    what = S.pick("what", ["precision", "spin", "odd"])
    write_wavecar(S, 1, 1, 3, ispin=2 if what == "spin" else 1, iprec=S.pick("code", [45210, 53300]) if what == "precision" else 45200)
    r = S.call(M.readfiles.ParserVasp, "POSCAR", "WAVECAR")
    if what != "odd":
        S.check("double precision and spin-polarised files are refused", r.raised(RuntimeError), r.err)
        return
    S.check("opened", r.ok, r.err)
    r = S.call(r.val.parse_kpoint, 0, 1, True)
    S.check("odd number of coefficients of spinors is refused", r.raised(RuntimeError), r.err)
