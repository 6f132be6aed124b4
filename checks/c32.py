"""C32 -- from the files of the calculation to the bands of a BandStructure (irrep/bandstructure.py)."""
from fractions import Fraction as F
import inspect
from .common import *
from .geom import *

ID = "C32"
BOUNDS = ("VASP, Abinit, Quantum Espresso (scalar, spinor, both spins) and Wannier90 calculations of a cubic cell with 1 to 3 k-points, 3 bands, up to 7 plane waves; any energies, Fermi energy, cutoffs (inside shells of "
          "plane waves), one arbitrary coefficient per state of the first and last bands; all windows of bands, listed selections of k-points; reciprocal lattice: any triangular cell.")
ASSUMPTIONS = ["floating point treated as exact real arithmetic", "SpaceGroup replaced by an object with two operations that records its arguments", "as many bands at every k-point",
               "Wannier90: grids of UNK files with at least 4 points along one axis for the shells used (coarser ones are a known finding)"]
HARTREE = 2 * 13.605693
K = [(F(0), F(0), F(0)), (F(1, 2), F(0), F(0)), (F(1, 4), F(0), F(0))]
AX = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]
G0 = [[(0, 0, 0)] + AX, [(0, 0, 0), (-1, 0, 0)], [(0, 0, 0), (-1, 0, 0)] + AX[2:]]      # below 6.5 .. 7.3 eV (cell of 5 angstrom)
G1 = [[(0, 0, 0)], [(0, 0, 0), (-1, 0, 0)], [(0, 0, 0), (-1, 0, 0)]]                    # below 4 .. 5.9 eV
CODES = ["vasp", "vasp-spinor", "abinit", "abinit-spinor", "espresso", "espresso-spinor", "espresso-up", "espresso-dw", "wannier90", "wannier90-spinor"]
A = 5


def tasks(tier):
    out = []
    for c in CODES:
        out.append(dict(name="window-" + c, body="window", params=dict(code=c, nk=2), opts=dict(budget=120, max_paths=300)))
        out.append(dict(name="kpoints-" + c, body="selection", params=dict(code=c, nk=3), opts=dict(budget=120, max_paths=300)))
        out.append(dict(name="cutoff-" + c, body="cutoff", params=dict(code=c, nk=2), opts=dict(budget=150, max_paths=300)))
        out.append(dict(name="fermi-" + c, body="fermi", params=dict(code=c, nk=1), opts=dict(budget=120, max_paths=300)))
        if not c.endswith("spinor"):
            out.append(dict(name="group-" + c, body="arguments", params=dict(code=c, nk=1), opts=dict(budget=120, max_paths=300)))
            out.append(dict(name="cell-" + c, body="cell", params=dict(code=c, nk=1), opts=dict(budget=120, max_paths=300)))
        out.append(dict(name="traces-" + c, body="traces", params=dict(code=c, nk=1), opts=dict(budget=150, max_paths=300)))
    out.append(dict(name="refused", body="refused", params={}, opts=dict(budget=60, max_paths=100)))
    out.append(dict(name="w90-coarse-grid", body="coarse", params=dict(code="wannier90", nk=1), opts=dict(budget=60, max_paths=100)))
    return out


def vasp_order(gs):
    n = [max(g[i] for g in gs) - min(g[i] for g in gs) + 1 for i in range(3)]
    return sorted(gs, key=lambda g: (g[2] % n[2], g[1] % n[1], g[0] % n[0]))


def dataset(S, p, sym_lat=False, npw=None, grid=(4, 3, 3), nb=3, coef=True, states=None, close=False):
    """numbers of a calculation and the files that hold them"""
    code, _, kind = p["code"].partition("-")
    sp = kind == "spinor"
    nk = p["nk"]
    D = dict(code=code, spinor=sp, nk=nk, nb=nb, kind=kind)
    D["A"] = [[S.rat(A if i == j else 0) for j in range(3)] for i in range(3)]
    if sym_lat:
        D["A"] = [[S.real("a%d" % i, 2, 9) if i == j else S.real("b%d" % i, -1, 1) if j == (i + 1) % 3 and i < 2 else S.rat(0) for j in range(3)] for i in range(3)]
        if S.pick("left-handed", [0, 1]):
            D["A"][0] = [-v for v in D["A"][0]]
    ks = p.get("ks", list(range(nk)))
    D["k"] = [[S.rat(v) for v in K[i]] for i in ks]
    D["ecut0"] = S.real("ecut0", F(13, 2), F(73, 10))
    D["ef"] = S.real("ef", -5, 5)
    D["x"] = [[S.rat(0), S.rat(0), S.rat(0)], [S.real("x%d" % i, 0, F(9, 10)) for i in range(3)]]
    D["g"], D["c"], D["e"] = [], [], []
    for ik in range(nk):
        gs = list(npw if npw else G0[ks[ik]])
        gs = vasp_order(gs) if code == "vasp" else gs[2:] + gs[:2]
        D["g"].append(gs)
        n = len(gs)
        c = []
        for b in range(nb):
            row = [S.rat(F((3 * j + b + ik) % 5 + 1, 2)) + S.rat(F((2 * j + 3 * b) % 7 - 3, 4)) * S.I for j in range(n * (2 if sp else 1))]
            if coef and b != 1:
                row[gs.index((0, 0, 0)) + (n if sp and b else 0)] = S.cplx("c%d_%d" % (ik, b))
            c.append(row if states is None else states(ik, b, gs))
        D["c"].append(c)
        D["e"].append([S.real("e%d_%d" % (ik, b), 4 * b, 4 * b + 3) for b in range(nb)] if not close else [S.rat(F(b * (b + 1), 2 * 10**7)) for b in range(nb)])
    write(S, D, grid)
    return D


def flat(z):
    return [v for c in z for v in (c.real, c.imag)]


def write(S, D, grid):
    code, sp, nk, nb = D["code"], D["spinor"], D["nk"], D["nb"]
    v3 = lambda r: "   ".join(S.fmt(v) for v in r)
    ns = 2 if sp else 1
    if code == "vasp":
        S.file_text("POSCAR", "\n".join(["t", "1.0"] + [v3(r) for r in D["A"]] + ["1 1", "Direct"] + [v3(x) for x in D["x"]]) + "\n")
        m = max(len(g) for g in D["g"]) * ns
        rl = 8 * max(12, 4 + 3 * nb, m)
        cells = {}

        def put(rec, vals, t="f8"):
            for i, v in enumerate(vals):
                cells[rec * rl + 8 * i] = (t, v)
        put(0, [rl, 1, 45200])
        put(1, [nk, nb, D["ecut0"]] + [v for r in D["A"] for v in r])
        for ik in range(nk):
            put(2 + ik * (nb + 1), [len(D["g"][ik]) * ns] + D["k"][ik] + [v for e in D["e"][ik] for v in (e, S.rat(0), S.rat(1))])
            for b in range(nb):
                put(3 + ik * (nb + 1) + b, D["c"][ik][b], "c8")
        S.file_cells("WAVECAR", cells, rl * (2 + nk * (nb + 1)))
    if code == "abinit":
        z = [S.rat(0)] * 40
        R = [[("a8", ["9.6.2"]), ("i4", [80, 2])]]
        R.append([("i4", [nk * nb, 0, 0, 1, 2, 4, 4, 4, nk, 1, ns, 1, 1, 2, 2, 1, 0, 0]), ("f8", [D["ecut0"] / HARTREE] + z[:6] + [v / bohr() for r in D["A"] for v in r] + z[:3]), ("i4", [0, 1, 1, nb])])
        R.append([("i4", [1] * nk + [nb] * nk + [len(g) for g in D["g"]] + [1, 1] + [1] + [0] * 9 + [1, 2]), ("f8", [v for k in D["k"] for v in k] + z[:nk * nb] + z[:3] + z[:2] + z[:nk])])
        R.append([("f8", z[:1] + [v for x in D["x"] for v in x] + z[:1] + [D["ef"] / HARTREE] + z[:2])])
        R.append([("i4", [1, 0]), ("f8", z[:2]), ("i4", [0] * 19), ("f8", z[:6])])
        R += [[("a132", ["Ga"]), ("f8", z[:2]), ("i4", [1, 2, 3, 4, 5]), ("a32", ["md5"])]] * 2
        for ik in range(nk):
            R += [[("i4", [len(D["g"][ik]), ns, nb])], [("i4", [v for g in D["g"][ik] for v in g])], [("f8", [e / HARTREE for e in D["e"][ik]] + z[:nb])]]
            R += [[("f8", flat(c))] for c in D["c"][ik]]
        S.file_records("wfk", R)
    if code == "espresso":
        pol = D["kind"] if D["kind"] in ("up", "dw") else None
        x = ["<r><input>", '<atomic_species ntyp="2"><species name="Ga"/><species name="As"/></atomic_species>', '<atomic_structure nat="2" alat="%s"><atomic_positions>' % S.fmt(D["A"][0][0] / bohr())]
        cart = [[sum((x_[i] * D["A"][i][j] for i in range(3)), S.rat(0)) / bohr() for j in range(3)] for x_ in D["x"]]
        x += ['<atom name="%s">%s</atom>' % (n, v3(c)) for n, c in zip(("Ga", "As"), cart)] + ["</atomic_positions><cell>"]
        x += ["<a%d>%s</a%d>" % (i + 1, v3([v / bohr() for v in D["A"][i]]), i + 1) for i in range(3)] + ["</cell></atomic_structure>", "<basis><ecutwfc>%s</ecutwfc></basis></input>" % S.fmt(D["ecut0"] / HARTREE)]
        x += ["<output><band_structure><noncolin>%s</noncolin>" % ("true" if sp else "false")] + (["<nbnd_up>%d</nbnd_up><nbnd_dw>%d</nbnd_dw>" % (nb + (pol == "dw"), nb + (pol == "up"))] if pol else ["<nbnd>%d</nbnd>" % nb])
        x += ["<fermi_energy>%s</fermi_energy>" % S.fmt(D["ef"] / HARTREE)]
        for ik in range(nk):
            e = [v / HARTREE for v in D["e"][ik]]
            o = [S.rat(7 + i) for i in range(nb + 1)]
            x += ["<ks_energies><npw>%d</npw><eigenvalues>%s</eigenvalues></ks_energies>" % (len(D["g"][ik]), v3(e + o if pol == "up" else o + e if pol == "dw" else e))]
            n = len(D["g"][ik])
            R = [[("i4", [ik + 1]), ("f8", [v / 2 for v in D["k"][ik]]), ("i4", [1, 0]), ("f8", [S.rat(1)])], [("i4", [n, n, ns, nb])], [("f8", [S.rat(F(1, 2)) if i == j else S.rat(0) for i in range(3) for j in range(3)])],
                 [("i4", [v for g in D["g"][ik] for v in g])]] + [[("f8", flat(c))] for c in D["c"][ik]]
            S.file_records("x.save/wfc%s%d.dat" % (pol or "", ik + 1), R)
            if pol:
                S.file_records("x.save/wfc%s%d.dat" % ("up" if pol == "dw" else "dw", ik + 1), R[:4] + [[("f8", [S.rat(1)] * (2 * n))]] * (nb + 1))
        S.file_text("x.save/data-file-schema.xml", "\n".join(x + ["</band_structure></output></r>"]))
    if code == "wannier90":
        L = ["num_bands = %d" % nb, "spinors = %s" % (".true." if sp else ".false."), "mp_grid = 1 1 %d" % nk, "fermi_energy = %s" % S.fmt(D["ef"])]
        L += ["begin unit_cell_cart"] + [v3(r) for r in D["A"]] + ["end unit_cell_cart", "begin atoms_frac"] + [n + " " + v3(x) for n, x in zip(("Ga", "As"), D["x"])] + ["end atoms_frac", "begin kpoints"]
        S.file_text("x.win", "\n".join(L + [v3(k) for k in D["k"]] + ["end kpoints"]) + "\n")
        S.file_text("x.eig", "".join("%d %d %s\n" % (b + 1, k + 1, S.fmt(D["e"][k][b])) for k in range(nk) for b in range(nb)))
        nt = grid[0] * grid[1] * grid[2]
        for ik in range(nk):
            n = len(D["g"][ik])
            R = [[("i4", [grid[0], grid[1], grid[2], ik + 1, nb])]]
            for b in range(nb):
                for s in range(ns):
                    c = D["c"][ik][b][s * n:(s + 1) * n]
                    R.append([("f8", flat([sum((c[j] * S.E(sum((F(g[i] * r[i], grid[i]) for i in range(3)), F(0))) for j, g in enumerate(D["g"][ik])), S.rat(0)) / nt
                                           for r in [(x, y, z) for z in range(grid[2]) for y in range(grid[1]) for x in range(grid[0])]]))])
            S.file_records("UNK%05d.%s" % (ik + 1, "NC" if sp else "1"), R)


_BOHR = []


def bohr():
    if not _BOHR:
        from scipy import constants
        _BOHR.append(constants.physical_constants['Bohr radius'][0] / constants.angstrom)
    return _BOHR[0]


def make(S, M, D, seen=None, **kw):
    ops = [make_op(S, M, I3, ind=1, spinor=D["spinor"]), make_op(S, M, [[-1, 0, 0], [0, -1, 0], [0, 0, -1]], ind=2, spinor=D["spinor"])]
    sig = inspect.signature(M.spacegroup.SpaceGroup.__init__)

    def factory(*a, **k):
        args = dict(sig.bind(None, *a, **k).arguments)
        if seen is not None:
            seen.append(args)
        return make_sg(S, M, ops, spinor=D["spinor"])
    S.patch("bandstructure.SpaceGroup", factory)
    a = dict(code=D["code"])
    if D["code"] == "vasp":
        a.update(fPOS="POSCAR", fWAV="WAVECAR", spinor=D["spinor"])
    elif D["code"] == "abinit":
        a.update(fWFK="wfk")
    else:
        a.update(prefix="x")
        if D["kind"] in ("up", "dw"):
            a.update(spin_channel=D["kind"])
        if D["code"] == "wannier90":
            a.update(Ecut=D["ecut0"])
    a.update(kw)
    return S.call(M.bandstructure.BandStructure, **a)


def same_k(S, kp, D, ik, lo, hi, ef, gs, wf=True):
    nb, n = D["nb"], len(D["g"][ik])
    S.check("index of the k-point, from 1", int(kp.ik0) == ik + 1, kp.ik0)
    S.check("coordinates of the k-point", S.eq(kp.k, S.array(D["k"][ik])))
    S.check("spinors", bool(kp.spinor) == D["spinor"])
    S.check("number of bands", int(kp.num_bands) == hi - lo, kp.num_bands)
    S.check("energies of the bands chosen, from the Fermi energy", S.np.shape(kp.Energy_raw) == (hi - lo,) and S.eq(kp.Energy_raw, S.array([e - ef for e in D["e"][ik][lo:hi]])))
    if hi < nb:
        S.check("energy of the next band", S.eq(kp.upper, D["e"][ik][hi] - ef))
    else:
        S.check("no next band", not S.is_true(S.eq(kp.upper, kp.upper)) if not isinstance(kp.upper, float) else kp.upper != kp.upper, kp.upper)
    ig = [tuple(int(kp.ig[r, j]) for r in range(3)) for j in range(kp.ig.shape[1])]
    S.check("plane waves below the cutoff, each once", sorted(ig) == sorted(gs), ig)
    if sorted(ig) != sorted(gs) or not wf:
        return
    ns = 2 if D["spinor"] else 1
    m = len(gs)
    S.check("one coefficient per plane wave and spin", tuple(kp.WF.shape) == (hi - lo, m * ns), kp.WF.shape)
    if tuple(kp.WF.shape) != (hi - lo, m * ns):
        return
    for b in range(lo, hi):
        c = [D["c"][ik][b][D["g"][ik].index(g) + s * n] for s in range(ns) for g in ig]
        nrm = S.sqrt(sum((z.real * z.real + z.imag * z.imag for z in c), S.rat(0)))
        S.check("states of the bands chosen, normalised, with their coefficients", S.eq(kp.WF[b - lo] * nrm, S.array(c)))


def window(S, M, p):
    D = dataset(S, p)
    nb = D["nb"]
    lo, hi = S.pick("first band", [None, 0, -2, 1, 2, 3]), S.pick("last band", [None, 0, -1, 1, 2, 3, 7])
    L, H = (lo - 1 if lo and lo > 0 else 0), (hi if hi and 0 < hi <= nb else nb)
    r = make(S, M, D, IBstart=lo, IBend=hi, v=0)
    if H <= L:
        S.check("empty window is refused", r.raised(RuntimeError), r.err)
        return
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    S.check("one object per k-point", len(r.val.kpoints) == D["nk"] and int(r.val.num_k) == D["nk"])
    S.check("number of bands", int(r.val.num_bands) == H - L)
    for ik, kp in enumerate(r.val.kpoints):
        same_k(S, kp, D, ik, L, H, S.rat(0), D["g"][ik], wf=ik == 0)


def selection(S, M, p):
    D = dataset(S, p, coef=False)
    sel = S.pick("k-points", [None, [1], [2], [3, 1], [2, 3], [0, 3, 4, 2], [1, 1], [3, 2, 1]])
    arr = None if sel is None else S.np.array(sel) if S.pick("list", [0, 1]) == 0 else list(sel)
    r = make(S, M, D, kplist=arr, v=S.pick("v", [0, 2]))
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    want = [0, 1, 2] if sel is None else [i - 1 for i in sel if 1 <= i <= 3]
    S.check("k-points asked for, in their order", [int(k.ik0) for k in r.val.kpoints] == [i + 1 for i in want], [k.ik0 for k in r.val.kpoints])
    if len(want) != len(r.val.kpoints):
        return
    for kp, ik in zip(r.val.kpoints, want):
        same_k(S, kp, D, ik, 0, D["nb"], S.rat(0), D["g"][ik])
    if arr is not None:
        S.check("the list of the user is not changed", [int(x) for x in arr] == sel, arr)


def cutoff(S, M, p):
    D = dataset(S, p, coef=False)
    w90 = D["code"] == "wannier90"
    how = S.pick("cutoff", ["smaller"] if w90 else [None, "zero", "negative", "smaller", "larger"])
    e = {None: None, "zero": S.rat(0), "negative": S.real("neg", -100, F(-1, 100)), "smaller": S.real("cut", 4, F(59, 10)), "larger": D["ecut0"] + S.real("more", F(1, 100), 50)}[how]
    r = make(S, M, D, Ecut=e)
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    bs = r.val
    S.check("cutoff of the calculation", S.eq(bs.Ecut0, e if w90 else D["ecut0"]))
    S.check("cutoff: the one asked for if positive and below that of the calculation", S.eq(bs.Ecut, e if how == "smaller" else D["ecut0"]))
    for ik, kp in enumerate(bs.kpoints):
        same_k(S, kp, D, ik, 0, D["nb"], S.rat(0), G1[ik] if how == "smaller" else D["g"][ik])


def fermi(S, M, p):
    D = dataset(S, p, coef=False)
    how = S.pick("EF", ["number", "auto", "AUTO", "default", "nonsense"])
    x = S.real("x", -9, 9)
    hi = S.pick("last band", [0, 2])
    r = make(S, M, D, IBend=hi, **({} if how == "default" else {"EF": S.fmt(x) if how == "number" else how}))
    if how == "nonsense":
        S.check("anything else is refused", r.raised(RuntimeError), r.err)
        return
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    ef = x if how == "number" else S.rat(0) if how == "default" or D["code"] == "vasp" else D["ef"]
    S.check("Fermi energy: the number given, that of the calculation, or zero", S.eq(r.val.efermi, ef))
    same_k(S, r.val.kpoints[0], D, 0, 0, hi or D["nb"], ef, D["g"][0], wf=False)


def arguments(S, M, p):
    D = dataset(S, p, coef=False)
    seen = []
    given = S.pick("given", [0, 1])
    uc, sh, tt, al = S.array([[0, 1, 0], [1, 0, 0], [0, 0, -1]]), S.array([S.real("s%d" % i, -1, 1) for i in range(3)]), S.real("tt", F(1, 10**6), 1), S.real("alat", 1, 20)
    kw = dict(refUC=uc, shiftUC=sh, trans_thresh=tt, search_cell=True, alat=al, from_sym_file="s.sym") if given else {}
    r = make(S, M, D, seen, onlysym=bool(S.pick("onlysym", [0, 1])), **kw)
    S.check("runs", r.ok and len(seen) == 1, r.err)
    if not r.ok or len(seen) != 1:
        return
    a = seen[0]
    lat, pos, typ = a["cell"]
    f = bohr() if D["code"] == "abinit" else 1
    near = lambda x: S.And(*[S.abs(x[i][j] * f - D["A"][i][j]) < F(1, 10**9) for i in range(3) for j in range(3)])
    S.check("lattice vectors as rows", S.And(near(lat), near(r.val.Lattice)))
    S.check("atoms", S.And(*[S.abs(pos[i][j] - D["x"][i][j]) < F(1, 10**9) for i in range(2) for j in range(3)]) and typ[0] != typ[1] and len(typ) == 2)
    S.check("spinors", bool(a["spinor"]) == D["spinor"] and bool(r.val.spinor) == D["spinor"])
    if given:
        S.check("cell, shift, thresholds and file passed on", S.And(S.eq(a["refUC"], uc), S.eq(a["shiftUC"], sh), S.eq(a["trans_thresh"], tt), S.eq(a["alat"], al)) and bool(a["search_cell"]) and a["from_sym_file"] == "s.sym")
    else:
        S.check("no cell nor file", a.get("refUC") is None and a.get("shiftUC") is None and not a.get("search_cell", False) and a.get("from_sym_file") is None)
        S.check("default threshold", S.eq(a.get("trans_thresh", S.rat(F(1, 10**5))), S.rat(F(1, 10**5))))
        if D["code"] == "espresso":
            S.check("lattice parameter of the calculation", S.abs(a["alat"] * bohr() - D["A"][0][0]) < F(1, 10**9))


def cell(S, M, p):
    """reciprocal lattice of any cell (one plane wave)"""
    D = dataset(S, p, sym_lat=True, npw=[(0, 0, 0)], nb=1, coef=False, grid=(1, 1, 1))
    if D["code"] in ("vasp", "wannier90"):
        S.patch("bandstructure.calc_gvectors", lambda *a, **k: S.np.array([[0], [0], [0], [0], [0], [1]]))
    r = make(S, M, D)
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    f = bohr() if D["code"] == "abinit" else 1
    S.check("reciprocal vectors: a_i . b_j = 2 pi if i = j, 0 otherwise", S.eq(S.np.dot(r.val.RecLattice, S.array(D["A"]).T) / f, S.array(I3) * (2 * S.pi)))
    S.check("the same at the k-points", S.eq(r.val.kpoints[0].RecLattice, r.val.RecLattice))


def traces(S, M, p):
    near = S.pick("levels", ["apart", "close"]) == "close"          # close: 1e-7 and 2e-7 apart
    D = dataset(S, p, coef=False, close=near)
    th = S.real("thresh", F(1, 10**8) if near else F(1, 1000), F(1, 10**6) if near else 2)
    d = [D["e"][0][i + 1] - D["e"][0][i] for i in range(2)]
    for x in d:
        S.assume(S.abs(x - th) > (F(1, 10**9) if near else F(1, 10**6)))
    lev = [0] + [i + 1 for i in range(2) if S.is_true(d[i] > th)] + [3]
    keep = bool(S.pick("save_wf", [1, 0]))
    tr = bool(S.pick("traces", [1, 0]))
    r = make(S, M, D, degen_thresh=th, calculate_traces=tr, save_wf=keep)
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    kp = r.val.kpoints[0]
    S.check("levels separated by more than the threshold", [int(v) for v in kp.borders] == lev, kp.borders)
    S.check("wave functions kept if asked for", (kp.WF is not None) == keep)
    S.check("operations of the little group", [int(o.ind) for o in kp.little_group] == [1, 2])
    S.check("traces if asked for", hasattr(kp, "char") == tr)
    if tr:
        S.check("one row per level, one column per operation", tuple(S.np.shape(kp.char)) == (len(lev) - 1, 2), S.np.shape(kp.char))
        S.check("trace of the identity", S.And(*[S.eq(kp.char[i][0], S.rat(b - a)) for i, (a, b) in enumerate(zip(lev, lev[1:]))]))


def refused(S, M, p):
    what = S.pick("what", ["no spinor", "lattices", "no cutoff", "no channel", "channel", "code"])
    c = {"no spinor": "vasp", "lattices": "vasp", "no cutoff": "wannier90", "no channel": "espresso-up", "channel": "espresso", "code": "vasp"}[what]
    D = dataset(S, dict(code=c, nk=1), coef=False)
    if what == "lattices":
        t = S.read_file("POSCAR").splitlines()
        t[1] = "1.01"
        S.file_text("POSCAR", "\n".join(t) + "\n")
    kw = {"no spinor": dict(spinor=None), "no cutoff": dict(Ecut=None), "no channel": dict(spin_channel=None), "channel": dict(spin_channel="up"), "code": dict(code="siesta")}.get(what, {})
    r = make(S, M, D, **kw)
    S.check("inconsistent input is refused", r.raised(RuntimeError) or r.raised(ValueError), r.err)
    if what == "no channel":
        D2 = dict(D)
        r = make(S, M, D2, spin_channel=S.pick("form", ["UP", "Up"]))
        S.check("channel in capitals", r.ok, r.err)


def coarse(S, M, p):
    D = dataset(S, p, coef=False, grid=(3, 3, 3))
    r = make(S, M, D)
    S.check("plane waves of a coarse grid", r.ok and r.val.kpoints[0].ig.shape[1] == len(D["g"][0]), r.err)
