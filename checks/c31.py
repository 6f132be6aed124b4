"""C31 -- Wannier90 interface: .win, .eig and UNK files (irrep/readfiles.py)."""
from fractions import Fraction as F
from .common import *
from .geom import *

ID = "C31"
BOUNDS = ("any lattice, positions, k-points, energies, Fermi energy; 1 to 3 atoms of 1 or 2 elements, 1 to 3 k-points, 1 to 3 bands; parameters with =, : or a space, in any order, comments, blank lines, capitals, units; "
          "UNK files on grids of 1 to 12 points with any value on one point (constants on the others) for one band.")
ASSUMPTIONS = ["floating point treated as exact real arithmetic"]


def tasks(tier):
    out = []
    for i, (nat, kinds, grid, nb) in enumerate([(1, 1, (1, 1, 1), 1), (2, 2, (2, 1, 1), 2), (3, 2, (3, 1, 1), 3)]):
        for sp in (0, 1):
            for cart in (0, 1):
                out.append(dict(name="win-%d-%d-%d" % (i, sp, cart), body="win", params=dict(nat=nat, kinds=kinds, grid=grid, nb=nb, spinor=sp, cart=cart), opts=dict(budget=90, max_paths=400)))
    for nk, nb in ((1, 1), (1, 2), (2, 1), (2, 3)):
        out.append(dict(name="eig-%d-%d" % (nk, nb), body="eig", params=dict(nk=nk, nb=nb), opts=dict(budget=40)))
    for g in ((1, 1, 1), (2, 1, 3), (3, 2, 2), (1, 2, 4), (2, 2, 3)):
        for sp in (0, 1):
            out.append(dict(name="unk-%d%d%d-%d" % (*g, sp), body="unk", params=dict(grid=g, spinor=sp), opts=dict(budget=60, max_paths=60)))
    out.append(dict(name="refused", body="refused", params={}, opts=dict(budget=60, max_paths=60)))
    return out


def write_win(S, D, p, order=(0, 1, 2, 3), sep=" = ", units=None, comments=False, caps=False, gridsep=None):
    nat, grid = p["nat"], p["grid"]
    v3 = lambda r: "   ".join(S.fmt(v) for v in r)
    c = lambda s: s + (" ! remark" if len(s) % 2 else " # remark = 2") if comments else s
    head = [c("num_bands%s%d" % (sep, p["nb"])), c("spinors%s%s" % (sep, [".true.", "T", "true"][p["nb"] - 1] if p["spinor"] else [".false.", "F", "false"][p["nb"] - 1]))]
    if D["efermi"]:
        head.append(c("fermi_energy%s%s" % (sep, S.fmt(D["ef"]))))
    head.append(c("mp_grid%s%d %d %d" % ((gridsep or sep,) + tuple(grid))))
    head.append("num_wann%s2" % sep)
    cell = ["begin unit_cell_cart"] + ([units] if units else []) + [v3(r) for r in D["A"]] + ["end unit_cell_cart"]
    name = "atoms_cart" if p["cart"] else "atoms_frac"
    au = [D["aunits"]] if D.get("aunits") else []
    atoms = ["begin " + name] + au + ["%s  %s" % (D["kind"][i], v3(D["x"][i])) for i in range(nat)] + ["end " + name]
    kp = ["begin kpoints"] + [v3(k) + (" 0.5" if comments else "") for k in D["k"]] + ["end kpoints"]
    other = ["begin projections", "Ga: s;p", "random", "end projections"]
    blocks = [cell, atoms, kp, other]
    L = []
    if comments:
        L += ["! header", "# another one", "", "   "]
    L += head
    for i in order:
        L += blocks[i] + ([""] if comments else [])
    if caps:
        L = [l.replace("begin", "Begin").replace("unit_cell_cart", "Unit_Cell_Cart").replace("num_bands", "Num_Bands") for l in L]
    S.file_text("d/x.win", "\n".join(L) + "\n")


def data(S, p):
    nat = p["nat"]
    D = dict(ef=S.real("ef", -9, 9), efermi=1)
    D["A"] = [[S.real("a%d" % i, 1, 9) if i == j else S.real("b%d" % i, -3, 3) if j == (i + 1) % 3 and i < 2 else S.rat(0) for j in range(3)] for i in range(3)]
    D["x"] = [[S.real("x%d%d" % (i, j), -3, 3) if i < 2 else S.rat(F(j, 2)) for j in range(3)] for i in range(nat)]
    names = S.pick("elements", [["Ga", "As"], ["C", "Ca"]] if p["kinds"] > 1 and not p["spinor"] else [["Ga", "As"]])[:p["kinds"]]
    D["kind"] = [(names + names[::-1])[i] for i in range(nat)]
    nk = p["grid"][0] * p["grid"][1] * p["grid"][2]
    D["k"] = [[S.real("k%d_%d" % (ik, i), -2, 2) for i in range(3)] for ik in range(nk)]
    return D


def win(S, M, p):
    D = data(S, p)
    style = S.pick("style", ["plain", "bohr", "ang", "no Fermi energy", "comments", "capitals", "atoms first", "colon", "space", "grid in any form", "atoms in bohr", "atoms in ang", "atoms in bohr, first"])
    bohr = M.utility.BOHR
    if style.startswith("atoms in") and not p["cart"]:
        style = "plain"
    D["efermi"] = int(style != "no Fermi energy")
    D["aunits"] = {"atoms in bohr": "bohr", "atoms in bohr, first": "bohr", "atoms in ang": "Ang"}.get(style)
    write_win(S, D, p, order=S.pick("order", [(0, 1, 2, 3), (3, 2, 0, 1)]) if not style.endswith("first") else (1, 3, 0, 2), sep={"colon": ": ", "space": " "}.get(style, " = "),
              units={"bohr": "bohr", "ang": "ang"}.get(style), comments=style == "comments", caps=style == "capitals", gridsep="  " if style == "grid in any form" else None)
    r = S.call(M.readfiles.ParserW90, "d/x")
    S.check("opened", r.ok, r.err)
    if not r.ok:
        return
    ps = r.val
    r = S.call(ps.parse_header)
    S.check("header read", r.ok, (style, r.err))
    if not r.ok:
        return
    NK, NB, spinor, ef = r.val
    S.check("numbers of k-points and of bands, spinors", (int(NK), int(NB), bool(spinor)) == (len(D["k"]), p["nb"], bool(p["spinor"])), (NK, NB, spinor))
    S.check("Fermi energy, or none", S.eq(ef, D["ef"]) if D["efermi"] and ef is not None else (ef is None and not D["efermi"]), ef)
    r = S.call(ps.parse_lattice)
    S.check("crystal read", r.ok, (style, r.err))
    if not r.ok:
        return
    lat, pos, typ, kp = r.val
    u = bohr if style == "bohr" else 1
    S.check("lattice vectors as rows, in angstrom", S.eq(lat, S.array(D["A"]) * u))
    au = bohr if D["aunits"] == "bohr" else 1
    S.check("one position per atom", tuple(S.np.shape(pos)) == (p["nat"], 3), S.np.shape(pos))
    if tuple(S.np.shape(pos)) == (p["nat"], 3):
        if p["cart"]:
            S.check("cartesian positions in direct coordinates", S.eq(S.np.dot(pos, S.array(D["A"])) * u, S.array(D["x"]) * au))
        else:
            S.check("direct positions", S.eq(pos, S.array(D["x"])))
    S.check("one kind per atom, the same for the atoms of an element", len(typ) == p["nat"] and all((typ[i] == typ[j]) == (D["kind"][i] == D["kind"][j]) for i in range(p["nat"]) for j in range(p["nat"])), typ)
    S.check("coordinates of the k-points", tuple(S.np.shape(kp)) == (len(D["k"]), 3) and S.eq(kp, S.array(D["k"])))


def eig(S, M, p):
    nk, nb = p["nk"], p["nb"]
    q = dict(nat=1, kinds=1, grid=(1, 1, nk), nb=nb, spinor=0, cart=0)
    write_win(S, data(S, q), q)
    wrong = S.pick("file", ["right", "missing", "order", "bands first"] if nk * nb > 1 else ["right", "order"])
    rows = [(b + 1, k + 1, S.real("e%d_%d" % (k, b), -50, 50)) for k in range(nk) for b in range(nb)]
    want = [[rows[k * nb + b][2] for b in range(nb)] for k in range(nk)]
    if wrong == "missing":
        rows = rows[:-1]
    elif wrong == "order":
        rows = [(rows[0][0] + 1, rows[0][1], rows[0][2])] + rows[1:]
    elif wrong == "bands first":
        rows = [(k + 1, b + 1, S.rat(1)) for k in range(nk) for b in range(nb)]
        if nk == 1 or nb == 1:
            rows = [(r[0], r[1] + 1, r[2]) for r in rows]
    S.file_text("d/x.eig", "".join("  %d  %d  %s\n" % (b, k, S.fmt(e)) for b, k, e in rows))
    r = S.call(M.readfiles.ParserW90, "d/x")
    S.check("opened", r.ok, r.err)
    if not r.ok:
        return
    ps = r.val
    r = S.call(ps.parse_header)
    r = S.call(ps.parse_energies)
    if wrong == "right":
        S.check("energies read", r.ok, r.err)
        if r.ok:
            S.check("one row of energies per k-point", tuple(S.np.shape(r.val)) == (nk, nb) and S.eq(r.val, S.array(want)), S.np.shape(r.val))
    else:
        S.check("missing or misplaced energies are refused", r.raised(RuntimeError), r.err)


def write_unk(S, p, ik=1, nb=2, n_in=None, name=None):
    g, D = p["grid"], {}
    n = g[0] * g[1] * g[2]
    ns = 2 if p["spinor"] else 1
    R = [[("i4", [g[0], g[1], g[2], n_in or ik, nb])]]
    D["u"] = []
    for b in range(nb):
        for s in range(ns):
            u = [S.rat(F((3 * j * j + 2 * b + s) % 7 - 3, 2)) + S.rat(F((5 * j + s - b) % 5 - 2, 2)) * S.I for j in range(n)]
            if b == nb - 1:
                u[(n - 1) // 2] = S.cplx("u%d" % s)
            R.append([("f8", [v for z in u for v in (z.real, z.imag)])])
            D["u"].append(u)
    S.file_records(name or "UNK%05d.%s" % (ik, "NC" if p["spinor"] else "1"), R)
    return D


def unk(S, M, p):
    g, nb, ns = p["grid"], 2, 2 if p["spinor"] else 1
    q = dict(nat=1, kinds=1, grid=(1, 2, 1), nb=nb, spinor=p["spinor"], cart=0)
    write_win(S, data(S, q), q)
    ik = S.pick("k-point", [1, 2])
    D = write_unk(S, p, ik, nb)
    r = S.call(M.readfiles.ParserW90, "d/x")
    S.check("opened", r.ok, r.err)
    if not r.ok:
        return
    ps = r.val
    S.call(ps.parse_header)
    r = S.call(ps.parse_grid, ik)
    S.check("grid", r.ok and tuple(int(v) for v in r.val) == tuple(g), r.err)
    G = [(x, y, z) for x in range(-((g[0] - 1) // 2), g[0] // 2 + 1) for y in range(-((g[1] - 1) // 2), g[1] // 2 + 1) for z in range(-((g[2] - 1) // 2), g[2] // 2 + 1)]
    G = G[:5] + G[-2:] if len(G) > 7 else G
    r = S.call(ps.parse_kpoint, ik, tuple(S.np.array([v[i] for v in G]) for i in range(3)))
    S.check("k-point read", r.ok, r.err)
    if not r.ok:
        return
    S.check("a row per band: coefficients of spin up, then of spin down", tuple(r.val.shape) == (nb, ns * len(G)), r.val.shape)
    if tuple(r.val.shape) != (nb, ns * len(G)):
        return
    for b in range(nb):
        for s in range(ns):
            u = D["u"][b * ns + s]
            for i, v in enumerate(G):
                w = S.rat(0) + 0 * S.I
                for z in range(g[2]):
                    for y in range(g[1]):
                        for x in range(g[0]):
                            w = w + u[x + g[0] * (y + g[1] * z)] * S.E(-(F(v[0] * x, g[0]) + F(v[1] * y, g[1]) + F(v[2] * z, g[2])))
                S.check("coefficients of the plane waves", S.eq(r.val[b, s * len(G) + i], w))


def refused(S, M, p):
    what = S.pick("what", ["grid missing", "parameter twice", "no cell end", "cell twice", "kpoints twice", "atoms twice", "band number", "k-point number", "two values"])
    q = dict(nat=1, kinds=1, grid=(1, 2, 1), nb=2, spinor=0, cart=0)
    D = data(S, q)
    write_win(S, D, q, order=(0, 1, 2, 0) if what == "cell twice" else (0, 1, 2, 2) if what == "kpoints twice" else (0, 1, 1, 2) if what == "atoms twice" else (0, 1, 2))
    t = S.read_file("d/x.win")
    if what == "grid missing":
        t = t.replace("mp_grid", "mp_gird")
    if what == "two values":
        t = t.replace("num_bands = 2", "num_bands = 2 3")
    if what == "parameter twice":
        t += "num_bands = 2\n"
    if what == "no cell end":
        t = t.replace("end unit_cell_cart", "0 0 1")
    S.file_text("d/x.win", t)
    write_unk(S, dict(grid=(2, 1, 1), spinor=0), 1, 3 if what == "band number" else 2, 2 if what == "k-point number" else 1)
    r = S.call(M.readfiles.ParserW90, "d/x")
    S.check("opened", r.ok, r.err)
    if not r.ok:
        return
    ps = r.val
    r = S.call(ps.parse_header)
    if r.ok:
        r = S.call(ps.parse_lattice)
    if r.ok:
        r = S.call(ps.parse_kpoint, 1, tuple(S.np.array([0]) for i in range(3)))
    S.check("inconsistent input is refused", r.raised(RuntimeError) if what != "two values" else not r.ok, r.err)
