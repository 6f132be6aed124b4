"""C02 -- printed description of the crystal and of the operations (SpaceGroup.show, SymmetryOperation.show)."""
import re
from fractions import Fraction as F
from .common import *
from .geom import *
from .bands import after

ID = "C02"
BOUNDS = ("operations: one per kind of cubic, tetragonal, hexagonal and fcc lattices, any translation, the listed transformations to the reference cell with any shift, any spin matrix with "
          "entries of either sign (one entry at a time of unknown sign); crystals: lattices of the listed families with any parameters, 1 to 2 atoms with any positions, groups of 1 to 4 operations "
          "with any selection of the listed ones.")
ASSUMPTIONS = ["floating point treated as exact real arithmetic", "numbers claimed up to the printed decimals"]
REF = [I3, [[1, 1, 0], [-1, 1, 0], [0, 0, 1]], [[0, 1, 1], [1, 0, 1], [1, 1, 0]], [[0, 0, 1], [1, 0, 0], [0, 1, 0]]]


def tasks(tier):
    out = []
    for fam in ("cubic", "tetra", "hexa", "fcc"):
        ops = point_ops(fam) if tier == "thorough" else distinct_kinds(fam)
        for a, A in enumerate(ops):
            out.append(dict(name="op-%s-%d" % (fam, a), params=dict(fam=fam, A=A, spinor=a % 2 == 0, e=a % 8), opts=dict(budget=60, max_paths=300)))
    for name in ("2/m", "-1", "3"):
        for ref in (0, 1):
            out.append(dict(name="crystal-%s-%d" % (name.replace("/", "_"), ref), body="crystal", params=dict(group=name, ref=ref), opts=dict(budget=90, max_paths=300)))
    return out


def near(S, s, x, tol=F(6, 10**5)):
    try:
        v, _ = S.value(s)
    except ValueError:
        return False
    return S.And(S.le(v - x, tol), S.le(x - v, tol))


def near_mod1(S, s, x, tol=F(6, 10**5)):
    try:
        v, _ = S.value(s)
    except ValueError:
        return False
    d = v - x
    return S.And(S.le(S.abs(d - S.round(d)), tol), S.le(0, v), S.le(v, 1))


def brackets(text):
    """contents of |...| on every line of the text"""
    return [[x.split() for x in re.findall(r"\|([^|]*)\|", l)] for l in text.splitlines()]


def lin(s):
    """'kx-2ky' -> [1, -2, 0]"""
    out, pos = [0, 0, 0], 0
    for m in re.finditer(r"([+-]?)(\d*(?:\.\d*)?)k([xyz])", s.strip()):
        if m.start() != pos or (pos and not m.group(1)):
            return None
        pos = m.end()
        out["xyz".index(m.group(3))] += (-1 if m.group(1) == "-" else 1) * (F(m.group(2)) if m.group(2) else 1)
    return out if pos == len(s.strip()) and pos else None


def gk_of(S, A):
    B = iinv(A)
    return [[B[j][i] for j in range(3)] for i in range(3)]


def ref_of(A, P):
    return mm(mm(iinv(P), A), P)


def complexes(row):
    """['0.5+0.5j', '-1.0', '-0.0j'] pieces of a printed row -> [(re, im)]"""
    out = []
    for x in re.findall(r"\s*([+-]?\s*[^\s+\-j]+)\s*([+-]\s*[^\s+\-j]+)j", row):
        out.append((x[0].replace(" ", ""), x[1].replace(" ", "")))
    return out


def operation(S, text, op, ind, A, t, U, P, w, ref, spinor, sign):
    S.check("index of the operation", text.split("###", 1)[1].split()[0] == str(ind), text[:20])
    head = text.split("gk", 1)[0]
    rows = [x for x in brackets(head) if x]
    cells = 2 if ref else 1
    S.check("rotation matrices in the DFT cell and, if it differs, in the reference cell", len(rows) == 3 and all(len(x) == cells for x in rows), rows)
    if len(rows) == 3 and all(len(x) == cells for x in rows):
        Ar = [[int(x) for x in r] for r in ref_of(A, P)]
        S.check("rotation of the DFT cell", [r[0] for r in rows] == [[str(x) for x in r] for r in A], rows)
        if ref:
            S.check("rotation of the reference cell", [r[1] for r in rows] == [[str(x) for x in r] for r in Ar], rows)
        gl = re.findall(r"gk\s*=\s*\[([^\]]*)\]", text)
        S.check("action on k-points is given", len(gl) == cells, gl)
        if len(gl) == cells:
            for s, X in zip(gl, (A, Ar)):
                S.check("action on k-points: inverse transpose of the rotation", [lin(y) for y in s.split(",")] == gk_of(S, X), s)
    ss = text.split("spinor rot.")[1:]
    S.check("spin matrices for spinors only", len(ss) == (cells if spinor else 0), len(ss))
    if spinor and len(ss) == cells:
        for s, f in zip(ss, (1, sign)):
            rows = [complexes(l.split("|")[1]) for l in s.splitlines() if l.count("|") == 2][:2]
            ok = len(rows) == 2 and all(len(r) == 2 for r in rows)
            S.check("spin matrix, with the sign of the tables in the reference cell", ok and S.And(*[S.And(near(S, a, (U[i, j] * f).real, F(6, 10**4)), near(S, b, (U[i, j] * f).imag, F(6, 10**4)))
                                                                                                  for i, r in enumerate(rows) for j, (a, b) in enumerate(r)]), rows)
    tr = [l for l in text.splitlines() if l.startswith("translation")]
    S.check("translations are given", len(tr) == cells, tr)
    if len(tr) == cells:
        want = [t]
        if ref:
            Pi = iinv(P)
            d = [t[i] + sum((A[i][j] * w[j] for j in range(3)), S.rat(0)) - w[i] for i in range(3)]
            want.append([sum((S.rat(Pi[i][j]) * d[j] for j in range(3)), S.rat(0)) for i in range(3)])
        for l, v in zip(tr, want):
            x = l.split("[")[1].split("]")[0].split()
            S.check("translation between 0 and 1, in the DFT and in the reference cell", len(x) == 3 and S.And(*[near_mod1(S, a, b) for a, b in zip(x, v)]), l)
    ax = after(text, "axis")
    S.check("axis, angle and inversion", ax is not None and ("angle" in ax) and ("inversion" in ax), ax)
    if ax is not None and "angle" in ax and "inversion" in ax:
        x = ax.split("[")[1].split("]")[0].split()
        S.check("axis", len(x) == 3 and S.And(*[near(S, a, b) for a, b in zip(x, op.axis)]), ax)
        S.check("angle and inversion", ax.split("angle", 1)[1].split("=")[1].split(",")[0].strip() == op.angle_str.strip() and
                ax.split("inversion", 1)[1].strip(" :") == str(bool(op_kind(A)[1])), ax)


def choose_ref(S, A, sel=None):
    P = S.pick("reference cell", sel or REF)
    if any(F(x).denominator != 1 for r in ref_of(A, P) for x in r):
        P = I3
    mode = S.pick("shift", [0, 1])
    w = [S.real("w%d" % i, F(1, 100), 1) for i in range(3)] if mode else [S.rat(0)] * 3
    return P, w, bool(mode) or P != I3


def spin(S, e):
    """matrix with constant entries of both signs, one real or imaginary part arbitrary"""
    v = [F(3, 5), F(-4, 5), F(1, 4), F(0), F(-1, 2), F(7, 8), F(-1, 8), F(1)]
    x = [S.rat(a) for a in v]
    x[e] = S.real("u", -1, 1)
    return S.array([[x[0] + x[1] * S.I, x[2] + x[3] * S.I], [x[4] + x[5] * S.I, x[6] + x[7] * S.I]])


def body(S, M, p):
    A, sp = p["A"], p["spinor"]
    t = [S.real("t%d" % i, 0, F(999, 1000)) for i in range(3)]
    U = spin(S, p["e"])
    op = make_op(S, M, A, t=t, fam=p["fam"], ind=12, spinor=sp, U=U)
    op.sign = S.pick("sign", [1, -1]) if sp else 1
    P, w, ref = choose_ref(S, A)
    r = S.call(op.show, S.array(P), S.array(w)) if ref or S.pick("argument", [0, 1]) else S.call(op.show)
    S.check("runs", r.ok, r.err)
    if r.ok:
        operation(S, S.stdout(), op, 12, A, t, U, P, w, ref, sp, op.sign)


def crystal(S, M, p):
    fam, rots = group(p["group"])
    inds = [3, 1, 8, 2][:len(rots)]
    L = lattice(S, fam)
    sp = S.pick("spinor", [True, False])
    ts = [[S.rat(i, 5) if a else S.real("t%d" % i, 0, F(999, 1000)) for a in range(3)] for i in range(len(rots))]
    Us = [spin(S, 0) if i == 0 else S.array([[S.rat(1), S.rat(0)], [S.rat(0), S.rat(-1)]]) * (1 + 0 * S.I) for i in range(len(rots))]
    ops = [make_op(S, M, r, t=t, fam=fam, ind=i, spinor=sp, U=U) for r, t, i, U in zip(rots, ts, inds, Us)]
    for i, o in enumerate(ops):
        o.sign = (-1) ** i if sp else 1
    P = {"2/m": [[0, 0, 1], [0, 1, 0], [-1, 0, 1]], "-1": [[1, 1, 0], [0, 1, 2], [0, 0, 1]], "3": [[1, 1, 0], [-1, 0, 0], [0, 0, 1]]}[p["group"]] if p["ref"] else I3
    mode = S.pick("shift", [0, 1])
    w = [S.real("w%d" % i, F(1, 100), 1) for i in range(3)] if mode else [S.rat(0)] * 3
    ref = bool(mode) or P != I3
    pos = [[S.real("x%d%d" % (i, a), 0, 1) for a in range(3)] for i in range(2)]
    sg = make_sg(S, M, ops, refUC=S.array(P) * S.rat(1), shiftUC=S.array(w), L=L, name="X 1", number=17, spinor=sp, positions=S.array(pos), typat=[2, 14])
    want = S.pick("selection", [None, inds[:1], inds[::-1]])
    r = S.call(sg.show, *([] if want is None else [want]))
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    out = S.stdout()
    parts = out.split("###")
    head = parts[0]
    vec = [l for l in head.splitlines() if re.match(r"\s*a\d\s*=", l)]
    S.check("three lines of cell vectors", len(vec) == 3, vec)
    if len(vec) == 3:
        for i, l in enumerate(vec):
            a, b = [x.split("=")[1].split() for x in l.split("|")]
            S.check("vectors of the DFT cell", len(a) == 3 and S.And(*[near(S, x, L[i, c]) for c, x in enumerate(a)]), l)
            S.check("vectors of the reference cell: columns of the transformation", len(b) == 3 and
                    S.And(*[near(S, x, sum((P[q][i] * L[q, c] for q in range(3)), S.rat(0))) for c, x in enumerate(b)]), l)
    at = [l.split("|") for l in head.split("Atom", 1)[1].split("SPACE")[0].splitlines() if l.count("|") == 2 and l.split("|")[0].strip().isdigit()]
    S.check("one line per atom", len(at) == 2, at)
    if len(at) == 2:
        Pi = iinv(P)
        for i, l in enumerate(at):
            a, b = l[1].split(), l[2].split()
            S.check("type and position of the atom", l[0].strip() == ["2", "14"][i] and len(a) == 3 and S.And(*[near(S, x, y) for x, y in zip(a, pos[i])]), l)
            d = [pos[i][q] - w[q] for q in range(3)]
            S.check("position in the reference cell", len(b) == 3 and S.And(*[near_lattice(S, x, sum((S.rat(Pi[c][q]) * d[q] for q in range(3)), S.rat(0))) for c, x in enumerate(b)]), l)
    sgl = [l for l in head.splitlines() if l.startswith("Space group")]
    S.check("name and number of the space group", len(sgl) == 1 and "X 1" in sgl[0] and "17" in sgl[0], sgl)
    n = after(head, "Number of symmetries")
    S.check("number of operations", n is not None and n.split()[0] == str(len(ops)), n)
    m = [x[0] for x in brackets(head.split("transformation", 1)[1]) if x]
    S.check("transformation: vectors of the reference cell in terms of those of the DFT cell, row by row", len(m) == 3 and
            S.And(*[near(S, x, P[c][i]) for i, r_ in enumerate(m) for c, x in enumerate(r_)]) and all(len(r_) == 3 for r_ in m), m)
    s = head.split("shiftUC", 1)[1].split("[")[1].split("]")[0].split()
    S.check("shift of the origin", len(s) == 3 and S.And(*[near(S, x, y) for x, y in zip(s, w)]), s)
    keys = [i for i in inds if want is None or i in want]
    S.check("the selected operations, all by default", [x.split()[0] for x in parts[1:]] == [str(i) for i in keys], len(parts))
    if [x.split()[0] for x in parts[1:]] == [str(i) for i in keys]:
        for x, i in zip(parts[1:], keys):
            q = inds.index(i)
            operation(S, "### " + x, ops[q], i, rots[q], ts[q], Us[q], P, w, ref, sp, ops[q].sign)


def near_lattice(S, s, x, tol=F(6, 10**5)):
    """equal up to a lattice translation"""
    try:
        v, _ = S.value(s)
    except ValueError:
        return False
    d = v - x
    return S.le(S.abs(d - S.round(d)), tol)
