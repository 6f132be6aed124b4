"""C26 -- irreptable-template: the operations in the format of the irrep tables (SpaceGroup.str, SymmetryOperation.str)."""
from fractions import Fraction as F
from .common import *
from .geom import *

ID = "C26"
BOUNDS = ("operations: one per kind of cubic, tetragonal, hexagonal lattices and groups of 2 to 4, any translation and shift, the listed transformations to the reference cell; spin matrices with any "
          "moduli and phases of one row (the other constant); read back by IrrepTable.")
ASSUMPTIONS = ["floating point treated as exact real arithmetic", "numbers claimed up to the 5 printed decimals"]
REF = [I3, [[1, 1, 0], [-1, 1, 0], [0, 0, 1]], [[0, 0, 1], [1, 0, 0], [0, 1, 0]]]


def tasks(tier):
    out = []
    for fam in ("cubic", "tetra", "hexa"):
        ops = point_ops(fam) if tier == "thorough" else distinct_kinds(fam)
        for a, A in enumerate(ops):
            out.append(dict(name="%s-%d" % (fam, a), params=dict(fam=fam, ops=[A], spinor=a % 2 == 0, number=14), opts=dict(budget=90, max_paths=300)))
    for g in ("2/m", "-1", "3"):
        out.append(dict(name="group-" + g.replace("/", "_"), params=dict(group=g, spinor=g != "3", number=1), opts=dict(budget=90, max_paths=300)))
    return out


def close(S, a, b, tol=F(6, 10**6)):
    return S.And(S.le(a - b, tol), S.le(b - a, tol))


def body(S, M, p):
    fam, rots = group(p["group"]) if "group" in p else (p["fam"], p["ops"])
    P = S.pick("reference cell", REF)
    if any(F(x).denominator != 1 for A in rots for r in mm(mm(iinv(P), A), P) for x in r):
        P = I3
    w = [S.real("w%d" % i, 0, 1) for i in range(3)] if S.pick("shift", [0, 1]) else [S.rat(0)] * 3
    ts, Us, vals = [], [], []
    for i in range(len(rots)):
        ts.append([S.real("t%d_%d" % (i, a), 0, F(999, 1000)) if i == 0 else S.rat(F(a + i, 8)) for a in range(3)])
        m = [S.real("m%d" % b, F(1, 10), 1) for b in range(2)] + [S.rat(1, 2), S.rat(1)] if i == 0 else [S.rat(1, 4), S.rat(1, 8), S.rat(1), S.rat(1, 2)]
        x = [S.real("x%d" % b, F(-999, 1000), 1) for b in range(2)] + [S.rat(1, 2), S.rat(-1, 4)] if i == 0 else [S.rat(0), S.rat(1), S.rat(-1, 2), S.rat(1, 3)]
        Us.append(S.array([[m[0] * S.E(x[0] / 2), m[1] * S.E(x[1] / 2)], [m[2] * S.E(x[2] / 2), m[3] * S.E(x[3] / 2)]]))
        vals.append((m, x))
    ops = [make_op(S, M, A, t=t, fam=fam, ind=i + 1, spinor=p["spinor"], U=U) for i, (A, t, U) in enumerate(zip(rots, ts, Us))]
    sg = make_sg(S, M, ops, refUC=S.array(P), shiftUC=S.array(w), name="P2_1/c", number=p["number"], spinor=p["spinor"])
    r = S.call(sg.str)
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    text = r.val
    lines = text.split("symmetries=\n", 1)
    S.check("header with the operations after it", len(lines) == 2, text[:60])
    if len(lines) != 2:
        return
    S.file_text("template.dat", text)
    r = S.call(M.irreptables.IrrepTable, p["number"], p["spinor"], name="template.dat")
    S.check("the file can be read as an irrep table", r.ok, r.err)
    if not r.ok:
        return
    tb = r.val
    S.check("name, number of operations", (tb.name, tb.nsym) == ("P2_1/c", len(rots)), (tb.name, tb.nsym))
    S.check("all the operations", len(tb.symmetries) == len(rots), len(tb.symmetries))
    rows = [l.split() for l in lines[1].splitlines() if l.strip()]
    if len(tb.symmetries) != len(rots) or len(rows) != len(rots):
        S.check("one line per operation", False, len(rows))
        return
    Pi = iinv(P)
    for o, A, t, (m, x), row in zip(tb.symmetries, rots, ts, vals, rows):
        S.check("rotation in the reference cell", S.eq(S.array(o.R), S.array(mm(mm(Pi, A), P))))
        d = [t[i] + sum((A[i][j] * w[j] for j in range(3)), S.rat(0)) - w[i] for i in range(3)]
        for i in range(3):
            S.check("translation in the reference cell", close(S, o.t[i], sum((S.rat(Pi[i][j]) * d[j] for j in range(3)), S.rat(0))))
        if p["spinor"] or len(row) > 12:
            S.check("spin matrix: four moduli and four phases", len(row) == 20, len(row))
            if len(row) == 20:
                n = [S.value(v)[0] for v in row[12:]]
                S.check("moduli", S.And(*[close(S, a, b) for a, b in zip(n[:4], m)]), row[12:16])
                S.check("phases in units of pi", S.And(*[close(S, a, b) for a, b in zip(n[4:], x)]), row[16:])
                if p["spinor"]:
                    for a, b, u in zip(n[:4], n[4:], S.array(o.S).reshape(-1)):
                        S.check("spin matrix read back", S.And(close(S, (a * S.E(b / 2)).real, u.real), close(S, (a * S.E(b / 2)).imag, u.imag)))
