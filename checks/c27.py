"""C27 -- dictionaries for the JSON output (Kpoint.json, BandStructure.json, SpaceGroup.json, SymmetryOperation.json_dict)."""
from fractions import Fraction as F
from .common import *
from .geom import *
from .bands import *

ID = "C27"
BOUNDS = ("k-points with levels 1+1+1, 2+1, 1+2, 3, 1+2+1 and 1 to 4 operations, any energies, complex traces in both cells and complex multiplicities; band structures of 1 to 3 k-points with any "
          "coordinates, with and without labels; operations: one per kind of cubic, tetragonal and hexagonal lattices with any translation, sign and the listed transformations with any shift; "
          "all selections of the operations among the listed ones.")
ASSUMPTIONS = ["floating point treated as exact real arithmetic", "writing of the dictionary to the file is done by the library monty (outside)"]
GR = {"111": (1, 1, 1), "21": (2, 1), "12": (1, 2), "3": (3,), "121": (1, 2, 1)}
OPS = {1: ("tric", "1"), 2: ("tric", "-1"), 3: ("hexa", "3"), 4: ("mono", "2/m")}
REF = [I3, [[1, 1, 0], [-1, 1, 0], [0, 0, 1]], [[0, 1, 1], [1, 0, 1], [1, 1, 0]]]


def tasks(tier):
    out = []
    for i, g in enumerate(GR):
        for n in (1, 2, 3, 4):
            if tier == "thorough" or (n + i) % 2:
                out.append(dict(name="kp-%s-%d" % (g, n), body="kpoint", params=dict(g=GR[g], n=n), opts=dict(budget=100, max_paths=900)))
    for nk in (1, 2, 3):
        out.append(dict(name="bands-%d" % nk, body="bands", params=dict(nk=nk), opts=dict(budget=60, max_paths=300)))
    for fam in ("cubic", "tetra", "hexa"):
        kinds = distinct_kinds(fam)
        for a in range(len(kinds)):
            out.append(dict(name="op-%s-%d" % (fam, a), body="oper", params=dict(fam=fam, A=kinds[a]), opts=dict(budget=60, max_paths=150)))
    for name in ("2/m", "-1"):
        out.append(dict(name="sg-" + name.replace("/", "_"), body="sgroup", params=dict(group=name), opts=dict(budget=60, max_paths=150)))
    return out


def kpoint(S, M, p):
    g, n = p["g"], p["n"]
    fam, name = OPS[n]
    inds = S.pick("indices", [list(range(1, n + 1)), [2, 5, 9, 30][:n]])
    ops = [make_op(S, M, r, fam=fam, ind=i, spinor=False) for r, i in zip(group(name)[1], inds)]
    e, mean, x = [], [], S.real("e", -20, 20)
    for q, m in enumerate(g):
        if q:
            x = x + S.real("d%d" % q, F(1, 100), 5)
        lev = [x]
        for b in range(1, m):
            x = x + S.real("s%d_%d" % (q, b), 0, F(1, 1000))
            lev.append(x)
        mean.append(sum(lev, S.rat(0)) / m)
        e += lev
    c1 = [[S.cplx("c%d%d" % (q, j)) for j in range(n)] for q in range(len(g))]
    diff = S.pick("traces in the reference cell", ["same", "one differs", "any"])
    c2 = [list(r) for r in c1]
    dist = S.rat(0)
    if diff == "one differs":
        q, j = S.pick("level", list(range(len(g)))), S.pick("operation", list(range(n)))
        dist = S.real("d", F(-1, 100), F(1, 100))
        S.assume(S.Or(abs(dist) < F(99, 10**6), abs(dist) > F(101, 10**6)))
        c2[q][j] = c2[q][j] + dist * (1 if (q + j) % 2 else S.I)
    elif diff == "any":
        c2 = [[S.cplx("r%d%d" % (q, j)) for j in range(n)] for q in range(len(g))]
    kp = make_kpoint(S, M, e, char=c1, ops=ops, k=[S.real("k%d" % i, -1, 1) for i in range(3)], thresh=S.rat(1, 500))
    kp.little_group = ops
    kp.char_refUC = S.array(c2)
    known = S.pick("irreps", [True, False])
    kp.onlytraces = not known
    mult = [{lab: S.cplx("m%d%s" % (q, lab)) for lab in labs} for q, labs in zip(range(len(g)), (["-GM1", "GM2"], ["X1+"], ["A1"]))]
    kp.irreps = mult if known else ["None"] * len(g)
    r = S.call(kp.json)
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    d = r.val
    S.check("indices of the operations of the little group", [int(v) for v in d["symmetries"]] == inds, d["symmetries"])
    S.check("energies of the levels and of the bands", len(d["energies_mean"]) == len(g) and len(d["energies_raw"]) == len(e) and
            S.And(*[S.eq(a, b) for a, b in zip(d["energies_mean"], mean)], *[S.eq(a, b) for a, b in zip(d["energies_raw"], e)]))
    S.check("dimensions of the levels", [int(v) for v in d["dimensions"]] == list(g), d["dimensions"])
    S.check("traces in the DFT cell", S.eq(S.array(d["characters"]), S.array(c1)))
    S.check("traces in the reference cell", S.eq(S.array(d["characters refUC"]), S.array(c2)))
    if known:
        S.check("irreps of each level: labels", d["irreps"] is not None and [list(x) for x in d["irreps"]] == [list(x) for x in mult], d["irreps"])
        if d["irreps"] is not None and [list(x) for x in d["irreps"]] == [list(x) for x in mult]:
            S.check("irreps of each level: multiplicities as real and imaginary part",
                    S.And(*[S.And(S.eq(x[l][0], m[l].real), S.eq(x[l][1], m[l].imag)) for x, m in zip(d["irreps"], mult) for l in m]))
    else:
        S.check("irreps not identified", d["irreps"] is None, d["irreps"])
    if diff != "any":
        S.check("flag of equal traces: all differences below 1e-4", S.eq(1 if d["characters refUC is the same"] else 0, S.ite(abs(dist) < F(1, 10**4), S.rat(1), S.rat(0))))


class KP:
    def __init__(self, i, k, e, up, odd):
        self.ik0, self.k, self.upper, self.num_bandinvs = i + 1, k, up, odd
        self.Energy_mean = self.Energy_raw = e
        self.tag = {"id": i}

    def json(self):
        return dict(self.tag)


def bands(S, M, p):
    nk = p["nk"]
    kps = [KP(i, S.array([S.real("k%d_%d" % (i, a), -1, 1) if (a + i) % 2 == 0 or i else S.rat(0) for a in range(3)]) if nk < 3 else S.array([S.real("k%d" % i, -1, 1), S.rat(0), S.rat(0)]),
              S.array([S.real("e%d" % i, -5, 5)]), S.real("u%d" % i, 5, 10), i) for i in range(nk)]
    bs = make_bands(S, M, kps, rec=S.array([[S.real("b0", F(1, 10), 3), 0, 0], [0, 1, 0], [0, 0, 2]]))
    names = S.pick("labels", [None, ["GM", "X", "L"][:nk]])
    r = S.call(bs.json, *([] if names is None and S.pick("argument", [0, 1]) else [names]))
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    d = r.val
    line = S.call(bs.KPOINTSline)
    S.check("one entry per k-point, in order", [x.get("id") for x in d["k points"]] == list(range(nk)), d["k points"])
    if [x.get("id") for x in d["k points"]] != list(range(nk)) or not line.ok:
        return
    S.check("position along the path", S.And(*[S.And(S.eq(x["kp in line"], v), S.eq(w, v)) for x, v, w in zip(d["k points"], line.val, d["kpoints line"])]) and len(d["kpoints line"]) == nk)
    S.check("label of each k-point", [x["kpname"] for x in d["k points"]] == (names or [None] * nk), [x["kpname"] for x in d["k points"]])
    gi, gd = d["indirect gap (eV)"], d["Minimal direct gap (eV)"]
    hi, lo = [k.upper for k in kps], [k.Energy_mean[-1] for k in kps]
    S.check("gaps", S.And(*[S.le(gi, a - b) for a in hi for b in lo], S.Or(*[S.eq(gi, a - b) for a in hi for b in lo]), *[S.le(gd, a - b) for a, b in zip(hi, lo)],
                          S.Or(*[S.eq(gd, a - b) for a, b in zip(hi, lo)])))


def operation_ok(S, d, op, A, t, sign, P, w):
    Pi = S.np.linalg.inv(S.array(P) * S.rat(1))
    Ar = S.array(A)
    S.check("rotation and translation in the DFT cell", S.And(S.eq(S.array(d["rotation matrix"]), Ar), S.eq(S.array(d["translation"]), S.array(t))))
    R = Pi.dot(Ar).dot(S.array(P))
    S.check("rotation in the reference cell", S.eq(S.array(d["rotation matrix refUC"]), R))
    # same isometry with the origin of the reference cell, lattice translations of the reference cell removed
    tt = Pi.dot(S.array(t) + Ar.dot(S.array(w)) - S.array(w))
    S.check("translation in the reference cell, modulo its lattice", S.And(*[S.eq(S.E(a - b), 1) for a, b in zip(d["translation refUC"], tt)]))
    S.check("sign and inversion", S.And(S.eq(d["sign"], sign), bool(d["inversion"]) == bool(op_kind(A)[1])), (d["sign"], d["inversion"]))
    S.check("angle in units of pi, and its text, as in the operation", S.And(S.eq(d["angle pi"] * S.pi, op.angle), d["angle str"] == op.angle_str, S.eq(S.array(d["axis"]), S.array(op.axis))))
    fold = op_kind(A)[0]
    S.check("angle is a multiple of the turn of the order", S.Or(*[S.eq(d["angle pi"], F(2 * m, fold)) for m in range(-fold, fold + 1)]))


def ref_cell(S):
    P = S.pick("reference cell", REF)
    w = [S.real("w%d" % i, 0, 1) for i in range(3)]
    return P, w


def oper(S, M, p):
    A = p["A"]
    t = [S.real("t%d" % i, 0, F(9, 10)) for i in range(3)]
    P, w = ref_cell(S)
    Pi = S.np.linalg.inv(S.array(P) * S.rat(1))
    op = make_op(S, M, A, t=t, fam=p["fam"], ind=4)
    op.sign = S.pick("sign", [1, -1])
    # the rotation must be integer in the reference cell
    Rc = [[sum(F(x) * y for x, y in zip(r, c)) for c in zip(*P)] for r in mm(iinv(P), A)]
    if any(F(x).denominator != 1 for r in Rc for x in r):
        P, w = I3, w
    r = S.call(op.json_dict, S.array(P), S.array(w))
    S.check("runs", r.ok, r.err)
    if r.ok:
        operation_ok(S, r.val, op, A, t, op.sign, P, w)


def sgroup(S, M, p):
    fam, rots = group(p["group"])
    inds = S.pick("indices", [list(range(1, len(rots) + 1)), [4, 2, 9, 7][:len(rots)]])
    ts = [[S.real("t%d_%d" % (i, a), 0, F(9, 10)) for a in range(3)] for i in range(len(rots))]
    ops = [make_op(S, M, r, t=t, fam=fam, ind=i) for r, t, i in zip(rots, ts, inds)]
    for i, o in enumerate(ops):
        o.sign = -1 if i % 2 else 1
    P = S.pick("reference cell", [I3, [[1, 1, 0], [0, 1, 0], [0, 0, 1]] if p["group"] == "-1" else [[-1, 0, 0], [0, 1, 0], [0, 0, -1]]])
    w = [S.real("w%d" % i, 0, 1) for i in range(3)] if S.pick("shift", [0, 1]) else [S.rat(0)] * 3
    for x in w:
        if x is not None:
            S.assume(S.Or(S.eq(x, 0), x > F(1, 1000)))
    sp = S.pick("spinor", [True, False])
    sg = make_sg(S, M, ops, refUC=S.array(P), shiftUC=S.array(w), name="X 1", number=17, spinor=sp)
    want = S.pick("selection", [None, inds[:1], inds[::-1], [100]])
    r = S.call(sg.json, *([] if want is None else [want]))
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    d = r.val
    S.check("name, number, spin and order", (d["name"], d["number"], bool(d["spinor"]), d["num symmetries"]) == ("X 1", 17, sp, len(ops)))
    same = S.And(P == I3, *[S.eq(x, 0) for x in w])
    S.check("flag of equal cells", S.eq(1 if d["cells match"] else 0, S.ite(same, S.rat(1), S.rat(0))) if not isinstance(same, bool) else bool(d["cells match"]) == same)
    keys = [i for i in inds if want is None or i in want]
    S.check("the selected operations, all by default", [int(x) for x in d["symmetries"]] == keys, list(d["symmetries"]))
    if [int(x) for x in d["symmetries"]] == keys:
        for i in keys:
            q = inds.index(i)
            operation_ok(S, d["symmetries"][i], ops[q], rots[q], ts[q], ops[q].sign, P, w)
