"""C13 -- characters of the table transferred to the operations of the crystal (get_irreps_from_table)."""
from fractions import Fraction as F
from .common import *
from .geom import *

ID = "C13"
BOUNDS = ("point groups -1, 2/m, 222, 4, 3 (thorough also mm2, -4, 32); cells related by P, A, C, I, F and R-type matrices with any origin shift; all translations (crystal and "
          "table), signs and characters of the table symbolic; tables with three k-points (one label twice an irrep, characters only for a subset of the operations); "
          "k equal to the tabulated point up to any reciprocal lattice vector in -1..1 and noise below 1e-8, or different by at least 2e-4 in one coordinate.")
ASSUMPTIONS = ["floating point treated as exact real arithmetic", "coordinates of k at least 1e-7 away from the rounding points of the 5-digit comparison"]
REFS = {"P": I3, "A": [[1, 0, 0], [0, 1, 1], [0, -1, 1]], "C": [[1, 1, 0], [-1, 1, 0], [0, 0, 1]], "I": [[0, 1, 1], [1, 0, 1], [1, 1, 0]],
        "F": [[-1, 1, 1], [1, -1, 1], [1, 1, -1]], "R": [[1, 0, 1], [-1, 1, 1], [0, -1, 1]]}
KS = {"GM": ["0", "0", "0"], "X": ["1/2", "0", "0"], "M": ["1/2", "1/2", "0"], "R": ["1/2", "1/2", "1/2"], "P": ["1/4", "1/4", "1/4"], "K": ["1/3", "1/3", "0"],
      "H": ["2/3", "-1/3", "1/2"], "W": ["3/4", "1/4", "0"]}


def tasks(tier):
    out = []
    cases = [("-1", "P", "GM"), ("-1", "A", "R"), ("2/m", "C", "M"), ("2/m", "A", "X"), ("222", "F", "W"), ("222", "I", "P"), ("4", "I", "M"), ("4", "C", "R"),
             ("3", "R", "K"), ("3", "P", "H")]
    if tier == "thorough":
        cases += [(g, r, k) for g in ("mm2", "-4", "32") for r in REFS for k in ("X", "P", "K")]
    for g, r, k in cases:
        out.append(dict(name="%s-%s-%s" % (g.replace("/", ""), r, k), body="table", params=dict(g=g, ref=r, k=k), opts=dict(budget=150, max_paths=200)))
        out.append(dict(name="%s-%s-%s-refuse" % (g.replace("/", ""), r, k), body="refuse", params=dict(g=g, ref=r, k=k), opts=dict(budget=150, max_paths=200)))
    return out


def build(S, M, p):
    fam, ops = group(p["g"])
    B = REFS[p["ref"]]
    ref = S.array([[S.rat(x) for x in q] for q in B])
    refi = S.array([[S.rat(x) for x in q] for q in iinv(B)])
    sh = S.array([S.real("o%d" % i, -1, 1) for i in range(3)])
    n = len(ops)
    syms, tsyms = [], []
    for j, A in enumerate(ops):
        op = make_op(S, M, A, [S.real("t%d%d" % (j, i), 0, F(99, 100)) for i in range(3)], fam=fam, ind=j + 1)
        op.sign = S.pick("sign%d" % j, [1, -1]) if j in (1, n - 1) else 1
        syms.append(op)
        tsyms.append(Obj(R=S.array(A), t=S.array([S.real("u%d%d" % (j, i), -1, 1) for i in range(3)]), S=S.array([[1, 0], [0, 1]])))
    kt = S.array([S.rat(F(x)) for x in KS[p["k"]]])
    full = list(range(1, n + 1))
    part = [1] + [i for i in full if i % 2 == 0]
    irreps = []

    def irr(name, kp, k, inds):
        irreps.append(Obj(name=name, kpname=kp, k=k, dim=1, nsym=len(inds), reality=False,
                          characters={i: S.cplx("%s.%d" % (name, i)) for i in inds}))
    irr("A1", p["k"], kt, part)
    irr("B1", "B", S.array([S.rat(F(1, 8)), S.rat(0), S.rat(0)]), full)
    irr("A2", p["k"], kt, part)
    irr("C1", p["k"] + "A", kt, full)
    return Obj(number=1, spinor=True, symmetries=tsyms, irreps=irreps), ref, refi, sh, syms, kt, part


def run(S, M, p, noise, name=None):
    tab, ref, refi, sh, syms, kt, part = build(S, M, p)
    num = fresh_number()
    sg = make_sg(S, M, syms, tab.symmetries, refUC=ref, shiftUC=sh, number=num, spinor=True)
    asked = []
    # the same space group without spin-orbit coupling has another table
    other = Obj(number=num, spinor=False, symmetries=tab.symmetries, irreps=[Obj(name="X", kpname=p["k"], k=kt, dim=1, nsym=len(part), reality=False, characters={i: 1 for i in part})])

    def table(SGnumber, spinor, name=None, v=0):
        asked.append((SGnumber, spinor, name))
        return tab if spinor else other
    S.patch("spacegroup.IrrepTable", table)
    kd = S.array([[S.rat(x) for x in q] for q in iinv(REFS[p["ref"]])]).T.dot(kt)
    K = kd + S.array([S.int("g%d" % i, -1, 1) for i in range(3)]) + S.array(noise)
    if S.pick("scalar calculation before", [True, False]):
        S.call(make_sg(S, M, syms, tab.symmetries, refUC=ref, shiftUC=sh, number=num, spinor=False).get_irreps_from_table, p["k"], kd)
        S.check("table of the scalar space group", set(asked) == {(num, False, None)}, asked)
        del asked[:]
    r = S.call(sg.get_irreps_from_table, name or p["k"], K)
    S.check("table of this space group and kind of wave function", set(asked) == {(num, True, None)}, asked)
    return r, tab, ref, refi, sh, syms, kt, part


def table(S, M, p):
    e = [S.real("e%d" % i, F(-1, 10**8), F(1, 10**8)) for i in range(3)]
    r, tab, ref, refi, sh, syms, kt, part = run(S, M, p, e)
    S.check("label with the right coordinates is accepted", r.ok, r.err)
    if not r.ok:
        return
    S.check("irreps of this label only", sorted(r.val) == ["A1", "A2"], sorted(r.val))
    for n in ("A1", "A2"):
        if n not in r.val:
            return
        irr = [i for i in tab.irreps if i.name == n][0]
        S.check("operations of the little group of the table", sorted(r.val[n]) == part, sorted(r.val[n]))
        for i in part:
            if i not in r.val[n]:
                return
            t = refi.dot(syms[i - 1].translation + syms[i - 1].rotation.dot(sh) - sh)
            d = tab.symmetries[i - 1].t - t
            ph = S.E(d[0] * kt[0] + d[1] * kt[1] + d[2] * kt[2])
            S.check("character: table value, sign of the spinor operation, phase of the difference in translation",
                    S.eq(r.val[n][i], irr.characters[i] * syms[i - 1].sign * ph))


def refuse(S, M, p):
    if S.is_true(S.pick("what", [0, 1]) == 0):
        z = [S.rat(0)] * 3
        r = run(S, M, p, z, name=S.pick("label", ["ZZ", p["k"].lower(), p["k"] + "B", "A"]))[0]
        S.check("unknown label refused", r.raised(RuntimeError), r.err)
        return
    i = S.pick("axis", [0, 1, 2])
    z = [S.rat(0)] * 3
    z[i] = S.real("d", F(2, 10**4), F(9998, 10**4))
    r = run(S, M, p, z)[0]
    S.check("label of another k-point refused", r.raised(RuntimeError), r.err)
