"""C14 -- irreps and multiplicities of levels (identify_irreps)."""
from fractions import Fraction as F
from .common import *
from .geom import *

ID = "C14"
BOUNDS = ("little groups with the character tables of 1, -1, C2, C2v, C3, D3, C4, D2 double, C2h and D4h-like products; operations with non-contiguous indices, tables with "
          "characters for more operations than the little group; tables and traces multiplied by any common phase per operation (non-symmorphic factors); 1 to 3 levels "
          "with any multiplicities 0..2 of every irrep and noise of two independent amplitudes below 1e-4 spread over the operations.")
ASSUMPTIONS = ["floating point treated as exact real arithmetic", "the phase factors have modulus one"]
# rows: irreps, columns: operations; entries a, or (a, n/3 turn) for roots of unity
TABS = {
    "1": [[1]],
    "-1": [[1, 1], [1, -1]],
    "mm2": [[1, 1, 1, 1], [1, 1, -1, -1], [1, -1, 1, -1], [1, -1, -1, 1]],
    "3": [[1, 1, 1], [1, (1, 3), (2, 3)], [1, (2, 3), (1, 3)]],
    "4": [[1, 1, 1, 1], [1, -1, 1, -1], [1, (1, 4), (2, 4), (3, 4)], [1, (3, 4), (2, 4), (1, 4)]],
    "32": [[1, 1, 1, 1, 1, 1], [1, 1, 1, -1, -1, -1], [2, -1, -1, 0, 0, 0]],
    "4mm": [[1, 1, 1, 1, 1, 1, 1, 1], [1, 1, 1, 1, -1, -1, -1, -1], [1, -1, 1, -1, 1, 1, -1, -1], [1, -1, 1, -1, -1, -1, 1, 1], [2, 0, -2, 0, 0, 0, 0, 0]],
    "d222": [[2, 0, 0, 0]],
    "6": [[1] + [(n * m, 6) for m in range(1, 6)] for n in range(6)],
    "d3": [[1, -1, 1], [1, (1, 6), (1, 3)], [1, (5, 6), (2, 3)]],
}


def tasks(tier):
    out = []
    for g in ["1", "-1", "mm2", "3", "4", "32", "d222", "d3"] + (["4mm", "6"] if tier == "thorough" else []):
        n = len(TABS[g])
        lv = 3 if n == 1 else 2 if n == 2 else 1
        out.append(dict(name="irreps-%s" % g, params=dict(g=g, levels=lv), opts=dict(budget=150 if tier == "quick" else 600, max_paths=1500)))
    out.append(dict(name="traces-only", body="only", params=dict(), opts=dict(budget=60)))
    out.append(dict(name="incomplete", body="incomplete", params=dict(), opts=dict(budget=60)))
    return out


def kpoint(S, M, inds, char, fam="cubic", deg=None):
    energies = [i for i, d in enumerate(deg or [1] * len(char)) for _ in range(d)]
    nb = len(energies)
    ops = []
    for i in inds:
        o = make_op(S, M, I3, ind=i, spinor=False)
        ops.append(o)
    one = S.array([[1 if a == b else 0 for a in range(nb)] for b in range(nb)]) * (1 + 0 * S.I)
    ig = S.array([[i if r == 0 else 0 if r != 5 else nb for i in range(nb)] for r in range(6)])
    kp = M.kpoint.Kpoint(ik=0, num_bands=nb, RecLattice=S.array(I3), symmetries_SG=ops, spinor=False, kpt=S.array([0, 0, 0]) * S.rat(1), WF=one,
                         Energy=S.array(energies) * S.rat(1), ig=ig)
    kp.char = S.array(char)
    kp.char_refUC = S.array(char)
    kp.Energy_mean = S.array(list(range(len(char)))) * S.rat(1)
    return kp


def value(S, x):
    return S.rat(x) if not isinstance(x, tuple) else S.E(S.rat(F(x[0], x[1])))


def body(S, M, p):
    T = TABS[p["g"]]
    nop = len(T[0])
    inds = [2 * i + 1 for i in range(nop)]
    ph = [S.phase("f%d" % i) if i else S.rat(1) for i in range(nop)]
    table = {}
    for n, row in enumerate(T):
        d = {i: value(S, x) * q for i, x, q in zip(inds, row, ph)}
        d[2] = S.rat(7)
        d[2 * nop + 5] = S.rat(-3)
        table["A%d" % n] = dict(sorted(d.items()))
    want, char = [], []
    eps = F(2, 10**4)
    for lev in range(p["levels"]):
        mult = [S.int("n%d_%d" % (lev, n), 0, 2) for n in range(len(T))]
        want.append(mult)
        e, h = S.real("e%d" % lev, -eps / 2, eps / 2), S.real("h%d" % lev, -eps / 2, eps / 2)
        char.append([(sum((m * value(S, row[i]) for m, row in zip(mult, T)), S.rat(0))
                      + (e if i == 0 else e + h * S.I if i == 1 else h * (i - 2))) * ph[i] for i in range(nop)])
    kp = kpoint(S, M, inds, char)
    r = S.call(kp.identify_irreps, table)
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    S.check("one entry per level", len(kp.irreps) == p["levels"])
    S.check("marked as identified", kp.onlytraces is False)
    if len(kp.irreps) != p["levels"]:
        return
    for lev in range(p["levels"]):
        for n in range(len(T)):
            name = "A%d" % n
            if name in kp.irreps[lev]:
                m = kp.irreps[lev][name]
                S.check("an irrep that is listed occurs", want[lev][n] > 0)
                S.check("multiplicity: the number of times it occurs", S.And(S.abs(m.real - want[lev][n]) <= 4 * eps, S.abs(m.imag) <= 4 * eps))
            else:
                S.check("an irrep that is not listed does not occur", S.eq(want[lev][n], 0))
        S.check("irreps of the table only", set(kp.irreps[lev]) <= set(table))


def only(S, M, p):
    n = S.pick("levels", [1, 2, 3])
    kp = kpoint(S, M, [1], [[S.rat(1)]] * n, deg=S.pick("degeneracies", [[1, 1, 1], [2, 1, 3], [1, 2, 1]])[:n])
    r = S.call(kp.identify_irreps)
    S.check("runs", r.ok, r.err)
    if r.ok:
        S.check("without a table every level is listed as unidentified", list(kp.irreps) == ["None"] * n, kp.irreps)
        S.check("marked as traces only", kp.onlytraces is True)


def incomplete(S, M, p):
    kp = kpoint(S, M, [1, 3], [[S.rat(1), S.rat(1)]])
    r = S.call(kp.identify_irreps, {"A": {1: S.rat(1), 2: S.rat(1)}})
    S.check("a table without an operation of the little group is refused", r.raised(KeyError), r.err)
