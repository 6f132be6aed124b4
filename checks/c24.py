"""C24 -- trace.txt, the input of CheckTopologicalMat (write_trace of BandStructure, SpaceGroup and Kpoint)."""
from fractions import Fraction as F
from .common import *
from .geom import *
from .bands import *

ID = "C24"
BOUNDS = ("1 to 4 operations of the listed point groups with any translations and spin matrices, in any of the listed orders of indices; 1 to 3 k-points with any little group (subset of the operations), "
          "4 bands in the groupings 1+1+1+1, 1+2+1, 2+1+1, 1+3, 2+2, 4; any coordinates, energies and complex traces; scalar and spinor; identity and other transformations to the reference cell (not used).")
ASSUMPTIONS = ["floating point treated as exact real arithmetic", "numbers claimed up to the printed decimals"]
GR = [(1, 2, 1), (2, 1, 1), (4,), (1, 3), (1, 1, 1, 1), (2, 2)]
NB = 4
OPS = {"2/m": ("mono", [0, 1, 2, 3]), "3": ("hexa", [0, 1, 2]), "4mm": ("tetra", [0, 5, 2, 7]), "1": ("tric", [0])}


def tasks(tier):
    out = []
    for name, (fam, sel) in OPS.items():
        for sp in (False, True):
            for nk in (1, 2, 3) if tier == "thorough" or name == "2/m" else (2,):
                out.append(dict(name="%s-%s-%d" % (name.replace("/", "_"), "spin" if sp else "scal", nk), params=dict(group=name, spinor=sp, nk=nk), opts=dict(budget=120, max_paths=400)))
    out.append(dict(name="uneven", body="uneven", params={}, opts=dict(budget=60, max_paths=50)))
    return out


def body(S, M, p):
    sp, nk = p["spinor"], p["nk"]
    fam, sel = OPS[p["group"]]
    ops_all = group(p["group"])[1]
    rots = [ops_all[i % len(ops_all)] for i in sel]
    inds = S.pick("indices", [list(range(1, len(sel) + 1)), [7, 3, 11, 5][:len(sel)]])
    ts = [[S.real("t%d_%d" % (i, a), -1, 1) for a in range(3)] for i in range(len(sel))]
    Us = [S.array([[S.cplx("u%d_%d%d" % (i, a, b)) for b in range(2)] for a in range(2)]) for i in range(len(sel))]
    ops = [make_op(S, M, r, t=t, fam=fam, ind=i, spinor=sp, U=U) for r, t, i, U in zip(rots, ts, inds, Us)]
    ref = S.pick("reference cell", [0, 1])
    sg = make_sg(S, M, ops, spinor=sp, L=lattice(S, fam, symbolic=False), refUC=S.array([[1, 1, 0], [-1, 1, 0], [0, 0, 1]] if ref else I3),
                 shiftUC=S.array([S.rat(1, 4), 0, S.rat(1, 2)] if ref else [0, 0, 0]))
    kps, info = [], []
    for i in range(nk):
        g = GR[(i + S.pick("grouping", list(range(6)))) % 6] if i == 0 else GR[(i + nk) % 6]
        little = [[0], list(range(len(ops))), [len(ops) - 1, 0][:len(ops)]][(i + nk + sp) % 3]
        k = [S.real("k%d_%d" % (i, a), -1, 1) for a in range(3)]
        e, x = [], S.real("e%d" % i, -20, 20)
        for q, m in enumerate(g):
            if q:
                x = x + S.real("d%d_%d" % (i, q), F(1, 100), 5)
            e += [x] * m
        ch = [[S.cplx("c%d_%d_%d" % (i, q, j)) for j in little] for q in range(len(g))]
        kp = make_kpoint(S, M, e, k=k, ik=i, ops=[ops[j] for j in little], char=ch, spinor=sp, WF=None if not sp else S.array([[1 if a == b else 0 for a in range(2 * NB)] for b in range(NB)]) * (1 + 0 * S.I),
                         ig=None if not sp else S.array([[q if r == 0 else 0 if r != 5 else NB for q in range(NB)] for r in range(6)]))
        kp.little_group = [ops[j] for j in little]
        # the trace file is in the DFT cell, whatever the traces in the reference cell
        kp.k_refUC = S.array([S.rat(9, 8), S.rat(9, 8), S.rat(9, 8)])
        kp.char_refUC = S.array([[S.rat(7) + 0 * S.I for _ in little] for _ in g])
        kps.append(kp)
        info.append((k, g, little, e, ch))
    bs = make_bands(S, M, kps, spinor=sp, sg=sg)
    r = S.call(bs.write_trace)
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    t = S.read_file("trace.txt")
    S.check("file trace.txt written", t is not None)
    if t is None:
        return
    w = t.split()
    pos = [0]

    def nxt(n):
        x = w[pos[0]:pos[0] + n]
        pos[0] += n
        return x

    def ints(*v):
        return nxt(len(v)) == [str(x) for x in v]

    S.check("header: number of bands, spin-orbit flag, number of operations", ints(NB, int(sp), len(ops)), w[:3])
    for R, tt, U in zip(rots, ts, Us):
        S.check("operation: rotation of the DFT cell, row by row", ints(*[x for row in R for x in row]), w[:30])
        x = nxt(3)
        S.check("operation: translation of the DFT cell", len(x) == 3 and S.And(*[S.textnum(a, b, 5) for a, b in zip(x, tt)]), x)
        line = [l.split() for l in t.split("\n")][3 + rots.index(R)]
        if sp or len(line) > 12:
            x = nxt(8)
            S.check("operation: spin matrix as real and imaginary parts", len(x) == 8 and
                    S.And(*[S.textnum(a, b, 5) for a, b in zip(x, [c for q in range(2) for s in range(2) for c in (U[q, s].real, U[q, s].imag)])]), x)
    S.check("number of k-points", ints(nk), w[pos[0] - 1:pos[0]])
    for k, *_ in info:
        x = nxt(3)
        S.check("coordinates of the k-points in the DFT cell", len(x) == 3 and S.And(*[S.textnum(a, b, 5) for a, b in zip(x, k)]), x)
    for k, g, little, e, ch in info:
        S.check("little group: order and indices", ints(len(little), *[inds[j] for j in little]), w[pos[0] - 5:pos[0]])
        ib = 0
        for m, c in zip(g, ch):
            S.check("level: first band and dimension", ints(ib + 1, m), w[pos[0] - 2:pos[0]])
            x = nxt(1 + 2 * len(little))
            S.check("level: energy and traces of the operations of the little group", len(x) == 1 + 2 * len(little) and S.And(
                S.textnum(x[0], e[ib], 4), *[S.textnum(a, b, 5) for a, b in zip(x[1:], [v for z in c for v in (z.real, z.imag)])]), x)
            ib += m
    S.check("nothing else in the file", pos[0] == len(w), (pos[0], len(w)))
    rows = [l for l in t.split("\n") if l.strip()]
    S.check("one line per record", len(rows) == 3 + len(ops) + 1 + nk + sum(2 + len(g) for _, g, _, _, _ in info), len(rows))


def uneven(S, M, p):
    """k-points with different numbers of bands cannot be described by the file"""
    e = [S.real("e%d" % i, -20, 20) for i in range(2)]
    S.assume(e[1] - e[0] > S.rat(1, 100))
    a, b = make_kpoint(S, M, e), make_kpoint(S, M, e[:1])
    order = S.pick("order", [0, 1])
    ops = [make_op(S, M, I3)]
    bs = make_bands(S, M, [a, b] if order else [b, a], sg=make_sg(S, M, ops))
    r = S.call(bs.write_trace)
    S.check("different numbers of bands are refused", not r.ok and r.raised(RuntimeError), r.err)
