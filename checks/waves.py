"""Plane-wave sets closed under an operation and the definition of its action on Bloch states."""
import itertools
from fractions import Fraction as F
from .common import *


def recip(A):
    """A^{-T}: action on reduced reciprocal coordinates"""
    Ai = iinv(A)
    return [[Ai[j][i] for j in range(3)] for i in range(3)]


def invariant_kpoints(A, extra=False):
    """[(k0, v)]: k = k0 + u v is left invariant (mod reciprocal lattice) by A, v fixed by A^{-T} (may be None)"""
    B = recip(A)
    dirs = [v for v in itertools.product((-1, 0, 1, 2), repeat=3) if any(v) and mv(B, v) == list(v)]
    dirs.sort(key=lambda v: (sum(abs(x) for x in v), [-x for x in v]))
    base = []
    cand = [F(0), F(1, 2), F(1, 3), F(2, 3), F(1, 4), F(-1, 2)]
    for k in itertools.product(cand, repeat=3):
        d = [a - b for a, b in zip(mv(B, k), k)]
        if all(x.denominator == 1 for x in map(F, d)):
            base.append((k, any(d)))
    base.sort(key=lambda x: (not x[1], [(c.denominator, c) for c in x[0]]))
    out = [((F(0),) * 3, dirs[0] if dirs else None)]
    nz = [b for b in base if b[1]]
    if nz:
        out.append((nz[0][0], dirs[0] if dirs else None))
        out.append((nz[-1][0], dirs[-1] if len(dirs) > 1 else None))
    if extra:
        for b in nz[1:6]:
            out.append((b[0], dirs[-1] if dirs else None))
    return out


def orbit(A, k0, g):
    """orbit of a plane wave under G -> A^{-T}(k0+G)-k0"""
    B = recip(A)
    dk = [a - b for a, b in zip(mv(B, k0), k0)]
    out, x = [], tuple(int(v) for v in g)
    while x not in out:
        out.append(x)
        x = tuple(int(a + b) for a, b in zip(mv(B, x), dk))
    return out


def plane_waves(A, k0, seeds):
    """blocks (list of lists of G): closed under the operation; the last two orbits share a block, interleaved"""
    orbs, seen = [], set()
    for s in seeds:
        if tuple(s) in seen:
            continue
        o = orbit(A, k0, s)
        seen |= set(o)
        orbs.append(o)
    blocks = [list(o) for o in orbs]
    if len(blocks) >= 2:
        a, b = blocks.pop(), blocks.pop()
        mix = []
        for x, y in itertools.zip_longest(a, b[::-1]):
            mix += [z for z in (x, y) if z is not None]
        blocks.append(mix)
    return blocks


def ig_table(blocks):
    rows = [[], [], [], [], [], []]
    n = 0
    for b in blocks:
        for g in b:
            for i in range(3):
                rows[i].append(g[i])
            rows[4].append(n)
            rows[5].append(n + len(b))
        n += len(b)
    rows[3] = list(range(n))
    return rows


SEEDS = [(0, 0, 0), (1, 0, 0), (0, 1, -1), (1, 1, 2)]


def wavefunctions(S, nb, npw, spinor, name="c"):
    return S.array([[S.cplx("%s%d_%d" % (name, b, g)) for g in range(npw * (2 if spinor else 1))] for b in range(nb)])


def bracket(S, WF, blocks, A, k, T, Smat, m, n, spinor):
    """<psi_m| {A|T} psi_n> from the definition  ({A|T}psi)(r) = S psi(A^{-1}(r-T))"""
    B, Ai = recip(A), iinv(A)
    gs = [g for b in blocks for g in b]
    idx = {g: i for i, g in enumerate(gs)}
    npw = len(gs)
    AiT = mv_s(Ai, T)
    tot = 0
    for i, g in enumerate(gs):
        kg = [k[a] + g[a] for a in range(3)]
        r = mv_s(B, kg)
        # image plane wave: r = k + g'
        gp = tuple(int(round(float_of(r[a] - k[a]))) for a in range(3))
        j = idx[gp]
        ph = S.E(-(AiT[0] * kg[0] + AiT[1] * kg[1] + AiT[2] * kg[2]))
        if spinor:
            for s in (0, 1):
                for t in (0, 1):
                    tot = tot + WF[m, j + s * npw].conjugate() * Smat[s, t] * WF[n, i + t * npw] * ph
        else:
            tot = tot + WF[m, j].conjugate() * WF[n, i] * ph
    return tot


def mv_s(m, v):
    return [m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2] for i in range(3)]


def float_of(x):
    c = x.const() if hasattr(x, "const") else x
    if c is None:
        raise RuntimeError("image of the k-point is not equivalent to it")
    return float(c)
