"""C09 -- permutation of plane waves under an operation (transformed_g)."""
from fractions import Fraction as F
from .common import *
from .waves import *

ID = "C09"
BOUNDS = ("operations: one per kind in quick, every operation in thorough, of cubic, hexagonal, fcc, bcc and rhombohedral lattices; invariant k-points "
          "k0 + u v + noise (u any real in [-1,1], noise e below 1e-6 per component that moves the image by less than 9e-9, or 9e-7 where the image differs from k by a reciprocal vector: coordinates such as 0.3333333), non-invariant k any real vector in [-1,1]^3 whose image differs by at "
          "least 1e-3 from an equivalent point; plane-wave sets of 4 orbits (up to 24 waves) with two orbits interleaved in one energy block; one wave "
          "missing at any position; shells of 30 and 72 waves of the same energy at k = 0 up to noise.")
ASSUMPTIONS = ["floating point treated as exact real arithmetic"]
FAMS = ["cubic", "hexa", "fcc", "bcc", "rhomb"]


def tasks(tier):
    out = []
    for fam in FAMS:
        ops = point_ops(fam) if tier == "thorough" else distinct_kinds(fam)
        for k, A in enumerate(ops):
            out.append(dict(name="%s-%d" % (fam, k), params=dict(A=A, extra=tier == "thorough"), opts=dict(budget=120, max_paths=200)))
            if A != I3:
                out.append(dict(name="%s-%d-not" % (fam, k), body="notsym", params=dict(A=A), opts=dict(budget=120, max_paths=200)))
    for k, A in enumerate([[[0, 0, 1], [1, 0, 0], [0, 1, 0]], [[0, -1, 0], [1, 0, 0], [0, 0, 1]], INV]):
        out.append(dict(name="shell-%d" % k, body="shell", params=dict(A=A), opts=dict(budget=120, max_paths=20)))
    return out


def shell(S, M, p):
    """72 waves of the same energy after 30 others, and one wave without partner among them"""
    import itertools
    A = p["A"]
    B = recip(A)
    orb = lambda *gs: sorted({tuple(s * x for s, x in zip(sg, q)) for g in gs for q in itertools.permutations(g) for sg in itertools.product((1, -1), repeat=3)},
                             key=lambda g: (g[0] * 7 + g[1] * 3 + g[2] * 5) % 11)
    e = [S.real("e%d" % i, F(-1, 10**9), F(1, 10**9)) for i in range(3)]
    blocks = [orb((3, 0, 0), (2, 2, 1)), orb((5, 1, 0), (4, 3, 1))]
    drop = S.pick("missing", [None, (1, 3, 4), (0, 1, 5)])
    if drop is not None:
        blocks[1] = [g for g in blocks[1] if g != drop]
    gs = [g for b in blocks for g in b]
    r = S.call(M.gvectors.transformed_g, S.array(e), S.array(ig_table(blocks)), S.array([[2, 0, 0], [0, 2, 0], [0, 0, 2]]), S.array(A))
    if drop is not None and tuple(mv(B, drop)) != drop:
        S.check("a wave without partner is reported", r.raised(RuntimeError), r.err)
        return
    S.check("runs", r.ok, r.err)
    if r.ok:
        rot = [int(x) for x in r.val]
        S.check("wave i goes to wave rotind[i]", len(rot) == len(gs) and all(gs[rot[i]] == tuple(int(x) for x in mv(B, gs[i])) for i in range(len(gs))))


def body(S, M, p):
    A = p["A"]
    B = recip(A)
    k0, v = S.pick("k", invariant_kpoints(A, p["extra"]))
    u = S.real("u", -1, 1) if v is not None else 0
    noise = F(1, 10**6)
    e = [S.real("e%d" % i, -noise, noise) for i in range(3)]
    dk = [a - b for a, b in zip(mv(B, k0), k0)]
    for x, d, y in zip(mv_s(B, e), dk, e):
        lim = F(9, 10**7) if d else F(9, 10**9)
        S.assume(x - y <= lim)
        S.assume(y - x <= lim)
    k = S.array([S.rat(k0[i]) + (u * v[i] if v is not None else 0) + e[i] for i in range(3)])
    blocks = plane_waves(A, k0, SEEDS)
    gs = [g for b in blocks for g in b]
    drop = S.pick("missing", [None, 0, len(gs) - 1, len(gs) // 2])
    Rec = S.array([[2, 0, 0], [0, 2, 0], [0, 0, 2]])
    dk = [a - b for a, b in zip(mv(B, k0), k0)]
    image = {g: tuple(int(a + b) for a, b in zip(mv(B, g), dk)) for g in gs}
    if drop is not None:
        g = gs[drop]
        blocks = [[x for x in b if x != g] for b in blocks]
        blocks = [b for b in blocks if b]
        alone = image[g] == g
        gs = [x for x in gs if x != g]
        r = S.call(M.gvectors.transformed_g, k, S.array(ig_table(blocks)), Rec, S.array(A))
        if not alone:
            S.check("a wave without partner is reported", r.raised(RuntimeError), r.err)
            return
    else:
        r = S.call(M.gvectors.transformed_g, k, S.array(ig_table(blocks)), Rec, S.array(A))
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    rot = [int(x) for x in r.val]
    S.check("a permutation", sorted(rot) == list(range(len(gs))), rot)
    S.check("wave i goes to wave rotind[i]", len(rot) == len(gs) and all(gs[rot[i]] == image[gs[i]] for i in range(len(gs)) if rot[i] < len(gs)))


def notsym(S, M, p):
    A = p["A"]
    B = recip(A)
    k = [S.real("k%d" % i, -1, 1) for i in range(3)]
    d = [a - b for a, b in zip(mv_s(B, k), k)]
    S.assume(S.Or(*[S.abs(x - S.round(x)) >= F(1, 1000) for x in d]))
    blocks = plane_waves(A, [F(0)] * 3, SEEDS[:3])
    Rec = S.array([[2, 0, 0], [0, 2, 0], [0, 0, 2]])
    r = S.call(M.gvectors.transformed_g, S.array(k), S.array(ig_table(blocks)), Rec, S.array(A))
    S.check("not a symmetry of k: refused", r.raised(M.gvectors.NotSymmetryError), r.err)
