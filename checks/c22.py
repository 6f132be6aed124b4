"""C22 -- overlaps of neighbouring k-points, Zak phases and Wilson loops."""
import functools
from fractions import Fraction as F
from .common import *
from .geom import *
from .bands import *

ID = "C22"
BOUNDS = ("overlap: any coefficients of 2 and 1..2 bands, scalar and spinor, 5 and 4 plane waves in different orders and partly different, or the same ones around both k-points, k-points equal up to a listed reciprocal vector "
          "plus any displacement below 1/2; Zak phases: 2 to 4 k-points, 1 to 3 bands (the same number at every k-point, or different ones as after a separation), any overlap matrices with non-zero leading minors, any energies; Wilson loop: 2 to 4 k-points, 1 to 2 "
          "bands, any overlaps (singular values and unitaries of the parametrised family).")
ASSUMPTIONS = ["floating point treated as exact real arithmetic", "Zak phases and Wilson loops take the overlaps between neighbouring k-points as an input; the overlaps are decided separately",
               "singular value decomposition and eigenvalues replaced by their specification"]


def tasks(tier):
    out = []
    for sp in (False, True):
        for g in ((0, 0, 0), (1, 0, 0), (-1, 2, 0), (0, 0, 1)):
            out.append(dict(name="overlap-%s-%d%d%d" % (("spin" if sp else "scal",) + g), body="overlap", params=dict(spinor=sp, g=g, sets="some"), opts=dict(budget=60, max_paths=50)))
    for ax in range(3):
        for sg in (1, -1):
            n = "end%d%s" % (ax, "+" if sg > 0 else "-")
            out.append(dict(name="overlap-" + n, body="overlap", params=dict(spinor=bool(ax % 2), g=tuple(sg if i == ax else 0 for i in range(3)), sets=n), opts=dict(budget=60, max_paths=50)))
    for nk in (2, 3, 4) if tier == "thorough" else (2, 3):
        for nb in (1, 2, 3):
            if tier == "thorough" or nk + nb < 6:
                out.append(dict(name="zak-%d-%d" % (nk, nb), body="zak", params=dict(nk=nk, nb=nb), opts=dict(budget=100, max_paths=600)))
    for nbs in ((3, 2), (2, 3), (2, 1, 3), (3, 3, 2)) if tier == "quick" else ((3, 2), (2, 3), (2, 1, 3), (3, 3, 2), (1, 3, 2), (3, 2, 3, 2)):
        out.append(dict(name="zak-%s" % "".join(map(str, nbs)), body="zak", params=dict(nk=len(nbs), nb=min(nbs), nbs=nbs), opts=dict(budget=100, max_paths=600)))
    for nk in (2, 3, 4) if tier == "thorough" else (2, 3):
        for nb in (1, 2):
            out.append(dict(name="wcc-%d-%d" % (nk, nb), body="wcc", params=dict(nk=nk, nb=nb), opts=dict(budget=100, max_paths=400)))
    return out


A = [(0, 0, 0), (1, 0, 0), (0, -2, 0), (0, 1, 2), (-1, -1, -3)]
B = [(0, 1, 2), (0, 0, 0), (2, 2, 0), (0, -2, 0)]
SETS = {"some": (A, B)}
# the same range of plane waves around both k-points: the displacement takes those of one beyond either end
for ax in range(3):
    e = [[0, 0, 0] for _ in range(4)]
    e[1][ax], e[2][ax], e[3][(ax + 1) % 3] = 1, -1, 1
    e = [tuple(x) for x in e]
    for sg in (1, -1):
        SETS["end%d%s" % (ax, "+" if sg > 0 else "-")] = (e, [tuple(x - (sg if i == ax else 0) for i, x in enumerate(y)) for y in e])


def table(S, gs):
    n = len(gs)
    return S.array([[g[r] for g in gs] if r < 3 else list(range(n)) if r == 3 else [0] * n if r == 4 else [n] * n for r in range(6)])


def one(S, c):
    """coefficients of the right shape (the constructor normalises)"""
    return S.array([[1] * c.shape[1] for _ in range(c.shape[0])]) * (1 + 0 * S.I)


def overlap(S, M, p):
    sp, g = p["spinor"], p["g"]
    A, B = SETS[p["sets"]]
    k = [S.real("k%d" % i, -1, 1) for i in range(3)]
    d = [S.real("d%d" % i, F(-2, 5), F(2, 5)) for i in range(3)]
    n2 = S.pick("bands", [2, 1])
    mul = 2 if sp else 1
    c1 = S.array([[S.cplx("a%d_%d" % (m, i)) for i in range(len(A) * mul)] for m in range(2)])
    c2 = S.array([[S.cplx("b%d_%d" % (m, i)) for i in range(len(B) * mul)] for m in range(n2)])
    # the plane waves of the second k-point are k2 + G = k1 + d + (G - g): listed so that some are common
    gb = [tuple(x + y for x, y in zip(b, g)) for b in B]
    k2 = [k[i] + d[i] - g[i] for i in range(3)]
    a = make_kpoint(S, M, [S.rat(0), S.rat(1)], k=k, spinor=sp, WF=one(S, c1), ig=table(S, A))
    b = make_kpoint(S, M, [S.rat(m) for m in range(n2)], k=k2, spinor=sp, WF=one(S, c2), ig=table(S, gb))
    a.WF, b.WF = c1, c2
    r = S.call(a.overlap, b)
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    O = r.val
    S.check("one row per band, one column per band of the other", O.shape == (2, n2), O.shape)
    for m in range(2):
        for n in range(n2):
            t = 0 * S.I
            for i, x in enumerate(A):
                for j, y in enumerate(B):
                    if x == y:
                        for s in range(mul):
                            t = t + c1[m, i + s * len(A)].conjugate() * c2[n, j + s * len(B)]
            S.check("overlap of the periodic parts", S.eq(O[m, n], t))


class Link:
    """k-point with a given overlap to the next one"""

    def __init__(self, O, E):
        self.O, self.E = O, E
        self.Energy_raw = E
        self.num_bands = len(E)
        self.asked = []

    def overlap(self, other):
        self.asked.append(other)
        return self.O


def zak(S, M, p):
    nk, nb = p["nk"], p["nb"]
    nbs = p.get("nbs", (nb,) * nk)
    ks, ph = [], []
    for i in range(nk):
        x = [S.real("x%d_%d" % (i, b), F(-1, 2), F(1, 2)) for b in range(nb)]
        m = [S.real("m%d_%d" % (i, b), F(1, 10), 2) for b in range(nb)]
        L = S.array([[S.rat(1) if a == b else S.cplx("l%d_%d%d" % (i, a, b)) if a > b else S.rat(0) for b in range(nb)] for a in range(nb)])
        U = S.array([[m[a] * S.E(x[a]) if a == b else S.cplx("u%d_%d%d" % (i, a, b)) if a < b else S.rat(0) for b in range(nb)] for a in range(nb)])
        E = [S.real("e%d_0" % i, -10, 10)]
        for b in range(1, nbs[i]):
            E.append(E[-1] + S.real("e%d_%d" % (i, b), 0, 10))
        # bands above those that every k-point has: any overlaps
        O, low = [], L.dot(U)
        for a in range(nbs[i]):
            O.append([low[a, b] if a < nb and b < nb else S.cplx("o%d_%d%d" % (i, a, b)) for b in range(nbs[(i + 1) % nk])])
        ks.append(Link(S.array(O), S.array(E)))
        ph.append(x)
    bs = make_bands(S, M, ks)
    r = S.call(bs.zakphase)
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    z, gap, mid, loc = r.val
    S.check("overlaps with the next k-point, the last with the first", all(k.asked and all(o is ks[(i + 1) % nk] for o in k.asked) for i, k in enumerate(ks)))
    S.check("one number per set of the lowest bands", all(len(v) == nb for v in (z, gap, mid, loc)))
    for n in range(nb):
        t = sum((ph[i][b] for i in range(nk) for b in range(n + 1)), S.rat(0))
        S.check("phase of the product of the determinants of the n lowest bands", S.eq(S.E(z[n] / (2 * S.pi)), S.E(t)))
        S.check("phase between 0 and 2 pi", S.And(S.le(0, z[n]), S.le(z[n], 2 * S.pi)))
        if n < nb - 1:
            lo, hi = [k.E[n] for k in ks], [k.E[n + 1] for k in ks]
            g = gap[n]
            S.check("gap between the bands n and n+1: minimum above minus maximum below", S.And(*[S.le(g, h - l) for h in hi for l in lo], S.Or(*[S.eq(g, h - l) for h in hi for l in lo])))
            S.check("centre of the gap", S.And(*[S.Implies(S.And(*[S.And(S.le(h, h2), S.le(l2, l)) for h2, l2 in zip(hi, lo)]), S.eq(2 * mid[n], h + l)) for h in hi for l in lo]))
            d = [h - l for h, l in zip(hi, lo)]
            S.check("smallest local gap", S.And(*[S.le(loc[n], x) for x in d], S.Or(*[S.eq(loc[n], x) for x in d])))
        else:
            S.check("no band above the last one", float(gap[n]) == float("inf") and float(loc[n]) == float("inf"))


def unitary(S, name, nb):
    if nb == 1:
        return S.array([[S.phase(name + "p")]])
    x = S.E(S.turn(name + "t"))
    c, s = (x + x.conjugate()) / 2, (x - x.conjugate()) / (2 * S.I)
    a, b = S.phase(name + "a"), S.phase(name + "b")
    return S.array([[c * a, s * b], [-s * b.conjugate(), c * a.conjugate()]])


def wcc(S, M, p):
    nk, nb = p["nk"], p["nb"]
    dag = lambda m: m.conj().T
    Bs = [unitary(S, "B%d" % i, nb) for i in range(nk)]
    ph = [[S.real("x%d_%d" % (i, b), F(-1, 2), F(1, 2)) for b in range(nb)] for i in range(nk)]
    known = []
    ks = []
    for i in range(nk):
        Q = Bs[i].dot(S.np.diag([S.E(x) for x in ph[i]])).dot(dag(Bs[(i + 1) % nk]))
        # O = Q P, P positive: any singular values in the basis of V
        V = unitary(S, "V%d" % i, nb) if i == 0 else S.array([[1 if a == b else 0 for a in range(nb)] for b in range(nb)]) * (1 + 0 * S.I)
        s = [S.real("s%d_%d" % (i, b), F(1, 10), 1) for b in range(nb)]
        O = Q.dot(dag(V)).dot(S.np.diag(s)).dot(V)
        known.append((O, Q.dot(dag(V)), S.array(s), V))
        ks.append(Link(O, S.array([S.rat(b) for b in range(nb)])))

    def svd(a, *args, **kw):
        for O, U, s, V in known:
            if a is O or S.same(a, O):
                return U, s, V
        raise ValueError("singular value decomposition of something else than an overlap")
    want = [sum((ph[i][b] for i in range(nk)), S.rat(0)) for b in range(nb)]

    def diag(a):
        for X in Bs:
            d = dag(X).dot(a).dot(X)
            if nb == 1 or S.same(S.array([d[0, 1], d[1, 0]]), S.array([0 * S.I, 0 * S.I])):
                return [d[b, b] for b in range(nb)], X
        raise ValueError("eigenvalues of something else than the Wilson loop")
    if S.symbolic:
        S.hook("svd", svd)
        S.hook("eigvals", lambda a: S.array(diag(a)[0]))
        S.hook("eig", lambda a: (S.array(diag(a)[0]), diag(a)[1]))
    bs = make_bands(S, M, ks)
    r = S.call(bs.wcc)
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    w = r.val
    S.check("overlaps with the next k-point, the last with the first", all(k.asked and all(o is ks[(i + 1) % nk] for o in k.asked) for i, k in enumerate(ks)))
    S.check("one centre per band", len(w) == nb)
    S.check("centres between 0 and 1, ascending", S.And(*[S.And(S.le(0, x), S.le(x, 1)) for x in w], *[S.le(a, b) for a, b in zip(w, w[1:])]))
    ph_ = [S.E(x) for x in w]
    ex = [S.E(t) for t in want]
    if nb == 1:
        S.check("phases of the eigenvalues of the Wilson loop", S.eq(ph_[0], ex[0]))
    elif S.symbolic:
        a = S.And(S.eq(ph_[0], ex[0]), S.eq(ph_[1], ex[1]))
        S.check("phases of the eigenvalues of the Wilson loop", S.Or(a, S.And(S.eq(ph_[0], ex[1]), S.eq(ph_[1], ex[0]))))
    else:
        S.check("phases of the eigenvalues of the Wilson loop", S.Or(S.And(S.eq(ph_[0], ex[0]), S.eq(ph_[1], ex[1])), S.And(S.eq(ph_[0], ex[1]), S.eq(ph_[1], ex[0]))))
