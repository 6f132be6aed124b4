"""C08 -- selection and ordering of the plane waves read from Abinit / Quantum Espresso (sortIG)."""
from fractions import Fraction as F
from .common import *
from .waves import wavefunctions

ID = "C08"
BOUNDS = ("lists of 5..8 (thorough 9) plane waves in an arbitrary order of a file, reciprocal lattices orthorhombic and monoclinic; k = k0 + u v with u any real in "
          "[-1/2,1/2] or fixed; DFT cutoff any value (below, inside, above the range of energies), reduced cutoff any value in the range; 2 bands with arbitrary "
          "coefficients, scalar and spinor; energies at least 1e-7 away from cutoffs and from the 1e-4 threshold; both orders of degenerate waves.")
ASSUMPTIONS = ["floating point treated as exact real arithmetic", "argsort is a sorting permutation (ties in either of two opposite orders)"]
LAT = {"o": [[1, 0, 0], [0, F(5, 4), 0], [0, 0, 2]], "m": [[1, 0, 0], [F(1, 2), 1, 0], [0, 0, F(3, 2)]]}
LISTS = {
    "p": [(0, 0, 0), (1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (1, 1, 0)],
    "q": [(2, 0, 0), (0, 0, -1), (-1, 1, 0), (0, 0, 1), (0, 0, 0)],
    "r": [(1, -1, 0), (0, 0, 0), (0, 1, 1), (-2, 0, 0), (-1, 0, 0), (0, 1, -1), (1, 0, 0)],
    "s": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1), (1, 1, 1)],
    "T": [(0, 0, 0), (1, 0, 0), (2, 0, 0), (-2, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)],
}
HA = F("27.211386")


def tasks(tier):
    out = []
    ks = [((0, 0, 0), None), ((0, 0, 0), (1, 0, 0)), ((F(1, 2), 0, F(1, 2)), (0, 1, 0))]
    if tier == "thorough":
        ks += [((0, 0, 0), (1, 1, 0)), ((F(1, 3), F(1, 4), 0), (0, 0, 1)), ((0, F(1, 2), 0), (1, 0, -1))]
    for lat in LAT:
        for li in ["p", "q", "r", "s"] + (["T"] if tier == "thorough" else []):
            for n, (k0, v) in enumerate(ks):
                if tier == "quick" and v and li in ("r", "s") and lat == "m":
                    continue
                ties = "stable" if n % 2 else "reverse"
                for sp in (False, True):
                    out.append(dict(name="%s%s%d%s" % (lat, li, n, "s" if sp else ""), opts=dict(budget=150 if tier == "quick" else 600, max_paths=4000),
                                    params=dict(lat=lat, li=li, k0=[str(x) for x in k0], v=v, spinor=sp, ties=ties)))
    return out


def body(S, M, p):
    S.ties(p["ties"])
    B = LAT[p["lat"]]
    gs = LISTS[p["li"]]
    u = S.real("u", F(-1, 2), F(1, 2)) if p["v"] else 0
    k = [S.rat(F(p["k0"][i])) + (u * p["v"][i] if p["v"] else 0) for i in range(3)]
    ha = S.rat(HA)
    E = []
    for g in gs:
        q = [k[i] + g[i] for i in range(3)]
        c = [sum((q[i] * S.rat(B[i][j]) for i in range(3)), S.rat(0)) for j in range(3)]
        E.append((c[0] * c[0] + c[1] * c[1] + c[2] * c[2]) * ha / 2)
    tol = F(1, 10**7)
    Ecut = S.real("Ecut", F(1, 100), 250)
    E0 = S.real("Ecut0", F(1, 100), 250)
    for e in E:
        S.assume(S.abs(e - Ecut) > tol)
        S.assume(S.abs(e - E0) > e * F(1, 10**6))
    sel = [i for i in range(len(gs)) if S.is_true(E[i] < Ecut)]
    toolow = S.is_true(S.Or(*[e > E0 for e in E]))
    if not sel:
        S.assume(False)
        return
    npw = len(gs)
    CG = wavefunctions(S, 2, npw, p["spinor"])
    r = S.call(M.gvectors.sortIG, 1, S.array([list(g) for g in gs]), S.array(k), CG, S.array([[S.rat(x) for x in q] for q in B]), E0, Ecut, p["spinor"])
    if toolow:
        S.check("waves above the DFT cutoff are refused", not r.ok, r.err)
        return
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    WF, ig = r.val
    n = len(sel)
    S.check("shape of the table", tuple(ig.shape) == (6, n) and tuple(WF.shape) == (2, n * (2 if p["spinor"] else 1)), (ig.shape, WF.shape))
    if tuple(ig.shape) != (6, n) or tuple(WF.shape) != (2, n * (2 if p["spinor"] else 1)):
        return
    got = [tuple(int(x) for x in ig[:3, j]) for j in range(n)]
    S.check("exactly the waves below the reduced cutoff", sorted(got) == sorted(gs[i] for i in sel), got)
    if sorted(got) != sorted(gs[i] for i in sel):
        return
    src = [gs.index(g) for g in got]
    for b in range(2):
        for j in range(n):
            S.check("coefficients follow their waves", S.eq(WF[b, j], CG[b, src[j]]))
            if p["spinor"]:
                S.check("coefficients follow their waves (second component)", S.eq(WF[b, n + j], CG[b, npw + src[j]]))
    thr = F(1, 10**4)
    edges = [0]
    for j in range(1, n):
        d = E[src[j]] - E[src[j - 1]]
        S.check("ascending energy", S.le(0, d, 1e-9))
        if S.is_true(d > thr):
            S.assume(d > thr + tol)
            edges.append(j)
        else:
            S.assume(d < thr - tol)
    edges.append(n)
    for a, b in zip(edges, edges[1:]):
        S.check("shell limits", all(int(ig[4, j]) == a and int(ig[5, j]) == b for j in range(a, b)), (a, b))
