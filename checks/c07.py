"""C07 -- plane waves below the cutoff (calc_gvectors)."""
from fractions import Fraction as F
from .common import *

ID = "C07"
BOUNDS = ("reciprocal lattices diag(1,5/4,10), diag(1,10,10), diag(10,1,5/4), a monoclinic and a hexagonal one; k-points k0 + u v with u any real in "
          "[-1/2,1/2] for the listed k0, v; DFT cutoff any value of the listed interval and second cutoff any real (absent, below or above); shells "
          "|n1|+|n2|+|n3| < 4..7; number of waves absent, right (scalar and spinor) or too large by 1, 2 or 4 (a number that is too small may coincide with a complete set of shells and is not judged); energies at least 1e-7 away from the "
          "cutoffs and gaps from the threshold; both orders of exactly degenerate waves.")
ASSUMPTIONS = ["floating point treated as exact real arithmetic", "argsort is a sorting permutation (ties in either of two opposite orders)"]
TW = 0.262465831
LAT = {"a": [[1, 0, 0], [0, F(5, 4), 0], [0, 0, 10]], "x": [[1, 0, 0], [0, 10, 0], [0, 0, 10]], "z": [[10, 0, 0], [0, 1, 0], [0, 0, F(5, 4)]],
       "m": [[1, 0, 0], [F(1, 2), 1, 0], [0, 0, 10]], "y": [[10, 0, 0], [0, 1, 0], [0, 0, 10]], "c": [[1, 0, 0], [0, 1, 0], [0, 0, 1]]}
# name: lattice, k0, v, Ecut range, nplanemax
CASES = {
    "x0": ("x", (0, 0, 0), (1, 0, 0), (0.5, 70), 6),
    "xw": ("x", (0, 0, 0), (1, 0, 0), (60, 90), 7),
    "y0": ("y", (F(1, 2), 0, 0), (0, 1, 0), (96, 130), 5),
    "a0": ("a", (0, 0, 0), (1, 0, 0), (0.5, 14), 4),
    "ak": ("a", (F(1, 2), F(1, 2), 0), None, (0.5, 30), 5),
    "ag": ("a", (0, 0, 0), None, (0.5, 30), 5),
    "z0": ("z", (0, 0, F(1, 2)), (0, 1, 0), (0.5, 14), 4),
    "m0": ("m", (0, 0, 0), None, (0.5, 20), 4),
    "m1": ("m", (F(1, 2), 0, 0), (0, 1, 0), (0.5, 8), 4),
    "cg": ("c", (0, 0, 0), None, (0.5, 12), 4),
    "ck": ("c", (F(1, 2), F(1, 2), F(1, 2)), None, (0.5, 14), 4),
}
BIG = {"A0": ("a", (0, 0, 0), (1, 0, 0), (14, 30), 5), "A1": ("a", (0, F(1, 4), 0), (1, 0, 0), (0.5, 20), 5),
       "A2": ("a", (0, 0, 0), (1, 1, 0), (0.5, 20), 5), "M2": ("m", (0, 0, 0), (1, 0, 0), (0.5, 20), 5),
       "C1": ("c", (0, 0, 0), (0, 0, 1), (0.5, 8), 4), "C2": ("c", (0, 0, 0), None, (12, 20), 5), "X2": ("x", (0, 0, 0), (1, 0, 0), (0.5, 150), 9)}


def tasks(tier):
    out = []
    for n in list(CASES) + (list(BIG) if tier == "thorough" else []):
        bud = 200 if tier == "quick" else 700
        for ties in ("stable", "reverse"):
            out.append(dict(name="set-%s-%s" % (n, ties), params=dict(case=n, ties=ties, mode="inf"), opts=dict(budget=bud, max_paths=1500)))
        if tier == "quick" and n in ("x0", "xw", "m1"):
            continue
        out.append(dict(name="cut-%s" % n, params=dict(case=n, ties="stable", mode="cut"), opts=dict(budget=bud, max_paths=1500)))
        out.append(dict(name="nplane-%s" % n, params=dict(case=n, ties="stable", mode="nplane"), opts=dict(budget=bud, max_paths=1500)))
    return out


def energies(S, B, k, gs):
    out = {}
    tw = S.rat(F(repr(TW)))
    for g in gs:
        q = [k[i] + g[i] for i in range(3)]
        c = [sum((q[i] * S.rat(B[i][j]) for i in range(3)), S.rat(0)) for j in range(3)]
        out[g] = (c[0] * c[0] + c[1] * c[1] + c[2] * c[2]) / tw
    return out


def body(S, M, p):
    lat, k0, v, (e0, e1), nmax = (CASES.get(p["case"]) or BIG[p["case"]])
    S.ties(p["ties"])
    B = LAT[lat]
    u = S.real("u", F(-1, 2), F(1, 2)) if v else 0
    k = [S.rat(k0[i]) + (u * v[i] if v else 0) for i in range(3)]
    Ecut = S.real("Ecut", F(repr(e0)), F(repr(e1)))
    R = range(-nmax, nmax + 1)
    gs = [(a, b, c) for c in R for b in R for a in R if abs(a) + abs(b) + abs(c) < nmax]
    gs.sort(key=lambda g: sum(abs(x) for x in g))
    E = energies(S, B, k, gs)
    tol = F(1, 10**7)
    inside = []
    for g in gs:
        d = E[g] - Ecut
        if S.is_true(d < 0):
            inside.append(g)
            S.assume(d < -tol)
        else:
            S.assume(d > tol)
    kw = {}
    keep = inside
    if p["mode"] == "cut":
        which = S.pick("Ecut1", ["zero", "negative", "value"])
        E1 = S.real("Ecut1", F(1, 100), 2 * F(repr(e1))) if which == "value" else {"zero": 0, "negative": -1}[which]
        kw["Ecut1"] = E1
        if which == "value":
            keep = []
            for g in inside:
                d = E[g] - E1
                if S.is_true(d < 0):
                    keep.append(g)
                    S.assume(d < -tol)
                else:
                    S.assume(d > tol)
    spinor = False
    bad = 0
    if p["mode"] == "nplane":
        spinor = S.pick("spinor", [False, True])
        bad = S.pick("off", [0, 1, 2, 4])
        n = len(inside) * (2 if spinor else 1) + bad
        if n <= 0:
            return S.assume(False)
        kw["nplane"] = n
    if not keep:
        S.assume(False)
        return
    r = S.call(M.gvectors.calc_gvectors, S.array(k), S.array([[S.rat(x) for x in q] for q in B]), Ecut, spinor=spinor, nplanemax=nmax, **kw)
    if bad:
        S.check("a wrong number of waves is refused", r.raised(RuntimeError), r.err)
        return
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    ig = r.val
    S.check("six rows, one column per wave", tuple(ig.shape) == (6, len(keep)), ig.shape)
    if tuple(ig.shape) != (6, len(keep)):
        return
    got = [tuple(int(x) for x in ig[:3, j]) for j in range(len(keep))]
    S.check("exactly the waves below the cutoff", sorted(got) == sorted(keep), got)
    if sorted(got) != sorted(keep):
        return
    thr = F(1, 1000)
    edges = [0]
    for j in range(1, len(got)):
        d = E[got[j]] - E[got[j - 1]]
        S.check("ascending energy", S.le(0, d, 1e-9))
        if S.is_true(d > thr):
            S.assume(d > thr + tol)
            edges.append(j)
        else:
            S.assume(d < thr - tol)
    edges.append(len(got))
    for a, b in zip(edges, edges[1:]):
        S.check("shell limits", all(int(ig[4, j]) == a and int(ig[5, j]) == b for j in range(a, b)), (a, b))
    # order of WAVECAR: z slowest, x fastest; non-negative first, then negative
    key = lambda g: tuple((0 if x >= 0 else 1, x) for x in (g[2], g[1], g[0]))
    rank = {g: i for i, g in enumerate(sorted(inside, key=key))}
    S.check("position of each wave in the file", all(int(ig[3, j]) == rank[g] for j, g in enumerate(got)))
