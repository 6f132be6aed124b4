"""C35 -- average of a function of the position over the density of every band."""
import itertools
from fractions import Fraction as F
from .common import *
from .geom import *
from .bands import *

ID = "C35"
BOUNDS = ("any coefficients of 1 or 2 bands, scalar and spinor, listed sets of 1 to 5 plane waves with indices up to 1 (thorough: 2) along any axes, any values of the function on the grid of 2*max|g|+1 "
          "points per axis; functions of one coordinate and constants; several functions in one call; the same k-point asked twice.")
ASSUMPTIONS = ["floating point treated as exact real arithmetic", "the discrete Fourier transform is replaced by its definition"]

SETS = {
    "line": [(0, 0, 0), (0, 0, 1), (0, 0, -1)],
    "corner": [(0, 0, 0), (1, 0, 0), (0, -1, 0), (1, -1, 0)],
    "one": [(0, 1, 0)],
    "off": [(1, 0, 0), (-1, 0, 1)],
    "far": [(0, 0, 0), (2, 0, 0), (-1, 0, 0)],
    "cube": [(0, 0, 0), (1, 1, 1), (-1, 0, 0), (0, -1, 1), (0, 0, -1)],
}


def tasks(tier):
    out = []
    for nm in ("line", "corner", "one", "off") + (("far", "cube") if tier == "thorough" else ()):
        for sp in (False, True):
            nb = 1 if nm in ("cube", "far") else 2
            out.append(dict(name="%s-%s" % (nm, "spin" if sp else "scal"), body="density", params=dict(gs=nm, spinor=sp, nb=nb), opts=dict(budget=200, max_paths=50)))
    return out


def density(S, M, p):
    gs, sp, nb = SETS[p["gs"]], p["spinor"], p["nb"]
    n, ns = len(gs), 2 if p["spinor"] else 1
    c = S.array([[S.cplx("c%d_%d" % (m, i)) for i in range(n * ns)] for m in range(nb)])
    ig = S.array([[g[r] for g in gs] if r < 3 else list(range(n)) if r == 3 else [0] * n if r == 4 else [n] * n for r in range(6)])
    one = S.array([[1] * (n * ns) for _ in range(nb)]) * (1 + 0 * S.I)
    kp = make_kpoint(S, M, [S.rat(m) for m in range(nb)], k=(0, 0, 0), spinor=sp, WF=one, ig=ig)
    kp.WF = c
    gm = [max(abs(g[r]) for g in gs) for r in range(3)]
    N = [2 * g + 1 for g in gm]
    pts = list(itertools.product(*[range(x) for x in N]))
    V = {q: S.real("v%d%d%d" % q, -5, 5) for q in pts}
    seen = []

    def at(x, y, z):
        """function with any values, known at the points of the grid only"""
        a, b, d = [[q.item() if hasattr(q, "item") else q for q in w.reshape(-1)] for w in (x, y, z)]
        seen.append((a, b, d))
        idx = []
        for w, m in zip((a, b, d), N):
            row = []
            for q in w:
                k = [j for j in range(m) if abs(float(q) - j / m) < 1e-9]
                row.append(k[0] if k else None)
            idx.append(row)
        if any(k is None for r in idx for k in r):
            raise LookupError("point outside of the grid")
        return S.array([[[V[i, j, k] for k in idx[2]] for j in idx[1]] for i in idx[0]])

    const = lambda x, y, z: 2 + 0 * (x + y + z)
    line = lambda x, y, z: at_z(z)
    plain = lambda x, y, z: 3

    def at_z(z):
        k = [[j for j in range(N[2]) if abs(float(q) - j / N[2]) < 1e-9] for q in [w.item() if hasattr(w, "item") else w for w in z.reshape(-1)]]
        if any(not x for x in k):
            raise LookupError("point outside of the grid")
        return S.array([[[V[0, 0, x[0]] for x in k]]])

    r = S.call(kp.getloc, [at, const, line, plain])
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    res = r.val
    S.check("one row per function, one column per band", tuple(res.shape) == (4, nb), res.shape)
    for m in range(nb):
        t, u = S.rat(0), S.rat(0)
        for q in pts:
            rho = S.rat(0)
            for s in range(ns):
                a = 0 * S.I
                for i, g in enumerate(gs):
                    a = a + c[m, i + s * n] * S.E(sum((F(g[x] * q[x], N[x]) for x in range(3)), F(0)))
                rho = rho + (a * a.conjugate()).real
            t = t + rho * V[q]
            u = u + rho * V[0, 0, q[2]]
        S.check("average of the function over the density of the band", S.eq(res[0, m], t / len(pts)))
        norm = sum(((c[m, i] * c[m, i].conjugate()).real for i in range(n * ns)), S.rat(0))
        S.check("a constant function gives the constant times the norm", S.eq(res[1, m], 2 * norm))
        S.check("a constant number gives the constant times the norm", S.eq(res[3, m], 3 * norm))
        S.check("average of a function of one coordinate", S.eq(res[2, m], u / len(pts)))
    r2 = S.call(kp.getloc1, at)
    S.check("asked again", r2.ok, r2.err)
    if r2.ok:
        for m in range(nb):
            S.check("the same result when asked again", S.eq(r2.val[m], res[0, m]))
