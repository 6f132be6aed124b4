"""C21 -- unfolding of a k-point of a supercell (Kpoint.unfold, get_rho_spin)."""
from fractions import Fraction as F
from .common import *
from .geom import *
from .bands import *

ID = "C21"
BOUNDS = ("supercells of 1, 2, 3 and 4 primitive cells (diagonal, sheared and rotated integer matrices, thorough: also determinant -2, 6); any k-point of the primitive zone, the supercell "
          "k-point differing by listed reciprocal vectors; 3 or 4 bands on 6 plane waves, scalar and spinor, any orthonormal set of the parametrised family; any energies, groups 1+1+1, 2+1, 1+2, 3, 1+2+1 "
          "of the degeneracy threshold; refused for all k-points that do not fold (further than the tolerance of the code).")
ASSUMPTIONS = ["floating point treated as exact real arithmetic", "states orthonormal (as read from the DFT files)"]
CELLS = {"unit": [[1, 0, 0], [0, 1, 0], [0, 0, 1]], "d211": [[2, 0, 0], [0, 1, 0], [0, 0, 1]], "shear": [[2, 1, 0], [0, 1, 0], [0, 0, 1]],
         "rot": [[1, 1, 0], [-1, 1, 0], [0, 0, 1]], "tri": [[1, 0, 1], [1, 1, 0], [0, 2, 1]], "quad": [[2, 0, 0], [1, 2, 0], [0, 0, 1]]}
MORE = {"d311": [[1, 0, 0], [0, 1, 0], [0, 0, 3]], "neg": [[0, 2, 0], [1, 0, 0], [0, 0, 1]], "six": [[1, 1, 0], [-1, 2, 0], [0, 1, 2]]}


def tasks(tier):
    out = []
    cells = dict(CELLS, **(MORE if tier == "thorough" else {}))
    for c in cells:
        for sp in (False, True):
            for g in ((1, 1, 1), (2, 1), (1, 2), (3,)) if tier == "thorough" else ((1, 1, 1), (2, 1)) if not sp else ((1, 2), (3,)) if c in ("shear", "tri") else ((2, 1),):
                out.append(dict(name="%s-%s-%s" % (c, "spin" if sp else "scal", "".join(map(str, g))), params=dict(cell=cells[c], spinor=sp, groups=g),
                                opts=dict(budget=100, max_paths=400)))
        if c in ("d211", "rot"):
            out.append(dict(name="%s-%s-121" % (c, "scal" if c == "d211" else "spin"), params=dict(cell=cells[c], spinor=c != "d211", groups=(1, 2, 1)), opts=dict(budget=100, max_paths=400)))
        for how in ("coarse", "sub"):
            if tier == "thorough" or c in ("d211", "shear"):
                for sp in (False, True):
                    out.append(dict(name="%s-%s-%s" % (c, "spin" if sp else "scal", how), params=dict(cell=cells[c], spinor=sp, groups=(2, 1), how=how), opts=dict(budget=100, max_paths=400)))
        out.append(dict(name="refuse-" + c, body="refuse", params=dict(cell=cells[c]), opts=dict(budget=60, max_paths=100)))
    return out


def waves(S, nb, n, order):
    """nb orthonormal rows of n components: Givens rotations with phases"""
    U = [[S.rat(1) if i == j else S.rat(0) for j in range(n)] for i in range(nb)]
    for q, (i, j) in enumerate(order):
        x = S.E(S.turn("a%d" % q))
        c, s = (x + x.conjugate()) / 2, (x - x.conjugate()) / (2 * S.I)
        w = S.phase("w%d" % q)
        for r in U:
            r[i], r[j] = c * r[i] - s * w.conjugate() * r[j], s * w * r[i] + c * r[j]
    return S.array(U) * (1 + 0 * S.I)


GS = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (-1, 1, 1), (0, -2, 1), (2, 0, -1)]


def body(S, M, p):
    sc, sp, groups = p["cell"], p["spinor"], p["groups"]
    Si = iinv(sc)
    nb = sum(groups)
    k0 = [S.real("k%d" % i, -1, 1) for i in range(3)]
    g0 = S.pick("g0", [(0, 0, 0), (1, 0, 0), (0, -1, 2)])
    # k in the basis of the supercell: k_super = k S^T - g0
    ks = [sum((S.rat(sc[i][j]) * k0[j] for j in range(3)), S.rat(0)) - g0[i] for i in range(3)]
    npw = len(GS)
    order = [(0, 3), (1, 4), (0, 1), (2, 5)] + ([(3, 5)] if nb > 3 else []) if not sp else [(0, 6 + 3), (1, 6 + 1), (0, 1), (2, 6)] + ([(3, 6 + 2)] if nb > 3 else [])
    WF = waves(S, nb, npw * (2 if sp else 1), order)
    e, x = [], S.real("e0", -20, 20)
    th = S.rat(1, 1000)
    names = iter(range(9))
    for q, n in enumerate(groups):
        for b in range(n):
            if b:
                x = x + S.real("s%d_%d" % (q, b), 0, F(1, 1000))
            elif q:
                x = x + S.real("d%d" % q, F(2, 1000), 10)
            e.append(x)
    ig = S.array([[g[r] for g in GS] if r < 3 else list(range(npw)) if r == 3 else [0] * npw if r == 4 else [npw] * npw for r in range(6)])
    how = p.get("how")
    if how == "sub":
        # states taken out of a k-point that was unfolded before
        kp = make_kpoint(S, M, [S.rat(-1), S.rat(0), S.rat(1), S.rat(2)], k=ks, spinor=sp, ig=ig,
                         WF=S.array([[1 if i == (q * 2 + 1) % npw else 0 for i in range(npw * (2 if sp else 1))] for q in range(4)]) * (1 + 0 * S.I))
        kp.irreps = ["A", "B", "C", "D"]
        S.call(kp.unfold, S.array(sc), S.array(k0), degen_thresh=th)
        r = S.call(kp.copy_sub, E=S.array(e), WF=WF, inds=S.np.array([0, 2, 3]))
        S.check("states taken out", r.ok, r.err)
        if not r.ok:
            return
        kp = r.val
    else:
        kp = make_kpoint(S, M, e, k=ks, spinor=sp, WF=WF, ig=ig, thresh=S.rat(60) if how == "coarse" else th)
        if how == "coarse":
            S.call(kp.unfold, S.array(sc), S.array(k0), degen_thresh=S.rat(100))
    r = S.call(kp.unfold, S.array(sc), S.array(k0), degen_thresh=th)
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    # plane wave k_super + G = (k_prim + g) S^T  <=>  (G - g0) S^{-T} integer
    sel = []
    for i, g in enumerate(GS):
        d = [F(a - b) for a, b in zip(g, g0)]
        d = mv(Si, d)
        if all(F(v).denominator == 1 for v in d):
            sel.append(i)
    out = r.val
    S.check("one row per group of bands, with weight and spin for spinors", out.shape == (len(groups), 5 if sp else 2), out.shape)
    if out.shape != (len(groups), 5 if sp else 2):
        return
    b1 = 0
    for q, n in enumerate(groups):
        B = list(range(b1, b1 + n))
        b1 += n
        S.check("energy: average over the group", S.eq(out[q, 0] * n, sum((e[b] for b in B), S.rat(0))))
        comp = (0, npw) if sp else (0,)
        w = sum((WF[b, i + s] * WF[b, i + s].conjugate() for b in B for i in sel for s in comp), S.rat(0))
        S.check("weight: sum of the plane waves that belong to the primitive k-point", S.eq(out[q, 1], w))
        if sp:
            def ex(a, b, s, t, where):
                return sum((WF[a, i + s * npw].conjugate() * WF[b, i + t * npw] for i in where), 0 * S.I)
            al = range(npw)
            P = {(a, b): ex(a, b, 0, 0, sel) + ex(a, b, 1, 1, sel) for a in B for b in B}
            X = {(a, b): ex(a, b, 0, 1, al) + ex(a, b, 1, 0, al) for a in B for b in B}
            Y = {(a, b): (ex(a, b, 1, 0, al) - ex(a, b, 0, 1, al)) * S.I for a in B for b in B}
            Z = {(a, b): ex(a, b, 0, 0, al) - ex(a, b, 1, 1, al) for a in B for b in B}
            for c, (nm, Q) in enumerate((("x", X), ("y", Y), ("z", Z))):
                t = sum((P[a, b] * Q[b, a] for a in B for b in B), 0 * S.I)
                S.check("spin: trace of the projection with sigma_" + nm, S.eq(out[q, 2 + c], t.real))


def refuse(S, M, p):
    sc = p["cell"]
    k0 = [S.real("k%d" % i, -1, 1) for i in range(3)]
    ax = S.pick("axis", [0, 1, 2])
    d = S.real("d", F(2, 10**5), 1 - F(2, 10**5))
    g0 = S.pick("g0", [(0, 0, 0), (1, -1, 2)])
    ks = [sum((S.rat(sc[i][j]) * k0[j] for j in range(3)), S.rat(0)) - g0[i] + (d if i == ax else 0) for i in range(3)]
    kp = make_kpoint(S, M, [S.rat(0)], k=ks, thresh=S.rat(1, 1000))
    r = S.call(kp.unfold, S.array(sc), S.array(k0), degen_thresh=S.rat(1, 1000))
    S.check("a k-point that does not fold onto the given one is refused", r.raised(RuntimeError), r.err)
