"""C19 -- separation of the states of a k-point by the eigenvalues of an operation (Kpoint.Separate)."""
from fractions import Fraction as F
from .common import *
from .geom import *
from .bands import *

ID = "C19"
BOUNDS = ("2 or 3 levels of 1 or 2 states (thorough: up to 4 levels), each an arbitrary listed unitary mixture of plane waves; operations with any phases on these waves (every eigenvalue of "
          "modulus one, pairs of conjugate eigenvalues for Kramers pairs), eigenvalues of different states equal or at least 0.15 apart; spinor and scalar; energies any ascending "
          "numbers; eigenvectors delivered in any of two orders and phases; separation by a second operation that exchanges the waves; operators that are not unitary on the states "
          "(window cutting a level): any mixture angle listed and any phase.")
ASSUMPTIONS = ["floating point treated as exact real arithmetic", "numpy.linalg.eig returns normalised eigenvectors of the (normal) matrix it is given, in any order and with any phase"]
MIX = [(F(3, 5), F(4, 5)), (F(1), F(0)), (F(5, 13), F(-12, 13))]


def tasks(tier):
    out = []
    q = tier == "quick"
    for sp in (False, True):
        for same in (False, True):
            out.append(dict(name="pairs-%s-%s" % ("spin" if sp else "scal", "same" if same else "diff"), body="pairs", params=dict(spinor=sp, same=same, nlev=2 if q else 3),
                            opts=dict(budget=150 if q else 600, max_paths=800)))
    for sizes in ([[1, 2], [2, 1], [1, 1, 1]] if q else [[1, 2], [2, 1], [1, 1, 1], [2, 2], [1, 2, 1], [1, 1, 1, 1]]):
        for sp in (False, True) if not q or sizes[0] != sizes[1] else (False,):
            out.append(dict(name="single-%s-%s" % ("".join(map(str, sizes)), "spin" if sp else "scal"), body="single", params=dict(spinor=sp, sizes=sizes, fast=q), opts=dict(budget=150 if q else 600, max_paths=800)))
    out.append(dict(name="quad", body="quad", params=dict(), opts=dict(budget=150, max_paths=400)))
    out.append(dict(name="twice", body="twice", params=dict(), opts=dict(budget=150, max_paths=200)))
    out.append(dict(name="unitary", body="unitary", params=dict(), opts=dict(budget=150, max_paths=200)))
    return out


# arcs of the unit circle: (centre of the box for cos and sin), half width
UPPER = [(F(87, 100), F(1, 2)), (F(1, 4), F(97, 100)), (F(-1, 2), F(87, 100)), (F(-94, 100), F(34, 100))]
ROUND = [(F(1), F(0)), (F(1, 2), F(87, 100)), (F(-1, 2), F(87, 100)), (F(-1), F(0)), (F(-1, 2), F(-87, 100)), (F(1, 2), F(-87, 100))]


def spin(S, sp, near=False):
    """phases of the spin rotation (rotation about z): rational point of the unit circle and its conjugate"""
    if not sp:
        return 1, 1
    c, s = (F(9999, 10001), F(200, 10001)) if near else (F(3, 5), F(4, 5))
    return S.rat(c) + S.rat(s) * S.I, S.rat(c) - S.rat(s) * S.I


def on_arc(S, f, box, h):
    c, s = box
    S.assume(S.And(S.abs(f.real - c) <= h, S.abs(f.imag - s) <= h))


def eig_known(S, mats, order, ph):
    """eig of a block: eigenvectors are the columns of one of the matrices known to the harness"""
    if not S.symbolic:
        return

    def f(a):
        n = a.shape[0]
        cand = [[[1 if i == j else 0 for j in range(n)] for i in range(n)]] + [m for m in mats if len(m) == n]
        if n == 2:
            h = S.sqrt(S.rat(1, 2))
            cand.append([[h, h], [h, -h]])
        for m in cand:
            m = S.array(m)
            for V in (m, m.conj()):
                vals, good = [], True
                for j in range(n):
                    v = V[:, j]
                    w = v.conj().dot(a.dot(v))
                    good = good and S.same(a.dot(v), w * v)
                    vals.append(w)
                if good:
                    idx = list(range(n))[::-1] if order else list(range(n))
                    return S.array([vals[j] for j in idx]), S.array([[V[i, j] * ph for j in idx] for i in range(n)])
        from symx.num import Unsupported
        raise Unsupported("eig of an unexpected matrix")
    S.hook("eig", f)


def states(S, sizes, mixes):
    """unitary matrix of the states on the basis waves, block by block"""
    n = sum(sizes)
    U = [[0] * n for _ in range(n)]
    o = 0
    for s, (c, d) in zip(sizes, mixes):
        if s == 1:
            U[o][o] = 1
        else:
            # rows are the states
            U[o][o], U[o][o + 1] = S.rat(c), S.rat(d) * S.I
            U[o + 1][o], U[o + 1][o + 1] = S.rat(d) * S.I, S.rat(c)
        o += s
    return U


def blocks_of(U, sizes, S):
    out, o = [], 0
    for s in sizes:
        out.append([[S.np.conj(S.array([U[o + i][o + j]]))[0] for j in range(s)] for i in range(s)])
        o += s
    return out


def build(S, M, U, sizes, waves, spinor, op):
    """waves: (G, spin) of each basis state"""
    Gs = []
    for g, s in waves:
        if g not in Gs:
            Gs.append(g)
    npw = len(Gs)
    n = len(U)
    col = [Gs.index(g) + npw * s for g, s in waves]
    WF = [[0 * S.I for _ in range(npw * (2 if spinor else 1))] for _ in range(n)]
    for i in range(n):
        for b in range(n):
            WF[i][col[b]] = U[i][b] * (1 + 0 * S.I)
    ig = [[g[r] for g in Gs] for r in range(3)] + [list(range(npw)), [0] * npw, [npw] * npw]
    en, e = [], S.real("e0", -10, 10)
    for i, s in enumerate(sizes):
        if i:
            e = e + S.real("de%d" % i, F(1, 100), 5)
        en += [e] * s
    kp = make_kpoint(S, M, en, char=[[S.rat(10 + i) + 0 * S.I] for i in range(len(sizes))], spinor=spinor, WF=S.array(WF), ig=S.array(ig), thresh=F(1, 1000))
    kp.irreps = [{"A%d" % i: S.rat(1)} for i in range(len(sizes))]
    kp.onlytraces = False
    return kp, col, en


def check_subs(S, subs, kp, col, en, sizes, phases, kramers, complete=True, tol=None):
    lev = [i for i, s in enumerate(sizes) for _ in range(s)]
    tot = 0
    weight = [0] * len(col)
    for key, sub in subs.items():
        n = sub.num_bands
        S.check("states of the subspace: as many as its number of bands", sub.WF.shape[0] == n and len(sub.Energy_mean) == n and len(sub.irreps) == n)
        tot += n
        E = list(sub.Energy_mean)
        S.check("states in ascending order of energy", S.And(*[S.le(a, b) for a, b in zip(E, E[1:])]))
        for i in range(n):
            psi = [sub.WF[i, c] for c in col]
            S.check("normalised", S.eq(sum((x * S.np.conj(S.array([x]))[0] for x in psi), 0), 1))
            good = []
            for x, f in zip(psi, phases):
                want = f.real if kramers else f
                have = key.real if kramers else key
                d = (want - have) * x
                good.append(S.eq(want * x, have * x) if tol is None else S.And(S.abs(d.real) <= tol, S.abs(d.imag) <= tol))
            S.check("state of the subspace is an eigenstate with its eigenvalue", S.And(*good))
            l = [j for j in range(len(sizes)) if "A%d" % j in sub.irreps[i]]
            S.check("irreps of one level", len(l) == 1 and len(sub.irreps[i]) == 1)
            if len(l) != 1:
                continue
            S.check("state belongs to the level that gives its irreps", S.And(*[S.eq(x, 0) for x, m in zip(psi, lev) if m != l[0]]))
            S.check("energy of the level", S.eq(E[i], en[lev.index(l[0])]))
            S.check("traces of the level", S.eq(sub.char[i][0], 10 + l[0]) if hasattr(sub.char[i], "__len__") else S.eq(sub.char[i], 10 + l[0]))
            weight = [w + x * S.np.conj(S.array([x]))[0] for w, x in zip(weight, psi)]
        if kramers:
            S.check("the eigenvalue of complete pairs is real", S.eq(key.imag if hasattr(key, "imag") else 0, 0))
    S.check("every state goes to one subspace", tot == len(col))
    if complete:
        S.check("the subspaces together contain all the states", S.And(*[S.eq(w, 1) for w in weight]))


def nconj(S, x):
    return S.np.conj(S.array([x]))[0]


def pairs(S, M, p):
    sp, nlev = p["spinor"], p["nlev"]
    order, ph = S.pick("eig", [(0, 1), (1, S.I)])
    t = [S.turn("t%d" % i) for i in range(1 if p["same"] else nlev)]
    q, qc = spin(S, sp)
    T = [(t[0] if p["same"] else t[i]) if i < nlev else S.rat(0) for i in range(3)]
    waves, phases = [], []
    for i in range(nlev):
        g = tuple(1 if j == i else 0 for j in range(3))
        m = tuple(-x for x in g)
        waves += [(g, 0), (m, 1 if sp else 0)]
        phases += [S.E(-T[i]) * q, S.E(T[i]) * qc]
    arcs = S.pick("arcs", [(0, 1, 2), (2, 3, 0), (3, 0, 1), (1, 2, 3)])
    for i in range(1 if p["same"] else nlev):
        on_arc(S, phases[2 * i], UPPER[arcs[i]], S.rat(1, 10))
    sizes = [2] * nlev
    U = states(S, sizes, [S.pick("mix%d" % i, MIX[:2] if i else MIX) for i in range(nlev)])
    op = make_op(S, M, I3, spinor=False)
    op.translation = S.array(T)
    if sp:
        op.spinor_rotation = S.array([[q, 0 * S.I], [0 * S.I, qc]])
    kp, col, en = build(S, M, U, sizes, waves, sp, op)
    eig_known(S, blocks_of(U, sizes, S), order, ph)
    r = S.call(kp.Separate, op, degen_thresh=F(1, 1000) if S.symbolic else 1e-3, groupKramers=True, v=1)
    S.check("runs", r.ok, r.err)
    if r.ok:
        S.check("one subspace per real part", len(r.val) == (1 if p["same"] else nlev), len(r.val))
        check_subs(S, r.val, kp, col, en, sizes, phases, True)


def quad(S, M, p):
    """one level with two pairs of different eigenvalues"""
    order, ph = S.pick("eig", [(0, 1), (1, S.I)])
    t = [S.turn("t%d" % i) for i in range(2)]
    waves, phases = [], []
    for i in range(2):
        g = tuple(1 if j == i else 0 for j in range(3))
        waves += [(g, 0), (tuple(-x for x in g), 0)]
        phases += [S.E(-t[i]), S.E(t[i])]
    arcs = S.pick("arcs", [(0, 1), (2, 0), (1, 3), (3, 2)])
    for i in range(2):
        on_arc(S, phases[2 * i], UPPER[arcs[i]], S.rat(1, 10))
    c, d = S.pick("mix", [MIX[0], MIX[2]])
    z = S.rat(0)
    U = [[S.rat(c), z, S.rat(d) * S.I, z], [z, S.rat(d) * S.I, z, S.rat(c)], [S.rat(d) * S.I, z, S.rat(c), z], [z, S.rat(c), z, S.rat(d) * S.I]]
    op = make_op(S, M, I3, spinor=False)
    op.translation = S.array([t[0], t[1], S.rat(0)])
    kp, col, en = build(S, M, U, [4], waves, False, op)
    eig_known(S, blocks_of(U, [4], S), order, ph)
    kr = S.pick("kramers", [True, False])
    r = S.call(kp.Separate, op, degen_thresh=F(1, 1000) if S.symbolic else 1e-3, groupKramers=kr, v=1)
    S.check("runs", r.ok, r.err)
    if r.ok:
        S.check("one subspace per eigenvalue (real part)", len(r.val) == (2 if kr else 4), len(r.val))
        check_subs(S, r.val, kp, col, en, [4], phases, kr)


def single(S, M, p):
    sp, sizes = p["spinor"], p["sizes"]
    n = sum(sizes)
    order, ph = S.pick("eig", [(0, 1), (1, S.I)])
    fast = p.get("fast")
    near = sizes[0] == 1 and (sp if fast else S.pick("near", [False, True]))
    q, qc = spin(S, sp, near)
    t = [S.turn("t%d" % i) for i in range(3)]
    waves, phases = [], []
    for i in range(n):
        j = 0 if near and i == n - 1 else i
        g = tuple(1 if j == r else 0 for r in range(3))
        s = i % 2 if sp else 0
        if near and i == n - 1:
            # the last state shares (scalar) or nearly shares (spinor) the eigenvalue of the first
            g, s = (g, 1) if sp else ((1, 1, 0) if n == 2 else (1, 0, 1), 0)
        waves.append((g, s))
        phases.append(S.E(-t[j]) * (q if s == 0 else qc))
    if near and not sp:
        t[n - 1] = S.rat(0)
    elif near:
        t[n - 1] = S.rat(F(1, 2))
    arcs = list(S.pick("arcs", [(0, 1, 2), (3, 5, 4), (4, 0, 3), (2, 3, 1)][:1 if fast and sp else 4]))
    for i in range(n - 1 if near else n):
        on_arc(S, phases[i], ROUND[arcs[i]], S.rat(1, 10))
    U = states(S, sizes, [MIX[0] if fast and (sp or sizes[i] == 1) else S.pick("mix%d" % i, MIX[:2]) for i in range(len(sizes))])
    op = make_op(S, M, I3, spinor=False)
    op.translation = S.array([x * S.rat(1) for x in t])
    if sp:
        op.spinor_rotation = S.array([[q, 0 * S.I], [0 * S.I, qc]])
    kp, col, en = build(S, M, U, sizes, waves, sp, op)
    eig_known(S, blocks_of(U, sizes, S), order, ph)
    r = S.call(kp.Separate, op, degen_thresh=F(1, 1000) if S.symbolic else 1e-3, groupKramers=False, v=1)
    S.check("runs", r.ok, r.err)
    if r.ok:
        S.check("one subspace per eigenvalue", len(r.val) == (n - 1 if near else n), len(r.val))
        check_subs(S, r.val, kp, col, en, sizes, phases, False, tol=S.rat(1, 20) if near and sp else None)


def twice(S, M, p):
    order, ph = S.pick("eig", [(0, 1), (1, S.I)])
    t = [S.turn("t%d" % i) for i in range(2)]
    arcs = S.pick("arcs", [(0, 1), (2, 3), (3, 0)])
    waves, phases = [], []
    for i in range(2):
        g = tuple(1 if j == i else 0 for j in range(3))
        waves += [(g, 0), (tuple(-x for x in g), 0)]
        phases += [S.E(-t[i]), S.E(t[i])]
        on_arc(S, phases[-2], UPPER[arcs[i]], S.rat(1, 10))
    if S.pick("same", [False, True]):
        t[1] = t[0]
        phases[2:] = phases[:2]
    sizes = [2, 2]
    U = states(S, sizes, MIX[:2])
    op = make_op(S, M, I3, spinor=False)
    op.translation = S.array([t[0], t[1], S.rat(0)])
    kp, col, en = build(S, M, U, sizes, waves, False, op)
    th = F(1, 1000) if S.symbolic else 1e-3
    inv = make_op(S, M, INV, spinor=False)
    eig_known(S, blocks_of(U, sizes, S), order, ph)
    r = S.call(lambda: [(a, x) for a, s in kp.Separate(op, degen_thresh=th, groupKramers=True).items()
                        for x in s.Separate(inv, degen_thresh=th, groupKramers=True).items()])
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    tot = 0
    for a, (b, sub) in r.val:
        tot += sub.num_bands
        S.check("parity of the subspace is +1 or -1", S.Or(S.eq(b, 1), S.eq(b, -1)))
        for i in range(sub.num_bands):
            psi = [sub.WF[i, c] for c in col]
            S.check("eigenstate of the second operation", S.And(*[S.eq(psi[j ^ 1], b * psi[j]) for j in range(4)]))
            S.check("eigenstate of the first operation (real part)", S.And(*[S.eq(f.real * x, a.real * x) for x, f in zip(psi, phases)]))
            S.check("energy of the level", S.And(*[S.Or(S.eq(x, 0), S.eq(sub.Energy_mean[i], e)) for x, e in zip(psi, en)]))
    S.check("every state goes to one subspace", tot == 4)


def unitary(S, M, p):
    c, d = S.pick("mix", [(F(3, 5), F(4, 5)), (F(5, 13), F(12, 13)), (F(7, 25), F(24, 25)), (F(20, 29), F(21, 29))])
    t = S.turn("t")
    op = make_op(S, M, I3, spinor=False)
    op.translation = S.array([t, S.rat(0), S.rat(0)])
    v = S.pick("v", [0, 1])
    # a second state, with a sharp eigenvalue, in the same window
    WF = [[S.rat(c) + 0 * S.I, S.rat(d) * S.I, 0 * S.I], [0 * S.I, 0 * S.I, 1 + 0 * S.I]]
    ig = [[1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 1, 2], [0, 0, 0], [3, 3, 3]]
    e = S.real("e", -5, 5)
    kp = make_kpoint(S, M, [e, e + S.real("de", F(1, 10), 5)], char=[[S.rat(1)], [S.rat(2)]], WF=S.array(WF), ig=S.array(ig), thresh=F(1, 1000))
    kp.irreps = ["None", "None"]
    eig_known(S, [], 0, 1)
    w = S.rat(c * c) * S.E(-t) + S.rat(d * d)
    m2 = (w * nconj(S, w)).real
    bad = S.is_true(m2 < S.rat(49, 100) - S.rat(1, 100))
    if not bad:
        S.assume(m2 > S.rat(49, 100) + S.rat(1, 100))
    g = S.pick("kramers", [True, False])
    r = S.call(kp.Separate, op, degen_thresh=F(1, 1000) if S.symbolic else 1e-3, groupKramers=g, v=v)
    if bad:
        S.check("states that are not eigenstates of the operation are refused", r.raised(RuntimeError), r.err)
    else:
        S.check("nearly unitary operations are accepted", r.ok, r.err)
        if r.ok and not g and len(r.val) == 2:
            for key in r.val:
                S.check("eigenvalues are reported with modulus one", S.eq(key * nconj(S, key), 1))
