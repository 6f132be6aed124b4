"""C12 -- Kpoint: normalisation, little group, levels, traces of levels, parity count, change of setting."""
from fractions import Fraction as F
from .common import *
from .geom import *
from .waves import *

ID = "C12"
BOUNDS = ("little group: point groups -1, 2/m, 222, 4, 3, -3, 32, 6 and any k = (u,v,w) in the listed planes/lines or boxes, u,v,w any reals, either exactly invariant or at least 1e-3 away "
          "from it, operations listed in any of two orders, optional restriction to chosen operations; levels: 4 (thorough 5) ascending energies, threshold any positive "
          "real; traces: 3 states in two levels with arbitrary complex traces per state (the function computing them is decided by C10 and is "
          "replaced by arbitrary values here), all translations, spinor and scalar, settings P, I, C with any shift; parity: 4 (thorough 6) states with any parities "
          "up to noise of 1e-3 per state at k = 0 and k = 1/2 points.")
ASSUMPTIONS = ["floating point treated as exact real arithmetic"]
LG = {"-1": [(1, 1, 1)], "2/m": [(1, 1, 1)], "222": [(1, 1, 1)], "4": [(1, 1, 0), (1, 0, 1)], "3": [(1, 1, 0), (0, 0, 1)], "-3": [(1, 1, 0)],
      "32": [(1, 1, 0)], "6": [(1, 1, 0)]}
REFS = {"P": I3, "I": [[1, 1, 0], [0, 1, 1], [1, 0, 1]], "C": [[1, 1, 0], [-1, 1, 0], [0, 0, 1]]}


def tasks(tier):
    out = []
    for g in ["-1", "2/m", "222", "4", "3"] + (["32", "-3", "6"] if tier == "thorough" else []):
        for n, mask in enumerate(LG[g]):
            for order in ("rev", "rot"):
                out.append(dict(name="lg-%s-%d-%s" % (g.replace("/", ""), n, order), body="little", params=dict(g=g, mask=mask, order=order),
                                opts=dict(budget=150 if tier == "quick" else 600, max_paths=1500)))
    out.append(dict(name="levels", body="levels", params=dict(nb=4 if tier == "quick" else 5), opts=dict(budget=150)))
    out.append(dict(name="norm", body="norm", params=dict(), opts=dict(budget=150)))
    for fam in ("cubic", "hexa"):
        ops = point_ops(fam) if tier == "thorough" else distinct_kinds(fam)
        for k, A in enumerate(ops):
            if A == I3:
                continue
            for ref in (["P", "I"] if fam == "cubic" and tier == "quick" else ["P"] if fam == "hexa" else list(REFS)):
                sp = k % 2 == 0
                out.append(dict(name="traces-%s-%d-%s" % (fam, k, ref), body="traces",
                                params=dict(A=A, fam=fam, ref=ref, spinor=sp, free=k % 3, ks=[k % 2, k % 2 + 2] if tier == "quick" else [0, 3],
                                            moved=[True] if tier == "quick" and ref == "P" else [True, False]),
                                opts=dict(budget=150 if tier == "quick" else 600, max_paths=60)))
    for k0 in ((0, 0, 0), ("1/2", 0, 0), ("1/2", "1/2", "1/2"), (0, "1/2", "1/2")):
        for sp in (False, True):
            out.append(dict(name="parity-%s%d" % ("".join(str(x)[0] for x in k0), sp), body="parity", params=dict(k0=[str(x) for x in k0], spinor=sp, nb=4 if tier == "quick" else 6),
                            opts=dict(budget=150, max_paths=200)))
    return out


def IND(i):
    """indices of two digits among them, with gaps"""
    return 4 * i + 2


def little(S, M, p):
    fam, ops = group(p["g"])
    n = len(ops)
    perm = permutation_(n, p["order"])
    k = [S.real("k%d" % i, F(-3, 4), F(3, 4)) if p["mask"][i] else S.rat(S.pick("k%d" % i, [F(0), F(1, 2)])) for i in range(3)]
    syms = []
    inside = []
    for j in range(n):
        A = ops[perm[j]]
        syms.append(make_op(S, M, A, fam=fam, ind=IND(perm[j]), spinor=False))
        B = recip(A)
        d = [a - b for a, b in zip(mv_s(B, k), k)]
        inv = S.And(*[S.eq(x, S.round(x)) for x in d])
        if S.is_true(inv):
            inside.append(IND(perm[j]))
        else:
            S.assume(S.Or(*[S.abs(x - S.round(x)) > F(1, 1000) for x in d]))
    subset = S.pick("restrict", [None, [IND(i) for i in range(n) if i % 2 == 0], [IND(n - 1)]])
    kw = {} if subset is None else dict(symmetries=subset)
    want = sorted(i for i in inside if subset is None or i in subset)
    one = S.array([[1, 0, 0], [0, 1, 0], [0, 0, 1]]) * (1 + 0 * S.I)
    ig = S.array(ig_table([[(0, 0, 0)], [(1, 0, 0)], [(0, 1, 0)]]))
    r = S.call(M.kpoint.Kpoint, ik=0, num_bands=3, RecLattice=S.array(I3), symmetries_SG=syms, spinor=False, kpt=S.array(k), WF=one,
               Energy=S.array([0, 1, 2]) * S.rat(1), ig=ig, **kw)
    S.check("runs", r.ok, r.err)
    if r.ok:
        S.check("little group: exactly the operations leaving k invariant, ascending index", [int(s.ind) for s in r.val.little_group] == want,
                ([int(s.ind) for s in r.val.little_group], want))


def permutation_(n, kind):
    if kind == "rev":
        return list(range(n))[::-1]
    return [(i + n // 2) % n for i in range(n)]


def levels(S, M, p):
    nb = p["nb"]
    e = [S.real("e0", -20, 20)]
    thr = S.real("thr", F(1, 10**8), 1)
    for i in range(1, nb):
        e.append(e[-1] + S.real("d%d" % i, 0, 3))
    want = [0]
    for i in range(1, nb):
        if S.is_true(e[i] - e[i - 1] > thr):
            S.assume(e[i] - e[i - 1] > thr + F(1, 10**9))
            want.append(i)
        else:
            S.assume(e[i] - e[i - 1] < thr - F(1, 10**9))
    want.append(nb)
    gs = [(i, 0, 0) for i in range(nb)]
    WF = S.array([[1 + 0 * S.I if i == j else 0 for j in range(nb)] for i in range(nb)])
    op = make_op(S, M, I3, spinor=False)
    r = S.call(M.kpoint.Kpoint, ik=3, num_bands=nb, RecLattice=S.array(I3), symmetries_SG=[op], spinor=False, kpt=S.array([0, 0, 0]) * S.rat(1), WF=WF,
               Energy=S.array(e), ig=S.array(ig_table([[g] for g in gs])), degen_thresh=thr, calculate_traces=True,
               symmetries_tables=[Obj(R=S.array(I3), t=S.array([0, 0, 0]))])
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    kp = r.val
    deg = [b - a for a, b in zip(want, want[1:])]
    S.check("levels: runs of states closer than the threshold", [int(x) for x in kp.degeneracies] == deg, (str(kp.degeneracies), deg))
    if [int(x) for x in kp.degeneracies] != deg:
        return
    for i, (a, b) in enumerate(zip(want, want[1:])):
        m = sum(e[a + 1:b], e[a]) / (b - a)
        S.check("energy of a level: mean of its states", S.eq(kp.Energy_mean[i], m))
        S.check("trace of the identity: the degeneracy", S.eq(kp.char[i, 0], b - a))
    S.check("index counted from one", kp.ik0 == 4)


def norm(S, M, p):
    nb, npw = 2, 3
    WF = wavefunctions(S, nb, npw, False)
    orig = [[WF[b, g] for g in range(npw)] for b in range(nb)]
    nn = []
    for b in range(nb):
        s = sum(((c * c.conjugate()).real for c in orig[b]), S.rat(0))
        S.assume(s > F(1, 100))
        S.assume(s < 100)
        nn.append(s)
    op = make_op(S, M, I3, spinor=False)
    r = S.call(M.kpoint.Kpoint, ik=0, num_bands=nb, RecLattice=S.array(I3), symmetries_SG=[op], spinor=False, kpt=S.array([0, 0, 0]) * S.rat(1), WF=WF,
               Energy=S.array([0, 1]) * S.rat(1), ig=S.array(ig_table([[(i, 0, 0)] for i in range(npw)])))
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    for b in range(nb):
        for g in range(npw):
            S.check("state divided by its norm", S.eq(r.val.WF[b, g] * S.sqrt(nn[b]), orig[b][g]))


def traced(S, M, want, table):
    """symm_eigenvalues replaced by given values per operation and state, after checking what it is asked for (C10 decides the function itself)"""
    f = M.gvectors.symm_eigenvalues
    import inspect
    sig = inspect.signature(f)
    bad = []

    def stub(*a, **kw):
        b = sig.bind(*a, **kw).arguments
        for n, (op, vals) in enumerate(table):
            if S.is_true(S.eq(S.array(b["A"]), op.rotation)) and S.is_true(S.eq(S.array(b["T"]), op.translation)):
                ok = [S.eq(b["K"], want["k"]), S.eq(b["igall"], want["ig"]), bool(b["spinor"]) == want["spinor"], S.eq(b["WF"], want["WF"])]
                if want["spinor"]:
                    ok.append(S.eq(b["S"], op.spinor_rotation))
                S.check("traces asked for this k-point, these states and this operation", S.And(*ok))
                return S.array([v + 0 * S.I for v in vals])
        S.check("traces asked for an operation of the crystal", False)
        return S.array([0 * S.I for _ in table[0][1]])
    S.patch("kpoint.symm_eigenvalues", stub)


def orthonormal(S, nb, npw):
    return S.array([[1 + 0 * S.I if g == b else 0 for g in range(npw)] for b in range(nb)])


def traces(S, M, p):
    A, sp = p["A"], p["spinor"]
    k0, v = S.pick("k", invariant_kpoints(A)[p["ks"][0]:p["ks"][1]])
    u = S.real("u", -1, 1) if v is not None else 0
    k = S.array([S.rat(k0[i]) + (u * v[i] if v is not None else 0) for i in range(3)])
    blocks = plane_waves(A, k0, SEEDS[:2])
    npw = sum(len(b) for b in blocks)
    nb = 3
    blocks = blocks if npw >= nb else plane_waves(A, k0, SEEDS)
    npw = sum(len(b) for b in blocks)
    WF = orthonormal(S, nb, npw * (2 if sp else 1))
    T = [S.real("t%d" % i, 0, F(99, 100)) for i in range(3)]
    U = S.array([[S.cplx("s%d%d" % (i, j)) for j in range(2)] for i in range(2)])
    one = make_op(S, M, I3, [0 * T[0]] * 3, fam=p["fam"], ind=1, spinor=sp)
    op = make_op(S, M, A, T, fam=p["fam"], ind=3, spinor=sp, U=U)
    other = make_op(S, M, INV, [S.rat(0)] * 3, fam=p["fam"], ind=2, spinor=sp)
    op.sign = S.pick("sign", [1, -1])
    B = REFS[p["ref"]]
    ref = S.array([[S.rat(x) for x in q] for q in B])
    moved = S.pick("shift", p["moved"])
    sh = S.array([S.real("o%d" % i, F(1, 10), 1) if moved else S.rat(0) for i in range(3)])
    tt = S.array([S.real("tt%d" % i, -1, 1) for i in range(3)])
    t1 = S.array([S.real("t1%d" % i, -1, 1) for i in range(3)])
    tabs = [Obj(R=S.array(I3), t=t1), Obj(R=S.array(INV), t=S.array([F(1, 8), F(1, 3), F(1, 5)]) * S.rat(1)), Obj(R=S.array(A), t=tt)]
    e = S.array([0, 0, 1]) * S.rat(1)
    ig = S.array(ig_table(blocks))
    x = [S.cplx("x", -2, 2) if b == p["free"] else [S.rat(-1), S.I / 2, S.rat(F(1, 3))][b] for b in range(nb)]
    y = [S.rat(1) for b in range(nb)]
    traced(S, M, dict(k=k, ig=ig, WF=S.array(WF), spinor=sp), [(one, y), (op, x)])
    r = S.call(M.kpoint.Kpoint, ik=0, num_bands=nb, RecLattice=S.array(I3), symmetries_SG=[op, one, other], symmetries=[1, 3], spinor=sp, kpt=k, WF=WF, Energy=e,
               ig=ig, calculate_traces=True, refUC=ref, shiftUC=sh, symmetries_tables=tabs, degen_thresh=1e-4)
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    kp = r.val
    S.check("k in the reference cell", S.eq(kp.k_refUC, ref.T.dot(k)))
    S.check("one row per level, one column per operation of the little group", tuple(kp.char.shape) == (2, 2))
    if tuple(kp.char.shape) != (2, 2):
        return
    want = [[y[0] + y[1], x[0] + x[1]], [y[2], x[2]]]
    for i in range(2):
        for j in range(2):
            S.check("trace of a level: sum over its states", S.eq(kp.char[i, j], want[i][j]))
    if p["ref"] == "P" and not moved:
        return
    refi = S.array([[S.rat(q) for q in w] for w in iinv(B)])
    kr = ref.T.dot(k)
    # x = B y + s:  the operation acts on y with translation  B^-1 (T + A s - s)
    for j, (R, t, tab, sg) in enumerate([(I3, one.translation, t1, 1), (A, S.array(T), tt, op.sign)]):
        d = tab - refi.dot(t + S.array(R).dot(sh) - sh)
        ph = S.E(-(d[0] * kr[0] + d[1] * kr[1] + d[2] * kr[2])) * sg
        for i in range(2):
            S.check("trace in the reference cell: phase of the difference in translation and sign", S.eq(kp.char_refUC[i, j], want[i][j] * ph))


def parity(S, M, p):
    k0 = [F(x) for x in p["k0"]]
    sp = p["spinor"]
    nb = p["nb"]
    signs = [S.pick("parity%d" % b, [1, -1]) for b in range(nb)]
    gs = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 1, 1)][:nb]
    WF = orthonormal(S, nb, nb * (2 if sp else 1))
    k = S.array([S.rat(x) for x in k0])
    ig = S.array(ig_table([gs]))
    one = make_op(S, M, I3, [S.rat(0)] * 3, ind=1, spinor=sp)
    two = make_op(S, M, [[-1, 0, 0], [0, -1, 0], [0, 0, 1]], [S.rat(0)] * 3, ind=2, spinor=sp)
    inv = make_op(S, M, INV, [S.rat(0)] * 3, ind=4, spinor=sp)
    three = make_op(S, M, [[0, -1, 0], [0, 0, -1], [-1, 0, 0]], [S.rat(0)] * 3, ind=3, spinor=sp)
    noise = [S.real("e%d" % b, F(-1, 1000), F(1, 1000)) for b in range(nb)]
    which = S.pick("inversion", ["yes", "no", "not through the origin"])
    if which == "not through the origin":
        inv = make_op(S, M, INV, [S.rat(F(1, 4)), S.rat(F(-1, 4)), S.rat(0)], ind=4, spinor=sp)
    # the parity does not depend on the conventions of the tables
    inv.sign = S.pick("sign of the inversion in the tables", [1, -1]) if which == "yes" else 1
    ref, sh = S.pick("reference cell", [(I3, [0, 0, 0]), (REFS["C"], [F(1, 4), F(1, 8), 0])]) if inv.sign == -1 else (I3, [0, 0, 0])
    ops = [one] + ([two, three] if k0[0] == k0[1] == k0[2] else [two]) + ([inv] if which != "no" else [])
    vals = {1: [S.rat(1)] * nb, 2: [(1 - 2 * (b % 2)) * S.I if sp else S.rat(1 - 2 * (b % 2)) for b in range(nb)],
            3: [S.rat(1)] * nb, 4: [signs[b] + noise[b] + noise[b] * S.I for b in range(nb)]}
    traced(S, M, dict(k=k, ig=ig, WF=S.array(WF), spinor=sp), [(o, vals[o.ind]) for o in ops])
    r = S.call(M.kpoint.Kpoint, ik=0, num_bands=nb, RecLattice=S.array(I3), symmetries_SG=ops, spinor=sp, kpt=k, WF=WF,
               Energy=S.array(([0, 0, 1, 2, 2, 2])[:nb]) * S.rat(1), ig=ig, calculate_traces=True, degen_thresh=1e-4,
               refUC=S.array([[S.rat(x) for x in q] for q in ref]), shiftUC=S.array([S.rat(x) for x in sh]),
               symmetries_tables=[Obj(R=o.rotation, t=o.translation) for o in (one, two, three, inv)])
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    if which != "yes":
        S.check("no inversion: no parity count", r.val.num_bandinvs is None)
    else:
        S.check("number of inversion-odd states", r.val.num_bandinvs is not None and int(r.val.num_bandinvs) == signs.count(-1),
                (str(r.val.num_bandinvs), signs))
