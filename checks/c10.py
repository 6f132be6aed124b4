"""C10 -- traces of operations on Bloch states (symm_eigenvalues)."""
from fractions import Fraction as F
from .common import *
from .waves import *

ID = "C10"
BOUNDS = ("operations: one per kind in quick, every operation in thorough, of cubic, hexagonal, fcc, bcc and rhombohedral lattices; k = k0 + u v with k0 in "
          "{0,1/2,+-1/3,1/4}^3, v a direction fixed by the operation and u any real in [-1,1]; plane-wave sets of 4 orbits (up to 24 waves); 2 bands; "
          "coefficients, spinor matrix and translation arbitrary complex/real numbers.")
ASSUMPTIONS = ["floating point treated as exact real arithmetic"]
FAMS = ["cubic", "hexa", "fcc", "bcc", "rhomb"]


def tasks(tier):
    out = []
    for fam in FAMS:
        ops = point_ops(fam) if tier == "thorough" else distinct_kinds(fam)
        for k, A in enumerate(ops):
            for sp in (False, True):
                out.append(dict(name="%s-%d-%s" % (fam, k, "spinor" if sp else "scalar"),
                                params=dict(A=A, spinor=sp, extra=tier == "thorough"), opts=dict(budget=120, max_paths=60)))
    return out


def setting(S, M, p):
    A, spinor = p["A"], p["spinor"]
    k0, v = S.pick("k", invariant_kpoints(A, p.get("extra", False)))
    u = S.real("u", -1, 1) if v is not None else 0
    k = [S.rat(k0[i]) + (u * v[i] if v is not None else 0) for i in range(3)]
    blocks = plane_waves(A, k0, SEEDS[:p.get("seeds", 4)])
    npw = sum(len(b) for b in blocks)
    ig = S.array(ig_table(blocks))
    WF = wavefunctions(S, p.get("nb", 2), npw, spinor)
    T = S.array([S.real("t%d" % i, -2, 2) for i in range(3)])
    Sm = S.array([[S.cplx("s%d%d" % (i, j)) for j in range(2)] for i in range(2)])
    return A, spinor, S.array(k), blocks, npw, ig, WF, T, Sm


def body(S, M, p):
    A, spinor, k, blocks, npw, ig, WF, T, Sm = setting(S, M, p)
    Rec = S.array([[2, 0, 0], [0, 2, 0], [0, 0, 2]])
    r = S.call(M.gvectors.symm_eigenvalues, k, Rec, WF, ig, S.array(A), Sm, T, spinor)
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    S.check("one trace per band", len(r.val) == WF.shape[0])
    for n in range(WF.shape[0]):
        want = bracket(S, WF, blocks, A, k, T, Sm, n, n, spinor)
        S.check("trace is <psi|{R|t}psi>", S.eq(r.val[n], want))
