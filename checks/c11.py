"""C11 -- matrices of operations between Bloch states (symm_matrix)."""
from fractions import Fraction as F
from .common import *
from .waves import *
from .c10 import setting, FAMS

ID = "C11"
BOUNDS = ("operations: one per kind in quick, every operation in thorough, of cubic, hexagonal, fcc, bcc and rhombohedral lattices; k = k0 + u v as in C10; "
          "plane-wave sets of 3 orbits (up to 18 waves); 2 bands (thorough 3); coefficients, spinor matrix and translation arbitrary.")
ASSUMPTIONS = ["floating point treated as exact real arithmetic"]


def tasks(tier):
    out = []
    for fam in FAMS:
        ops = point_ops(fam) if tier == "thorough" else distinct_kinds(fam)
        for k, A in enumerate(ops):
            for sp in (False, True):
                out.append(dict(name="%s-%d-%s" % (fam, k, "spinor" if sp else "scalar"),
                                params=dict(A=A, spinor=sp, seeds=3, nb=2 if tier == "quick" else 3), opts=dict(budget=120, max_paths=60)))
    return out


def body(S, M, p):
    A, spinor, k, blocks, npw, ig, WF, T, Sm = setting(S, M, p)
    Rec = S.array([[2, 0, 0], [0, 2, 0], [0, 0, 2]])
    r = S.call(M.gvectors.symm_matrix, k, Rec, WF, ig, S.array(A), Sm, T, spinor)
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    nb = WF.shape[0]
    S.check("square matrix over the bands", tuple(r.val.shape) == (nb, nb))
    for m in range(nb):
        for n in range(nb):
            S.check("element is <psi_m|{R|t}psi_n>", S.eq(r.val[m, n], bracket(S, WF, blocks, A, k, T, Sm, m, n, spinor)))
    d = S.call(M.gvectors.symm_eigenvalues, k, Rec, WF, ig, S.array(A), Sm, T, spinor)
    S.check("diagonal agrees with the traces", d.ok and S.eq(S.array([r.val[n, n] for n in range(nb)]), d.val))
