"""Kpoint and BandStructure objects with given levels, made without DFT files."""
from .common import *
from .geom import *


def make_kpoint(S, M, energies, char=None, inds=(1,), k=(0, 0, 0), upper=None, ik=0, spinor=False, WF=None, ig=None, rec=None, thresh=None, ops=None, **kw):
    nb = len(energies)
    if ops is None:
        ops = [make_op(S, M, I3, ind=i, spinor=False) for i in inds]
    if WF is None:
        WF = S.array([[1 if a == b else 0 for a in range(nb)] for b in range(nb)]) * (1 + 0 * S.I)
        ig = S.array([[i if r == 0 else 0 if r != 5 else nb for i in range(nb)] for r in range(6)])
    if thresh is not None:
        kw["degen_thresh"] = thresh
    kp = M.kpoint.Kpoint(ik=ik, num_bands=nb, RecLattice=S.array(I3) if rec is None else rec, symmetries_SG=ops, spinor=spinor,
                         kpt=S.array(list(k)) * S.rat(1), WF=WF, Energy=S.array(list(energies)) * S.rat(1), ig=ig,
                         upper=S.np.nan if upper is None else upper, **kw)
    lev = [int(x) for x in kp.borders]
    kp.Energy_mean = S.array([sum(energies[a:b], S.rat(0)) / (b - a) for a, b in zip(lev, lev[1:])])
    n = len(lev) - 1
    kp.char = S.array(char if char is not None else [[S.rat(b - a) + 0 * S.I for _ in ops] for a, b in zip(lev, lev[1:])])
    kp.char_refUC = S.array(kp.char)
    kp.num_bandinvs = None
    assert len(kp.char) == n, (len(kp.char), n)
    return kp


def make_bands(S, M, kpoints, spinor=False, sg=None, rec=None, efermi=0, **kw):
    b = M.bandstructure.BandStructure.__new__(M.bandstructure.BandStructure)
    b.kpoints, b.spinor, b.efermi = list(kpoints), spinor, efermi
    b.spacegroup = sg
    b.Lattice = S.array(I3) * S.rat(1)
    b.RecLattice = (S.array(I3) * S.rat(1)) if rec is None else rec
    b.Ecut = b.Ecut0 = S.rat(50)
    for q, v in kw.items():
        setattr(b, q, v)
    return b


def after(text, key):
    """text following the last line that contains key"""
    out = [l.split(key, 1)[1].lstrip(" :") for l in text.splitlines() if key in l]
    return out[-1] if out else None


def all_after(text, key):
    return [l.split(key, 1)[1].lstrip(" :") for l in text.splitlines() if key in l]
