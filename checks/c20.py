"""C20 -- separation of the band structure by the eigenvalues of an operation (BandStructure.Separate)."""
from fractions import Fraction as F
from .common import *
from .geom import *
from .bands import *

ID = "C20"
BOUNDS = ("operations of order 1, 2, 3, 4, 6 (scalar and spinor eigenvalues), 1 to 3 (thorough 4) k-points, each with any non-empty subset of the eigenvalues (listed patterns), in any "
          "listed order; eigenvalues with independent numerical noise of +-1e-3 per k-point (of the real part for grouped pairs, of the phase otherwise); Kramers pairs grouped (real parts) or not (complex eigenvalues).")
ASSUMPTIONS = ["floating point treated as exact real arithmetic", "the separation at one k-point is decided by C19 and stands here as an input: any dictionary {eigenvalue: states}"]
R2, R3 = F(7071, 10000), F(8660, 10000)
VALS = {  # name: (real parts for grouped pairs, complex eigenvalues)
    "2s": ([0], [(0, 1), (0, -1)]), "2": ([1, -1], [(1, 0), (-1, 0)]), "3s": ([F(1, 2), -1], [(F(1, 2), R3), (-1, 0), (F(1, 2), -R3)]),
    "4s": ([R2, -R2], [(R2, R2), (-R2, R2), (-R2, -R2), (R2, -R2)]), "6s": ([R3, 0, -R3], [(R3, F(1, 2)), (0, 1), (-R3, F(1, 2)), (-R3, F(-1, 2)), (0, -1), (R3, F(-1, 2))]),
    "4": ([1, 0, -1], [(1, 0), (0, 1), (-1, 0), (0, -1)]),
    "6": ([1, F(1, 2), F(-1, 2), -1], [(1, 0), (F(1, 2), R3), (F(-1, 2), R3), (-1, 0), (F(-1, 2), -R3), (F(1, 2), -R3)]),
    "3": ([1, F(-1, 2)], [(1, 0), (F(-1, 2), R3), (F(-1, 2), -R3)])}


def tasks(tier):
    out = []
    for o in VALS:
        for kr in (True, False):
            for nk in ((1, 2, 3) if len(VALS[o][0]) < 3 else (1, 2)) if tier == "quick" else (1, 2, 3, 4):
                if (len(VALS[o][1]) == 6 or o == "4") and not kr:
                    if nk == 2:
                        out += [dict(name="%s-single-2-%d" % (o, q), params=dict(o=o, kramers=kr, nk=nk, pat=q), opts=dict(budget=60 if tier == "quick" else 300, max_paths=1500))
                                for q in (range(5) if tier == "thorough" else (1, 3, 4))]
                elif kr or nk <= 2 or tier == "thorough":
                    out.append(dict(name="%s-%s-%d" % (o, "pairs" if kr else "single", nk), params=dict(o=o, kramers=kr, nk=nk), opts=dict(budget=80 if tier == "quick" else 400, max_paths=1500)))
    out.append(dict(name="identity", body="identity", params=dict(), opts=dict(budget=60)))
    return out


class Sep:
    """k-point whose separation is given"""

    def __init__(self, parts):
        self.parts = parts
        self.asked = []

    def Separate(self, symop, degen_thresh=None, groupKramers=True, v=0):
        self.asked.append((symop, degen_thresh, groupKramers))
        return dict(self.parts)


def body(S, M, p):
    kr, nk = p["kramers"], p["nk"]
    vals = VALS[p["o"]][0 if kr else 1]
    n = len(vals)
    full = list(range(n))
    pats = [[full] * nk, [full] + [full[:1]] + [full[1:] or full] * (nk - 2), [full[1:] or full] * (nk - 1) + [full], [full[::-1]] + [full[-1:]] * (nk - 1),
                           [full[:1]] * nk]
    pat = pats[p["pat"]] if "pat" in p else S.pick("pattern", pats)
    e = F(1, 1000)
    kps, where = [], {}
    for i in range(nk):
        parts = {}
        for j in pat[i]:
            z = S.rat(vals[j]) if kr else S.rat(vals[j][0]) + S.rat(vals[j][1]) * S.I
            # noise of the eigenvalues of this k-point
            x = S.real("x%d_%d" % (i, j), -e, e)
            key = z + x + 0 * S.I if kr else z * (1 + x * S.I)
            o = Obj(tag=(i, j))
            parts[key] = o
            where[(i, j)] = o
        kps.append(Sep(parts))
    ops = [make_op(S, M, I3, ind=1, spinor=False), make_op(S, M, INV, ind=2, spinor=False), make_op(S, M, I3, ind=3, spinor=False)]
    sg = make_sg(S, M, ops)
    bs = make_bands(S, M, kps, sg=sg, tag="original")
    th = S.rat(1, 1000)
    isym = S.pick("isym", [2, 3])
    r = S.call(bs.Separate, isym, degen_thresh=th, groupKramers=kr, v=0)
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    subs = r.val
    S.check("each k-point is separated by the chosen operation with the given options",
            all(len(k.asked) == 1 and k.asked[0][0] is ops[isym - 1] and k.asked[0][2] == kr and bool(S.same(S.array([k.asked[0][1]]), S.array([th])) if S.symbolic else k.asked[0][1] == th) for k in kps))
    present = sorted(set(j for q in pat for j in q))
    S.check("one subspace per eigenvalue", len(subs) == len(present), len(subs))
    S.check("the k-points of the original are untouched", bs.kpoints == kps)
    if len(subs) != len(present) or len(subs) == 0:
        return
    seen = []
    for key, sub in subs.items():
        kk = key if kr else key
        near = []
        for j in present:
            z = S.rat(vals[j]) if kr else S.rat(vals[j][0]) + S.rat(vals[j][1]) * S.I
            d = kk - z
            near.append(S.is_true(S.And(d.real <= 2 * e, d.real >= -2 * e, d.imag <= 2 * e, d.imag >= -2 * e)))
        S.check("the key is the eigenvalue of the subspace", sum(near) == 1)
        if sum(near) != 1:
            return
        j = present[near.index(True)]
        seen.append(j)
        S.check("the subspace keeps the data of the crystal", sub.spacegroup is sg and sub.tag == "original")
        if len(present) == 1:
            S.check("a single eigenvalue: all the states", sub is bs or [k.tag for k in sub.kpoints] == [(i, j) for i in range(nk)])
        else:
            S.check("states with this eigenvalue of every k-point that has them, in order", sub is not bs and [k.tag for k in sub.kpoints] == [(i, j) for i in range(nk) if j in pat[i]])
    S.check("every eigenvalue has a subspace", sorted(seen) == present)


def identity(S, M, p):
    ops = [make_op(S, M, I3, ind=1, spinor=False), make_op(S, M, INV, ind=2, spinor=False)]
    bs = make_bands(S, M, [Sep({})], sg=make_sg(S, M, ops))
    r = S.call(bs.Separate, 1, degen_thresh=S.rat(1, 1000), groupKramers=S.pick("k", [True, False]))
    S.check("separation by the identity returns the band structure with eigenvalue 1", r.ok and list(r.val) == [1] and r.val[1] is bs, r.err)
