"""C18 -- gaps of the band structure (upper, gap_direct, gap_indirect)."""
from .common import *
from .geom import *
from .bands import *

ID = "C18"
BOUNDS = ("1 to 3 (thorough 5) k-points with 1 or 2 bands each, any energies (ascending), any energy of the first band above the set at every k-point (also below the highest "
          "level: metals) or no band above it at every k-point; reported on the terminal and in the dictionary for JSON.")
ASSUMPTIONS = ["floating point treated as exact real arithmetic"]


def tasks(tier):
    out = []
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5):
        out.append(dict(name="gaps-%d" % n, params=dict(n=n, nan=False), opts=dict(budget=150, max_paths=2500)))
    for n in (1, 2):
        out.append(dict(name="noupper-%d" % n, params=dict(n=n, nan=True), opts=dict(budget=100, max_paths=400)))
    return out


def body(S, M, p):
    n = p["n"]
    # outside: sets where only some k-points have a band above (the statement does not fix the number given then)
    every = p["nan"]
    none = [every] * n
    kps, top, up = [], [], []
    for i in range(n):
        nb = 1 + (i + n) % 2
        e = [S.real("e%d_%d" % (i, b), -50, 50) for b in range(nb)]
        for a, b in zip(e, e[1:]):
            S.assume(b - a > S.rat(1, 100))
        u = None if none[i] else S.real("u%d" % i, -60, 60)
        kps.append(make_kpoint(S, M, e, ik=i, upper=u))
        top.append(e[-1])
        up.append(u)
    bs = make_bands(S, M, kps)
    a, b = S.call(lambda: bs.gap_direct), S.call(lambda: bs.gap_indirect)
    S.check("runs", a.ok and b.ok, (a.err, b.err))
    if not (a.ok and b.ok):
        return
    gd, gi = a.val, b.val
    if every:
        S.check("no band above the set: no finite gap", not S.np.isfinite(gd) and not S.np.isfinite(gi))
    else:
        S.check("direct gap: not larger than the gap at any k-point", S.And(*[S.le(gd, u - t) for u, t in zip(up, top) if u is not None]))
        S.check("direct gap: the gap at some k-point", S.Or(*[S.eq(gd, u - t) for u, t in zip(up, top) if u is not None]))
        S.check("indirect gap: not larger than any difference", S.And(*[S.le(gi, u - t) for u in up if u is not None for t in top]))
        S.check("indirect gap: one of the differences", S.Or(*[S.eq(gi, u - t) for u in up if u is not None for t in top]))
    r = S.call(bs.identify_irreps, None)
    r = S.call(bs.write_characters)
    S.check("report runs", r.ok, r.err)
    if not r.ok:
        return
    out = S.stdout()
    g = all_after(out, "Gap with upper bands")
    S.check("gap at each k-point that has a band above", len(g) == n - sum(map(bool, none)), g)
    if not every:
        if len(g) == n - sum(map(bool, none)):
            for x, (u, t) in zip(g, [(u, t) for u, t in zip(up, top) if u is not None]):
                S.check("printed gap at the k-point", S.textnum(x.strip(), u - t), x)
        S.check("printed gaps", S.And(S.textnum(after(out, "Indirect gap").strip(), gi),
                                      S.textnum(after(out, "Smallest direct gap in the given set of k-points").strip(), gd)))
    r = S.call(bs.json)
    # the totals of inversion-odd states are decided by C17
    S.check("json runs", r.ok, r.err)
    if r.ok and not every:
        S.check("json: gaps", S.And(S.eq(r.val["indirect gap (eV)"], gi), S.eq(r.val["Minimal direct gap (eV)"], gd)))
