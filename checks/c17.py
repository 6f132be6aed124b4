"""C17 -- parity totals and Z2 / Z4 numbers of the band structure (num_bandinvs, write_characters, json)."""
from .common import *
from .geom import *
from .bands import *

ID = "C17"
BOUNDS = ("1 to 4 (thorough 6) k-points, each with or without inversion and with any number 0..40 of inversion-odd states (spinors: any even number); spinor and scalar band "
          "structures; reported on the terminal and in the dictionary for JSON. Z2 and Z4 claimed for even totals of states.")
ASSUMPTIONS = ["floating point treated as exact real arithmetic"]


def tasks(tier):
    out = []
    for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6):
        for sp in (True, False):
            out.append(dict(name="total-%d-%s" % (n, "spin" if sp else "scal"), params=dict(n=n, spinor=sp), opts=dict(budget=150, max_paths=400)))
    return out


def body(S, M, p):
    n, sp = p["n"], p["spinor"]
    kps, odd = [], []
    for i in range(n):
        kp = make_kpoint(S, M, [S.rat(0), S.rat(1)], ik=i, upper=S.rat(2))
        if S.pick("inv%d" % i, [True, False]):
            m = S.int("odd%d" % i, 0, 20)
            m = 2 * m if sp or n < 3 else 2 * m + (1 if i == 0 else 0)
            kp.num_bandinvs = m
        else:
            m = None
        odd.append(m)
        kps.append(kp)
    tot = sum((m for m in odd if m is not None), 0)
    bs = make_bands(S, M, kps, sp)
    S.check("total: sum over the k-points with inversion", S.eq(bs.num_bandinvs, tot))
    r = S.call(bs.identify_irreps, None)
    S.check("runs", r.ok, r.err)
    r = S.call(bs.write_characters)
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    out = S.stdout()
    inv = all_after(out, "Invariant under inversion:")
    S.check("each k-point: inversion or not", [x.strip() for x in inv] == ["No" if m is None else "Yes" for m in odd], inv)
    key = "Number of inversions-odd Kramers pairs" if sp else "Number of inversions-odd states"
    nums = all_after(out, key)
    want = [m for m in odd if m is not None]
    S.check("each k-point with inversion has its number", len(nums) == len(want), nums)
    if len(nums) == len(want):
        for a, b in zip(nums, want):
            S.check("number at the k-point (pairs for spinors)", S.textnum(a.split()[0], b / 2 if sp else b), a)
    t = after(out, "TOTAL number of inversions-odd " + ("Kramers pairs" if sp else "states"))
    S.check("printed total", t is not None and S.textnum(t.split()[0], tot / 2 if sp else tot), t)
    half = tot / 2
    even = S.eq(S.floor(half) * 2, tot)
    z2, z4 = after(out, "Z2 invariant"), after(out, "Z4 invariant")
    S.check("Z2: pairs modulo 2", S.Implies(even, S.textnum(z2.split()[0], half - 2 * S.floor(half / 2))), z2)
    S.check("Z4: pairs modulo 4", S.Implies(even, S.textnum(z4.split()[0], half - 4 * S.floor(half / 4))), z4)
    r = S.call(bs.json, ["K%d" % i for i in range(n)])
    S.check("json runs", r.ok, r.err)
    if r.ok:
        d = r.val
        if sp:
            z = d["Z4"]
            z = z[0] if isinstance(z, (tuple, list)) else z     # the reference files of the test suite store it as a list of one number
            S.check("json: pairs and Z4", S.And(S.eq(d["number of inversion-odd Kramers pairs"], half), S.eq(z, half - 4 * S.floor(half / 4))), d.get("Z4"))
        else:
            S.check("json: number of states", S.eq(d["number of inversion-odd states"], tot))
