"""C33 -- reading and writing of numbers, lists and flags (irrep/utility.py)."""
from fractions import Fraction as F
from .common import *
from .geom import *

ID = "C33"
BOUNDS = ("lists: 1 to 4 items, every combination of numbers and ranges of 1 to 4 (6) numbers, any starting numbers; complex numbers: any real and imaginary part, of either sign, alone and together; "
          "formatting with 1 to 5 decimals, any value; roundness: any values of 1 to 3 numbers and any listed threshold; messages: any levels.")
ASSUMPTIONS = ["floating point treated as exact real arithmetic", "numbers claimed up to the printed decimals", "texts are composed of the listed forms with arbitrary numbers in them"]
ITEMS = [[1], [2], [1, 1], [1, 3], [4, 1], [2, 1, 3], [1, 1, 1], [3, 2, 1, 1]]


def tasks(tier):
    out = []
    for i, f in enumerate(ITEMS if tier == "quick" else ITEMS + [[6], [5, 1, 6], [1, 2, 1, 5]]):
        for sp in (0, 1):
            out.append(dict(name="list-%d-%d" % (i, sp), body="lists", params=dict(form=f, space=sp), opts=dict(budget=40)))
    out.append(dict(name="complex", body="cplx", params={}, opts=dict(budget=60, max_paths=300)))
    for nd in (1, 2, 3, 4, 5):
        out.append(dict(name="short-%d" % nd, body="shorts", params=dict(nd=nd), opts=dict(budget=60, max_paths=200)))
    out.append(dict(name="bool", body="bools", params={}, opts=dict(budget=40, max_paths=200)))
    for n in (1, 2, 3):
        out.append(dict(name="round-%d" % n, body="rounds", params=dict(n=n), opts=dict(budget=90, max_paths=200)))
    out.append(dict(name="kpoint", body="kclose", params={}, opts=dict(budget=90, max_paths=200)))
    out.append(dict(name="message", body="message", params={}, opts=dict(budget=40, max_paths=50)))
    out.append(dict(name="str", body="strs", params={}, opts=dict(budget=40, max_paths=50)))
    out.append(dict(name="split", body="splits", params={}, opts=dict(budget=40, max_paths=200)))
    out.append(dict(name="matrix", body="matrix", params={}, opts=dict(budget=60, max_paths=200)))
    return out


def lists(S, M, p):
    form, want, txt = p["form"], [], []
    for i, n in enumerate(form):
        a = S.int("a%d" % i, 0, 1000)
        rng = n > 1 or S.pick("range of one", [0, 1])
        txt.append(S.fmt(a) + ("-" + S.fmt(a + n - 1) if rng else ""))
        want += [a + q for q in range(n)]
    if p["space"]:
        r = S.call(M.utility.str2list_space, S.pick("gap", [" ", "   "]).join(txt) + S.pick("end", ["", " \n"]))
    else:
        r = S.call(M.utility.str2list, ",".join(txt))
    S.check("runs", r.ok, r.err)
    if r.ok:
        S.check("numbers and ranges, both ends included, in their order", len(r.val) == len(want) and S.And(*[S.eq(a, b) for a, b in zip(r.val, want)]))


def cplx(S, M, p):
    form = S.pick("form", ["re", "re+im", "im"])
    sa, sb = S.pick("sign", [1, -1]), S.pick("sign of the imaginary part", [1, -1])
    a, b = S.real("a", F(1, 100), 10), S.real("b", F(1, 100), 10)
    A = ("-" if sa < 0 else "") + S.fmt(a)
    B = ("-" if sb < 0 else "+" if form == "re+im" else "") + S.fmt(b) + "i"
    r = S.call(M.utility.compstr, {"re": A, "re+im": A + B, "im": B}[form])
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    if r.val is None:
        S.check("a number is returned", False)
        return
    v = r.val + 0 * S.I
    S.check("real and imaginary part with their signs", S.And(S.eq(v.real, sa * a if form != "im" else S.rat(0)), S.eq(v.imag, sb * b if form != "re" else S.rat(0))))


def split_number(s):
    """'+1.0+2.0j' -> (re, im) texts"""
    if not s.endswith("j"):
        return s, None
    for i in range(len(s) - 2, 0, -1):
        if s[i] in "+-":
            return s[:i], s[i:-1]
    return None, s[:-1]


def shorts(S, M, p):
    nd = p["nd"]
    kind = S.pick("kind", ["complex", "real"])
    a = S.real("a", -10, 10)
    b = S.real("b", -10, 10) if kind == "complex" else S.rat(0)
    x = a + b * S.I if kind == "complex" else a
    r = S.call(M.utility.short, x, nd) if nd != 3 or S.pick("argument", [0, 1]) else S.call(M.utility.short, x)
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    u, v = split_number(r.val)
    tol = F(1, 10 ** nd)
    for t, y in ((u, a), (v, b)):
        if t is None:
            S.check("a part is left out only when it would be zero", S.le(S.abs(y), tol))
        else:
            S.check("printed with its sign and the given number of decimals", t[:1] in "+-" and S.textnum(t, y, nd), r.val)
            if kind == "complex" and v is not None and u is not None:
                S.check("negligible parts are left out", S.le(tol * (1 - F(1, 10**9)), S.abs(y)), r.val)
            if S.symbolic:
                S.check("not more decimals", S.value(t)[1] in (nd, "lit"), r.val)


def bools(S, M, p):
    t = S.pick("text", ["T", "F", "true", "false", ".true.", ".FALSE.", "True", "False", " t", " f ", "t", "f", ".T.", ".F."])
    r = S.call(M.utility.str2bool, t)
    S.check("true and false in every form", r.ok and r.val is (t.strip(" .").lower()[0] == "t"), (t, r.err))
    u = S.pick("other", ["1", "yes", "0", "n"])
    r = S.call(M.utility.str2bool, u)
    S.check("anything else is refused", r.raised(RuntimeError), r.err)


def rounds(S, M, p):
    n = p["n"]
    x = [S.real("x%d" % i, -5, 5) for i in range(n)]
    prec = S.pick("threshold", [F(1, 10**6), F(1, 10), F(1, 10**4), F(1, 10**9)])
    r = S.call(M.utility.is_round, S.array(x) if n > 1 or S.pick("array", [0, 1]) else x[0], prec=S.rat(prec))
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    d2 = sum((S.abs(v - S.round(v)) * S.abs(v - S.round(v)) for v in x), S.rat(0))
    S.assume(S.Or(d2 < prec * prec * F(99, 100), d2 > prec * prec * F(101, 100)))
    S.check("integers up to the threshold, and nothing else", bool(r.val) == bool(S.is_true(d2 < prec * prec)))


def kclose(S, M, p):
    from .bands import make_kpoint
    k = [S.real("k%d" % i, -2, 2) for i in range(3)]
    g = S.pick("reciprocal vector", [(0, 0, 0), (1, -2, 0), (0, 3, 1)])
    ax = S.pick("axis", [0, 1, 2])
    d = S.real("d", F(-1, 2), F(1, 2))
    prec = S.pick("threshold", [None, F(1, 100)])
    tol = prec or F(1, 10**6)
    S.assume(S.Or(S.abs(d) < tol * F(99, 100), S.abs(d) > tol * F(101, 100)))
    kp = make_kpoint(S, M, [S.rat(0)], k=k)
    other = S.array([k[i] + g[i] + (d if i == ax else 0) for i in range(3)])
    r = S.call(kp.k_close_mod1, other, **({} if prec is None else {"prec": S.rat(prec)}))
    S.check("runs", r.ok, r.err)
    if r.ok:
        S.check("equal up to a reciprocal vector and the threshold, and nothing else", bool(r.val) == bool(S.is_true(S.abs(d) < tol)))


def message(S, M, p):
    v, l = S.int("v", 0, 3), S.int("l", 0, 3)
    r = S.call(M.utility.log_message, "hello", v, l)
    S.check("runs", r.ok, r.err)
    S.check("printed when the verbosity reaches the level", ("hello" in S.stdout()) == bool(S.is_true(v >= l)))


def strs(S, M, p):
    x = S.real("x", -10, 10)
    r = S.call(M.utility.str_, x)
    S.check("runs", r.ok, r.err)
    if r.ok:
        v, _ = S.value(r.val)
        S.check("number rounded to 5 decimals", S.And(S.le(v - x, F(501, 10**8)), S.le(x - v, F(501, 10**8))))


def splits(S, M, p):
    a = S.int("a", 0, 99)
    k = S.pick("key", ["num_bands", "mp_grid"])
    sep = S.pick("separator", [" = ", "=", " : ", ":", "  ", " "])
    vals = [S.fmt(a)] if S.pick("values", [1, 2]) == 1 else [S.fmt(a), "7"]
    r = S.call(M.utility.split, k + sep + "  ".join(vals))
    S.check("runs", r.ok, r.err)
    if r.ok:
        w = [x for y in r.val for x in y.split()]
        S.check("key, then the values", r.val[0].strip() == k and w == [k] + vals, r.val)


def matrix(S, M, p):
    e = S.pick("entry", [0, 1, 2, 3])
    x = [S.rat(1) + 0 * S.I, S.rat(-1, 2) * S.I, S.rat(1, 4) + S.I, S.rat(0) * S.I]
    x[e] = S.cplx("x")
    r = S.call(M.utility.format_matrix, S.array([x[:2], x[2:]]))
    S.check("runs", r.ok, r.err)
    if r.ok:
        rows = [l.split() for l in r.val.splitlines() if l.strip()]
        S.check("one line per row: real and imaginary parts", len(rows) == 2 and all(len(q) == 4 for q in rows) and
                S.And(*[S.And(S.textnum(q[2 * j], x[2 * i + j].real, 2), S.textnum(q[2 * j + 1], x[2 * i + j].imag, 2)) for i, q in enumerate(rows) for j in range(2)]), rows)
