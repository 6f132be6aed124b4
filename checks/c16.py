"""C16 -- table of levels, irreps and traces of a k-point on the terminal, and irreps.dat."""
from fractions import Fraction as F
from .common import *
from .geom import *
from .bands import *

ID = "C16"
BOUNDS = ("k-points with 1 to 3 levels (1+1+1, 2+1, 1+2, 3, 1+2+1) and 1 to 4 operations with indices in order; any coordinates, energies, real parts of all traces; imaginary parts: any value of one "
          "trace in the DFT cell and of one trace in the reference cell, the others listed constants; multiplicities: any real part of all of them, any imaginary part of one; labels listed; "
          "irreps identified or not; 1 to 2 k-points.")
ASSUMPTIONS = ["floating point treated as exact real arithmetic", "numbers claimed up to the printed decimals"]
GR = {"111": (1, 1, 1), "21": (2, 1), "12": (1, 2), "3": (3,), "121": (1, 2, 1)}
OPS = {1: ("tric", "1"), 2: ("tric", "-1"), 3: ("hexa", "3"), 4: ("mono", "2/m")}
LABELS = [["-GM1"], ["GM2+", "GM3-"], ["X1"], []]


def tasks(tier):
    out = []
    for g in GR:
        for n in (1, 2, 4) if tier == "quick" else (1, 2, 3, 4):
            if tier == "quick" and (g in ("3", "121")) == (n == 4):
                continue
            for fd, fr in ((0, 0), (1, 0)) if n < 4 else ((0, 1),):
                out.append(dict(name="%s-%d-%d%d" % (g, n, fd, fr), params=dict(g=GR[g], n=n, fd=fd, fr=fr, ir=(fd + fr) % 2 == 0), opts=dict(budget=80, max_paths=400)))
    out.append(dict(name="both", params=dict(g=(1, 1), n=2, fd=0, fr=3, ir=True, nk=2), opts=dict(budget=80, max_paths=800)))
    for n in (1, 2):
        out.append(dict(name="irreps-%d" % n, body="irrepsfile", params=dict(nk=n), opts=dict(budget=60, max_paths=100)))
    return out


def levels(S, g, i=0):
    e, m, x = [], [], S.real("e%d" % i, -20, 20)
    for q, n in enumerate(g):
        if q:
            x = x + S.real("d%d_%d" % (i, q), F(1, 100), 5)
        e += [x] * n
        m.append(x)
    return e, m


def close(S, s, x, tol):
    """text of a number within tol of x"""
    try:
        v, _ = S.value(s)
    except ValueError:
        return False
    return S.And(S.le(v - x, tol), S.le(x - v, tol))


def traces(S, tag, g, n, focus, const, want):
    """real parts arbitrary; imaginary parts zero (or a listed constant) but the one in the focus"""
    out, im = [], []
    for q in range(len(g)):
        row, irow = [], []
        for j in range(n):
            p = q * n + j
            y = S.rat(0)
            if p == focus % (n * len(g)) and want:
                y = S.real("im" + tag, -2, 2)
                S.assume(S.Or(abs(y) < F(9, 10**5), abs(y) > F(11, 10**5)))
            elif const and p % 3 == 2:
                y = S.rat(-1, 2)
            row.append(S.real("re%s%d_%d" % (tag, q, j), 0, 3) + y * S.I)
            irow.append(y)
        out.append(row)
        im += irow
    return out, im


def split_complex(s):
    """'a+bj' -> (a, sign b); real numbers -> (s, None)"""
    s = s.strip()
    if not s.endswith("j"):
        return s, None
    for i in range(len(s) - 2, 0, -1):
        if s[i] in "+-":
            return s[:i], s[i:-1]
    return None, s[:-1]


def rows_of(text):
    return [l.split("|") for l in text.splitlines() if l.count("|") >= 3]


def body(S, M, p):
    g, n, fd, fr = p["g"], p["n"], p["fd"], p["fr"]
    nk = p.get("nk", 1)
    fam, name = OPS[n]
    rots = group(name)[1]
    inds = list(range(1, n + 1)) if nk == 1 else [3, 11]
    ops = [make_op(S, M, r, fam=fam, ind=i, spinor=False) for r, i in zip(rots, inds)]
    e, mean = levels(S, g)
    k = [S.real("k%d" % a, F(1, 10), 1) for a in range(3)]
    kr = [S.real("q%d" % a, F(1, 10), 1) for a in range(3)]
    const = S.pick("other traces", ["real", "complex"]) == "complex"
    c1, i1 = traces(S, "d", g, n, fd, const and nk == 1, True)
    c2, i2 = traces(S, "r", g, n, fr, False, True)
    ik = S.pick("index", [0, 41])
    kp = make_kpoint(S, M, e, char=c1, k=k, ik=ik, ops=ops)
    kp.little_group = ops
    kp.char_refUC = S.array(c2)
    kp.k_refUC = S.array(kr)
    kp.onlytraces = not p["ir"]
    mult = []
    for q in range(len(g)):
        d = {}
        for l, lab in enumerate(LABELS[q % 4] if q or len(g) > 1 else LABELS[1]):
            y = S.rat(0)
            if q == 0 and l == 0 and nk == 1 and p["ir"]:
                y = S.real("my", -1, 1)
                S.assume(S.Or(abs(y) < F(9, 10**5), abs(y) > F(11, 10**5)))
            d[lab] = S.real("m%d_%d" % (q, l), F(1, 100), 4) + y * S.I
        mult.append(d)
    kp.irreps = mult if p["ir"] else ["None"] * len(g)
    r = S.call(kp.write_characters)
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    out = S.stdout()
    head = out.split("|")[0]
    S.check("index of the k-point, counted from one", ("k-point" in head) and head.split("k-point", 1)[1].split()[0].rstrip(":") == str(ik + 1), head[:80])
    co = [x.split("]")[0].split() for x in head.split("[")[1:]]
    S.check("coordinates in both cells", len(co) == 2 and all(len(x) == 3 for x in co) and
            S.And(*[close(S, a, b, F(6, 10**6)) for x, y in zip(co, (k, kr)) for a, b in zip(x, y)]), co)
    st = after(head, "number of states")
    S.check("number of states", st is not None and st.strip() == str(sum(g)), st)
    rows = rows_of(out)
    S.check("two lines of titles and two lines per level", len(rows) == 2 + 2 * len(g), len(rows))
    if len(rows) != 2 + 2 * len(g):
        return
    S.check("indices of the operations of the little group", rows[1][3].split() == [str(i) for i in inds], rows[1][3])
    for q in range(len(g)):
        a, b = rows[2 + 2 * q], rows[3 + 2 * q]
        S.check("mean energy and degeneracy", S.And(S.textnum(a[0].strip(), mean[q], 4), a[1].strip() == str(g[q])), a[:2])
        if not p["ir"]:
            S.check("irreps not identified", a[2].strip() == "None", a[2])
        else:
            it = [x.strip() for x in a[2].split(",") if x.strip()]
            S.check("one entry per irrep of the level", [x.split("(")[0] for x in it] == list(mult[q]), a[2])
            if [x.split("(")[0] for x in it] == list(mult[q]):
                for x, lab in zip(it, mult[q]):
                    v = x.split("(", 1)[1].rstrip(")")
                    m = mult[q][lab]
                    im = None
                    if v.endswith("i"):
                        re_, im = split_complex(v[:-1] + "j")
                    else:
                        re_ = v
                    S.check("multiplicity: real part", re_ is not None and close(S, re_, m.real, F(1, 10**3)), v)
                    S.check("multiplicity: imaginary part unless negligible", S.le(abs(m.imag), F(1, 10**4)) if im is None else close(S, im, m.imag, F(1, 10**4)), v)
        for lab, row, c in (("DFT cell", a, c1), ("reference cell", b, c2)):
            w = row[3].split()
            if len(w) != n:
                S.check("one trace per operation, " + lab, False, row[3])
                continue
            for x, t in zip(w, c[q]):
                u, v = split_complex(x)
                S.check("trace: real part, " + lab, u is not None and S.textnum(u, t.real, 4), x)
                S.check("trace: imaginary part unless negligible, " + lab, S.le(abs(t.imag), F(1, 10**4)) if v is None else S.textnum(v, t.imag, 4), x)
        S.check("energy and degeneracy only on the first line", not b[0].strip() and not b[1].strip() and not b[2].strip(), b[:3])


def irrepsfile(S, M, p):
    kps, want = [], []
    for i in range(p["nk"]):
        g = [(1, 1, 1), (2, 1)][i]
        e, mean = levels(S, g, i)
        kp = make_kpoint(S, M, e, ik=i)
        kp.onlytraces = False
        kp.irreps = [{lab: S.real("m%d%d%s" % (i, q, lab), F(1, 100), 4) + 0 * S.I for lab in LABELS[(q + i) % 3]} for q in range(len(g))]
        kps.append(kp)
        want += [(x, LABELS[(q + i) % 3]) for q, x in enumerate(mean)]
    bs = make_bands(S, M, kps)
    r = S.call(bs.write_irrepsfile)
    S.check("runs", r.ok, r.err)
    if not r.ok:
        return
    t = S.read_file("irreps.dat")
    S.check("file irreps.dat written", t is not None)
    rows = [l.split() for l in (t or "").splitlines() if l.strip()]
    S.check("one line per level of every k-point", len(rows) == len(want), len(rows))
    if len(rows) == len(want):
        for w, (x, labs) in zip(rows, want):
            S.check("energy and labels of the irreps of the level", S.And(S.textnum(w[0], x, 4), all(l in "".join(w[1:]) for l in labs) and
                                                                         sum(len(l) for l in labs) == len("".join(w[1:]).replace(",", "").replace(";", ""))), w)
