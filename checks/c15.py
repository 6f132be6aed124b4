"""C15 -- reading of the irrep tables (format of the files) and text form of their elements."""
from fractions import Fraction as F
from .common import *
from .geom import *

ID = "C15"
BOUNDS = ("table files with 1..4 operations and 2 k-points with 0..2 irreps, lists of operations as numbers or ranges in any of the listed forms, real and complex (modulus, "
          "phase) characters, comments or blank lines in between, with and without spinor matrices; every number of the file symbolic; round trips of operations, k-points "
          "and irreps with any values (5 printed decimals).")
ASSUMPTIONS = ["floating point treated as exact real arithmetic", "numbers are written with enough digits to be read back exactly"]
FORMS = [("1 2 3", [1, 2, 3]), ("1-3", [1, 2, 3]), ("2  4", [2, 4]), ("1 3-4", [1, 3, 4]), ("3", [3]), ("1-2 4", [1, 2, 4]), ("1 9-12 24", [1, 9, 10, 11, 12, 24])]


def tasks(tier):
    out = []
    for sp in (False, True):
        for n in (1, 2, 4) if tier == "quick" else (1, 2, 3, 4, 8):
            out.append(dict(name="file-%d-%s" % (n, "spin" if sp else "scal"), body="table", params=dict(n=n, spinor=sp), opts=dict(budget=150, max_paths=400)))
    for sp in (False, True):
        out.append(dict(name="wrong-%d" % sp, body="wrong", params=dict(spinor=sp), opts=dict(budget=60)))
    out.append(dict(name="round-op", body="round_op", params=dict(), opts=dict(budget=150)))
    out.append(dict(name="round-op-spin", body="round_spin", params=dict(), opts=dict(budget=150)))
    out.append(dict(name="round-k", body="round_k", params=dict(), opts=dict(budget=100)))
    out.append(dict(name="round-irrep", body="round_irr", params=dict(), opts=dict(budget=150, max_paths=400)))
    out.append(dict(name="round-irrep-c", body="round_irrc", params=dict(), opts=dict(budget=150, max_paths=400)))
    return out


def num(S, name, lo=-2, hi=2):
    x = S.real(name, lo, hi)
    return x, S.fmt(x)


def opline(S, n, spinor):
    R = [[S.int("R%d%d%d" % (n, i, j), -1, 1) for j in range(3)] for i in range(3)]
    t = [num(S, "t%d%d" % (n, i)) for i in range(3)]
    s = " ".join(S.fmt(x) for r in R for x in r) + "    " + "  ".join(x[1] for x in t)
    a = p = None
    if spinor:
        diag = n == 0 and S.pick("diagonal spinor matrix", [False, True])
        a = [(S.rat(0), "0.0") if diag and i in (1, 2) else num(S, "a%d%d" % (n, i), F(1, 1000), 1) for i in range(4)]
        p = [num(S, "p%d%d" % (n, i), F(-999, 1000), 1) for i in range(4)]
        s += "     " + " ".join(x[1] for x in a) + "    " + " ".join(x[1] for x in p)
    return s, R, [x[0] for x in t], [x[0] for x in a or []], [x[0] for x in p or []]


def check_op(S, o, R, t, a, p, spinor):
    S.check("rotation of the line", S.eq(o.R, S.array(R)))
    S.check("translation of the line", S.eq(o.t, S.array(t)))
    if spinor:
        want = [[a[2 * i + j] * S.E(p[2 * i + j] / 2) for j in range(2)] for i in range(2)]
    else:
        want = [[1, 0], [0, 1]]
    S.check("spinor matrix: moduli and phases in units of pi", S.eq(o.S, S.array(want)))


def table(S, M, p):
    n, sp = p["n"], p["spinor"]
    ops = [opline(S, i, sp) for i in range(n)]
    text = "SG=%d\n name=P21/c \n nsym= %d\n spinor=%s\nsymmetries=\n" % (14, n, sp)
    junk = S.pick("junk", ["", "\n"])
    text += "".join(o[0] + "\n" + junk for o in ops) + "\n\n"
    ks = []
    forms = [f for f in FORMS if max(f[1]) <= n] or [("1", [1])]
    forms = forms[:3] + forms[-1:]
    irr = []
    for kn, nirr in (("GM", 2), ("X", S.pick("irreps of X", [0, 1]))):
        kk = [num(S, "k%s%d" % (kn, i), -1, 1) for i in range(3)]
        f, isym = S.pick("operations " + kn, forms if kn == "GM" else forms[-1:] + forms[:1])
        text += " kpoint  %s : %s  : %s\n" % (kn, " ".join(x[1] for x in kk), f)
        for m in range(nirr):
            cx = S.pick("complex %s%d" % (kn, m), [False, True]) if m == 0 else kn == "GM"
            ch = [num(S, "c%s%d%d" % (kn, m, i), -4, 4) for i in range(len(isym))]
            ph = [num(S, "f%s%d%d" % (kn, m, i), -1, 1) for i in range(len(isym))]
            name = "-%s%d" % (kn, m + 3)
            text += "%s %d    %s%s\n" % (name, m + 1, " ".join(x[1] for x in ch), "   " + " ".join(x[1] for x in ph) if cx else "") + junk
            irr.append((name, kn, [x[0] for x in kk], m + 1, isym, [x[0] for x in ch], [x[0] for x in ph], cx))
    S.file_text("tab.dat", text)
    r = S.call(M.irreptables.IrrepTable, 14, sp, name="tab.dat")
    S.check("file is read", r.ok, r.err)
    if not r.ok:
        return
    T = r.val
    S.check("header", (T.number, T.name.strip(), int(T.nsym), bool(T.spinor)) == (14, "P21/c", n, sp), (T.number, T.name, T.nsym, T.spinor))
    S.check("number of operations", len(T.symmetries) == n)
    if len(T.symmetries) != n:
        return
    for o, (s, R, t, a, ph) in zip(T.symmetries, ops):
        check_op(S, o, R, t, a, ph, sp)
    S.check("labels, k-points and dimensions of the irreps in the order of the file", [(i.name, i.kpname, i.dim) for i in T.irreps] == [(q[0], q[1], q[3]) for q in irr],
            [(i.name, i.kpname, i.dim) for i in T.irreps])
    if len(T.irreps) != len(irr):
        return
    for i, (name, kn, kk, dim, isym, ch, ph, cx) in zip(T.irreps, irr):
        S.check("coordinates of the k-point", S.eq(i.k, S.array(kk)))
        S.check("characters belong to the operations listed for the k-point", [int(q) for q in i.characters] == isym, (list(i.characters), isym))
        S.check("number of operations of the k-point", int(i.nsym) == len(isym))
        S.check("reality flag", bool(i.reality) == (not cx))
        if [int(q) for q in i.characters] == isym:
            for q, c, f in zip(isym, ch, ph):
                S.check("character: modulus and phase in units of pi", S.eq(i.characters[q], c * S.E(f / 2) if cx else c))


def wrong(S, M, p):
    sp = p["spinor"]
    o = opline(S, 0, sp)[0]
    sg, spin = S.pick("what", [(15, sp), (14, not sp)])
    S.file_text("tab.dat", "SG=%d\n name=P21/c \n nsym= 1\n spinor=%s\nsymmetries=\n%s\n" % (sg, spin, o))
    r = S.call(M.irreptables.IrrepTable, 14, sp, name="tab.dat")
    S.check("file of another group or kind of wave function is refused", not r.ok, None)


def round_op(S, M, p):
    s, R, t, a, ph = opline(S, 0, False)
    o = M.irreptables.SymopTable(s)
    r = S.call(lambda: M.irreptables.SymopTable(o.str(spinor=False)))
    S.check("text of an operation is read back", r.ok, r.err)
    if r.ok:
        S.check("same rotation", S.eq(r.val.R, S.array(R)))
        for x, y in zip(r.val.t, t):
            S.check("same translation (5 decimals)", S.abs(x - y) <= F(6, 10**6))


def round_spin(S, M, p):
    th = S.pick("angle", [0, F(1, 6), F(1, 4), F(1, 2), F(3, 4), 1])
    c, s = S.E(S.rat(F(th) / 2)).real, S.E(S.rat(F(th) / 2)).imag
    ph = S.pick("phase", [F(0), F(1, 3), F(1, 2), F(-2, 3), F(1)])
    a = [abs(c), abs(s), abs(s), abs(c)]
    p_ = [ph, F(1, 2), F(-1, 2), -ph]
    line = "0 1 0 1 0 0 0 0 -1  0.5 0.0 0.25   " + " ".join(S.fmt(x) for x in a) + "  " + " ".join(S.fmt(S.rat(x)) for x in p_)
    o = M.irreptables.SymopTable(line)
    r = S.call(lambda: M.irreptables.SymopTable(o.str()))
    S.check("text of an operation is read back", r.ok, r.err)
    if r.ok:
        for x, y in zip(r.val.S.reshape(-1), o.S.reshape(-1)):
            S.check("same spinor matrix (5 decimals)", S.And(S.abs((x - y).real) < F(1, 10**4), S.abs((x - y).imag) < F(1, 10**4)))


def round_k(S, M, p):
    f, isym = S.pick("list", FORMS)
    kk = [num(S, "k%d" % i, -1, 1) for i in range(3)]
    a = M.irreptables.KPoint(line="kpoint  K1 : %s : %s" % (" ".join(x[1] for x in kk), f))
    S.check("operations of the k-point", [int(x) for x in a.isym] == isym)
    r = S.call(lambda: M.irreptables.KPoint(line=a.str()))
    S.check("text of a k-point is read back", r.ok, r.err)
    if r.ok:
        b = r.val
        S.check("same k-point", S.And(b.name == "K1", S.eq(b.k, S.array([x[0] for x in kk])), [int(x) for x in b.isym] == isym))
        q = S.call(lambda: a == b)
        S.check("equal k-points compare equal", q.ok and bool(q.val), q.err)
        d = S.real("d", F(1, 10**6), 1)
        c = S.pick("other", ["name", "k", "k2", "isym"])
        b2 = M.irreptables.KPoint(name="K1" if c != "name" else "K2", k=a.k + S.array({"k": [0, d, 0], "k2": [d, 0, -d]}.get(c, [0, 0, 0])),
                                  isym=a.isym if c != "isym" else S.array([q + 1 for q in isym]))
        q = S.call(lambda: a == b2)
        S.check("different k-points compare different", q.ok and not bool(q.val), q.err)


def kpline(S, M):
    f, order = S.pick("operations", [("1 3-4", (1, 3, 4)), ("4 1 3", (4, 1, 3)), ("10 9 2", (10, 9, 2))])
    return M.irreptables.KPoint(line="kpoint K1 : 0.5 0 0 : " + f), order


def round_irr(S, M, p):
    kp, order = kpline(S, M)
    ch = [num(S, "c%d" % i, -4, 4) for i in range(3)]
    a = M.irreptables.Irrep("K1A 2 " + " ".join(x[1] for x in ch), kp)
    r = S.call(lambda: M.irreptables.Irrep(a.str(), M.irreptables.KPoint(line=kp.str())))
    S.check("text of an irrep is read back", r.ok, r.err)
    if r.ok:
        b = r.val
        S.check("same label and dimension", (b.name, int(b.dim), bool(b.reality)) == ("K1A", 2, True), (b.name, b.dim, b.reality))
        for i, x in zip(order, ch):
            S.check("same characters (5 decimals)", S.abs(b.characters[i] - x[0]) <= F(6, 10**6))


def round_irrc(S, M, p):
    kp, order = kpline(S, M)
    ch = [num(S, "c%d" % i, F(1, 10), 4) for i in range(3)]
    ph = [S.pick("f%d" % i, [F(0), F(1, 2), F(-1, 2), F(1)] if i else [F(1, 2), F(-1, 2)]) for i in range(3)]
    a = M.irreptables.Irrep("K1A 2 " + " ".join(x[1] for x in ch) + " " + " ".join(S.fmt(S.rat(x)) for x in ph), kp)
    r = S.call(lambda: M.irreptables.Irrep(a.str(), M.irreptables.KPoint(line=kp.str())))
    S.check("text of an irrep is read back", r.ok, r.err)
    if r.ok:
        b = r.val
        S.check("same label and dimension", (b.name, int(b.dim), bool(b.reality)) == ("K1A", 2, False), (b.name, b.dim, b.reality))
        for i, x, f in zip(order, ch, ph):
            d = b.characters[i] - x[0] * S.E(f / 2)
            S.check("same characters (5 decimals)", S.And(S.abs(d.real) < F(1, 10**4), S.abs(d.imag) < F(1, 10**4)))
