"""Interval evaluation of z3 terms (outward rounded): decides easy branches without a query.

Bounds come only from assertions of the current path: "v >= c", "v <= c", "v*v == t" with "v >= 0", "c*c + s*s == 1"."""
import math
import z3

INF = math.inf
RELS = frozenset((z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ))
dn = lambda x: math.nextafter(x, -INF)
up = lambda x: math.nextafter(x, INF)


def const(e):
    if z3.is_rational_value(e):
        try:
            x = e.numerator_as_long() / e.denominator_as_long()
        except OverflowError:
            return None
        return (dn(x), up(x))
    return None


def mul(a, b):
    p = []
    for x in a:
        for y in b:
            p.append(0.0 if x == 0 or y == 0 else x * y)
    return (dn(min(p)), up(max(p)))


def add(a, b):
    return (dn(a[0] + b[0]), up(a[1] + b[1]))


class Bounds:
    def __init__(self):
        self.v = {}      # ast id of a variable -> [lo, hi]
        self.sq = {}     # ast id of a variable -> term of its square
        self.memo = {}
        self.keep = []

    def learn(self, e):
        """use an assertion"""
        k = e.decl().kind()
        if k == z3.Z3_OP_AND:
            for c in e.children():
                self.learn(c)
            return
        if k in RELS:
            a, b = e.children()
            if not z3.is_arith(a):
                return
            if k == z3.Z3_OP_EQ:
                self.square(a, b)
                self.square(b, a)
            self.bound(a, b, k)
            self.bound(b, a, {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_GT: z3.Z3_OP_LT}.get(k, k))

    def square(self, a, b):
        if a.decl().kind() == z3.Z3_OP_MUL and a.num_args() == 2 and a.arg(0).eq(a.arg(1)) and isvar(a.arg(0)):
            self.keep.append((a, b))
            self.sq[a.arg(0).get_id()] = b
            self.memo.clear()

    def bound(self, a, b, k):
        if not isvar(a):
            return
        c = const(b)
        if c is None:
            return
        self.keep.append(a)
        w = self.v.setdefault(a.get_id(), [-INF, INF])
        if k in (z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ):
            w[0] = max(w[0], c[0])
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_EQ):
            w[1] = min(w[1], c[1])
        self.memo.clear()

    def term(self, e):
        i = e.get_id()
        if i in self.memo:
            return self.memo[i][0]
        r = self._term(e)
        self.memo[i] = (r, e)
        return r

    def _term(self, e):
        c = const(e)
        if c is not None:
            return c
        if isvar(e):
            lo, hi = self.v.get(e.get_id(), (-INF, INF))
            if e.get_id() in self.sq:
                q = self.term(self.sq[e.get_id()])
                h = up(math.sqrt(q[1])) if q[1] < INF and q[1] >= 0 else INF
                hi = min(hi, h)
                lo = max(lo, -h)
                if lo >= 0 or self.v.get(e.get_id(), (-1,))[0] >= -1e-300:
                    lo = max(lo, dn(math.sqrt(q[0])) if q[0] > 0 else 0.0)
            return (lo, hi)
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ADD:
            r = self.term(ch[0])
            for x in ch[1:]:
                r = add(r, self.term(x))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.term(ch[0])
            for x in ch[1:]:
                t = self.term(x)
                r = add(r, (-t[1], -t[0]))
            return r
        if k == z3.Z3_OP_UMINUS:
            t = self.term(ch[0])
            return (-t[1], -t[0])
        if k == z3.Z3_OP_MUL:
            while any(x.decl().kind() == z3.Z3_OP_MUL for x in ch):
                ch = [y for x in ch for y in (x.children() if x.decl().kind() == z3.Z3_OP_MUL else [x])]
            ch = sorted(ch, key=lambda x: x.get_id())
            r, i = None, 0
            while i < len(ch):
                n = 1
                while i + n < len(ch) and ch[i + n].eq(ch[i]):
                    n += 1
                t = power(self.term(ch[i]), n)
                r = t if r is None else mul(r, t)
                i += n
            return r
        if k == z3.Z3_OP_TO_REAL:
            return self.term(ch[0])
        if k == z3.Z3_OP_DIV:
            b = self.term(ch[1])
            if b[0] > 0 or b[1] < 0:
                return mul(self.term(ch[0]), (dn(1 / b[1]), up(1 / b[0])))
        if k == z3.Z3_OP_ITE:
            t = self.truth(ch[0])
            a, b = self.term(ch[1]), self.term(ch[2])
            return a if t is True else b if t is False else (min(a[0], b[0]), max(a[1], b[1]))
        return (-INF, INF)

    def truth(self, e):
        """True, False or None"""
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = e.decl().kind()
        if k == z3.Z3_OP_NOT:
            r = self.truth(e.arg(0))
            return None if r is None else not r
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            r = [self.truth(c) for c in e.children()]
            stop = k == z3.Z3_OP_OR
            return stop if stop in r else None if None in r else not stop
        if k in RELS and z3.is_arith(e.arg(0)):
            a, b = self.term(e.arg(0)), self.term(e.arg(1))
            if any(x != x for x in a + b):
                return None
            if k == z3.Z3_OP_EQ:
                return False if a[1] < b[0] or b[1] < a[0] else None
            if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                a, b = b, a
            if a[1] < b[0]:
                return True
            if a[0] > b[1]:
                return False
        return None


def power(t, n):
    if n == 1:
        return t
    if n % 2 == 0:
        lo, hi = abs(t[0]), abs(t[1])
        if t[0] <= 0 <= t[1]:
            m, M = 0.0, max(lo, hi)
        else:
            m, M = min(lo, hi), max(lo, hi)
        return (max(0.0, dn(m ** n) if n == 2 else dn(dn(m ** n) * (1 - 1e-14))), up(up(M ** n) * (1 + 1e-14)) if M < INF else INF)
    r = power(t, n - 1)
    return mul(r, t)


def isvar(e):
    return z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED
