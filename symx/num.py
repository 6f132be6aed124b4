"""Symbolic scalars for the symbolic executor.

A `Num` is a Laurent polynomial with rational coefficients over *atoms*:
  I      imaginary unit (I*I = -1)
  PI     the number pi (a transcendental symbol with numeric bounds)
  real   symbolic real / integer inputs, plus derived atoms (floor, round, abs,
         sqrt, ite, inverse ...) that carry defining axioms
  unit   phases  e^{2 pi i m}  of a monomial m (exponent may be fractional)
Every operation keeps the polynomial in normal form; comparisons build z3
formulas (`SymBool`), and asking for the truth value of such a formula forks
the current execution path (see Ctx).
"""
from fractions import Fraction
import math
import time
import z3
from .interval import Bounds


class _Steer(BaseException):
    """exceptions of the executor itself: remembered by the current context so
    that an `except:` of the code under test cannot swallow them"""

    def __init__(self, *a):
        BaseException.__init__(self, *a)
        cur = CTX.cur
        if getattr(cur, "poison", 0) is None:
            cur.poison = self


class Unsupported(_Steer):
    """The executor met an operation it cannot encode."""


class PathAbort(_Steer):
    """Current path is infeasible or was cut by an assumption."""


class BudgetExceeded(_Steer):
    pass


# --------------------------------------------------------------------------
# atoms
# --------------------------------------------------------------------------
class Atom:
    __slots__ = ("aid", "kind", "name", "integer", "sq", "axioms", "val",
                 "mono", "defn", "approx", "nonzero", "defn_z")

    def __init__(self, kind, name, integer=False):
        self.kind = kind
        self.name = name
        self.integer = integer
        self.sq = None          # Num: value of atom**2
        self.axioms = None      # callable -> list of z3 exprs
        self.mono = None        # unit atoms: the monomial of the phase
        self.defn = None        # unit/derived: evaluation closure env->complex
        self.approx = None      # numeric constant value (algebraic constants)
        self.nonzero = False
        self.defn_z = None      # angles: the complex number
        self.aid = len(ATOMS)
        ATOMS.append(self)


ATOMS = []
I_ATOM = Atom("I", "I")
PI_ATOM = Atom("pi", "pi")
PI_ATOM.approx = math.pi
PI_ATOM.nonzero = True
_named = {}


def norm_coef(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


_float_cache = {}


def float_to_rat(x):
    r = _float_cache.get(x)
    if r is not None:
        return r
    if x != x or x in (float("inf"), float("-inf")):
        raise Unsupported("non-finite float in symbolic arithmetic")
    f = Fraction(x)
    if f.denominator == 1:
        r = f.numerator
    else:
        cand = f.limit_denominator(20000)
        if abs(cand - f) <= Fraction(4, 10**16) * abs(f):
            r = cand
        else:
            r = Fraction(repr(float(x)))
        r = norm_coef(r)
    _float_cache[x] = r
    return r


# --------------------------------------------------------------------------
# monomial arithmetic.  mono = tuple of (aid, exp) sorted by aid
# --------------------------------------------------------------------------
def mono_mul(a, b):
    if not a:
        return b, False
    if not b:
        return a, False
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    red = False
    while i < la and j < lb:
        x = a[i]
        y = b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if type(e) is Fraction and e.denominator == 1:
                e = e.numerator
            if e != 0:
                out.append((x[0], e))
                if REDUCIBLE[x[0]]:
                    red = True
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out), red


def is_special(x):
    """inf / nan (kept as python floats)"""
    return isinstance(x, float) and (x != x or x in (math.inf, -math.inf))


def special_mul(n, x):
    if x != x:
        return float(x)
    c = n > 0
    if c is True or (c is not False and bool(c)):
        return float(x)
    c = n < 0
    if c is True or (c is not False and bool(c)):
        return -float(x)
    return float("nan")


class _Red(dict):
    """aid -> may exponents of this atom need reduction?"""

    def __missing__(self, aid):
        a = ATOMS[aid]
        r = a.kind in ("I",) or a.sq is not None or (a.kind == "unit")
        self[aid] = r
        return r


REDUCIBLE = _Red()


def poly_add_term(d, m, c):
    o = d.get(m)
    if o is None:
        if c:
            d[m] = c
    else:
        s = o + c
        if s:
            d[m] = norm_coef(s) if type(s) is Fraction else s
        else:
            del d[m]


def reduce_into(d, m, c):
    """add c*m to d after applying square rules / root-of-unity rules."""
    for k, (aid, e) in enumerate(m):
        if not REDUCIBLE[aid]:
            continue
        at = ATOMS[aid]
        if at.kind == "I":
            if e not in (0, 1):
                q = e % 4
                rest = m[:k] + m[k + 1:]
                if q == 0:
                    reduce_into(d, rest, c)
                elif q == 1:
                    reduce_into(d, ((0, 1),) + rest, c)
                elif q == 2:
                    reduce_into(d, rest, -c)
                else:
                    reduce_into(d, ((0, 1),) + rest, -c)
                return
        elif at.kind == "unit":
            mm = at.mono
            if mm is not None and mono_is_int(mm):
                if mm == ():
                    f = e % 1
                    if f != e:
                        reduce_into(d, m[:k] + (((aid, f),) if f else ()) + m[k + 1:], c)
                        return
                else:
                    f = e % 1
                    if f != e:
                        reduce_into(d, m[:k] + (((aid, f),) if f else ()) + m[k + 1:], c)
                        return
        elif at.sq is not None:
            if isinstance(e, int) and (e >= 2 or e < 0):
                rest = m[:k] + m[k + 1:]
                if e >= 2:
                    n, r = divmod(e, 2)
                    p = at.sq ** n
                else:
                    # 1/a = a/a^2 : only when a^2 is a constant
                    cst = at.sq.const()
                    if cst is None:
                        continue
                    n = (-e + 1) // 2
                    r = e + 2 * n
                    p = Num({(): norm_coef(Fraction(1) / (Fraction(cst) ** n))}, 1)
                base = rest if r == 0 else tuple(sorted(rest + ((aid, 1),)))
                for m2, c2 in p.t.items():
                    mm, red = mono_mul(base, m2)
                    reduce_into(d, mm, c * c2)
                return
    poly_add_term(d, m, c)


def mono_is_int(m):
    for aid, e in m:
        a = ATOMS[aid]
        if not a.integer or not isinstance(e, int) or e < 0:
            return False
    return True


class Num:
    __slots__ = ("t", "tag", "_h")
    __array_priority__ = 1000.0

    def __init__(self, t, tag):
        self.t = t
        self.tag = tag      # 0 int, 1 float, 2 complex

    # -- basic -----------------------------------------------------------
    def const(self):
        """rational constant value or None"""
        t = self.t
        if not t:
            return 0
        if len(t) == 1 and () in t:
            return t[()]
        return None

    def key(self):
        return frozenset(self.t.items())

    def atoms(self):
        s = set()
        for m in self.t:
            for aid, _ in m:
                s.add(aid)
        return s

    def is_zero(self):
        return not self.t

    def __hash__(self):
        c = self.const()
        if c is not None:
            return hash(c)
        if self.tag == 2 and len(self.t) <= 2 and all(m == () or m == ((0, 1),) for m in self.t):
            return hash(complex(float(self.t.get((), 0)), float(self.t.get(((0, 1),), 0))))
        if self.tag == 0 and not isinstance(CTX.cur, NullCtx):
            return hash(concretize(self))     # must agree with the hash of equal integers
        return 77

    # -- arithmetic --------------------------------------------------------
    def __add__(self, o):
        if type(o) is list and self.tag > 0:
            return self + _arr(o)
        if is_special(o):
            return float(o)
        o = conv(o)
        if o is NotImplemented:
            return NotImplemented
        if not o.t:
            return self if self.tag >= o.tag else Num(self.t, o.tag)
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        d = dict(a)
        for m, c in b.items():
            poly_add_term(d, m, c)
        return Num(d, max(self.tag, o.tag))
    __radd__ = __add__

    def __neg__(self):
        return Num({m: -c for m, c in self.t.items()}, self.tag)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if type(o) is list and self.tag > 0:
            return self - _arr(o)
        if is_special(o):
            return -float(o)
        o = conv(o)
        if o is NotImplemented:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        if type(o) is list and self.tag > 0:
            return _arr(o) - self
        if is_special(o):
            return float(o)
        o = conv(o)
        if o is NotImplemented:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        if type(o) is list and self.tag > 0:
            return self * _arr(o)
        if is_special(o):
            return special_mul(self, o)
        o = conv(o)
        if o is NotImplemented:
            return NotImplemented
        tag = max(self.tag, o.tag)
        a, b = self.t, o.t
        if not a or not b:
            return Num({}, tag)
        if len(b) == 1 and () in b:
            k = b[()]
            return Num({m: norm_coef(c * k) for m, c in a.items()}, tag)
        if len(a) == 1 and () in a:
            k = a[()]
            return Num({m: norm_coef(c * k) for m, c in b.items()}, tag)
        d = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m, red = mono_mul(m1, m2)
                c = c1 * c2
                if red:
                    reduce_into(d, m, c)
                else:
                    poly_add_term(d, m, c)
            if len(d) > 200000:
                raise Unsupported("polynomial too large")
        return Num(d, tag)
    __rmul__ = __mul__

    def inv(self):
        t = self.t
        tag = max(self.tag, 1)
        if not t:
            raise ZeroDivisionError("division by zero")
        if len(t) == 1:
            (m, c), = t.items()
            ok = True
            for aid, e in m:
                a = ATOMS[aid]
                if a.kind in ("I", "unit", "pi") or a.nonzero:
                    continue
                ok = False
            if ok:
                d = {}
                reduce_into(d, tuple((aid, -e) for aid, e in m), norm_coef(Fraction(1) / c))
                return Num(d, tag)
            z = (self == 0)
            if z is True or (z is not False and bool(z)):
                raise ZeroDivisionError("division by zero")
            d = {}
            reduce_into(d, tuple((aid, -e) for aid, e in m), norm_coef(Fraction(1) / c))
            return Num(d, tag)
        # constants with sqrt atoms : rationalise a + b*s
        ats = [ATOMS[a] for a in self.atoms()]
        if all(a.kind == "I" or (a.sq is not None and a.sq.const() is not None) for a in ats):
            num = Num({(): 1}, tag)
            den = self
            for a in ats:
                if a.aid in den.atoms():
                    cj = den._flip(a.aid)
                    num = num * cj
                    den = den * cj
            c = den.const()
            if c is not None and c != 0:
                return num * Num({(): norm_coef(Fraction(1) / c)}, tag)
        if not self.is_real():
            n2 = self * self.conj()
            return self.conj() * n2.inv()
        z = (self == 0)
        if z is True or (z is not False and bool(z)):
            raise ZeroDivisionError("division by zero")
        # normalise : leading coefficient 1, common monomial factored out
        ms = sorted(self.t, key=repr)
        lead = self.t[ms[0]]
        p = Num({m: norm_coef(Fraction(c) / lead) for m, c in self.t.items()}, 1)
        w = derived("inv", p.key(), False,
                    lambda v, p=p: [to_z3(p) * v == 1],
                    lambda env, p=p: 1.0 / p.eval(env).real)
        ATOMS[w.aid].nonzero = True
        return Num({((w.aid, 1),): norm_coef(Fraction(1) / lead)}, tag)

    def _flip(self, aid):
        return Num({m: (-c if any(a == aid and e % 2 for a, e in m) else c)
                    for m, c in self.t.items()}, self.tag)

    def __truediv__(self, o):
        if is_special(o):
            return float("nan") if o != o else Num({}, 1)
        o = conv(o)
        if o is NotImplemented:
            return NotImplemented
        c = o.const()
        tag = max(self.tag, o.tag, 1)
        if c is not None:
            if c == 0:
                raise ZeroDivisionError("division by zero")
            k = Fraction(1) / c
            return Num({m: norm_coef(cc * k) for m, cc in self.t.items()}, tag)
        if not self.t:
            z = (o == 0)
            if z is True or (z is not False and bool(z)):
                raise ZeroDivisionError("division by zero")
            return Num({}, tag)
        # exact cancellation  p / p*const
        if len(o.t) == len(self.t) and len(o.t) > 1 and o.t.keys() == self.t.keys():
            it = iter(o.t)
            m0 = next(it)
            r = Fraction(self.t[m0]) / o.t[m0]
            if all(Fraction(self.t[m]) == r * o.t[m] for m in o.t):
                z = (o == 0)
                if not (z is True or (z is not False and bool(z))):
                    return Num({(): norm_coef(r)}, tag)
        r = self * o.inv()
        return Num(r.t, tag)

    def __rtruediv__(self, o):
        if is_special(o):
            return special_mul(self, o)
        o = conv(o)
        if o is NotImplemented:
            return NotImplemented
        return o / self

    def __pow__(self, n):
        if isinstance(n, Num):
            c = n.const()
            if c is None:
                raise Unsupported("symbolic exponent")
            n = c
        if isinstance(n, float):
            n = float_to_rat(n)
        if hasattr(n, "item"):
            n = n.item()
        if isinstance(n, Fraction):
            if n == Fraction(1, 2):
                return num_sqrt(self)
            if n == Fraction(-1, 2):
                return num_sqrt(self).inv()
            raise Unsupported("fractional power")
        if n < 0:
            return (self ** (-n)).inv()
        if len(self.t) == 1 and n > 1:
            (m, c), = self.t.items()
            d = {}
            reduce_into(d, tuple((a, e * n) for a, e in m), c ** n)
            return Num(d, self.tag)
        r = Num({(): 1}, self.tag)
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def __rpow__(self, o):
        c = self.const()
        if c is None:
            raise Unsupported("symbolic exponent")
        return conv(o) ** c

    def __mod__(self, o):
        o = conv(o)
        if o is NotImplemented:
            return NotImplemented
        if o.const() == 0:
            raise ZeroDivisionError("modulo by zero")
        q = self / o
        f = num_floor(q)
        r = self - f * o
        tag = max(self.tag, o.tag)
        return Num(r.t, tag)

    def __rmod__(self, o):
        return conv(o) % self

    def __floordiv__(self, o):
        o = conv(o)
        if o is NotImplemented:
            return NotImplemented
        f = num_floor(self / o)
        return Num(f.t, max(self.tag, o.tag))

    def __rfloordiv__(self, o):
        return conv(o) // self

    def __divmod__(self, o):
        return self // o, self % o

    def __abs__(self):
        return num_abs(self)

    def __round__(self, nd=None):
        if nd is None:
            r = num_round(self)
            return Num(r.t, 0)
        s = 10 ** int(nd)
        if nd >= 0:
            r = num_round(self * s)
            return Num((r / s).t, self.tag)
        s = 10 ** (-int(nd))
        return Num((num_round(self / s) * s).t, self.tag)

    def __floor__(self):
        return Num(num_floor(self).t, 0)

    def __ceil__(self):
        return Num((-num_floor(-self)).t, 0)

    def __trunc__(self):
        return num_trunc(self)

    # -- complex ---------------------------------------------------------------
    def is_real(self):
        """syntactic: conj(z) == z"""
        if self.tag < 2:
            return True
        for m in self.t:
            for aid, e in m:
                k = ATOMS[aid].kind
                if k == "I" or k == "unit":
                    return self.t == self.conj().t
        return True

    def conj(self):
        if self.tag < 2:
            return self
        d = {}
        for m, c in self.t.items():
            sgn = 1
            mm = []
            ch = False
            for aid, e in m:
                a = ATOMS[aid]
                if a.kind == "I":
                    sgn = -sgn if e % 2 else sgn
                    mm.append((aid, e))
                elif a.kind == "unit":
                    mm.append((aid, -e))
                    ch = True
                else:
                    mm.append((aid, e))
            if ch:
                reduce_into(d, tuple(mm), c * sgn)
            else:
                poly_add_term(d, m, c * sgn)
        return Num(d, self.tag)
    conjugate = conj

    @property
    def real(self):
        if self.tag < 2:
            return self
        r = (self + self.conj())
        return Num({m: norm_coef(Fraction(c) / 2) for m, c in r.t.items()}, 1)

    @property
    def imag(self):
        if self.tag < 2:
            return Num({}, self.tag)
        r = (self - self.conj()) * MINUS_I
        return Num({m: norm_coef(Fraction(c) / 2) for m, c in r.t.items()}, 1)

    # -- comparisons -------------------------------------------------------------
    def _cmp(self, o, op):
        if is_special(o):
            import operator
            return getattr(operator, op)(0.0, float(o))
        o = conv(o)
        if o is NotImplemented:
            return NotImplemented
        d = self - o
        if op in ("eq", "ne"):
            if not d.t:
                return op == "eq"
            if d.const() is not None:
                return op == "ne"
            if d.is_real():
                nv = numeric_sign(d)
                if nv is not None:
                    return (nv == 0) == (op == "eq")
                e = to_z3(self.real if self.tag == 2 else self) == to_z3(o.real if o.tag == 2 else o)
            else:
                e = z3.And(to_z3(self.real) == to_z3(o.real), to_z3(self.imag) == to_z3(o.imag))
            return mkbool(e if op == "eq" else z3.Not(e))
        if self.tag == 2 or o.tag == 2:
            if not d.is_real():
                return _complex_order(self, o, op)
        c = d.const()
        if c is not None:
            return {"lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0}[op]
        nv = numeric_sign(d)
        if nv is not None:
            return {"lt": nv < 0, "le": nv <= 0, "gt": nv > 0, "ge": nv >= 0}[op]
        e = angle_order(d, op)
        if e is not None:
            return e
        a, b = to_z3(self), to_z3(o)
        return mkbool({"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[op])

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        return self._cmp(o, "ne")

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __bool__(self):
        return bool(self != 0)

    # -- conversions -----------------------------------------------------------
    def __index__(self):
        if self.tag != 0:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return concretize(self)

    def __int__(self):
        return concretize(num_trunc(self))

    def __float__(self):
        c = self.const()
        if c is not None:
            return float(c)
        v = approx_value(self)
        if v is not None and self.is_real():
            return v.real
        import traceback, os
        if os.environ.get("SYMX_TB"): traceback.print_stack()
        raise Unsupported("float() of a symbolic number at C level")

    def __complex__(self):
        v = approx_value(self)
        if v is not None:
            return v
        raise Unsupported("complex() of a symbolic number at C level")

    def is_integer(self):
        c = self.const()
        if c is not None:
            return Fraction(c).denominator == 1
        return num_floor(self) == self

    def item(self):
        return self

    def astype(self, t):
        from . import arr
        return arr.cast_scalar(self, arr.kind_of_dtype(t))

    def round(self, decimals=0):
        if decimals == 0:
            return Num(num_round(self).t, self.tag)
        return self.__round__(decimals)

    # numpy scalar style API
    shape = ()
    ndim = 0
    size = 1

    @property
    def T(self):
        return self

    def copy(self):
        return self

    def sum(self, *a, **k):
        return self

    def mean(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self
    min = max

    def dot(self, o):
        return self * o

    def tolist(self):
        return self

    @property
    def dtype(self):
        from . import arr
        return arr.DT({0: "i", 1: "f", 2: "c"}[self.tag])

    # -- text --------------------------------------------------------------------
    def __format__(self, spec):
        from . import text
        return text.fmt(self, spec)

    def __str__(self):
        from . import text
        return text.fmt(self, "")

    def __repr__(self):
        from . import text
        return text.fmt(self, "")

    def dump(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: repr(x[0])):
            s = "*".join(ATOMS[a].name + ("" if e == 1 else "^%s" % e) for a, e in m)
            out.append("%s%s" % (c, "*" + s if s else ""))
        return " + ".join(out)

    # -- numeric evaluation ----------------------------------------------------
    def eval(self, env):
        r = 0j
        for m, c in self.t.items():
            v = complex(float(c))
            for aid, e in m:
                v *= atom_value(aid, env, e)
            r += v
        return r


def atom_value(aid, env, e=1):
    a = ATOMS[aid]
    if a.kind == "I":
        return 1j ** e
    if a.kind == "unit":
        if a.mono is None:
            import cmath
            th = env[a.name]
            return cmath.exp(2j * math.pi * float(e) * th)
        import cmath
        v = 1.0
        for b, k in a.mono:
            v *= atom_value(b, env, k)
        return cmath.exp(2j * math.pi * float(e) * v)
    if a.approx is not None:
        return a.approx ** e
    if a.name in env:
        return env[a.name] ** e
    if a.defn is not None:
        v = a.defn(env)
        env[a.name] = v
        return v ** e
    raise KeyError(a.name)


ZERO = Num({}, 0)
ONE = Num({(): 1}, 0)
I = Num({((0, 1),): 1}, 2)
MINUS_I = Num({((0, 1),): -1}, 2)
PI = Num({((PI_ATOM.aid, 1),): 1}, 1)


def _arr(o):
    from . import arr as A
    return A.mkarr(o)


def conv(x):
    if type(x) is Num:
        return x
    t = type(x)
    if t is int:
        return Num({(): x} if x else {}, 0)
    if t is float:
        r = float_to_rat(x)
        return Num({(): r} if r else {}, 1)
    if t is Fraction:
        x = norm_coef(x)
        return Num({(): x} if x else {}, 1)
    if t is complex:
        d = {}
        if x.real:
            d[()] = float_to_rat(x.real)
        if x.imag:
            d[((0, 1),)] = float_to_rat(x.imag)
        return Num(d, 2)
    if t is bool:
        return Num({(): 1} if x else {}, 0)
    if t is SymBool:
        return ite(x, ONE, ZERO)
    import numpy as np
    if isinstance(x, np.generic):
        if isinstance(x, np.object_):
            return NotImplemented
        return conv(x.item())
    if isinstance(x, np.ndarray) and x.ndim == 0 and False:
        return conv(x[()])
    if isinstance(x, int):
        return conv(int(x))
    if isinstance(x, float):
        return conv(float(x))
    if hasattr(x, "_symx_num"):
        return x._symx_num()
    return NotImplemented


def real(x, tag=1):
    n = conv(x)
    return Num(n.t, max(n.tag, tag))


def approx_value(n):
    """numeric value of an expression over constant atoms, else None"""
    r = 0j
    for m, c in n.t.items():
        v = complex(float(c))
        for aid, e in m:
            a = ATOMS[aid]
            if a.kind == "I":
                v *= 1j ** e
            elif a.approx is not None:
                v *= a.approx ** e
            elif a.kind == "unit" and a.mono == ():
                import cmath
                v *= cmath.exp(2j * math.pi * float(e))
            else:
                return None
        r += v
    return r


def numeric_sign(d):
    """sign of a real expression over constant atoms (sqrt n, pi) when clear"""
    v = approx_value(d)
    if v is None:
        return None
    mag = sum(abs(float(c)) for c in d.t.values()) + 1e-300
    if abs(v.real) > 1e-9 * max(1.0, mag) * 0 + 1e-11 * mag:
        return 1 if v.real > 0 else -1
    return None


# --------------------------------------------------------------------------
# derived atoms
# --------------------------------------------------------------------------
_derived = {}


def new_atom(kind, name, integer=False):
    k = (kind, name)
    if k in _named:
        return _named[k]
    a = Atom(kind, name, integer)
    _named[k] = a
    return a


def derived(op, key, integer, axioms, defn):
    k = (op, key)
    a = _derived.get(k)
    if a is None:
        a = Atom("real", "%s!%d" % (op, len(ATOMS)), integer)
        _derived[k] = a
        a.axioms = axioms
        a.defn = defn
    return a


def atom_num(a, tag=1):
    return Num({((a.aid, 1),): 1}, 0 if a.integer and tag < 2 else tag)


def split_integer(n):
    """n = ip + rest, where ip collects integer-valued terms"""
    ip, rest = {}, {}
    for m, c in n.t.items():
        if mono_is_int(m):
            if m == ():
                f = math.floor(c)
                if f:
                    ip[()] = f
                if c - f:
                    rest[()] = norm_coef(c - f)
            elif isinstance(c, int):
                ip[m] = c
            else:
                f = math.floor(c)
                if f:
                    ip[m] = f
                rest[m] = norm_coef(c - f)
        else:
            rest[m] = c
    return ip, rest


def num_floor(n):
    if n.tag == 2:
        n = n.real
    if n.tag == 0:
        return n
    ip, rest = split_integer(n)
    if not rest:
        return Num(ip, 0)
    r = Num(rest, 1)
    c = r.const()
    if c is not None:
        k = math.floor(c)
        return Num(ip, 0) + k
    v = approx_value(r)
    if v is not None:
        return Num(ip, 0) + math.floor(v.real)
    a = derived("floor", r.key(), True,
                lambda v, r=r: [v <= to_z3(r), to_z3(r) < v + 1],
                lambda env, r=r: math.floor(r.eval(env).real))
    return Num(ip, 0) + atom_num(a, 0)


def num_round(n):
    """round half to even (numpy/python semantics)"""
    if n.tag == 2:
        re = num_round(n.real)
        im = num_round(n.imag)
        return Num((re + im * I).t, 2)
    if n.tag == 0:
        return n
    ip, rest = {}, n.t
    # split off even integer part only (parity matters for ties)
    ipd, restd = split_integer(n)
    if not restd:
        return Num(ipd, 0)
    r = Num(restd, 1)
    c = n.const()
    if c is not None:
        return Num({(): round(Fraction(c))} if round(Fraction(c)) else {}, 0)
    v = approx_value(n)
    if v is not None:
        k = round(v.real)
        return Num({(): k} if k else {}, 0)

    def ax(v, n=n):
        x = to_z3(n)
        h = z3.Int("%s_half" % v)
        return [2 * x - 2 * v <= 1, 2 * x - 2 * v >= -1,
                z3.Or(z3.And(2 * x - 2 * v < 1, 2 * x - 2 * v > -1), v == 2 * z3.ToReal(h))]
    a = derived("round", n.key(), True, ax,
                lambda env, n=n: round(n.eval(env).real))
    return atom_num(a, 0)


def num_trunc(n):
    if n.tag == 0:
        return n
    c = n.const()
    if c is not None:
        return Num({(): math.trunc(c)} if math.trunc(c) else {}, 0)
    if n.tag == 2:
        raise TypeError("int() argument must be a real number, not 'complex'")
    ipd, restd = split_integer(n)
    if not restd:
        return Num(ipd, 0)
    neg = n < 0
    if neg is True or (neg is not False and bool(neg)):
        return -num_floor(-n)
    return num_floor(n)


def num_abs(n):
    c = n.const()
    if c is not None:
        return Num({(): abs(c)} if c else {}, n.tag if n.tag < 2 else 1)
    if not n.is_real():
        n2 = (n * n.conj())
        n2 = Num(n2.t, 1)
        return num_sqrt(n2)
    if n.tag == 2:
        n = n.real
    v = numeric_sign(n)
    if v is not None:
        return n if v >= 0 else -n
    # sign normalisation : |x| = |-x|
    ms = sorted(n.t, key=repr)
    if n.t[ms[0]] < 0:
        n = -n
    # monomial of nonneg atoms
    if len(n.t) == 1:
        (m, c), = n.t.items()
        if all(ATOMS[a].name.startswith(("abs!", "sqrt!")) or e % 2 == 0 or ATOMS[a].approx is not None
               for a, e in m):
            return n
        if c != 1:
            return num_abs(Num({m: 1}, n.tag)) * abs(c)
    a = derived("abs", n.key(), n.tag == 0,
                lambda v, n=n: [v >= 0, z3.Or(v == to_z3(n), v == -to_z3(n))],
                lambda env, n=n: abs(n.eval(env).real))
    if a.sq is None:
        a.sq = n * n
        REDUCIBLE.pop(a.aid, None)
    return atom_num(a, n.tag if n.tag == 1 else 0)


def _sqfree(k):
    s = 1
    p = 2
    while p * p <= k:
        while k % (p * p) == 0:
            k //= p * p
            s *= p
        p += 1
        if p > 100000:
            break
    return s, k


def sqrt_int_atom(k):
    a = _derived.get(("sqrtc", k))
    if a is None:
        a = Atom("real", "sqrt%d" % k)
        a.sq = Num({(): k}, 1)
        a.approx = math.sqrt(k)
        a.nonzero = True
        v = z3.Real(a.name)
        lo = Fraction(math.isqrt(k * 10**24), 10**12)
        a.axioms = lambda v, k=k, lo=lo: [v * v == k, v > 0, v >= z3q(lo), v <= z3q(lo + Fraction(1, 10**12))]
        _derived[("sqrtc", k)] = a
    return a


def num_sqrt(n):
    if n.tag == 2 and n.is_real():
        n = n.real
    if n.tag == 2:
        raise Unsupported("complex sqrt")
    c = n.const()
    if c is not None:
        if c < 0:
            raise Unsupported("sqrt of negative number")
        if c == 0:
            return Num({}, 1)
        c = Fraction(c)
        s, k = _sqfree(c.numerator * c.denominator)
        co = norm_coef(Fraction(s, c.denominator))
        if k == 1:
            return Num({(): co}, 1)
        return Num({((sqrt_int_atom(k).aid, 1),): co}, 1)
    # pull out a common even monomial factor
    if len(n.t) == 1:
        (m, c), = n.t.items()
        if c > 0 and all(isinstance(e, int) and e % 2 == 0 for a, e in m):
            root = num_sqrt(Num({(): c}, 1))
            for a, e in m:
                base = Num({((a, 1),): 1}, 1)
                if ATOMS[a].kind == "pi":
                    root = root * base ** (e // 2)
                else:
                    root = root * num_abs(base) ** (e // 2)
            return root
    # common constant-atom monomial (pi^2 ...)
    c0 = None
    pe = None
    for m in n.t:
        e = dict(m).get(PI_ATOM.aid, 0)
        pe = e if pe is None else (pe if pe == e else "x")
    if pe not in (None, 0, "x") and pe % 2 == 0:
        return num_sqrt(n * PI ** (-pe)) * PI ** (pe // 2)
    # normalise the leading coefficient to +-1
    ms = sorted(n.t, key=repr)
    lead = abs(n.t[ms[0]])
    if lead != 1:
        return num_sqrt(Num({m: norm_coef(Fraction(c) / lead) for m, c in n.t.items()}, 1)) * num_sqrt(Num({(): lead}, 1))
    p = Num(n.t, 1)
    a = derived("sqrt", p.key(), False,
                lambda v, p=p: [v >= 0, v * v == to_z3(p)],
                lambda env, p=p: math.sqrt(max(0.0, p.eval(env).real)))
    if a.sq is None:
        a.sq = p
        REDUCIBLE.pop(a.aid, None)
    return atom_num(a)


def ite(b, x, y):
    """if-then-else merge of two numbers under a symbolic condition"""
    if b is True:
        return x
    if b is False:
        return y
    if not isinstance(b, SymBool):
        return x if b else y
    x, y = conv(x), conv(y)
    tag = max(x.tag, y.tag)
    if x.t == y.t:
        return Num(x.t, tag)
    if not (x.is_real() and y.is_real()):
        return Num((ite(b, x.real, y.real) + ite(b, x.imag, y.imag) * I).t, 2)
    integer = x.tag == 0 and y.tag == 0
    d = x - y
    cst = d.const()
    a = derived("ite", (b.key(), x.key(), y.key()), integer,
                lambda v, b=b, x=x, y=y: [z3.If(b.e, v == to_z3(x), v == to_z3(y))],
                None)
    return Num({((a.aid, 1),): 1}, tag if tag != 2 else 2)


# --------------------------------------------------------------------------
# exp / phases
# --------------------------------------------------------------------------
def _rt(k):
    return Num({((sqrt_int_atom(k).aid, 1),): 1}, 1)


_root_cache = {}


def root_of_unity(q):
    """e^{2 pi i q} for rational q"""
    q = Fraction(q) % 1
    r = _root_cache.get(q)
    if r is not None:
        return r
    d = q.denominator
    if 24 % d == 0:
        n = int(q * 24)
        base = {0: ONE}
        z = Num({(): 1}, 2)
        # e(1/24) = e(1/3... ) build from e(1/8)^a e(1/3)^b
        # 1/24 = 3*(1/8) - 1/3  -> e(n/24) = e(1/8)^{3n} e(1/3)^{-n}
        e8 = (ONE + I) * (_rt(2) * Fraction(1, 2))
        e3c = (-ONE - I * _rt(3)) * Fraction(1, 2)   # e(-1/3)
        z = (e8 ** ((3 * n) % 8)) * (e3c ** (n % 3))
        r = Num(z.t, 2)
    else:
        a = unit_atom_for(())
        r = Num({((a.aid, norm_coef(q)),): 1}, 2)
    _root_cache[q] = r
    return r


_units = {}


def unit_atom_for(mono):
    a = _units.get(mono)
    if a is None:
        nm = "e(" + "*".join(ATOMS[x].name + ("" if e == 1 else "^%s" % e) for x, e in mono) + ")"
        a = Atom("unit", nm)
        a.mono = mono
        _units[mono] = a
    return a


def free_unit(name):
    """a free phase (argument does not occur elsewhere)"""
    a = new_atom("unit", name)
    return Num({((a.aid, 1),): 1}, 2)


def E(x):
    """e^{2 pi i x} for a real Num x"""
    x = conv(x)
    if x.tag == 2:
        x = x.real
    z = Num({(): 1}, 2)
    for m, c in x.t.items():
        if m == ():
            z = z * root_of_unity(c)
            continue
        if mono_is_int(m):
            c = norm_coef(Fraction(c) % 1)
            if not c:
                continue
        a = unit_atom_for(m)
        d = {}
        reduce_into(d, ((a.aid, c),), 1)
        z = z * Num(d, 2)
    return Num(z.t, 2)


def num_exp(n):
    n = conv(n)
    if not n.t:
        return Num({(): 1}, max(n.tag, 1))
    # i * PI * poly
    im = {}
    for m, c in n.t.items():
        dm = dict(m)
        if dm.get(0, 0) % 2 != 1 or dm.get(PI_ATOM.aid, 0) != 1:
            break
        sgn = 1 if dm[0] % 4 == 1 else -1
        dm.pop(0)
        dm.pop(PI_ATOM.aid)
        im[tuple(sorted(dm.items()))] = norm_coef(Fraction(c) * sgn / 2)
    else:
        return E(Num(im, 1))
    if n.tag == 2:
        # general complex exponent :  split in real exponent and free phase
        re, ph = n.real, n.imag
        if not re.t:
            t = ph / (PI * 2)
            return E(t)
        return num_exp(re) * num_exp(ph * I)
    v = approx_value(n)
    a = derived("exp", n.key(), False, lambda v: [v > 0],
                lambda env, n=n: math.exp(n.eval(env).real))
    a.nonzero = True
    return atom_num(a)


def num_cos(n):
    z = num_exp(conv(n) * I)
    return Num(z.real.t, 1)


def num_sin(n):
    z = num_exp(conv(n) * I)
    return Num(z.imag.t, 1)


_angle_table = None


def num_angle(z):
    """argument of a complex number, in (-pi, pi]"""
    z = conv(z)
    if z.is_real():
        zr = z.real if z.tag == 2 else z
        neg = zr < 0
        if neg is True or (neg is not False and bool(neg)):
            return PI
        return Num({}, 1)
    v = approx_value(z)
    if v is not None:
        import cmath
        th = cmath.phase(v) / (2 * math.pi)
        f = Fraction(th).limit_denominator(48)
        if abs(float(f) - th) < 1e-12:
            m = num_abs(z)
            if (root_of_unity(f) * m - z).is_zero():
                return PI * (2 * f)
    # a real number times a root of unity
    for q in range(1, 48):
        f = Fraction(q, 48)
        r = z * root_of_unity(-f)
        if r.is_real():
            r = r.real
            if bool(r > 0):
                return PI * (2 * f if 2 * f <= 1 else 2 * f - 2)
            if bool(r < 0):
                f = (f + Fraction(1, 2)) % 1
                return PI * (2 * f if 2 * f <= 1 else 2 * f - 2)
            return Num({}, 1)
    # a real number times one phase E(x)
    x = phase_of(z)
    if x is not None:
        r = z * E(-x)
        for q in range(24):
            f = Fraction(q, 48)
            rr = r * root_of_unity(-f)
            if rr.is_real():
                rr = rr.real
                if bool(rr > 0):
                    pass
                elif bool(rr < 0):
                    f += Fraction(1, 2)
                else:
                    return Num({}, 1)
                y = x + Num({(): norm_coef(f)} if f else {}, 1)
                return PI * 2 * (y + num_floor(Num({(): Fraction(1, 2)}, 1) - y))
    re, im = z.real, z.imag
    key = z.key()
    # branch on positive scaling is not normalised
    a = derived("angle", key, False,
                lambda v, z=z: angle_axioms(v, z), lambda env, z=z: _phase_env(z, env))
    # atom value is angle/pi in (-1, 1]
    a.defn_z = z
    return PI * atom_num(a)


def phase_of(z):
    """x when the first term of z carries the phase E(x) of a known x"""
    for m, c in z.t.items():
        x = Num({}, 1)
        for aid, e in m:
            a = ATOMS[aid]
            if a.kind == "unit":
                if a.mono is None:
                    return None
                if a.mono == ():
                    continue
                if any(b in WHOLE for b, _ in a.mono):
                    return None
                x = x + Num({a.mono: e}, 1)
        return x if x.t else None
    return None


def angle_order(d, op):
    """exact order of two arguments of complex numbers: d = c pi (A - B)"""
    if len(d.t) != 2:
        return None
    par = []
    for m, c in d.t.items():
        at = [ATOMS[i] for i, e in m if e == 1]
        if len(m) != 2 or len(at) != 2 or at[0] is at[1]:
            return None
        if at[0].kind == "pi":
            at.reverse()
        if at[1].kind != "pi" or at[0].defn_z is None or not isinstance(c, (int, Fraction)):
            return None
        par.append((c, at[0].defn_z))
    if par[0][0] != -par[1][0]:
        return None
    par.sort(key=lambda p: p[0] < 0)
    a, b = par[0][1], par[1][1]        # sign of d: arg(a) - arg(b)
    if op in ("gt", "ge"):
        a, b, op = b, a, {"gt": "lt", "ge": "le"}[op]
    if op not in ("lt", "le"):
        return None
    ar, ai, br, bi = (to_z3(x) for x in (a.real, a.imag, b.real, b.imag))
    cr = a.real * b.imag - a.imag * b.real
    cr = to_z3(cr)
    z = z3.RealVal(0)

    def less(ar, ai, br, bi, cr, strict):
        # halves: im < 0 (0), im = 0 and re >= 0 (1), im > 0 (2), im = 0 and re < 0 (3)
        def half(r, i):
            return (i < z, z3.And(i == z, r >= z), i > z, z3.And(i == z, r < z))
        A, B = half(ar, ai), half(br, bi)
        lt = z3.Or(z3.And(A[0], z3.Not(B[0])), z3.And(A[1], z3.Or(B[2], B[3])), z3.And(A[2], B[3]),
                   z3.And(z3.Or(z3.And(A[0], B[0]), z3.And(A[2], B[2])), cr > z if strict else cr >= z))
        return lt if strict else z3.Or(lt, z3.And(A[1], B[1]), z3.And(A[3], B[3]))
    return mkbool(less(ar, ai, br, bi, cr, op == "lt"))


def _phase_env(z, env):
    import cmath
    return cmath.phase(z.eval(env)) / math.pi


def angle_axioms(v, z):
    re, im = to_z3(z.real), to_z3(z.imag)
    return [v > -1, v <= 1,
            z3.Implies(im > 0, z3.And(v > 0, v < 1)),
            z3.Implies(im < 0, z3.And(v < 0, v > -1)),
            z3.Implies(z3.And(im == 0, re < 0), v == 1),
            z3.Implies(z3.And(im == 0, re >= 0), v == 0),
            z3.Implies(z3.And(im > 0, re > 0), v < z3q(Fraction(1, 2))),
            z3.Implies(z3.And(im > 0, re < 0), v > z3q(Fraction(1, 2))),
            z3.Implies(z3.And(im < 0, re > 0), v > z3q(Fraction(-1, 2))),
            z3.Implies(z3.And(im < 0, re < 0), v < z3q(Fraction(-1, 2))),
            z3.Implies(z3.And(im > 0, re == 0), v == z3q(Fraction(1, 2))),
            z3.Implies(z3.And(im < 0, re == 0), v == z3q(Fraction(-1, 2)))]


# --------------------------------------------------------------------------
# z3 conversion
# --------------------------------------------------------------------------
def z3q(c):
    if isinstance(c, int):
        return z3.RealVal(c)
    return z3.RealVal("%d/%d" % (c.numerator, c.denominator))


_z3var = {}
_unit_D = {}      # (aid) -> list of D already used


def z3_atom(aid):
    v = _z3var.get(aid)
    a = ATOMS[aid]
    if v is None:
        if a.integer:
            v = z3.ToReal(z3.Int(a.name))
        else:
            v = z3.Real(a.name)
        _z3var[aid] = v
    CTX.touch(aid)
    return v


def unit_cs(aid, D):
    key = (aid, D)
    v = _z3var.get(key)
    if v is None:
        a = ATOMS[aid]
        v = (z3.Real("c[%s/%d]" % (a.name, D)), z3.Real("s[%s/%d]" % (a.name, D)))
        _z3var[key] = v
    CTX.touch_unit(aid, D)
    return v


def cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cpow(b, n):
    if n < 0:
        b = (b[0], -b[1])
        n = -n
    r = None
    while n:
        if n & 1:
            r = b if r is None else cmul(r, b)
        n >>= 1
        if n:
            b = cmul(b, b)
    return r


_z3cache = {}


WHOLE = set()     # real inputs of which only E(n x), n integer, matters


def unit_D(aid):
    a = ATOMS[aid]
    if a.mono == ():
        return 240240
    if a.mono is not None and len(a.mono) == 1 and a.mono[0][1] == 1 and a.mono[0][0] in WHOLE:
        return 1
    return 2


def to_z3(n):
    """z3 term of a real-valued Num (touches the atoms in the current context)"""
    k = n.key()
    hit = _z3cache.get(k)
    if hit is not None:
        e, ats, us = hit
        for aid in ats:
            CTX.touch(aid)
        for aid, D in us:
            CTX.touch_unit(aid, D)
        return e
    terms = []
    ats, us = set(), set()
    for m, c in n.t.items():
        pr = None
        cu = None
        ipow = 0
        for aid, e in m:
            a = ATOMS[aid]
            if a.kind == "I":
                ipow = e % 4
                continue
            if a.kind == "unit":
                D = unit_D(aid)
                ex = Fraction(e) * D
                if ex.denominator != 1:
                    D = D * ex.denominator
                    ex = Fraction(e) * D
                us.add((aid, D))
                u = cpow(unit_cs(aid, D), int(ex))
                cu = u if cu is None else cmul(cu, u)
                continue
            ats.add(aid)
            v = z3_atom(aid)
            if e < 0:
                f = 1 / v if e == -1 else 1 / _zpow(v, -e)
            else:
                f = _zpow(v, e)
            pr = f if pr is None else pr * f
        if cu is not None or ipow:
            if cu is None:
                cu = (z3.RealVal(1), z3.RealVal(0))
            # real part of  i^ipow * cu
            x = {0: cu[0], 1: -cu[1], 2: -cu[0], 3: cu[1]}[ipow]
            pr = x if pr is None else pr * x
        if pr is None:
            terms.append(z3q(c))
        elif c == 1:
            terms.append(pr)
        else:
            terms.append(z3q(c) * pr)
    if not terms:
        e = z3.RealVal(0)
    elif len(terms) == 1:
        e = terms[0]
    else:
        e = z3.Sum(terms)
    _z3cache[k] = (e, ats, us)
    return e


def _zpow(v, e):
    r = v
    for _ in range(e - 1):
        r = r * v
    return r


# --------------------------------------------------------------------------
# booleans
# --------------------------------------------------------------------------
class SymBool:
    __slots__ = ("e", "_k")
    __array_priority__ = 1000.0

    def __init__(self, e):
        self.e = e

    def key(self):
        return self.e.get_id()

    def __bool__(self):
        return CTX.branch(self.e)

    def __and__(self, o):
        o = as_bool(o)
        if o is NotImplemented:
            return o
        if o is True:
            return self
        if o is False:
            return False
        return mkbool(z3.And(self.e, o.e))
    __rand__ = __and__

    def __or__(self, o):
        o = as_bool(o)
        if o is NotImplemented:
            return o
        if o is True:
            return True
        if o is False:
            return self
        return mkbool(z3.Or(self.e, o.e))
    __ror__ = __or__

    def __xor__(self, o):
        o = as_bool(o)
        if o is NotImplemented:
            return o
        if o is True:
            return ~self
        if o is False:
            return self
        return mkbool(z3.Xor(self.e, o.e))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def logical_not(self):
        return ~self

    def __eq__(self, o):
        o2 = as_bool(o)
        if o2 is NotImplemented:
            return self.num() == o
        if o2 is True:
            return self
        if o2 is False:
            return ~self
        return mkbool(self.e == o2.e)

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return 78

    def num(self):
        return ite(self, ONE, ZERO)
    _symx_num = num

    def __add__(self, o):
        return self.num() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self.num() - o

    def __rsub__(self, o):
        return conv(o) - self.num()

    def __mul__(self, o):
        return self.num() * o
    __rmul__ = __mul__

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __str__(self):
        return str(bool(self))
    __repr__ = __str__

    def __format__(self, spec):
        return format(bool(self), spec)

    def item(self):
        return self

    def all(self, *a, **k):
        return self
    any = all

    shape = ()
    ndim = 0
    size = 1


def as_bool(o):
    if isinstance(o, SymBool):
        return o
    if isinstance(o, bool):
        return o
    t = type(o).__name__
    if t in ("bool_", "bool"):
        return bool(o)
    if isinstance(o, int) and o in (0, 1):
        return bool(o)
    return NotImplemented


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def b_and(xs):
    r = []
    for x in xs:
        if isinstance(x, Num):
            x = (x != 0)
        if x is False or (not isinstance(x, SymBool) and not x):
            return False
        if isinstance(x, SymBool):
            r.append(x.e)
    if not r:
        return True
    return mkbool(z3.And(*r) if len(r) > 1 else r[0])


def b_or(xs):
    r = []
    for x in xs:
        if isinstance(x, Num):
            x = (x != 0)
        if isinstance(x, SymBool):
            r.append(x.e)
        elif x:
            return True
    if not r:
        return False
    return mkbool(z3.Or(*r) if len(r) > 1 else r[0])


def b_not(x):
    if isinstance(x, SymBool):
        return ~x
    if isinstance(x, Num):
        return x == 0
    return not x


def _complex_order(a, b, op):
    """numpy lexicographic ordering of complex numbers"""
    ar, ai, br, bi = a.real, a.imag, b.real, b.imag
    if op in ("lt", "gt"):
        strict = ar < br if op == "lt" else ar > br
        second = ai < bi if op == "lt" else ai > bi
    else:
        strict = ar < br if op == "le" else ar > br
        second = ai <= bi if op == "le" else ai >= bi
    return b_or([strict, b_and([ar == br, second])])


# --------------------------------------------------------------------------
# execution context: one per path
# --------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.branch_queries = 0
        self.prop_queries = 0
        self.solver_time = 0.0
        self.unknown = 0
        self.paths = 0
        self.aborted = 0
        self.decisions = 0
        self.unsat = 0
        self.sat = 0

    def add(self, o):
        for k, v in o.__dict__.items():
            setattr(self, k, getattr(self, k) + v)


class NullCtx:
    """context outside of symbolic execution: atoms are free to touch"""

    def touch(self, aid):
        pass

    def touch_unit(self, aid, D):
        pass

    def branch(self, e):
        raise Unsupported("symbolic branch outside of a path")


class _CtxHolder:
    cur = NullCtx()

    def touch(self, aid):
        self.cur.touch(aid)

    def touch_unit(self, aid, D):
        self.cur.touch_unit(aid, D)

    def branch(self, e):
        return self.cur.branch(e)


CTX = _CtxHolder()


def _want(kind, k):
    if kind != k:
        raise Unsupported("non-deterministic replay of the decision prefix")


class Ctx:
    def __init__(self, prefix, stats, branch_timeout=4000, max_decisions=4000):
        self.solver = z3.Solver()
        self.prefix = prefix
        self.pos = 0
        self.decisions = []       # taken decisions
        self.alternatives = []    # new prefixes to explore
        self.stats = stats
        self.touched = set()
        self.touched_u = set()
        self.model = None
        self.bt = branch_timeout
        self.maxd = max_decisions
        self.uncertain = False
        self.notes = []
        self.poison = None
        self.deadline = None
        self.bounds = Bounds()
        self.lazy, self.have, self.mhave, self.levels, self.varmemo = {}, set(), set(), [], {}

    # ---- atoms
    def touch(self, aid):
        if aid in self.touched:
            return
        self.touched.add(aid)
        a = ATOMS[aid]
        if a.kind == "pi":
            v = z3.Real("pi")
            self.add(v > z3q(Fraction(31415926535, 10**10)))
            self.add(v < z3q(Fraction(31415926536, 10**10)))
            return
        if a.axioms is not None:
            # defining axioms of derived values: given to the solver with the first constraint that mentions the value
            w = z3.Int(a.name) if a.integer else z3.Real(a.name)
            self.lazy[w.get_id()] = (w, [])
            for ax in a.axioms(z3.ToReal(w) if a.integer else w):
                self.lazy[w.get_id()][1].append(ax)
                self.bounds.learn(ax)
        if a.nonzero and a.approx is None and a.axioms is None:
            v = z3.ToReal(z3.Int(a.name)) if a.integer else z3.Real(a.name)
            self.add(v != 0)

    def touch_unit(self, aid, D):
        if (aid, D) in self.touched_u:
            return
        self.touched_u.add((aid, D))
        c, s = unit_cs(aid, D)
        self.add(c * c + s * s == 1)
        for v in (c, s):
            self.bounds.learn(z3.And(v >= -1, v <= 1))
        if ATOMS[aid].mono == ():
            import math as _m
            x = _m.cos(2 * _m.pi / D)
            y = _m.sin(2 * _m.pi / D)
            for v, w in ((c, x), (s, y)):
                self.add(v > z3q(Fraction(w - 1e-13)))
                self.add(v < z3q(Fraction(w + 1e-13)))

    def vars(self, e):
        """ids of the variables of a term"""
        i = e.get_id()
        r = self.varmemo.get(i)
        if r is None:
            r, todo, seen = set(), [e], {i}
            while todo:
                x = todo.pop()
                ch = x.children()
                if not ch:
                    if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        r.add(x.get_id())
                for c in ch:
                    j = c.get_id()
                    if j not in seen:
                        seen.add(j)
                        if j in self.varmemo:
                            r |= self.varmemo[j][0]
                        else:
                            todo.append(c)
            self.varmemo[i] = r = (r, e)
        return r[0]

    def need(self, e):
        """axioms of the derived values of e that the solver does not have yet"""
        out, todo = [], [e]
        if len(self.have) == len(self.lazy):
            return out
        while todo:
            for i in self.vars(todo.pop()):
                if i in self.lazy and i not in self.have:
                    self.have.add(i)
                    out += self.lazy[i][1]
                    todo += self.lazy[i][1]
        return out

    def sadd(self, e):
        new = self.need(e)
        for x in new:
            self.solver.add(x)
        self.solver.add(e)
        return new

    def push(self):
        self.solver.push()
        self.levels.append(set(self.have))

    def pop(self):
        self.solver.pop()
        self.have = self.levels.pop()

    def add(self, e, learn=True):
        self.sadd(e)
        if not self.have <= self.mhave:
            self.model = None
        if learn:
            self.bounds.learn(e)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(e, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    # ---- solving
    def check(self, *assumptions, timeout=None):
        import time
        t0 = time.time()
        self.solver.set("timeout", timeout or self.bt)
        try:
            r = self.solver.check(*assumptions)
        except z3.Z3Exception:
            r = z3.unknown
        dt = time.time() - t0
        self.stats.solver_time += dt
        return r

    def feasible(self, e):
        """is e consistent with the path condition? (unknown counts as yes)"""
        self.push()
        self.sadd(e)
        if self.model is not None and self.have <= self.mhave:
            try:
                v = self.model.eval(e, model_completion=True)
                if z3.is_true(v):
                    self.pop()
                    return True
            except z3.Z3Exception:
                pass
        self.stats.branch_queries += 1
        r = self.check()
        if r == z3.sat:
            try:
                self.model = self.solver.model()
                self.mhave = set(self.have)
                # evaluation with several algebraic numbers may not end: such a model is not kept
                if sum(1 for d in self.model.decls() if d.arity() == 0 and z3.is_algebraic_value(self.model[d])) > 2:
                    self.model = None
            except z3.Z3Exception:
                self.model = None
        self.pop()
        if r == z3.unknown:
            self.stats.unknown += 1
            self.uncertain = True
            return True
        return r == z3.sat

    def branch(self, e):
        if self.poison is not None:
            raise self.poison
        if self.deadline and time.time() > self.deadline:
            raise BudgetExceeded("time budget")
        if self.pos < len(self.prefix):
            kind, val = self.prefix[self.pos]
            if kind != "i":
                _want(kind, "b")
            self.pos += 1
            self.decisions.append((kind, val))
            if kind == "b":
                self.add(e if val else z3.Not(e), False)
            return val
        if len(self.decisions) > self.maxd:
            raise BudgetExceeded("too many decisions on a path")
        es = z3.simplify(e)
        if z3.is_true(es):
            t, f = True, False
        elif z3.is_false(es):
            t, f = False, True
        else:
            iv = self.bounds.truth(es)
            if iv is None:
                iv = self.bounds.truth(e)
            if iv is not None:
                # implied by the bounds of this path: nothing to add for the solver
                self.pos += 1
                self.decisions.append(("i", iv))
                return iv
            else:
                t = self.feasible(e)
                f = self.feasible(z3.Not(e)) if t else True
        self.pos += 1
        if t and f:
            self.alternatives.append(list(self.decisions) + [("b", False)])
            self.stats.decisions += 1
        val = t
        if t is False and f is False:
            raise PathAbort()
        self.decisions.append(("b", val))
        self.add(e if val else z3.Not(e), False)
        return val

    def choose(self, n):
        """n-way nondeterministic choice"""
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            kind, val = self.prefix[self.pos]
            _want(kind, "c")
            self.pos += 1
            self.decisions.append(("c", val))
            return val
        for k in range(n - 1, 0, -1):
            self.alternatives.append(list(self.decisions) + [("c", k)])
            self.stats.decisions += 1
        self.pos += 1
        self.decisions.append(("c", 0))
        return 0

    def concretize(self, num, limit=300):
        """enumerate the values of an integer expression by forking"""
        e = to_z3(num)
        for _ in range(limit):
            if self.pos < len(self.prefix):
                kind, val = self.prefix[self.pos]
                _want(kind, "v")
                v, eq = val
                self.pos += 1
                self.decisions.append(("v", val))
                self.add(e == v if eq else e != v)
                if eq:
                    return v
                continue
            self.stats.branch_queries += 1
            for x in self.need(e):
                self.solver.add(x)
            r = self.check()
            if r == z3.unsat:
                raise PathAbort()
            if r == z3.unknown:
                raise Unsupported("cannot concretise an integer expression")
            m = self.solver.model()
            self.model = m
            self.mhave = set(self.have)
            vv = m.eval(e, model_completion=True)
            if z3.is_rational_value(vv):
                v = Fraction(vv.numerator_as_long(), vv.denominator_as_long())
            elif z3.is_int_value(vv):
                v = Fraction(vv.as_long())
            else:
                raise Unsupported("cannot concretise %s" % vv)
            if v.denominator != 1:
                raise Unsupported("non-integer index value")
            v = int(v)
            if self.feasible(e != v):
                self.alternatives.append(list(self.decisions) + [("v", (v, False))])
                self.stats.decisions += 1
            self.pos += 1
            self.decisions.append(("v", (v, True)))
            self.add(e == v)
            return v
        raise Unsupported("too many values when concretising")

    def assume(self, cond):
        if isinstance(cond, Num):
            cond = cond != 0
        if cond is True:
            return
        if isinstance(cond, SymBool):
            self.add(cond.e)
            return
        if not cond:
            raise PathAbort()


def concretize(n):
    c = n.const()
    if c is not None:
        if Fraction(c).denominator != 1:
            raise TypeError("non-integer used as an index")
        return int(c)
    cur = CTX.cur
    if isinstance(cur, NullCtx):
        raise Unsupported("concretisation outside of a path")
    return cur.concretize(n)


def same(a, b):
    """structural equality of two Num (no fork)"""
    return conv(a).t == conv(b).t
