"""Symbolic arrays (object-dtype ndarray subclass) and the numpy shim."""
import builtins
import itertools
import types
from fractions import Fraction
import numpy as np
from . import num as N
from . import text
from .num import (Num, SymBool, conv, Unsupported, ite, b_and, b_or, b_not, ONE, ZERO)

RANK = {"b": 0, "i": 1, "f": 2, "c": 3, "O": 4}
HOOKS = {}
DEFAULT_HOOKS = {}      # set by the loader
OPTS = {"ties": "stable"}


class DT:
    """minimal dtype object"""
    _names = {"b": "bool", "i": "int64", "f": "float64", "c": "complex128", "O": "object"}

    def __init__(self, kind):
        self.kind = kind
        self.char = {"b": "?", "i": "l", "f": "d", "c": "D", "O": "O"}[kind]
        self.itemsize = {"b": 1, "i": 8, "f": 8, "c": 16, "O": 8}[kind]

    @property
    def name(self):
        return self._names[self.kind]

    def __eq__(self, o):
        try:
            return self.kind == kind_of_dtype(o)
        except Exception:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return "dtype('%s')" % self.name

    @property
    def type(self):
        return {"b": np.bool_, "i": np.int64, "f": np.float64, "c": np.complex128, "O": np.object_}[self.kind]


_dtcache = {}


def kind_of_dtype(t):
    if t is None:
        return None
    if isinstance(t, DT):
        return t.kind
    k = getattr(t, "_symx_kind", None)
    if k is not None:
        return k
    if t is bool:
        return "b"
    if t is int:
        return "i"
    if t is float:
        return "f"
    if t is complex:
        return "c"
    if t is object:
        return "O"
    if t is str:
        return "U"
    d = np.dtype(t)
    return {"b": "b", "i": "i", "u": "i", "f": "f", "c": "c", "O": "O", "U": "U", "S": "U"}[d.kind]


def scalar_kind(x):
    t = type(x)
    if t is Num:
        return "ifc"[x.tag]
    if t is bool or t is SymBool or t is np.bool_:
        return "b"
    if t is int:
        return "i"
    if t is float or t is Fraction:
        return "f"
    if t is complex:
        return "c"
    if isinstance(x, np.generic):
        return {"b": "b", "i": "i", "u": "i", "f": "f", "c": "c"}.get(x.dtype.kind, "O")
    if isinstance(x, int):
        return "i"
    return "O"


def is_special(x):
    return type(x) is float and (x != x or x in (float("inf"), float("-inf")))


def cast_scalar(x, kind):
    if kind == "O" or kind is None:
        return x
    if isinstance(x, str):
        if kind == "U":
            return x
        v = text.parse_num(x, integer=(kind == "i"))
        if v is None:
            v = {"i": int, "f": float, "c": complex, "b": bool}[kind](x)
        x = v
    if isinstance(x, np.ndarray):
        if x.size != 1:
            raise ValueError("setting an array element with a sequence.")
        x = x.reshape(-1)[0] if type(x) is not SA else np.asarray(x).reshape(-1)[0]
    if isinstance(x, (list, tuple)):
        raise ValueError("setting an array element with a sequence.")
    if x is None:
        if kind in "fc":
            return float("nan")
        raise TypeError("int() argument must be a string or a real number, not 'NoneType'")
    if isinstance(x, np.generic):
        x = x.item()
    if kind == "b":
        if type(x) in (bool, SymBool):
            return x
        return conv(x) != 0
    if kind == "i":
        if type(x) is int:
            return x
        if type(x) is bool:
            return int(x)
        n = conv(x)
        if n is NotImplemented:
            raise TypeError("cannot convert %r to int" % (x,))
        if n.tag == 2:
            n = n.real
        n = N.num_trunc(n)
        c = n.const()
        return int(c) if c is not None else Num(n.t, 0)
    if is_special(x):
        return x
    n = conv(x)
    if n is NotImplemented:
        raise TypeError("float() argument must be a string or a real number, not %r" % type(x).__name__)
    if kind == "f":
        if n.tag == 2:
            n = n.real
        return n if n.tag == 1 else Num(n.t, 1)
    return n if n.tag == 2 else Num(n.t, 2)


def _vcast(a, kind):
    """cast the elements of an object ndarray"""
    out = np.empty(a.shape, dtype=object)
    fo, fi = out.reshape(-1), a.reshape(-1)
    for i in range(fi.size):
        fo[i] = cast_scalar(fi[i], kind)
    return out


def base(a):
    """plain object ndarray view of anything array-like"""
    if isinstance(a, SA):
        return a.view(np.ndarray)
    if isinstance(a, np.ndarray):
        return a if a.dtype == object else a.astype(object)
    return mkarr(a).view(np.ndarray)


def wrap(a, kind):
    r = a.view(SA)
    r.kind = kind
    return r


def infer_kind(a):
    k = "b"
    n = 0
    for x in a.reshape(-1):
        n += 1
        s = scalar_kind(x)
        if RANK[s] > RANK[k]:
            k = s
            if k == "O":
                break
    return k if n else "f"


def mkarr(obj, dtype=None, copy=True):
    kind = kind_of_dtype(dtype)
    if isinstance(obj, SA):
        if kind is None or kind == obj.kind:
            return obj.copy() if copy else obj
        if kind == "U":
            raise Unsupported("string array from numbers")
        return wrap(_vcast(base(obj), kind), kind)
    if isinstance(obj, np.ndarray):
        if obj.dtype.kind in "US":
            if kind in (None, "U"):
                return obj
            return wrap(_vcast(obj.astype(object), kind), kind)
        k0 = {"b": "b", "i": "i", "u": "i", "f": "f", "c": "c", "O": None}[obj.dtype.kind]
        if k0 is None:
            k0 = infer_kind(obj)
        k = kind or k0
        return wrap(_vcast(obj.astype(object), k), k)
    if isinstance(obj, (range,)):
        obj = list(obj)
    if isinstance(obj, (types.GeneratorType, map, filter, set, frozenset, dict)) or type(obj).__name__ in ("dict_keys", "dict_values"):
        a = np.empty((), dtype=object)
        a[()] = obj
        return wrap(a, "O")
    if isinstance(obj, (list, tuple)):
        obj = _delist(obj)
        if len(obj) == 0:
            return wrap(np.empty((0,), dtype=object), kind or "f")
        # pure string lists stay real numpy arrays
        flat = list(_flat(obj))
        if flat and all(isinstance(x, str) for x in flat) and kind in (None, "U"):
            return np.array(obj)
        try:
            a = np.array(obj, dtype=object)
        except ValueError:
            raise
        for x in a.reshape(-1):
            if isinstance(x, (list, tuple, np.ndarray)):
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        if a.size == 0:
            k = kind
            if k is None:
                ks = [x.kind for x in _arrs(obj)]
                k = max(ks, key=lambda q: RANK[q]) if ks else "f"
            return wrap(a, k)
        if kind is None:
            kind = infer_kind(a)
        return wrap(_vcast(a, kind) if kind != "O" else a, kind)
    a = np.empty((), dtype=object)
    a[()] = obj
    if kind is None:
        if isinstance(obj, str):
            return np.array(obj)
        kind = scalar_kind(obj)
    if kind != "O":
        a[()] = cast_scalar(obj, kind)
    return wrap(a, kind)


def _arrs(o):
    if isinstance(o, SA):
        yield o
    elif isinstance(o, (list, tuple)):
        for x in o:
            yield from _arrs(x)


def _delist(o):
    if isinstance(o, (list, tuple)):
        return [_delist(x) for x in o]
    if isinstance(o, SA):
        return o.view(np.ndarray)
    if isinstance(o, np.ndarray) and o.dtype != object and o.dtype.kind in "bifuc":
        return o.astype(object)
    if isinstance(o, range):
        return list(o)
    return o


def _flat(o):
    if isinstance(o, (list, tuple)):
        for x in o:
            yield from _flat(x)
    elif isinstance(o, np.ndarray):
        yield from o.reshape(-1)
    else:
        yield o


# --------------------------------------------------------------------------
# elementwise operations
# --------------------------------------------------------------------------
def _sp(op):
    """lift a python binary operator, dealing with inf/nan"""
    def f(a, b):
        if type(a) is int and type(b) is int:
            return op(a, b)
        if is_special(a) or is_special(b):
            return special_op(op, a, b)
        return op(conv(a) if not isinstance(a, (Num,)) else a, b)
    return f


def special_op(op, a, b):
    def c(x):
        if is_special(x):
            return x
        n = conv(x)
        k = n.const()
        if k is not None:
            return float(k)
        v = N.approx_value(n)
        if v is not None:
            return v.real
        return 1.0 if op in (_mul, _div) else 0.0   # finite
    if op in (_mul, _div) :
        for x in (a, b):
            if x != x if is_special(x) else False:
                return float("nan")
        for x in (a, b):
            if not is_special(x) and conv(x).const() is None:
                raise Unsupported("inf times symbolic value")
    return op(c(a), c(b))


def _add(a, b):
    return a + b


def _sub(a, b):
    return a - b


def _mul(a, b):
    return a * b


def _div(a, b):
    if type(a) is float and type(b) is float:
        return a / b
    return conv(a) / conv(b)


def _mod(a, b):
    return a % b


def _fdiv(a, b):
    return a // b


def _pow(a, b):
    return conv(a) ** b if not (type(a) is int and type(b) is int and b >= 0) else a ** b


def _cmpf(name):
    import operator
    op = getattr(operator, name)

    def f(a, b):
        if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
            return op(a, b)
        if is_special(a) or is_special(b):
            return special_cmp(op, a, b)
        if type(a) is int and type(b) is int:
            return op(a, b)
        if type(a) in (bool, SymBool, np.bool_) and type(b) in (bool, SymBool, np.bool_) and name in ("eq", "ne"):
            r = (a == b) if type(a) is SymBool else (b == a) if type(b) is SymBool else bool(a) == bool(b)
            return r if name == "eq" else b_not(r)
        ca = conv(a)
        if ca is NotImplemented:
            return op(a, b)
        return op(ca, b)
    return f


def special_cmp(op, a, b):
    def c(x):
        return x if is_special(x) else 0.0
    return op(c(a), c(b))


def _abs(a):
    if type(a) in (int, float):
        return abs(a)
    if type(a) in (bool, SymBool):
        return a
    return abs(conv(a))


def _maximum(a, b):
    return nmax([a, b])


def _minimum(a, b):
    return nmin([a, b])


def nmax(xs, neg=False):
    vals = []
    sp = None
    for x in xs:
        if is_special(x):
            if x != x:
                return x
            if (x > 0) != neg:
                return x
            sp = x
            continue
        vals.append(x)
    if not vals:
        return sp
    cs = [conv(v) for v in vals]
    tag = max(c.tag for c in cs)
    if tag == 2 and not all(c.is_real() for c in cs):
        raise Unsupported("max of complex values")
    best = None
    sym = []
    seen = set()
    for c in cs:
        k = c.const()
        if k is not None:
            if best is None or (k < best if neg else k > best):
                best = k
        else:
            kk = c.key()
            if kk not in seen:
                seen.add(kk)
                sym.append(c)
    if not sym:
        r = conv(best)
        return int(best) if tag == 0 else Num(r.t, tag)
    # constants with numeric value
    if best is not None:
        bc = conv(best)
        # drop abs/sqrt atoms vs nonpositive constants
        if not neg and best <= 0 and len(sym) >= 1 and all(_nonneg(s) for s in sym):
            pass
        else:
            sym.append(Num(bc.t, tag))
    if len(sym) == 1:
        return Num(sym[0].t, tag)
    op = "min" if neg else "max"

    def ax(v, sym=tuple(sym)):
        import z3
        zs = [N.to_z3(s) for s in sym]
        return [(v <= z if neg else v >= z) for z in zs] + [z3.Or([v == z for z in zs])]
    a = N.derived(op, tuple(sorted((s.key() for s in sym), key=repr)), tag == 0, ax,
                  lambda env, sym=tuple(sym): (min if neg else max)(s.eval(env).real for s in sym))
    return N.atom_num(a, tag)


def _nonneg(s):
    if len(s.t) == 1:
        (m, c), = s.t.items()
        return c > 0 and all(N.ATOMS[a].name.startswith(("abs!", "sqrt!")) for a, e in m)
    return False


def nmin(xs):
    return nmax(xs, neg=True)


def _m1(name):
    return {
        "exp": lambda a: N.num_exp(conv(a)),
        "sqrt": lambda a: a if is_special(a) else N.num_sqrt(conv(a)),
        "cos": lambda a: N.num_cos(conv(a)),
        "sin": lambda a: N.num_sin(conv(a)),
        "floor": lambda a: _ft(N.num_floor(conv(a))),
        "ceil": lambda a: _ft(-N.num_floor(-conv(a))),
        "trunc": lambda a: _ft(N.num_trunc(conv(a))),
        "rint": lambda a: _ft(N.num_round(conv(a))),
        "conjugate": lambda a: conv(a).conj() if not isinstance(a, int) else a,
        "negative": lambda a: -a if type(a) in (int, float) else -conv(a),
        "positive": lambda a: a,
        "square": lambda a: a * a,
        "reciprocal": lambda a: 1 / conv(a),
        "logical_not": lambda a: b_not(a),
        "invert": lambda a: b_not(a) if type(a) in (bool, SymBool, np.bool_) else ~a,
        "isfinite": lambda a: not is_special(a),
        "isnan": lambda a: is_special(a) and a != a,
        "isinf": lambda a: is_special(a) and a == a,
        "absolute": _abs,
        "fabs": _abs,
        "sign": lambda a: _sign(a),
        "deg2rad": lambda a: conv(a) * N.PI / 180,
        "radians": lambda a: conv(a) * N.PI / 180,
        "rad2deg": lambda a: conv(a) * 180 / N.PI,
        "degrees": lambda a: conv(a) * 180 / N.PI,
        "arccos": lambda a: _arccos(conv(a)),
        "arcsin": lambda a: N.PI / 2 - _arccos(conv(a)),
    }[name]


def _ft(n):
    return Num(n.t, max(1, n.tag))


def _sign(a):
    n = conv(a)
    if bool(n > 0):
        return 1 if n.tag == 0 else Num({(): 1}, 1)
    if bool(n < 0):
        return -1 if n.tag == 0 else Num({(): -1}, 1)
    return 0 if n.tag == 0 else Num({}, 1)


def _arccos(n):
    v = N.approx_value(n)
    if v is None:
        raise Unsupported("arccos of a symbolic value")
    import math
    th = math.acos(max(-1.0, min(1.0, v.real))) / math.pi
    f = Fraction(th).limit_denominator(48)
    if abs(float(f) - th) < 1e-9 and (N.root_of_unity(f / 2).real - n).is_zero():
        return N.PI * f
    raise Unsupported("arccos of a non-tabulated constant")


def _arctan2(y, x):
    return N.num_angle(conv(x) + conv(y) * N.I)


def _logand(a, b):
    return b_and([a, b])


def _logor(a, b):
    return b_or([a, b])


def _logxor(a, b):
    a, b = tob(a), tob(b)
    if isinstance(a, SymBool):
        return a ^ b
    if isinstance(b, SymBool):
        return b ^ a
    return bool(a) != bool(b)


def tob(x):
    if isinstance(x, (SymBool, bool)):
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    return conv(x) != 0


def _bitand(a, b):
    if type(a) is int and type(b) is int:
        return a & b
    return b_and([a, b])


def _bitxor(a, b):
    if type(a) is int and type(b) is int:
        return a ^ b
    if any(isinstance(x, Num) for x in (a, b)):
        return int(N.concretize(conv(a))) ^ int(N.concretize(conv(b)))
    return _logxor(a, b)


def _bitor(a, b):
    if type(a) is int and type(b) is int:
        return a | b
    return b_or([a, b])


BIN = {
    "add": (_sp(_add), "arith", 0), "subtract": (_sp(_sub), "arith", None), "multiply": (_sp(_mul), "arith", 1),
    "divide": (_sp(_div), "div", None), "true_divide": (_sp(_div), "div", None),
    "remainder": (_sp(_mod), "arith", None), "mod": (_sp(_mod), "arith", None),
    "floor_divide": (_sp(_fdiv), "arith", None), "power": (_pow, "arith", None),
    "float_power": (_pow, "div", None),
    "equal": (_cmpf("eq"), "cmp", None), "not_equal": (_cmpf("ne"), "cmp", None),
    "less": (_cmpf("lt"), "cmp", None), "less_equal": (_cmpf("le"), "cmp", None),
    "greater": (_cmpf("gt"), "cmp", None), "greater_equal": (_cmpf("ge"), "cmp", None),
    "maximum": (_maximum, "arith", None), "minimum": (_minimum, "arith", None),
    "fmax": (_maximum, "arith", None), "fmin": (_minimum, "arith", None),
    "logical_and": (_logand, "cmp", True), "logical_or": (_logor, "cmp", False), "logical_xor": (_logxor, "cmp", False),
    "bitwise_and": (_bitand, "bit", None), "bitwise_or": (_bitor, "bit", None), "bitwise_xor": (_bitxor, "bit", None),
    "arctan2": (_arctan2, "div", None),
    "hypot": (lambda a, b: N.num_sqrt(conv(a) * conv(a) + conv(b) * conv(b)), "div", None),
}
UN = {
    "exp": "fl", "sqrt": "fl", "cos": "fl", "sin": "fl", "floor": "keep", "ceil": "keep", "trunc": "keep", "rint": "fl",
    "conjugate": "same", "negative": "same", "positive": "same", "square": "same", "reciprocal": "fl",
    "logical_not": "cmp", "invert": "same", "isfinite": "cmp", "isnan": "cmp", "isinf": "cmp",
    "absolute": "abs", "fabs": "abs", "sign": "same", "deg2rad": "fl", "radians": "fl", "rad2deg": "fl", "degrees": "fl",
    "arccos": "fl", "arcsin": "fl",
}
_uf = {}


def get_uf(name):
    u = _uf.get(name)
    if u is None:
        if name in BIN:
            f, rule, ident = BIN[name]
            u = (np.frompyfunc(f, 2, 1, identity=ident) if ident is not None else np.frompyfunc(f, 2, 1), rule, 2)
        elif name in UN:
            u = (np.frompyfunc(_m1(name), 1, 1), UN[name], 1)
        else:
            raise Unsupported("numpy ufunc %s" % name)
        _uf[name] = u
    return u


def arr_kind(x):
    if isinstance(x, SA):
        return x.kind
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return infer_kind(x)
        return {"b": "b", "i": "i", "u": "i", "f": "f", "c": "c"}.get(x.dtype.kind, "O")
    if isinstance(x, (list, tuple)):
        return arr_kind(mkarr(x))
    return scalar_kind(x)


def result_kind(rule, kinds):
    k = max(kinds, key=lambda q: RANK[q])
    if rule == "cmp":
        return "b"
    if rule == "arith":
        return "i" if k == "b" else k
    if rule in ("div", "fl"):
        return k if RANK[k] >= 2 else "f"
    if rule == "abs":
        return "f" if k == "c" else k
    if rule == "keep":
        return k if RANK[k] >= 2 else "f"
    return k


def ufunc_call(name, inputs, out=None, where=True):
    u, rule, nin = get_uf(name)
    kinds = [arr_kind(x) for x in inputs]
    bs = []
    for x in inputs:
        if isinstance(x, (np.ndarray, list, tuple)):
            bs.append(base(x))
        elif isinstance(x, np.generic):
            bs.append(x.item())
        elif isinstance(x, range):
            bs.append(base(list(x)))
        else:
            bs.append(x)
    if any(isinstance(b, np.ndarray) for b in bs):
        # scalars such as Num must be boxed to avoid sequence coercion
        bb = []
        for b in bs:
            if not isinstance(b, np.ndarray):
                z = np.empty((), dtype=object)
                z[()] = b
                b = z
            bb.append(b)
        r = u(*bb)
    else:
        r = u.__call__(*[_box(b) for b in bs])
    k = result_kind(rule, kinds)
    if name == "power" and k == "i" and any(_neg_int(x) for x in [inputs[1]]):
        raise ValueError("Integers to negative integer powers are not allowed.")
    if not isinstance(r, np.ndarray):
        if k in "fc" and not is_special(r):
            r = cast_scalar(r, k)
        if out is None:
            return r
        z = np.empty((), dtype=object)
        z[()] = r
        r = z
    r = wrap(_vcast(np.asarray(r), k) if k in "fci" else np.asarray(r), k)
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if isinstance(o, SA):
            if RANK[k] > RANK[o.kind] and not (o.kind == "b"):
                raise TypeError("Cannot cast ufunc '%s' output from dtype('%s') to dtype('%s') with casting rule 'same_kind'"
                                % (name, DT._names[k], DT._names[o.kind]))
            o.view(np.ndarray)[...] = _vcast(np.asarray(r.view(np.ndarray)), o.kind)
            return o
        o[...] = r.view(np.ndarray)
        return o
    return r


def _neg_int(x):
    return isinstance(x, int) and not isinstance(x, bool) and x < 0


def _box(b):
    return b


class Flat:
    """a.flat"""

    def __init__(self, a):
        self.a = a
        self.it = None

    def __iter__(self):
        return (self.a[i] for i in np.ndindex(*self.a.shape))

    def __next__(self):
        if self.it is None:
            self.it = iter(self)
        return next(self.it)

    def __len__(self):
        return self.a.size

    def __getitem__(self, k):
        return self.a.reshape(-1)[k]

    def __setitem__(self, k, v):
        r = self.a.copy().reshape(-1)
        r[k] = v
        self.a[...] = r.reshape(self.a.shape)


class SA(np.ndarray):
    kind = "f"
    __array_priority__ = 3000.0

    def __array_finalize__(self, obj):
        if obj is not None:
            self.kind = getattr(obj, "kind", "f")

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        name = ufunc.__name__
        kw.pop("casting", None)
        kw.pop("order", None)
        dtype = kw.pop("dtype", None)
        kw.pop("subok", None)
        if name == "matmul":
            return dot(inputs[0], inputs[1], mat=True)
        where = kw.pop("where", True)
        if method == "__call__":
            if name in ("isclose",):
                return isclose(*inputs)
            if name == "divmod":
                return ufunc_call("floor_divide", inputs), ufunc_call("remainder", inputs)
            r = ufunc_call(name, inputs, out=out)
            if dtype is not None:
                r = r.astype(dtype)
            return r
        if method == "reduce":
            return reduce_(name, inputs[0], kw.pop("axis", 0), kw.pop("keepdims", False), kw.pop("initial", None))
        if method == "accumulate":
            u, rule, nin = get_uf(name)
            return ufunc_accumulate(name, inputs[0], kw.get("axis", 0))
        if method == "at":
            ufunc_at(name, inputs[0], inputs[1], *inputs[2:])
            return None
        if method == "outer":
            a, b = mkarr(inputs[0]), mkarr(inputs[1])
            return ufunc_call(name, [a.reshape(a.shape + (1,) * b.ndim), b])
        raise Unsupported("ufunc method %s.%s" % (name, method))

    # ---- indexing
    def __getitem__(self, key):
        k = fix_index(key)
        r = np.ndarray.__getitem__(self, k)
        if isinstance(r, bool):
            return np.bool_(r)
        return r

    def __setitem__(self, key, val):
        set_item(self, key, val)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.shape[0]):
            yield self[i]

    def __contains__(self, x):
        return bool(b_or(list(base(self == x).reshape(-1))))

    def __bool__(self):
        if self.size != 1:
            if self.size == 0:
                return False
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return bool(base(self).reshape(-1)[0])

    def __float__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return float(base(self).reshape(-1)[0])

    def __int__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return int(base(self).reshape(-1)[0])

    def __index__(self):
        if self.size == 1 and self.kind == "i" and self.ndim == 0:
            return base(self).reshape(-1)[0].__index__()
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __complex__(self):
        return complex(base(self).reshape(-1)[0])

    # comparison / arithmetic operators go through __array_ufunc__
    def __eq__(self, o):
        return ufunc_call("equal", [self, o])

    def __ne__(self, o):
        return ufunc_call("not_equal", [self, o])
    __hash__ = None

    def __divmod__(self, o):
        return self // o, self % o

    # ---- attributes
    @property
    def real(self):
        if self.kind != "c":
            return self
        return _map(self, lambda x: x.real, "f")

    @real.setter
    def real(self, v):
        self[...] = self.imag * N.I + v

    @property
    def imag(self):
        if self.kind != "c":
            return _map(self, lambda x: Num({}, 1) if self.kind == "f" else 0, self.kind)
        return _map(self, lambda x: x.imag, "f")

    @imag.setter
    def imag(self, v):
        self[...] = self.real + mkarr(v) * N.I

    @property
    def dtype(self):
        return DT(self.kind)

    @property
    def T(self):
        return self.transpose()

    @property
    def flat(self):
        return Flat(self)

    def conj(self, *a):
        return self if self.kind != "c" else _map(self, lambda x: x.conj(), "c")
    conjugate = conj

    def astype(self, t, copy=True, **kw):
        k = kind_of_dtype(t)
        if k == "O":
            return self.copy()
        if k == "U":
            return np.array([str(x) for x in base(self).reshape(-1)]).reshape(self.shape)
        return wrap(_vcast(base(self), k), k)

    def round(self, decimals=0, out=None):
        return round_(self, decimals)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        if where is not True:
            return reduce_("add", np_where(where, self, 0), axis, keepdims, initial)
        return reduce_("add", self, axis, keepdims, initial)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduce_("multiply", self, axis, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return mean(self, axis, keepdims)

    def max(self, axis=None, out=None, keepdims=False, initial=None, **kw):
        return reduce_("maximum", self, axis, keepdims, initial)

    def min(self, axis=None, out=None, keepdims=False, initial=None, **kw):
        return reduce_("minimum", self, axis, keepdims, initial)

    def ptp(self, axis=None):
        return self.max(axis) - self.min(axis)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return all_(self, axis, keepdims)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return any_(self, axis, keepdims)

    def dot(self, o, out=None):
        return dot(self, o)

    def __matmul__(self, o):
        return dot(self, o, mat=True)

    def __rmatmul__(self, o):
        return dot(o, self, mat=True)

    def argsort(self, axis=-1, kind=None, order=None, **kw):
        return argsort(self, axis, kind)

    def sort(self, axis=-1, kind=None, order=None):
        self[...] = np_sort(self, axis)

    def argmax(self, axis=None, out=None, **kw):
        return argext(self, axis, lambda a, b: a > b)

    def argmin(self, axis=None, out=None, **kw):
        return argext(self, axis, lambda a, b: a < b)

    def cumsum(self, axis=None, **kw):
        return cumsum(self, axis)

    def cumprod(self, axis=None, **kw):
        a = self.reshape(-1) if axis is None else self
        return wrap(get_uf("multiply")[0].accumulate(base(a), axis=axis or 0), self.kind)

    def trace(self, offset=0, axis1=0, axis2=1, **kw):
        d = self.diagonal(offset, axis1, axis2)
        return d.sum(axis=-1)

    def nonzero(self):
        m = resolve_mask(self)
        return tuple(mkarr(x) for x in np.nonzero(m))

    def tolist(self):
        return base(self).tolist()

    def item(self, *a):
        return base(self).item(*a)

    def fill(self, v):
        self[...] = v

    def copy(self, order="C"):
        return wrap(base(self).copy(), self.kind)

    def flatten(self, order="C"):
        return wrap(base(self).flatten(order), self.kind)

    def std(self, axis=None, **kw):
        raise Unsupported("std")
    var = std

    def clip(self, a=None, b=None, **kw):
        r = self
        if a is not None:
            r = ufunc_call("maximum", [r, a])
        if b is not None:
            r = ufunc_call("minimum", [r, b])
        return r

    def take(self, idx, axis=None, **kw):
        a = self.reshape(-1) if axis is None else self
        ax = axis or 0
        k = fix_index(mkarr(idx))
        return wrap(np.take(base(a), k, axis=ax), self.kind)

    def repeat(self, n, axis=None):
        return wrap(np.repeat(base(self), fix_index(mkarr(n)) if not isinstance(n, int) else n, axis=axis), self.kind)

    def view(self, *a, **k):
        if a and isinstance(a[0], type) and issubclass(a[0], np.ndarray):
            return np.ndarray.view(self, *a, **k)
        if a or k:
            raise Unsupported("view with another dtype")
        return np.ndarray.view(self, SA)

    def __repr__(self):
        return text_array(self)
    __str__ = __repr__

    def __format__(self, spec):
        if spec:
            if self.ndim == 0:
                return format(base(self)[()], spec)
            raise TypeError("unsupported format string passed to numpy.ndarray.__format__")
        return str(self)

    def __reduce__(self):
        raise Unsupported("pickling of symbolic arrays")

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def tofile(self, *a):
        raise Unsupported("tofile")


def text_array(a):
    def rec(x):
        if isinstance(x, list):
            return "[" + " ".join(rec(y) for y in x) + "]"
        return str(x)
    return rec(base(a).tolist())


def _map(a, f, kind):
    b = base(a)
    out = np.empty(b.shape, dtype=object)
    fo, fi = out.reshape(-1), b.reshape(-1)
    for i in range(fi.size):
        x = fi[i]
        fo[i] = x if is_special(x) else f(x)
    return wrap(out, kind)


# ---- index handling ---------------------------------------------------------
def resolve_mask(a):
    b = base(a)
    out = np.empty(b.shape, dtype=bool)
    fo, fi = out.reshape(-1), b.reshape(-1)
    for i in range(fi.size):
        fo[i] = bool(fi[i])
    return out


def fix_index(key):
    if isinstance(key, tuple):
        return tuple(fix_index1(k) for k in key)
    return fix_index1(key)


def fix_index1(k):
    if isinstance(k, SA):
        if k.kind == "b":
            m = resolve_mask(k)
            return m if k.ndim else bool(m)
        if k.kind == "i":
            b = base(k)
            out = np.empty(b.shape, dtype=int)
            fo, fi = out.reshape(-1), b.reshape(-1)
            for i in range(fi.size):
                fo[i] = fi[i].__index__()
            return out
        if k.size == 0:
            return np.zeros(k.shape, dtype=int)
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if isinstance(k, Num):
        if k.tag != 0:
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
        return N.concretize(k)
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, (list, range)):
        k = list(k)
        if len(k) == 0:
            return np.zeros(0, dtype=int)
        return fix_index1(mkarr(k))
    if isinstance(k, (float,)):
        raise IndexError("only integers, slices ... are valid indices")
    return k


def set_item(self, key, val):
    # symbolic boolean mask: merge instead of forking
    if isinstance(key, SA) and key.kind == "b" and key.shape == self.shape[:key.ndim] \
            and any(isinstance(x, SymBool) for x in base(key).reshape(-1)):
        if not isinstance(val, (np.ndarray, list, tuple)) or np.ndim(base(val)) == 0 or np.size(base(val)) == 1:
            v = val if not isinstance(val, (np.ndarray, list, tuple)) else base(val).reshape(-1)[0]
            v = cast_scalar(v, self.kind)
            b = base(self)
            m = base(key)
            for idx in np.ndindex(m.shape):
                c = m[idx]
                if c is False:
                    continue
                if m.ndim == b.ndim:
                    b[idx] = cast_scalar(ite(c, v, b[idx]) if c is not True else v, self.kind)
                else:
                    sub = b[idx]
                    for j in np.ndindex(sub.shape):
                        sub[j] = cast_scalar(ite(c, v, sub[j]) if c is not True else v, self.kind)
            return
    k = fix_index(key)
    b = self.view(np.ndarray)
    if isinstance(val, (np.ndarray, list, tuple, range)):
        v = val
        if isinstance(v, SA) and v.kind == self.kind:
            vb = base(v)
        elif isinstance(v, np.ndarray) and v.dtype.kind in "US":
            vb = _vcast(v.astype(object), self.kind)
        else:
            if isinstance(v, (list, tuple, range)):
                v = mkarr(list(v)) if len(list(_flat(list(v)))) else mkarr([])
            vb = _vcast(base(v) if not (isinstance(v, np.ndarray) and v.dtype.kind in "US") else v.astype(object), self.kind)
        if vb.ndim == 0:
            vb = vb[()]
            tgt = b[k]
            if isinstance(tgt, np.ndarray):
                z = np.empty((), dtype=object)
                z[()] = vb
                b[k] = z
            else:
                b[k] = vb
            return
        tgt = b[k]
        if not isinstance(tgt, np.ndarray):
            if vb.size == 1:
                b[k] = vb.reshape(-1)[0]
                return
            raise ValueError("setting an array element with a sequence.")
        b[k] = vb
        return
    v = cast_scalar(val, self.kind)
    tgt = b[k]
    if isinstance(tgt, np.ndarray):
        z = np.empty((), dtype=object)
        z[()] = v
        b[k] = z
    else:
        b[k] = v


# ---- reductions -----------------------------------------------------------------
def _norm_axis(axis, nd):
    if axis is None:
        return None
    if isinstance(axis, tuple):
        return tuple(a % nd for a in axis)
    axis = int(axis)
    if axis < -nd or axis >= nd:
        raise np.AxisError(axis, nd)
    return axis % nd


def reduce_(name, a, axis=None, keepdims=False, initial=None):
    a = mkarr(a, copy=False) if not isinstance(a, SA) else a
    if name in ("logical_and",):
        return all_(a, axis, keepdims)
    if name in ("logical_or",):
        return any_(a, axis, keepdims)
    b = base(a)
    rule = BIN[name][1]
    k = result_kind(rule, [a.kind])
    fold = {"maximum": nmax, "minimum": nmin}.get(name)
    op = BIN[name][0]
    ident = BIN[name][2]

    def red(vec):
        vec = list(vec)
        if initial is not None and initial is not np._NoValue:
            vec = [initial] + vec
        if not vec:
            if ident is None:
                raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
            return cast_scalar(ident, k)
        if fold:
            return cast_scalar(fold(vec), k) if not is_special(fold(vec)) else fold(vec)
        if name == "add" and len(vec) > 2 and not any(is_special(x) for x in vec):
            return cast_scalar(nsum(vec), k)
        r = vec[0]
        for x in vec[1:]:
            r = op(r, x)
        return r if is_special(r) else cast_scalar(r, k)
    nd = b.ndim
    ax = _norm_axis(axis, nd) if axis is not None else None
    if ax is None or nd == 0:
        r = red(b.reshape(-1))
        if keepdims:
            z = np.empty((1,) * nd, dtype=object)
            z.reshape(-1)[0] = r
            return wrap(z, k)
        return r
    axs = ax if isinstance(ax, tuple) else (ax,)
    rest = [i for i in range(nd) if i not in axs]
    t = np.transpose(b, rest + list(axs))
    shp = [b.shape[i] for i in rest]
    flat = t.reshape(shp + [-1]) if b.size else t.reshape(shp + [int(np.prod([b.shape[i] for i in axs]))])
    out = np.empty(shp, dtype=object)
    for idx in np.ndindex(*shp):
        out[idx] = red(flat[idx])
    if keepdims:
        out = out.reshape([1 if i in axs else b.shape[i] for i in range(nd)])
        return wrap(out, k)
    if out.ndim == 0:
        return out[()]
    return wrap(out, k)


def nsum(vec):
    tag = 0
    d = {}
    for x in vec:
        n = conv(x)
        if n is NotImplemented:
            raise TypeError("unsupported operand in sum")
        tag = max(tag, n.tag)
        for m, c in n.t.items():
            N.poly_add_term(d, m, c)
    return Num(d, tag)


def mean(a, axis=None, keepdims=False):
    a = mkarr(a, copy=False)
    s = reduce_("add", a, axis, keepdims)
    if axis is None:
        n = a.size
    else:
        axs = axis if isinstance(axis, tuple) else (axis,)
        n = 1
        for x in axs:
            n *= a.shape[x]
    if n == 0:
        return float("nan")
    return ufunc_call("divide", [s, n])


def all_(a, axis=None, keepdims=False):
    if not isinstance(a, (np.ndarray, list, tuple)):
        return tob(a)
    b = base(a)
    if axis is None:
        return b_and([tob(x) for x in b.reshape(-1)])
    ax = _norm_axis(axis, b.ndim)
    m = np.moveaxis(b, ax, -1)
    out = np.empty(m.shape[:-1], dtype=object)
    for idx in np.ndindex(out.shape):
        out[idx] = b_and([tob(x) for x in m[idx]])
    return wrap(out, "b") if out.ndim else out[()]


def any_(a, axis=None, keepdims=False):
    if not isinstance(a, (np.ndarray, list, tuple)):
        return tob(a)
    b = base(a)
    if axis is None:
        return b_or([tob(x) for x in b.reshape(-1)])
    ax = _norm_axis(axis, b.ndim)
    m = np.moveaxis(b, ax, -1)
    out = np.empty(m.shape[:-1], dtype=object)
    for idx in np.ndindex(out.shape):
        out[idx] = b_or([tob(x) for x in m[idx]])
    return wrap(out, "b") if out.ndim else out[()]


def cumsum(a, axis=None, **kw):
    a = mkarr(a, copy=False)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    b = base(a)
    k = "i" if a.kind == "b" else a.kind
    if b.size == 0:
        return wrap(b.copy(), k)
    return wrap(_vcast(get_uf("add")[0].accumulate(b, axis=axis), k), k)


def round_(a, decimals=0, **kw):
    if isinstance(a, (np.ndarray, list, tuple)):
        a = mkarr(a, copy=False)
        return _map(a, lambda x: round1(x, decimals), a.kind if a.kind != "b" else "i")
    return round1(a, decimals)


def round1(x, decimals=0):
    if type(x) is int:
        return x
    n = conv(x)
    if decimals == 0:
        return Num(N.num_round(n).t, n.tag)
    if n.tag == 2:
        return Num((round1(n.real, decimals) + round1(n.imag, decimals) * N.I).t, 2)
    return n.__round__(int(decimals))


# ---- comparisons ----------------------------------------------------------------
def close1(a, b, rtol, atol):
    if is_special(a) or is_special(b):
        if is_special(a) and is_special(b):
            return a == b
        return False
    a, b = conv(a), conv(b)
    d = a - b
    if not d.t:
        return True
    rtol, atol = conv(rtol), conv(atol)
    tol = atol if (not rtol.t or not b.t) else atol + rtol * abs(b)
    if d.is_real():
        dr = d.real if d.tag == 2 else d
        return b_and([dr <= tol, -dr <= tol])
    d2 = Num((d * d.conj()).t, 1)
    return d2 <= tol * tol


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    sc = not isinstance(a, (np.ndarray, list, tuple)) and not isinstance(b, (np.ndarray, list, tuple))
    u = np.frompyfunc(lambda x, y: close1(x, y, rtol, atol), 2, 1)
    if sc:
        return close1(a, b, rtol, atol)
    r = u(_b0(a), _b0(b))
    if not isinstance(r, np.ndarray):
        return r
    return wrap(np.asarray(r), "b")


def _b0(x):
    if isinstance(x, (np.ndarray, list, tuple)):
        return base(x)
    z = np.empty((), dtype=object)
    z[()] = x
    return z


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return all_(isclose(a, b, rtol, atol))


def array_equal(a, b, **kw):
    a, b = mkarr(a, copy=False), mkarr(b, copy=False)
    if a.shape != b.shape:
        return False
    return all_(ufunc_call("equal", [a, b]))


# ---- linear algebra -----------------------------------------------------------------
def dot(a, b, mat=False, out=None):
    if not isinstance(a, (np.ndarray, list, tuple)) or not isinstance(b, (np.ndarray, list, tuple)):
        if mat:
            raise ValueError("matmul: Input operand does not have enough dimensions")
        return ufunc_call("multiply", [a, b])
    A, B = mkarr(a, copy=False), mkarr(b, copy=False)
    k = result_kind("arith", [A.kind, B.kind])
    x, y = base(A), base(B)
    if x.ndim == 0 or y.ndim == 0:
        return ufunc_call("multiply", [a, b])
    if mat and (x.ndim > 2 or y.ndim > 2):
        if x.ndim <= 2:
            x = x.reshape((1,) * (y.ndim - x.ndim) + x.shape)
        if y.ndim <= 2:
            y = y.reshape((1,) * (x.ndim - y.ndim) + y.shape)
        bs = np.broadcast_shapes(x.shape[:-2], y.shape[:-2])
        x = np.broadcast_to(x, bs + x.shape[-2:])
        y = np.broadcast_to(y, bs + y.shape[-2:])
        out = np.empty(bs + (x.shape[-2], y.shape[-1]), dtype=object)
        for idx in np.ndindex(*bs):
            out[idx] = base(dot(wrap(x[idx], A.kind), wrap(y[idx], B.kind)))
        return wrap(out, k)
    ya = y.ndim - 2 if y.ndim > 1 else 0
    if x.shape[-1] != y.shape[ya]:
        raise ValueError("shapes %s and %s not aligned: %d (dim %d) != %d (dim %d)" % (
            x.shape, y.shape, x.shape[-1], x.ndim - 1, y.shape[ya], ya))
    ym = np.moveaxis(y, ya, -1)
    shp = x.shape[:-1] + ym.shape[:-1]
    out = np.empty(shp, dtype=object)
    for i in np.ndindex(*x.shape[:-1]):
        r = x[i]
        for j in np.ndindex(*ym.shape[:-1]):
            out[i + j] = vdot1(r, ym[j], k)
    if out.ndim == 0:
        return out[()]
    return wrap(out, k)


def vdot1(r, c, k):
    d = {}
    tag = {"b": 0, "i": 0, "f": 1, "c": 2, "O": 1}[k]
    for p, q in zip(r, c):
        if type(p) is int and type(q) is int:
            if p and q:
                N.poly_add_term(d, (), p * q)
            continue
        if is_special(p) or is_special(q):
            raise Unsupported("inf in dot product")
        p, q = conv(p), conv(q)
        if not p.t or not q.t:
            continue
        for m, cc in (p * q).t.items():
            N.poly_add_term(d, m, cc)
    n = Num(d, tag)
    if k == "i":
        return cast_scalar(n, "i")
    return n


def einsum(sub, *ops, **kw):
    if not isinstance(sub, str):
        raise Unsupported("einsum with index lists")
    sub = sub.replace(" ", "")
    ins, arrow, outp = sub.partition("->")
    ins = ins.split(",")
    arrs = [mkarr(o, copy=False) for o in ops]
    if "..." in sub:
        free = [c for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ" if c not in sub]
        nell = max([a.ndim - len(s) + 3 for s, a in zip(ins, arrs) if "..." in s] or [0])
        ell = "".join(free[:nell])
        ins = [s.replace("...", ell[nell - (a.ndim - len(s) + 3):]) for s, a in zip(ins, arrs)]
        if not arrow:
            cnt = "".join(ins)
            outp, arrow = ell + "".join(sorted(c for c in set(cnt) if cnt.count(c) == 1 and c not in ell)), "->"
        outp = outp.replace("...", ell)
    if not arrow:
        cnt = {}
        for s in ins:
            for c in s:
                cnt[c] = cnt.get(c, 0) + 1
        outp = "".join(sorted(c for c in cnt if cnt[c] == 1))
    dims = {}
    for s, a in zip(ins, arrs):
        if len(s) != a.ndim:
            raise ValueError("einstein sum subscripts string contains wrong number of subscripts for operand")
        for c, n in zip(s, a.shape):
            if dims.setdefault(c, n) != n:
                if dims[c] == 1:
                    dims[c] = n
                elif n != 1:
                    raise ValueError("operands could not be broadcast together with remapped shapes")
    if len(arrs) > 2:
        # contract pairwise, left to right
        keep = set("".join(ins[2:]) + outp)
        mid = "".join(sorted((set(ins[0]) | set(ins[1])) & keep))
        return einsum(",".join([mid] + ins[2:]) + "->" + outp, einsum("%s,%s->%s" % (ins[0], ins[1], mid), arrs[0], arrs[1]), *arrs[2:])
    k = result_kind("arith", [a.kind for a in arrs])
    tag = {"i": 0, "f": 1, "c": 2, "b": 0}[k]
    # contract pairwise, left to right, with explicit loops over all indices
    summed = [c for c in dims if c not in outp]
    out = np.empty([dims[c] for c in outp], dtype=object)
    bs = [base(a) for a in arrs]
    for oi in np.ndindex(*out.shape):
        env = dict(zip(outp, oi))
        acc = {}
        for si in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, si))
            t = None
            for s, b in zip(ins, bs):
                e = b[tuple(env[c] if b.shape[q] != 1 else 0 for q, c in enumerate(s))]
                e = conv(e)
                if not e.t:
                    t = None
                    break
                t = e if t is None else t * e
                if not t.t:
                    t = None
                    break
            if t is None:
                continue
            for m, cc in t.t.items():
                N.poly_add_term(acc, m, cc)
        out[oi] = cast_scalar(Num(acc, tag), k)
    if out.ndim == 0:
        return out[()]
    return wrap(out, k)


def det(a):
    a = mkarr(a, copy=False)
    if a.ndim > 2:
        return mkarr([det(x) for x in a])
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    k = "c" if a.kind == "c" else "f"
    return cast_scalar(_det([list(r) for r in base(a)]), k)


def _det(m):
    n = len(m)
    if n == 0:
        return ONE
    if n == 1:
        return conv(m[0][0])
    if n > 6:
        raise Unsupported("determinant of a large matrix")
    r = ZERO
    for j in range(n):
        x = conv(m[0][j])
        if not x.t:
            continue
        c = _det([row[:j] + row[j + 1:] for row in m[1:]])
        r = r + x * c if j % 2 == 0 else r - x * c
    return r


def inv(a):
    a = mkarr(a, copy=False)
    if a.ndim > 2:
        return mkarr([inv(x) for x in a])
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    n = a.shape[0]
    k = "c" if a.kind == "c" else "f"
    m = [list(r) for r in base(a)]
    d = conv(_det(m))
    if not d.t:
        raise np.linalg.LinAlgError("Singular matrix")
    try:
        di = d.inv()
    except ZeroDivisionError:
        raise np.linalg.LinAlgError("Singular matrix")
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            c = _det([row[:i] + row[i + 1:] for r, row in enumerate(m) if r != j])
            c = conv(c)
            if (i + j) % 2:
                c = -c
            out[i, j] = cast_scalar(c * di, k)
    return wrap(out, k)


def solve(a, b):
    return dot(inv(a), b)


def norm(x, ord=None, axis=None, keepdims=False):
    x = mkarr(x, copy=False)
    if ord not in (None, 2, "fro") or (ord == 2 and x.ndim == 2 and axis is None):
        raise Unsupported("norm with ord=%r" % (ord,))
    sq = _map(x, lambda v: _ft2(conv(v) * conv(v).conj()), "f")
    s = reduce_("add", sq, axis, keepdims)
    if isinstance(s, np.ndarray):
        return ufunc_call("sqrt", [s])
    return N.num_sqrt(Num(conv(s).t, 1))


def _ft2(n):
    return Num(n.t, 1)


def cross(a, b, **kw):
    a, b = mkarr(a, copy=False), mkarr(b, copy=False)
    k = result_kind("arith", [a.kind, b.kind])
    if a.shape[-1] != 3 or b.shape[-1] != 3:
        raise Unsupported("cross of non-3-vectors")
    c = [a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1],
         a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2],
         a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]]
    return stack(c, axis=-1)


def eig(a):
    a = mkarr(a, copy=False)
    h = HOOKS.get("eig")
    if h is not None:
        r = h(a)
        if r is not None:
            return r
    n = a.shape[0]
    b = base(a)
    if all(conv(b[i, j]).is_zero() for i in range(n) for j in range(n) if i != j):
        k = "c" if a.kind == "c" else "f"
        return (mkarr([b[i, i] for i in range(n)], dtype={"c": complex, "f": float}[k]),
                eye(n, dtype={"c": complex, "f": float}[k]))
    raise Unsupported("eig of a symbolic matrix without a contract")


def eigvals(a):
    a = mkarr(a, copy=False)
    h = HOOKS.get("eigvals")
    if h is not None:
        return h(a)
    return eig(a)[0]


class EigResult(tuple):
    eigenvalues = property(lambda s: s[0])
    eigenvectors = property(lambda s: s[1])


def _hook(name):
    def f(*a, **k):
        h = HOOKS.get(name) or DEFAULT_HOOKS.get(name)
        if h is None:
            raise Unsupported("no contract for %s" % name)
        return h(*a, **k)
    return f


# ---- construction / manipulation -------------------------------------------------
def zeros(shape, dtype=float, order="C", **kw):
    return full(shape, 0, dtype=dtype)


def ones(shape, dtype=float, order="C", **kw):
    return full(shape, 1, dtype=dtype)


def full(shape, val, dtype=None, **kw):
    shape = _shape(shape)
    k = kind_of_dtype(dtype)
    if k is None:
        k = scalar_kind(val) if not isinstance(val, (np.ndarray, list, tuple)) else arr_kind(val)
    out = np.empty(shape, dtype=object)
    if isinstance(val, (np.ndarray, list, tuple)):
        out[...] = _vcast(base(val), k)
    else:
        v = cast_scalar(val, k)
        fo = out.reshape(-1)
        for i in range(fo.size):
            fo[i] = v
    return wrap(out, k)


def _shape(s):
    if isinstance(s, (np.ndarray, list, tuple)):
        return tuple(x.__index__() for x in (base(s).reshape(-1) if isinstance(s, np.ndarray) else s))
    return (s.__index__(),)


def like(f):
    def g(a, dtype=None, shape=None, **kw):
        a = mkarr(a, copy=False)
        d = dtype if dtype is not None else DT(a.kind)
        return f(a.shape if shape is None else shape, dtype=d)
    return g


def full_like(a, v, dtype=None, **kw):
    a = mkarr(a, copy=False)
    return full(a.shape, v, dtype=dtype if dtype is not None else DT(a.kind))


def eye(n, M=None, k=0, dtype=float, **kw):
    r = zeros((n, M if M is not None else n), dtype=dtype)
    one = cast_scalar(1, r.kind)
    b = r.view(np.ndarray)
    for i in range(r.shape[0]):
        if 0 <= i + k < r.shape[1]:
            b[i, i + k] = one
    return r


def arange(*a, dtype=None, **kw):
    kd = kind_of_dtype(dtype)
    if all(isinstance(x, (int, np.integer)) or (isinstance(x, Num) and x.tag == 0) for x in a):
        if len(a) < 3 and any(isinstance(x, Num) and x.const() is None for x in a):
            lo, hi = (0, a[0]) if len(a) == 1 else a
            n = (conv(hi) - conv(lo)).__index__()
            return mkarr([conv(lo) + i for i in range(n)], dtype=dtype if dtype is not None else int)
        vals = [x.__index__() for x in a]
        return mkarr(list(range(*vals)), dtype=dtype if dtype is not None else int)
    vals = [conv(x) for x in a]
    if len(vals) == 1:
        start, stop, step = ZERO, vals[0], ONE
    elif len(vals) == 2:
        start, stop, step = vals[0], vals[1], ONE
    else:
        start, stop, step = vals
    n = N.concretize(-N.num_floor(-((stop - start) / step)))
    return mkarr([Num((start + step * i).t, 1) for i in range(max(0, n))], dtype=dtype)


def linspace(a, b, n=50, endpoint=True, dtype=None, **kw):
    n = n.__index__()
    div = (n - 1) if endpoint else n
    a, b = conv(a), conv(b)
    return mkarr([Num((a + (b - a) * Fraction(i, div)).t, 1) for i in range(n)] if div else [real1(a)], dtype=dtype or float)


def real1(a):
    return Num(conv(a).t, 1)


def _tolist(seq):
    if isinstance(seq, np.ndarray):
        return [seq[i] for i in range(seq.shape[0])]
    return list(seq)


def concatenate(arrs, axis=0, **kw):
    arrs = _tolist(arrs)
    if arrs and all(isinstance(a, np.ndarray) and a.dtype.kind in "US" and not isinstance(a, SA) for a in arrs):
        return np.concatenate(arrs, axis)
    arrs = [mkarr(a, copy=False) for a in arrs]
    k = max((a.kind for a in arrs), key=lambda q: RANK[q])
    bs = [_vcast(base(a), k) if a.kind != k else base(a) for a in arrs]
    return wrap(np.concatenate(bs, axis=axis), k)


def hstack(arrs, **kw):
    arrs = [atleast_1d(a) for a in _tolist(arrs)]
    return concatenate(arrs, axis=0 if arrs[0].ndim == 1 else 1)


def vstack(arrs, **kw):
    return concatenate([atleast_2d(a) for a in _tolist(arrs)], axis=0)


def stack(arrs, axis=0, **kw):
    arrs = [mkarr(a, copy=False) for a in _tolist(arrs)]
    k = max((a.kind for a in arrs), key=lambda q: RANK[q])
    bs = [_vcast(base(a), k) if a.kind != k else base(a) for a in arrs]
    return wrap(np.stack(bs, axis=axis), k)


def column_stack(arrs):
    out = []
    for a in _tolist(arrs):
        a = mkarr(a, copy=False)
        out.append(a.reshape(-1, 1) if a.ndim < 2 else a)
    return concatenate(out, axis=1)


def atleast_1d(a):
    a = mkarr(a, copy=False)
    return a.reshape(1) if a.ndim == 0 else a


def atleast_2d(a):
    a = mkarr(a, copy=False)
    if a.ndim == 0:
        return a.reshape(1, 1)
    return a.reshape(1, -1) if a.ndim == 1 else a


def np_where(c, *xy):
    if not xy:
        c = mkarr(c, copy=False)
        return c.nonzero()
    x, y = xy
    c0, x0, y0 = _b0(c), _b0(x), _b0(y)
    k = result_kind("same", [arr_kind(x), arr_kind(y)])

    def f(b, p, q):
        b = tob(b)
        if b is True:
            return p
        if b is False:
            return q
        if k == "b":
            return b_or([b_and([b, p]), b_and([b_not(b), q])])
        return ite(b, p, q)
    r = np.frompyfunc(f, 3, 1)(c0, x0, y0)
    if not isinstance(r, np.ndarray):
        z = np.empty((), dtype=object)
        z[()] = r
        r = z
    return wrap(_vcast(r, k), k)


def less_than(a, b):
    """strict order used by sorts (forks)"""
    if is_special(a) or is_special(b):
        fa = a if is_special(a) else 0.0
        fb = b if is_special(b) else 0.0
        if fa != fa:
            return False
        if fb != fb:
            return True
        return fa < fb
    if isinstance(a, str):
        return a < b
    return bool(conv(a) < b)


def sort_indices(vals):
    """stable insertion sort; with OPTS['ties']=='reverse' equal keys are reversed"""
    idx = []
    rev = OPTS["ties"] == "reverse"
    for i in range(len(vals)):
        j = len(idx)
        while j > 0 and (less_than(vals[i], vals[idx[j - 1]]) if not rev
                         else not less_than(vals[idx[j - 1]], vals[i])):
            j -= 1
        idx.insert(j, i)
    return idx


def argsort(a, axis=-1, kind=None, order=None, **kw):
    if isinstance(a, np.ndarray) and a.dtype.kind in "US" and not isinstance(a, SA):
        return mkarr(np.argsort(a, axis))
    a = mkarr(a, copy=False)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    old = OPTS["ties"]
    if kind in ("stable", "mergesort"):
        OPTS["ties"] = "stable"
    try:
        b = np.moveaxis(base(a), axis, -1)
        out = np.empty(b.shape, dtype=object)
        for i in np.ndindex(*b.shape[:-1]):
            out[i] = sort_indices(list(b[i]))
    finally:
        OPTS["ties"] = old
    return wrap(np.moveaxis(out, -1, axis), "i")


def np_sort(a, axis=-1, kind=None, **kw):
    if isinstance(a, np.ndarray) and a.dtype.kind in "US" and not isinstance(a, SA):
        return np.sort(a, axis)
    a = mkarr(a, copy=False)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    b = np.moveaxis(base(a), axis, -1)
    out = np.empty(b.shape, dtype=object)
    for i in np.ndindex(*b.shape[:-1]):
        v = list(b[i])
        for j, q in enumerate(sort_indices(v)):
            out[i + (j,)] = v[q]
    return wrap(np.moveaxis(out, -1, axis), a.kind)


def lexsort(keys, axis=-1):
    keys = [mkarr(k, copy=False) for k in _tolist(keys)]
    n = keys[0].shape[0]
    idx = list(range(n))
    for k in keys:
        b = list(base(k))
        old = OPTS["ties"]
        OPTS["ties"] = "stable"
        try:
            s = sort_indices([b[i] for i in idx])
        finally:
            OPTS["ties"] = old
        idx = [idx[i] for i in s]
    return mkarr(idx, dtype=int)


def clear(c):
    """true without a decision?"""
    if isinstance(c, N.SymBool):
        b = getattr(N.CTX.cur, "bounds", None)
        return b is not None and b.truth(c.e) is True
    return bool(c)


def argext(a, axis, better):
    a = mkarr(a, copy=False)
    if axis is not None:
        b = np.moveaxis(base(a), axis, -1)
        if b.ndim > 1:
            out = np.empty(b.shape[:-1], dtype=object)
            for i in np.ndindex(*out.shape):
                out[i] = argext(wrap(b[i], a.kind), None, better)
            return wrap(out, "i")
    v = list(base(a).reshape(-1))
    if not v:
        raise ValueError("attempt to get argmax of an empty sequence")
    # elements that the bounds of this path exclude need no comparison
    keep = list(range(len(v)))
    if len(v) > 2 and not any(is_special(x) for x in v):
        v = [conv(x) for x in v]
        out = set()
        for i in range(len(v)):
            for j in range(len(v)):
                if i != j and j not in out and i not in out and clear(better(v[j], v[i])):
                    out.add(i)
        keep = [i for i in keep if i not in out]
    bi = keep[0]
    for i in keep[1:]:
        if is_special(v[i]) or is_special(v[bi]):
            r = special_cmp(better, v[i], v[bi])
        else:
            r = better(conv(v[i]), v[bi])
        if bool(r):
            bi = i
    return bi


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None):
    if isinstance(a, np.ndarray) and a.dtype.kind in "US" and not isinstance(a, SA):
        return np.unique(a, return_index, return_inverse, return_counts)
    if axis is not None:
        raise Unsupported("unique along an axis")
    a = mkarr(a, copy=False)
    if not isinstance(a, SA):
        return np.unique(a, return_index, return_inverse, return_counts)
    v = list(base(a).reshape(-1))
    idx = sort_indices(v)
    groups = []
    for i in idx:
        if groups and bool(_cmpf("eq")(v[groups[-1][0]], v[i])):
            groups[-1].append(i)
        else:
            groups.append([i])
    u = mkarr([v[g[0]] for g in groups], dtype=DT(a.kind))
    res = [u]
    if return_index:
        res.append(mkarr([min(g) for g in groups], dtype=int))
    if return_inverse:
        iv = [0] * len(v)
        for k, g in enumerate(groups):
            for i in g:
                iv[i] = k
        res.append(mkarr(iv, dtype=int))
    if return_counts:
        res.append(mkarr([len(g) for g in groups], dtype=int))
    return res[0] if len(res) == 1 else tuple(res)


def roll(a, shift, axis=None):
    a = mkarr(a, copy=False)
    shift = shift.__index__() if not isinstance(shift, (tuple, list)) else tuple(shift)
    return wrap(np.roll(base(a), shift, axis), a.kind)


def np_append(a, v, axis=None):
    a, v = mkarr(a, copy=False), mkarr(v, copy=False)
    if axis is None:
        return concatenate([a.reshape(-1), v.reshape(-1)])
    return concatenate([a, v], axis)


def diff(a, n=1, axis=-1, **kw):
    a = mkarr(a, copy=False)
    for _ in range(n):
        sl1 = [slice(None)] * a.ndim
        sl0 = [slice(None)] * a.ndim
        sl1[axis] = slice(1, None)
        sl0[axis] = slice(None, -1)
        a = a[tuple(sl1)] - a[tuple(sl0)]
    return a


def diag(v, k=0):
    v = mkarr(v, copy=False)
    if v.ndim == 2:
        return v.diagonal(k)
    n = v.shape[0] + abs(k)
    r = zeros((n, n), dtype=DT(v.kind))
    for i in range(v.shape[0]):
        r[i + max(0, -k), i + max(0, k)] = v[i]
    return r


def angle(z, deg=False):
    if isinstance(z, (np.ndarray, list, tuple)):
        z = mkarr(z, copy=False)
        return _map(z, lambda x: real1(N.num_angle(conv(x))), "f")
    return real1(N.num_angle(conv(z)))


def np_real(a):
    return a.real if hasattr(a, "real") and not isinstance(a, (list, tuple)) else mkarr(a).real


def np_imag(a):
    return a.imag if hasattr(a, "imag") and not isinstance(a, (list, tuple)) else mkarr(a).imag


def np_conj(a):
    return mkarr(a, copy=False).conj() if isinstance(a, (list, tuple, np.ndarray)) else conv(a).conj()


def vdot(a, b):
    a, b = mkarr(a, copy=False).reshape(-1), mkarr(b, copy=False).reshape(-1)
    return dot(a.conj(), b)


def inner(a, b):
    a, b = mkarr(a, copy=False), mkarr(b, copy=False)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return dot(a, np.moveaxis(b, -1, 0) if b.ndim > 1 else b) if b.ndim < 2 else dot(a, wrap(np.moveaxis(base(b), -1, 0) if b.ndim == 2 else base(b), b.kind))


def outer(a, b):
    a, b = mkarr(a, copy=False).reshape(-1), mkarr(b, copy=False).reshape(-1)
    return a[:, None] * b[None, :]


def tensordot(a, b, axes=2):
    a, b = mkarr(a, copy=False), mkarr(b, copy=False)
    if isinstance(axes, int):
        ax, bx = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ax, bx = axes
        ax = [ax] if isinstance(ax, int) else list(ax)
        bx = [bx] if isinstance(bx, int) else list(bx)
    ax = [i % a.ndim for i in ax]
    bx = [i % b.ndim for i in bx]
    la = [chr(97 + i) for i in range(a.ndim)]
    lb = [chr(110 + i) for i in range(b.ndim)]
    for i, j in zip(ax, bx):
        lb[j] = la[i]
    o = [c for i, c in enumerate(la) if i not in ax] + [c for j, c in enumerate(lb) if j not in bx]
    return einsum("%s,%s->%s" % ("".join(la), "".join(lb), "".join(o)), a, b)


def kron(a, b):
    a, b = mkarr(a, copy=False), mkarr(b, copy=False)
    k = result_kind("arith", [a.kind, b.kind])
    r = np.empty((a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]), dtype=object)
    for i, j, p, q in itertools.product(range(a.shape[0]), range(a.shape[1]), range(b.shape[0]), range(b.shape[1])):
        r[i * b.shape[0] + p, j * b.shape[1] + q] = a[i, j] * b[p, q]
    return wrap(r, k)


def multi_dot(l):
    r = l[0]
    for x in l[1:]:
        r = dot(r, x)
    return r


def matrix_power(a, n):
    a = mkarr(a)
    if n < 0:
        a = inv(a)
        n = -n
    r = eye(a.shape[0], dtype=DT(a.kind))
    for _ in range(n):
        r = dot(r, a)
    return r


def isin(a, b, invert=False, **kw):
    b = list(base(mkarr(list(b) if not isinstance(b, np.ndarray) else b)).reshape(-1))
    f = lambda x: b_or([_cmpf("eq")(x, y) for y in b])
    if isinstance(a, (np.ndarray, list, tuple)):
        r = _map(mkarr(a, copy=False), f, "b")
        return ~r if invert else r
    return f(a)


def meth(name):
    def f(a, *args, **kw):
        return getattr(mkarr(a, copy=False), name)(*args, **kw)
    f.__name__ = name
    return f


def uf(name):
    def f(*a, out=None, **kw):
        return ufunc_call(name, a, out=out)
    f.__name__ = name

    def reduce(a, axis=0, keepdims=False, initial=None, **kw):
        return reduce_(name, a, axis, keepdims, initial)

    def outer_(a, b):
        a, b = mkarr(a, copy=False), mkarr(b, copy=False)
        return ufunc_call(name, [a.reshape(a.shape + (1,) * b.ndim), b])

    def accumulate(a, axis=0):
        return ufunc_accumulate(name, a, axis)
    f.reduce = reduce
    f.outer = outer_
    f.accumulate = accumulate
    f.at = lambda a, idx, *v: ufunc_at(name, a, idx, *v)
    f.nin = 2 if name in BIN else 1
    return f


def ufunc_accumulate(name, a, axis=0):
    u, rule, nin = get_uf(name)
    k = result_kind(rule, [arr_kind(a)])
    b = np.moveaxis(base(mkarr(a, copy=False)), axis, 0).copy()
    for i in range(1, b.shape[0]):
        b[i] = base(ufunc_call(name, [wrap(b[i - 1:i], k), wrap(b[i:i + 1], k)]))[0]
    return wrap(np.moveaxis(b, 0, axis), k)


def ufunc_at(name, a, idx, *val):
    k = fix_index(idx)
    pos = np.arange(a.size).reshape(a.shape)[k]
    v = None
    if val:
        v = mkarr(val[0], copy=False)
        z = np.empty(pos.shape, dtype=object)
        z[...] = base(v)
        v = z.reshape(-1)
    where = list(np.ndindex(*a.shape))
    for q, p in enumerate(np.asarray(pos).reshape(-1)):
        i = where[int(p)]
        a[i] = ufunc_call(name, [a[i]] + ([v[q]] if val else []))


class NpScalarType:
    """np.float64 & friends: callable casts usable as dtypes"""

    def __init__(self, real, kind):
        self._real = real
        self._symx_kind = kind

    def __call__(self, x=0):
        if isinstance(x, (np.ndarray, list, tuple)):
            return mkarr(x).astype(DT(self._symx_kind))
        return cast_scalar(x, self._symx_kind)

    def __instancecheck__(self, x):
        return isinstance(x, self._real) or scalar_kind(x) == self._symx_kind

    def __mro_entries__(self, bases):
        return (self._real,)


def count_nonzero(a, axis=None, **kw):
    a = mkarr(a, copy=False)
    m = _map(a, lambda x: (tob(x).num() if isinstance(tob(x), SymBool) else int(tob(x))), "i")
    return reduce_("add", m, axis)


def bincount(a, **kw):
    idx = fix_index1(mkarr(a, copy=False))
    return mkarr(np.bincount(idx, **kw))


def wrapfun(f):
    """fallback: run numpy's own python implementation on object arrays"""
    def g(*a, **k):
        a = [fallback_arg(x) for x in a]
        k = {q: fallback_arg(x) for q, x in k.items()}
        r = f(*a, **k)
        return fallback_res(r)
    g.__name__ = getattr(f, "__name__", "f")
    return g


def has_sym(x):
    return any(isinstance(y, (Num, SymBool)) for y in _flat(x))


def fallback_arg(x):
    if isinstance(x, (list, tuple)) and has_sym(x):
        return mkarr(x)
    return x


def fallback_res(r):
    if isinstance(r, SA):
        return r
    if isinstance(r, np.ndarray) and r.dtype.kind in "Obifuc":
        return mkarr(r)
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(fallback_res(x) for x in r)
    if isinstance(r, list):
        return [fallback_res(x) for x in r]
    return r


def vectorize(f, otypes=None, **kw):
    def g(*a):
        r = np.frompyfunc(f, len(a), 1)(*[_b0(x) for x in a])
        return mkarr(r) if isinstance(r, np.ndarray) else r
    return g


def apply_along_axis(f, axis, a, *args):
    a = mkarr(a, copy=False)
    b = np.moveaxis(base(a), axis, -1)
    out = [f(wrap(b[i], a.kind), *args) for i in np.ndindex(*b.shape[:-1])]
    r = mkarr(out)
    r = r.reshape(b.shape[:-1] + r.shape[1:])
    return r


def fromiter(it, dtype=None, count=-1):
    return mkarr(list(it), dtype=dtype)


def build_numpy():
    m = types.ModuleType("numpy")
    d = m.__dict__

    def array(obj, dtype=None, copy=True, order=None, subok=False, ndmin=0, **kw):
        r = mkarr(obj, dtype=dtype, copy=True)
        while r.ndim < ndmin:
            r = r[None]
        return r

    def asarray(obj, dtype=None, **kw):
        return mkarr(obj, dtype=dtype, copy=False)
    d.update(array=array, asarray=asarray, asanyarray=asarray, ascontiguousarray=asarray,
             zeros=zeros, ones=ones, empty=zeros, full=full, zeros_like=like(zeros), ones_like=like(ones),
             empty_like=like(zeros), full_like=full_like, eye=eye, identity=lambda n, dtype=float, **k: eye(n, dtype=dtype),
             arange=arange, linspace=linspace, dot=dot, matmul=lambda a, b, **k: dot(a, b, mat=True), vdot=vdot, inner=inner,
             outer=outer, tensordot=tensordot, einsum=einsum, cross=cross, kron=kron, where=np_where,
             argsort=argsort, sort=np_sort, lexsort=lexsort, unique=unique, roll=roll, append=np_append, diff=diff,
             diag=diag, angle=angle, real=np_real, imag=np_imag, conj=np_conj, conjugate=np_conj,
             isclose=isclose, allclose=allclose, array_equal=array_equal, concatenate=concatenate,
             hstack=hstack, vstack=vstack, row_stack=vstack, stack=stack, column_stack=column_stack,
             atleast_1d=atleast_1d, atleast_2d=atleast_2d, mean=mean, round=round_, around=round_, round_=round_,
             cumsum=cumsum, isin=isin, in1d=isin, count_nonzero=count_nonzero, bincount=bincount,
             vectorize=vectorize, apply_along_axis=apply_along_axis, fromiter=fromiter,
             inf=float("inf"), Inf=float("inf"), NaN=float("nan"), nan=float("nan"), pi=N.PI, newaxis=None,
             ndarray=np.ndarray, errstate=np.errstate, seterr=lambda **k: {}, set_printoptions=lambda *a, **k: None,
             ndindex=np.ndindex, s_=np.s_, r_=np.r_, c_=np.c_, index_exp=np.index_exp,
             __version__=np.__version__, random=None, generic=np.generic, AxisError=np.AxisError,
             ComplexWarning=np.ComplexWarning, nditer=np.nditer, finfo=np.finfo, iinfo=np.iinfo,
             isscalar=lambda x: not isinstance(x, (np.ndarray, list, tuple, dict)),
             iscomplexobj=lambda x: arr_kind(x) == "c", isrealobj=lambda x: arr_kind(x) != "c",
             loadtxt=_hook("loadtxt"), fromfile=_hook("fromfile"), savetxt=_hook("savetxt"), genfromtxt=_hook("genfromtxt"),
             square=uf("square"), dtype=lambda t: DT(kind_of_dtype(t)))
    for n in list(BIN) + list(UN):
        d.setdefault(n, uf(n))
    d["abs"] = d["absolute"]
    for n in ("sum", "prod", "max", "min", "all", "any", "argmax", "argmin", "cumprod", "trace", "diagonal", "transpose",
              "ravel", "squeeze", "swapaxes", "repeat", "take", "nonzero", "copy", "clip", "ptp"):
        d[n] = meth(n)
    d["amax"] = d["max"]
    d["amin"] = d["min"]
    d["product"] = d["prod"]

    def np_sum(a, axis=None, **kw):
        if isinstance(a, types.GeneratorType):
            # deprecated path of numpy: falls back to the builtin sum
            return builtins.sum(a)
        return mkarr(a, copy=False).sum(axis=axis, **kw)
    d["sum"] = np_sum

    def np_all(a, axis=None, **kw):
        return all_(a if not isinstance(a, types.GeneratorType) else True, axis)

    def np_any(a, axis=None, **kw):
        return any_(a if not isinstance(a, types.GeneratorType) else True, axis)
    d["all"] = d["alltrue"] = np_all
    d["any"] = np_any

    def reshape(a, s, *k, **kw):
        return mkarr(a, copy=False).reshape(s)
    d["reshape"] = reshape
    d["flatnonzero"] = lambda a: mkarr(a, copy=False).reshape(-1).nonzero()[0]
    d["argwhere"] = lambda a: mkarr(np.argwhere(resolve_mask(mkarr(a, copy=False))), dtype=int)
    d["nansum"] = d["sum"]
    d["nanmax"] = d["max"]
    d["nanmin"] = d["min"]
    d["average"] = lambda a, axis=None, weights=None: mean(a, axis) if weights is None else _wavg(a, weights, axis)
    d["shape"] = lambda a: mkarr(a, copy=False).shape
    d["ndim"] = lambda a: mkarr(a, copy=False).ndim
    d["size"] = lambda a, axis=None: mkarr(a, copy=False).size if axis is None else mkarr(a, copy=False).shape[axis]
    d["fix"] = uf("trunc")
    d["iscomplex"] = lambda a: ufunc_call("not_equal", [mkarr(a).imag, 0])
    d["isreal"] = lambda a: ufunc_call("equal", [mkarr(a).imag, 0])
    d["isneginf"] = wrapfun(np.isneginf)
    for n, k in (("float64", "f"), ("float32", "f"), ("double", "f"), ("float_", "f"), ("complex128", "c"), ("complex64", "c"),
                 ("complex_", "c"), ("int64", "i"), ("int32", "i"), ("int_", "i"), ("intp", "i"), ("int8", "i"), ("int16", "i"),
                 ("uint8", "i"), ("bool_", "b"), ("cdouble", "c"), ("csingle", "c"), ("single", "f")):
        d[n] = NpScalarType(getattr(np, n), k)
    d["floating"] = np.floating
    d["integer"] = np.integer
    d["number"] = np.number
    d["object_"] = np.object_

    la = types.ModuleType("numpy.linalg")
    la.__dict__.update(inv=inv, det=det, norm=norm, solve=solve, eig=eig, eigvals=eigvals,
                       eigh=_hook("eigh"), eigvalsh=_hook("eigvalsh"), svd=_hook("svd"), multi_dot=multi_dot,
                       matrix_power=matrix_power, LinAlgError=np.linalg.LinAlgError,
                       matrix_rank=_hook("matrix_rank"), lstsq=_hook("lstsq"), pinv=_hook("pinv"), qr=_hook("qr"))
    d["linalg"] = la
    rnd = types.ModuleType("numpy.random")
    rnd.__dict__.update(random=_hook("random"), rand=_hook("random"), seed=lambda *a: None, default_rng=_hook("default_rng"),
                        random_sample=_hook("random"), uniform=_hook("random"), normal=_hook("random"))
    d["random"] = rnd
    fft = types.ModuleType("numpy.fft")
    fft.__dict__.update(fftn=fftn, ifftn=ifftn, fft=lambda a, **k: fftn(a, axes=(-1,)), ifft=lambda a, **k: ifftn(a, axes=(-1,)))
    d["fft"] = fft
    lib = types.ModuleType("numpy.lib")
    d["lib"] = lib

    from . import npmore
    import sys
    npmore.install(d, sys.modules[__name__])

    def __getattr__(name):
        try:
            r = getattr(np, name)
        except AttributeError:
            raise AttributeError("module 'numpy' has no attribute %r" % name)
        if isinstance(r, types.ModuleType):
            return r
        if callable(r) and not isinstance(r, type):
            return wrapfun(r)
        return r
    m.__getattr__ = __getattr__
    return m


def _wavg(a, w, axis):
    a, w = mkarr(a, copy=False), mkarr(w, copy=False)
    return (a * w).sum(axis=axis) / w.sum()


def fftn(a, s=None, axes=None, norm=None, sign=-1):
    if s is not None or norm not in (None, "backward"):
        raise Unsupported("fft options")
    a = mkarr(a, copy=False)
    axes = range(a.ndim) if axes is None else axes
    for ax in axes:
        n = a.shape[ax]
        ph = [N.root_of_unity(Fraction(sign * k, n)) for k in range(n)]
        M = wrap(np.array([[ph[(i * j) % n] for j in range(n)] for i in range(n)], dtype=object).reshape(n, n), "c")
        b = np.moveaxis(base(a), ax, 0)
        r = dot(M, wrap(b.reshape(n, -1), a.kind))
        a = wrap(np.moveaxis(base(r).reshape(b.shape), 0, ax), "c")
    return a


def ifftn(a, s=None, axes=None, norm=None):
    a = mkarr(a, copy=False)
    ax = range(a.ndim) if axes is None else axes
    n = 1
    for x in ax:
        n *= a.shape[x]
    return fftn(a, s, axes, norm, sign=1) / n
