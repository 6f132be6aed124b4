"""More of numpy for the symbolic arrays (imported by arr.build_numpy)."""
import builtins
import itertools
from fractions import Fraction
import numpy as np
from . import num as N
from .num import Unsupported, conv, ite


def install(d, A):
    mk = lambda a: A.mkarr(a, copy=False)
    base, wrap, call = A.base, A.wrap, A.ufunc_call

    def hooked(name, f):
        def g(*a, **k):
            h = A.HOOKS.get(name) or A.DEFAULT_HOOKS.get(name)
            return h(*a, **k) if h else f(*a, **k)
        g.__name__ = name
        return g

    def keepkind(f):
        """numpy functions which only move elements: run on the object array"""
        def g(a, *args, **kw):
            if isinstance(a, np.ndarray) and a.dtype.kind in "US":
                return f(a, *args, **kw)
            x = mk(a)
            r = f(base(x), *[A.fix_index(mk(q)) if isinstance(q, A.SA) else q for q in args],
                  **{k: A.fix_index(mk(q)) if isinstance(q, A.SA) else q for k, q in kw.items()})
            return wrap(r, x.kind) if isinstance(r, np.ndarray) else r
        g.__name__ = f.__name__
        return g
    for n in ("take_along_axis", "rot90", "flip", "fliplr", "flipud", "moveaxis", "rollaxis", "expand_dims", "tile", "broadcast_to", "delete"):
        if hasattr(np, n):
            d[n] = keepkind(getattr(np, n))

    def tri(lower):
        def f(m, k=0):
            m = mk(m)
            r = m.copy()
            for idx in np.ndindex(*m.shape):
                i, j = idx[-2:]
                if (j - i > k) if lower else (j - i < k):
                    r[idx] = 0
            return r
        return f
    d["tril"], d["triu"] = tri(True), tri(False)

    def select(conds, choices, default=0):
        r = default
        for c, v in reversed(list(zip(conds, choices))):
            r = A.np_where(c, v, r)
        return r
    d["select"] = select

    def fmod(a, b):
        q = call("trunc", [call("divide", [a, b])])
        r = a - q * b if isinstance(a, np.ndarray) else mk(a) - q * mk(b)
        return r if isinstance(r, np.ndarray) and r.ndim else A._b0(r)
    d["fmod"] = fmod

    def modf(a):
        t = call("trunc", [a])
        return call("subtract", [a, t]), t
    d["modf"] = modf

    def divmod_(a, b):
        return call("floor_divide", [a, b]), call("remainder", [a, b])
    d["divmod"] = divmod_

    def median(a, axis=None, **kw):
        a = mk(a)
        if axis is None:
            a, axis = a.reshape(-1), 0
        s = A.np_sort(a, axis=axis)
        n = s.shape[axis]
        t = lambda i: s[tuple(i if q == axis % s.ndim else slice(None) for q in range(s.ndim))]
        return t(n // 2) * 1.0 if n % 2 else (t(n // 2 - 1) + t(n // 2)) / 2
    d["median"] = median

    def var(a, axis=None, ddof=0, keepdims=False, **kw):
        a = mk(a)
        m = A.mean(a, axis, True)
        x = a - m
        x = (x * x.conj()).real if a.kind == "c" else x * x
        n = a.size if axis is None else builtins.int(np.prod([a.shape[i] for i in (axis if isinstance(axis, tuple) else (axis,))]))
        return x.sum(axis=axis, keepdims=keepdims) / (n - ddof)
    d["var"] = var
    d["std"] = lambda a, axis=None, ddof=0, keepdims=False, **kw: call("sqrt", [var(a, axis, ddof, keepdims)])
    A.SA.var = lambda self, axis=None, ddof=0, keepdims=False, **kw: var(self, axis, ddof, keepdims)
    A.SA.std = lambda self, axis=None, ddof=0, keepdims=False, **kw: d["std"](self, axis, ddof, keepdims)

    def diff(a, n=1, axis=-1, prepend=None, append=None):
        a = mk(a)
        parts = [a]
        for q, first in ((prepend, True), (append, False)):
            if q is not None:
                q = mk(q)
                if q.ndim == 0:
                    shp = list(a.shape)
                    shp[axis] = 1
                    z = np.empty(shp, dtype=object)
                    z[...] = base(q)
                    q = wrap(z, q.kind)
                parts = [q] + parts if first else parts + [q]
        return A.diff(A.concatenate(parts, axis) if len(parts) > 1 else a, n, axis)
    d["diff"] = diff
    d["ediff1d"] = lambda a, *k, **kw: A.diff(mk(a).reshape(-1))

    def block(arrs):
        def rec(x, depth, maxd):
            if isinstance(x, list):
                return A.concatenate([rec(y, depth + 1, maxd) for y in x], axis=depth - maxd)
            x = mk(x)
            while x.ndim < maxd:
                x = x[None]
            return x

        def dep(x):
            return 1 + dep(x[0]) if isinstance(x, list) else 0
        return rec(arrs, 0, dep(arrs))
    d["block"] = block

    class RC:
        def __init__(self, col):
            self.col = col

        def __getitem__(self, key):
            key = key if isinstance(key, tuple) else (key,)
            if key and isinstance(key[0], str):
                raise Unsupported("np.r_ with a directive")
            parts = []
            for k in key:
                if isinstance(k, slice):
                    if isinstance(k.step, complex):
                        parts.append(A.linspace(k.start, k.stop, int(abs(k.step))))
                    else:
                        parts.append(A.arange(k.start or 0, k.stop, k.step or 1))
                else:
                    parts.append(A.atleast_1d(mk(k)))
            if self.col:
                parts = [p[:, None] if p.ndim == 1 else p for p in parts]
                return A.concatenate(parts, axis=-1)
            return A.concatenate(parts, axis=-1 if all(p.ndim == 1 for p in parts) else 0)
    d["r_"], d["c_"] = RC(False), RC(True)

    def nan_to_num(a, nan=0.0, **kw):
        x = mk(a)
        r = x.copy()
        b = base(r)
        for i in np.ndindex(*b.shape):
            if type(b[i]) is float and b[i] != b[i]:
                b[i] = A.cast_scalar(nan, x.kind)
        return r if r.ndim else b[()]
    d["nan_to_num"] = nan_to_num
    isnan1 = lambda x: type(x) is float and x != x

    def nanmean(a, axis=None, **kw):
        a = mk(a)
        cnt = A._map(a, lambda x: 1, "i")
        b, c = base(a.copy()), base(cnt)
        for i in np.ndindex(*b.shape):
            if isnan1(b[i]):
                b[i], c[i] = A.cast_scalar(0, a.kind), 0
        return wrap(b, a.kind).sum(axis=axis) / cnt.sum(axis=axis)
    d["nanmean"] = nanmean

    def heaviside(a, h):
        return A.np_where(mk(a) > 0, 1.0, A.np_where(mk(a) < 0, 0.0, h))
    d["heaviside"] = heaviside

    def frompyfunc(f, nin, nout, **kw):
        if nout == 1:
            return A.vectorize(f)
        return np.frompyfunc(f, nin, nout, **kw)
    d["frompyfunc"] = frompyfunc

    def issubdtype(a, b):
        k = A.kind_of_dtype(a)
        name = getattr(b, "__name__", None) or str(b)
        if b is np.floating or b is float:
            return k == "f"
        if b is np.integer or b is np.signedinteger or b is int:
            return k == "i"
        if b is np.complexfloating or b is complex:
            return k == "c"
        if b is np.inexact:
            return k in "fc"
        if b is np.number:
            return k in "ifc"
        if b is bool or b is np.bool_:
            return k == "b"
        try:
            return k == A.kind_of_dtype(b)
        except Exception:
            raise Unsupported("issubdtype %s" % name)
    d["issubdtype"] = issubdtype
    d["result_type"] = lambda *x: A.DT(A.result_kind("bit", [A.kind_of_dtype(q) if isinstance(q, (A.DT, type, A.NpScalarType)) else A.arr_kind(q) for q in x]))
    d["finfo"] = lambda t=float: np.finfo(float)
    d["iinfo"] = lambda t=int: np.iinfo(np.int64)
    d["permute_dims"] = d["transpose"]

    def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
        if axis is None:
            return A.unique(a, return_index, return_inverse, return_counts)
        a = mk(a)
        if axis % a.ndim:
            raise Unsupported("unique along an axis other than the first")
        rows = [list(base(a[i]).reshape(-1)) for i in range(a.shape[0])]
        import functools

        def cmp(i, j):
            for x, y in zip(rows[i], rows[j]):
                if bool(A._cmpf("eq")(x, y)):
                    continue
                return -1 if bool(A.less_than(x, y)) else 1
            return 0
        idx = sorted(range(len(rows)), key=functools.cmp_to_key(cmp))
        groups = []
        for i in idx:
            if groups and cmp(groups[-1][0], i) == 0:
                groups[-1].append(i)
            else:
                groups.append([i])
        res = [a[[g[0] for g in groups]]]
        if return_index:
            res.append(A.mkarr([min(g) for g in groups], dtype=int))
        if return_inverse:
            iv = [0] * len(rows)
            for k, g in enumerate(groups):
                for i in g:
                    iv[i] = k
            res.append(A.mkarr(iv, dtype=int))
        if return_counts:
            res.append(A.mkarr([len(g) for g in groups], dtype=int))
        return res[0] if len(res) == 1 else tuple(res)
    d["unique"] = unique

    def searchsorted(a, v, side="left", sorter=None):
        a = mk(a)
        if sorter is not None:
            a = a[sorter]
        bs = list(base(a).reshape(-1))

        def one(x):
            n = 0
            for y in bs:
                if bool(A.less_than(y, x)) if side == "left" else not bool(A.less_than(x, y)):
                    n += 1
                else:
                    break
            return n
        if isinstance(v, (np.ndarray, list, tuple)):
            return A._map(mk(v), one, "i")
        return one(v)
    d["searchsorted"] = searchsorted
    A.SA.searchsorted = lambda self, v, side="left", sorter=None: searchsorted(self, v, side, sorter)

    def _lcm(a, b):
        a, b = N.concretize(conv(a)), N.concretize(conv(b))
        import math
        return math.lcm(int(a), int(b))

    def _gcd(a, b):
        import math
        return math.gcd(int(N.concretize(conv(a))), int(N.concretize(conv(b))))
    A.BIN["lcm"] = (_lcm, "arith", None)
    A.BIN["gcd"] = (_gcd, "arith", 0)

    def _shift(sign):
        def f(a, b):
            a, b = int(N.concretize(conv(a))), int(N.concretize(conv(b)))
            return a << b if sign > 0 else a >> b
        return f
    A.BIN["left_shift"] = (_shift(1), "arith", None)
    A.BIN["right_shift"] = (_shift(-1), "arith", None)

    def _sq3(a):
        v = N.approx_value(conv(a))
        raise Unsupported("cube root" + ("" if v is None else " of %r" % v))
    for n in ("lcm", "gcd", "left_shift", "right_shift"):
        d[n] = A.uf(n)

    la = d["linalg"].__dict__

    def norm(x, ord=None, axis=None, keepdims=False):
        x = mk(x)
        if ord in (None, 2, "fro") and not (ord == 2 and x.ndim == 2 and axis is None):
            return A.norm(x, None if ord == "fro" else ord, axis, keepdims)
        if x.ndim == 1 or (axis is not None and not isinstance(axis, tuple)):
            ab = call("absolute", [x])
            if ord == 1:
                return ab.sum(axis=axis, keepdims=keepdims)
            if ord == float("inf"):
                return ab.max(axis=axis, keepdims=keepdims)
            if ord == float("-inf"):
                return ab.min(axis=axis, keepdims=keepdims)
            if ord == 0:
                return A.count_nonzero(x, axis)
        raise Unsupported("norm with ord=%r" % (ord,))
    la["norm"] = norm
    la["vector_norm"] = lambda x, axis=None, keepdims=False, ord=2: norm(mk(x).reshape(-1) if axis is None else x, ord, axis, keepdims)
    la["cross"], la["outer"], la["trace"], la["diagonal"] = A.cross, A.outer, lambda a, **k: mk(a).trace(**k), d["diagonal"]
    la["matmul"], la["tensordot"] = d["matmul"], A.tensordot
    la["vecdot"] = d["vecdot"] = lambda a, b, axis=-1: (mk(a).conj() * mk(b)).sum(axis=axis)

    def numeric(f):
        """numerical linear algebra on constant matrices only"""
        def g(*a, **k):
            aa = []
            for x in a:
                if isinstance(x, (np.ndarray, list, tuple)):
                    x = mk(x)
                    o = np.empty(x.shape, dtype=complex if x.kind == "c" else float)
                    for i in np.ndindex(*x.shape):
                        v = N.approx_value(conv(base(x)[i]))
                        if v is None:
                            raise Unsupported("%s of symbolic values" % f.__name__)
                        o[i] = v if x.kind == "c" else v.real
                    x = o
                aa.append(x)
            r = f(*aa, **k)
            if isinstance(r, tuple):
                return tuple(A.mkarr(x) if isinstance(x, np.ndarray) else x.item() if isinstance(x, np.generic) else x for x in r)
            return A.mkarr(r) if isinstance(r, np.ndarray) else r.item() if isinstance(r, np.generic) else r
        g.__name__ = f.__name__
        return g
    la["cond"] = numeric(np.linalg.cond)

    def matrix_rank(a, *k, **kw):
        return numeric(np.linalg.matrix_rank)(a, *k, **kw)
    la["matrix_rank"] = hooked("matrix_rank", matrix_rank)

    def slogdet(a):
        x = conv(A.det(a))
        ab = call("absolute", [x])
        if bool(A._cmpf("eq")(x, 0)):
            return 0.0, float("-inf")
        return x / ab, LogOf(ab)
    la["slogdet"] = slogdet

    def lstsq(a, b, rcond=None, **k):
        a = mk(a)
        if a.shape[0] != a.shape[1]:
            raise Unsupported("lstsq with a rectangular matrix")
        return A.solve(a, b), A.mkarr([]), a.shape[0], None
    la["lstsq"] = hooked("lstsq", lstsq)

    def pinv(a, *k, **kw):
        a = mk(a)
        if a.ndim == 2 and a.shape[0] != a.shape[1]:
            raise Unsupported("pseudo-inverse of a rectangular matrix")
        return A.inv(a)
    la["pinv"] = hooked("pinv", pinv)
    fft = d["fft"].__dict__

    def fftfreq(n, d=1.0):
        return A.mkarr([i if i < (n + 1) // 2 else i - n for i in range(n)], dtype=int) / (conv(n) * conv(d))

    def fftshift(x, axes=None):
        x = mk(x)
        axes = range(x.ndim) if axes is None else (axes,) if isinstance(axes, int) else axes
        for ax in axes:
            x = A.roll(x, x.shape[ax] // 2, ax)
        return x

    def ifftshift(x, axes=None):
        x = mk(x)
        axes = range(x.ndim) if axes is None else (axes,) if isinstance(axes, int) else axes
        for ax in axes:
            x = A.roll(x, -(x.shape[ax] // 2), ax)
        return x
    fft.update(fftfreq=fftfreq, fftshift=fftshift, ifftshift=ifftshift, fft2=lambda a, **k: A.fftn(a, axes=(-2, -1)), ifft2=lambda a, **k: A.ifftn(a, axes=(-2, -1)))


class LogOf:
    """logarithm kept symbolic: only exp() and comparison are not needed"""

    def __init__(self, x):
        self.x = x

    def __float__(self):
        raise Unsupported("logarithm of a determinant")
