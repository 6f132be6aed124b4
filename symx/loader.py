"""Load /repo's current sources into the symbolic world.

Every module of irrep / irreptables is compiled from the file found in /repo at
the time of the run and executed with substituted imports: numpy, math, scipy,
spglib, fortio, files and the number builtins are replaced by symbolic versions
(or by recorded contract stubs).  Nothing of the code under test is modelled by
hand."""
import ast
import builtins
import io
import math
import os as real_os
import sys
import types
import warnings as real_warnings
from fractions import Fraction
import numpy as np
from . import num as N
from . import arr as A
from . import text as T
from .num import Num, SymBool, conv, Unsupported

REPO = real_os.environ.get("SYMX_REPO", "/repo")
PKG = {"irrep": real_os.path.join(REPO, "irrep"),
       "irreptables": real_os.path.join(REPO, "irreptables", "irreptables")}


class World:
    """state of the simulated environment, reset for every path"""

    def __init__(self):
        self.reset()

    def reset(self):
        self.files = {}        # name -> VText | VRecords | VCells
        self.stdout = []
        self.warnings = []
        self.notes = []


WORLD = World()


# ------------------------------------------------------------------ files
class VText:
    def __init__(self, text):
        self.text = text


class VRecords:
    """fortran sequential file: list of records; record = list of (type, flat values)"""

    def __init__(self, records):
        self.records = records


class VCells:
    """binary direct access file of 8-byte cells: dict byte offset -> (kind, value)"""

    def __init__(self, cells, size):
        self.cells = cells
        self.size = size


def norm_name(name):
    return real_os.path.normpath(str(name))


class WText:
    def __init__(self, name, old=""):
        self.name = name
        self.buf = [old]
        self.closed = False

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError("write() argument must be str, not %s" % type(s).__name__)
        self.buf.append(s)
        WORLD.files[self.name] = VText("".join(self.buf))
        return len(s)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def flush(self):
        pass

    def close(self):
        self.closed = True
        WORLD.files[self.name] = VText("".join(self.buf))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class BinFile:
    def __init__(self, vc):
        self.vc = vc
        self.pos = 0

    def seek(self, off, whence=0):
        off = off.__index__() if not isinstance(off, int) else off
        if whence == 0:
            self.pos = off
        elif whence == 1:
            self.pos += off
        else:
            self.pos = self.vc.size + off
        return self.pos

    def tell(self):
        return self.pos

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def v_open(name, mode="r", *a, **k):
    n = norm_name(name)
    if "w" in mode:
        WORLD.files[n] = VText("")
        return WText(n)
    if "a" in mode:
        old = WORLD.files.get(n)
        return WText(n, old.text if old else "")
    f = WORLD.files.get(n)
    if f is None:
        p = real_os.path.abspath(str(name))
        if p.startswith(REPO + "/") and real_os.path.exists(p):
            return builtins.open(name, mode, *a, **k)
        raise FileNotFoundError(2, "No such file or directory", str(name))
    if "b" in mode:
        if isinstance(f, VCells):
            return BinFile(f)
        raise Unsupported("binary read of %s" % name)
    if isinstance(f, VText):
        return io.StringIO(f.text)
    raise UnicodeDecodeError("utf-8", b"\xff", 0, 1, "invalid start byte")


def fromfile(f, dtype=float, count=-1, sep="", offset=0):
    if sep or not isinstance(f, BinFile):
        raise Unsupported("fromfile")
    if count == float("inf"):
        raise OverflowError("cannot convert float infinity to integer")
    if isinstance(count, float):
        count = int(count)
    count = count.__index__()
    size = 16 if dtype is complex else np.dtype(dtype if not hasattr(dtype, "_real") else dtype._real).itemsize \
        if not getattr(dtype, "_symx_kind", None) or hasattr(dtype, "_real") else 8
    if dtype is complex or getattr(dtype, "_symx_kind", "") == "c" and not hasattr(dtype, "_real"):
        size = 16
    out = []
    kinds = set()
    pos = f.pos
    while (count < 0 or len(out) < count) and pos + size <= f.vc.size:
        c = f.vc.cells.get(pos)
        if c is None:
            v = ("z", 0)
        else:
            v = c
        if v[0] != "z" and v[0] != size_kind(dtype, size):
            # reading through cells of another type: value unusable
            v = ("g", Num({((N.new_atom("real", "garbage@%d" % pos).aid, 1),): 1}, 1))
        out.append(v[1])
        pos += size
    f.pos = pos
    kind = A.kind_of_dtype(dtype)
    return A.mkarr(out, dtype=A.DT(kind)) if out else A.zeros((0,), dtype=A.DT(kind))


def loadtxt(fname, dtype=float, comments="#", ndmin=0, **kw):
    if kw:
        raise Unsupported("loadtxt options")
    if isinstance(fname, str):
        f = WORLD.files.get(norm_name(fname))
        if f is None:
            raise FileNotFoundError("%s not found." % fname)
        lines = f.text.splitlines()
    else:
        lines = list(fname)
    rows = [l.split(comments)[0].split() for l in lines]
    rows = [[sfloat(x) for x in r] for r in rows if r]
    if len({len(r) for r in rows}) > 1:
        raise ValueError("the number of columns changed")
    a = A.mkarr(rows, dtype=dtype)
    if a.ndim == 2 and 1 in a.shape and ndmin < 2:
        a = a.reshape(-1) if a.size > 1 else a.reshape(())
    return a


def size_kind(dtype, size):
    k = A.kind_of_dtype(dtype)
    return {("f", 8): "f8", ("c", 8): "c8", ("c", 16): "c16", ("i", 8): "i8", ("i", 4): "i4", ("f", 4): "f4"}.get((k, size), "?")


# --------------------------------------------------------- fortran records
def split_fmt(fmt):
    out, depth, cur = [], 0, ""
    for ch in fmt:
        if ch == "(":
            depth += 1
        if ch == ")":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    out.append(cur)
    import re
    res = []
    for f in out:
        f = f.strip()
        m = re.fullmatch(r"(?:\((.*)\)|(\d+))?\s*([<>=]?)([a-zA-Z])(\d+)", f)
        if not m:
            raise TypeError("data type %r not understood" % f)
        sh = None
        if m.group(1) is not None:
            sh = tuple(int(x) for x in m.group(1).split(",") if x.strip())
        elif m.group(2) is not None:
            sh = (int(m.group(2)),)
        res.append((sh, m.group(4), int(m.group(5))))
    return res


class Rec(tuple):
    """structured record with several fields"""
    pass


class RecArr:
    def __init__(self, r):
        self.r = r

    def __getitem__(self, k):
        if k in (0, -1):
            return self.r
        raise IndexError("index %r out of bounds" % k)

    def __len__(self):
        return 1

    def __iter__(self):
        return iter([self.r])

    @property
    def shape(self):
        return (1,)


class RStr:
    def __init__(self, s):
        self.s = s

    def decode(self, *a):
        return self.s

    def strip(self):
        return self


def read_fmt(rec, fmt, single_plain):
    """interpret the cells of a record according to a numpy format string"""
    fields = split_fmt(fmt)
    cells = []
    for t, vals in rec:
        for v in vals:
            cells.append((t, v))
    nbytes = builtins.sum(int(t[1:]) for t, _ in cells)

    def take(pos, n, ch, size):
        out = []
        for _ in range(n):
            if pos >= len(cells):
                raise ValueError("Size obtained (%d) is not a multiple of the dtypes given" % nbytes)
            t, v = cells[pos]
            if ch in "aS":
                if t[0] != "a" or int(t[1:]) != size:
                    raise ValueError("record layout: string of %s expected, found %s" % (size, t))
                out.append(RStr(v))
            else:
                if t != ch + str(size):
                    raise ValueError("record layout: %s%d expected, found %s" % (ch, size, t))
                out.append(v)
            pos += 1
        return out, pos
    kd = {"i": "i", "u": "i", "f": "f", "c": "c"}
    if len(fields) == 1:
        sh, ch, size = fields[0]
        per = 1
        for x in sh or ():
            per *= x
        unit = per * size
        if unit == 0 or nbytes % unit:
            raise ValueError("Size obtained (%d) is not a multiple of the dtypes given (%d)." % (nbytes, unit))
        vals, _ = take(0, nbytes // size, ch, size)
        if ch in "aS":
            return [vals]
        a = A.mkarr(vals, dtype=A.DT(kd[ch]))
        cnt = nbytes // unit
        if sh is not None and len(sh) > 0:
            if cnt == 1:
                return a.reshape(sh)
            return a.reshape((cnt,) + sh)
        return a
    unit = 0
    for sh, ch, size in fields:
        per = 1
        for x in sh or ():
            per *= x
        unit += per * size
    if unit == 0 or nbytes % unit:
        raise ValueError("Size obtained (%d) is not a multiple of the dtypes given (%d)." % (nbytes, unit))
    if nbytes != unit:
        raise Unsupported("several structures in one record")
    pos = 0
    out = []
    for sh, ch, size in fields:
        per = 1
        for x in sh or ():
            per *= x
        vals, pos = take(pos, per, ch, size)
        if ch in "aS":
            out.append(vals[0])
        elif sh is None or sh == (1,):
            # numpy: "1i4" is a plain scalar field
            v = vals[0]
            out.append(A.cast_scalar(v, kd[ch]))
        else:
            out.append(A.mkarr(vals, dtype=A.DT(kd[ch])).reshape(sh))
    return RecArr(Rec(out))


class VFortranFile:
    fortio = False

    def __init__(self, filename, mode="r", header_dtype=None, *a, **k):
        n = norm_name(filename)
        f = WORLD.files.get(n)
        if f is None:
            raise FileNotFoundError(2, "No such file or directory", str(filename))
        if not isinstance(f, VRecords):
            raise Unsupported("not a fortran file: %s" % filename)
        self._recs = f.records
        self._pos = 0
        if "w" in mode:
            raise Unsupported("writing fortran records")

    def read_record(self, *fmts, **kw):
        if len(fmts) != 1:
            raise Unsupported("several dtypes in read_record")
        fmt = fmts[0]
        if not isinstance(fmt, str):
            k = A.kind_of_dtype(fmt)
            fmt = {"i": "i4", "f": "f8", "c": "c16"}[k]
        if self._pos >= len(self._recs):
            raise self._eof()
        rec = self._recs[self._pos]
        try:
            r = read_fmt(rec, fmt, False)
        except BaseException:
            if not isinstance(self, VFortio):
                self._pos += 1
            raise
        self._pos += 1
        return r

    def _eof(self):
        import scipy.io
        return scipy.io.FortranEOFError("End of file in the middle of a record")

    def read_reals(self, dtype="f8"):
        return self.read_record(dtype)

    def read_ints(self, dtype="i4"):
        return self.read_record(dtype)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class VFortio(VFortranFile):
    def _eof(self):
        return EOFError("End of file reached")

    def goto_record(self, n):
        self._pos = n

    def skip_record(self):
        self._pos += 1

    def get_record_count(self):
        return len(self._recs)
    nrec = property(get_record_count)


# --------------------------------------------------------- number builtins
class _MetaNum(type):
    def __instancecheck__(cls, x):
        if cls._check(x):
            return True
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._real)

    def __call__(cls, *a, **k):
        return cls._convert(*a, **k)

    def __eq__(cls, o):
        return o is cls._real or o is cls or type.__eq__(cls, o) is True

    def __hash__(cls):
        return hash(cls._real)

    def __repr__(cls):
        return repr(cls._real)

    def __getattr__(cls, n):
        return getattr(type.__getattribute__(cls, "_real"), n)


def _scalar(x):
    if isinstance(x, np.ndarray):
        if x.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return A.base(x).reshape(-1)[0]
    return x


class sfloat(metaclass=_MetaNum):
    _real = float
    _symx_kind = "f"
    __name__ = "float"

    @staticmethod
    def _check(x):
        return type(x) is Num and x.tag == 1

    @staticmethod
    def _convert(x=0.0):
        x = _scalar(x)
        if isinstance(x, str):
            v = T.parse_num(x)
            return float(x) if v is None else v
        if type(x) is Num:
            if x.tag == 2:
                raise TypeError("float() argument must be a string or a real number, not 'complex'")
            return Num(x.t, 1)
        if type(x) is SymBool:
            return Num(x.num().t, 1)
        return float(x)


class sint(metaclass=_MetaNum):
    _real = int
    _symx_kind = "i"
    __name__ = "int"

    @staticmethod
    def _check(x):
        return type(x) is Num and x.tag == 0

    @staticmethod
    def _convert(x=0, *base):
        x = _scalar(x)
        if isinstance(x, str) and not base:
            v = T.parse_num(x, integer=True)
            return int(x) if v is None else v
        if type(x) is Num:
            if x.tag == 2:
                raise TypeError("int() argument must be a string, a bytes-like object or a real number, not 'complex'")
            r = N.num_trunc(x)
            c = r.const()
            return int(c) if c is not None else Num(r.t, 0)
        if type(x) is SymBool:
            return x.num()
        return int(x, *base)


class scomplex(metaclass=_MetaNum):
    _real = complex
    _symx_kind = "c"
    __name__ = "complex"

    @staticmethod
    def _check(x):
        return type(x) is Num and x.tag == 2

    @staticmethod
    def _convert(x=0, y=0):
        x, y = _scalar(x), _scalar(y)
        if isinstance(x, str):
            if T.has_token(x):
                return T.parse_complex(x)
            return complex(x)
        if type(x) is Num or type(y) is Num or type(x) is SymBool:
            return Num((conv(x) + N.I * conv(y)).t, 2)
        return complex(x, y)


class sbool(metaclass=_MetaNum):
    _real = bool
    _symx_kind = "b"
    __name__ = "bool"

    @staticmethod
    def _check(x):
        return type(x) is SymBool

    @staticmethod
    def _convert(x=False):
        return bool(x)


_real_type = type


def s_print(*a, sep=" ", end="\n", file=None, flush=False):
    s = (" " if sep is None else sep).join(str(x) for x in a) + ("\n" if end is None else end)
    if file is None:
        WORLD.stdout.append(s)
    else:
        file.write(s)


def s_isinstance(x, c):
    if isinstance(c, tuple):
        return any(s_isinstance(x, y) for y in c)
    if type(x) is Num and x.tag == 0 and c in (np.integer,):
        return True
    if type(x) is Num and x.tag == 1 and c in (np.floating,):
        return True
    if type(x) is Num and c in (np.number, np.generic):
        return True
    if isinstance(c, A.NpScalarType):
        return c.__instancecheck__(x)
    import numbers
    if type(x) is Num and c in (numbers.Number, numbers.Complex):
        return True
    if type(x) is Num and c is numbers.Integral:
        return x.tag == 0
    if type(x) is Num and c is numbers.Real:
        return x.tag < 2
    return isinstance(x, c)


def s_type(*a):
    if len(a) == 1:
        x = a[0]
        if type(x) is Num:
            return (sint, sfloat, scomplex)[x.tag]
        t = type(x)
        return {int: sint, float: sfloat, complex: scomplex, bool: sbool}.get(t, t)
    return type(*a)


def s_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


# --------------------------------------------------------- shim modules
def mk_math():
    m = types.ModuleType("math")
    d = m.__dict__
    for k in dir(math):
        if not k.startswith("_"):
            d[k] = getattr(math, k)

    def lift(f, g):
        def h(x, *a):
            x = _scalar(x)
            if type(x) is Num:
                return f(x, *a)
            return g(x, *a)
        return h
    d["pi"] = N.PI
    d["tau"] = N.PI * 2
    d["sqrt"] = lift(lambda x: N.num_sqrt(x), lambda x: N.num_sqrt(conv(x)) if not A.is_special(x) else math.sqrt(x))
    d["floor"] = lift(lambda x: Num(N.num_floor(x).t, 0), math.floor)
    d["ceil"] = lift(lambda x: Num((-N.num_floor(-x)).t, 0), math.ceil)
    d["trunc"] = lift(lambda x: Num(N.num_trunc(x).t, 0), math.trunc)
    d["fabs"] = lift(lambda x: abs(x), math.fabs)
    d["cos"] = lift(N.num_cos, math.cos)
    d["sin"] = lift(N.num_sin, math.sin)
    d["exp"] = lift(N.num_exp, math.exp)
    d["acos"] = lift(lambda x: A._arccos(x), lambda x: A._arccos(conv(x)))
    d["isnan"] = lift(lambda x: False, math.isnan)
    d["isinf"] = lift(lambda x: False, math.isinf)
    d["isfinite"] = lift(lambda x: True, math.isfinite)

    def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        a, b = conv(a), conv(b)
        mx = A.nmax([abs(a), abs(b)])
        return bool(A.tob(abs(a - b) <= A.nmax([conv(rel_tol) * mx, conv(abs_tol)])))
    d["isclose"] = isclose

    def atan2(y, x):
        return A._arctan2(conv(y), conv(x))
    d["atan2"] = atan2
    d["hypot"] = lambda *v: N.num_sqrt(s_sum([conv(x) * conv(x) for x in v]))
    d["fsum"] = lambda v: s_sum(v)
    d["prod"] = lambda v, start=1: _prod(v, start)
    return m


def _prod(v, r):
    for x in v:
        r = r * x
    return r


def mk_cmath():
    import cmath
    m = types.ModuleType("cmath")
    d = m.__dict__
    for k in dir(cmath):
        if not k.startswith("_"):
            d[k] = getattr(cmath, k)
    d["pi"] = N.PI
    d["exp"] = lambda z: N.num_exp(conv(_scalar(z)))
    d["phase"] = lambda z: N.num_angle(conv(_scalar(z)))
    return m


class _Meth:
    pass


def hook(name):
    return A._hook(name)


def mk_scipy():
    import scipy
    from scipy import constants
    m = types.ModuleType("scipy")
    m.__version__ = scipy.__version__
    m.constants = constants
    m.__path__ = []
    la = types.ModuleType("scipy.linalg")
    la.expm = hook("expm")
    for k in ("inv", "det", "norm", "eig", "eigh", "eigvals", "svd", "solve"):
        setattr(la, k, getattr(NP.linalg, k))
    op = types.ModuleType("scipy.optimize")
    op.minimize = hook("minimize")
    sio = types.ModuleType("scipy.io")
    sio.FortranFile = VFortranFile
    import scipy.io as rsio
    sio.FortranEOFError = rsio.FortranEOFError
    m.linalg, m.optimize, m.io = la, op, sio
    return m, {"scipy": m, "scipy.linalg": la, "scipy.optimize": op, "scipy.io": sio, "scipy.constants": constants}


def mk_spglib():
    import spglib
    m = types.ModuleType("spglib")
    m.get_symmetry_dataset = hook("get_symmetry_dataset")
    m.get_symmetry = hook("get_symmetry")
    m.get_spacegroup = hook("get_spacegroup")
    m.get_version = spglib.get_version
    m.__version__ = spglib.__version__
    m.refine_cell = hook("refine_cell")
    m.standardize_cell = hook("standardize_cell")
    m.find_primitive = hook("find_primitive")
    m.get_error_message = lambda: "no error"
    return m


def mk_et():
    import xml.etree.ElementTree as ET
    m = types.ModuleType("xml.etree.ElementTree")
    for k in dir(ET):
        if not k.startswith("__"):
            m.__dict__[k] = getattr(ET, k)

    def parse(src, parser=None):
        f = WORLD.files.get(norm_name(src))
        if f is None:
            raise FileNotFoundError(2, "No such file or directory", str(src))
        return ET.ElementTree(ET.fromstring(f.text))
    m.parse = parse
    return m


class Dumped:
    def __init__(self, obj):
        self.obj = obj


def to_plain(o, depth=0):
    """what a JSON writer sees"""
    if isinstance(o, dict):
        return {k if isinstance(k, (str, int, float, bool, type(None))) else to_plain(k): to_plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [to_plain(v) for v in o]
    return o


def mk_monty():
    m = types.ModuleType("monty")
    s = types.ModuleType("monty.serialization")

    def dumpfn(obj, fn, *a, **k):
        WORLD.files[norm_name(fn)] = Dumped(obj)

    def loadfn(fn, *a, **k):
        f = WORLD.files.get(norm_name(fn))
        if isinstance(f, Dumped):
            return f.obj
        raise FileNotFoundError(2, "No such file or directory", str(fn))
    s.dumpfn, s.loadfn = dumpfn, loadfn
    m.serialization = s
    return {"monty": m, "monty.serialization": s}


def mk_warnings():
    m = types.ModuleType("warnings")
    for k in dir(real_warnings):
        if not k.startswith("__"):
            m.__dict__[k] = getattr(real_warnings, k)

    def warn(msg, *a, **k):
        WORLD.warnings.append(str(msg))
    m.warn = warn
    return m


def mk_os():
    m = types.ModuleType("os")
    for k in dir(real_os):
        if not k.startswith("__"):
            m.__dict__[k] = getattr(real_os, k)

    def deny(*a, **k):
        raise Unsupported("os call with effects")
    for k in ("remove", "unlink", "rmdir", "rename", "replace", "system", "mkdir", "makedirs", "popen", "removedirs", "truncate"):
        m.__dict__[k] = deny
    return m


NP = A.build_numpy()


def mk_copy():
    import copy
    return copy


MODS = {}


def install():
    MODS["numpy"] = NP
    MODS["numpy.linalg"] = NP.linalg
    MODS["numpy.fft"] = NP.fft
    MODS["numpy.random"] = NP.random
    MODS["math"] = mk_math()
    MODS["cmath"] = mk_cmath()
    _, sm = mk_scipy()
    MODS.update(sm)
    MODS["spglib"] = mk_spglib()
    MODS["xml.etree.ElementTree"] = mk_et()
    MODS.update(mk_monty())
    MODS["warnings"] = mk_warnings()
    MODS["os"] = mk_os()
    fo = types.ModuleType("fortio")
    fo.FortranFile = VFortio
    MODS["fortio"] = fo
    A.DEFAULT_HOOKS["fromfile"] = fromfile
    A.DEFAULT_HOOKS["loadtxt"] = loadtxt


_path_mods = {"os.path": real_os.path}


def resolve_name(name, package, level):
    if level == 0:
        return name
    base = package.rsplit(".", level - 1)[0] if level > 1 else package
    return base + ("." + name if name else "")


def is_ours(name):
    return name.split(".")[0] in PKG


def s_import(name, globals=None, locals=None, fromlist=(), level=0):
    pkg = (globals or {}).get("__package__") or ""
    full = resolve_name(name, pkg, level)
    if is_ours(full):
        m = load(full)
        if fromlist:
            for f in fromlist:
                if f != "*" and not hasattr(m, f) and source_of(full + "." + f):
                    setattr(m, f, load(full + "." + f))
            return m
        return load(full.split(".")[0])
    if full in MODS:
        m = MODS[full]
        if fromlist or "." not in full:
            return m
        top = full.split(".")[0]
        if top in MODS:
            # import numpy.linalg -> binds numpy
            return MODS[top]
        # import xml.etree.ElementTree [as ET] : build a small package chain
        parts = full.split(".")
        root = types.ModuleType(parts[0])
        cur = root
        for p in parts[1:-1]:
            nxt = types.ModuleType(p)
            setattr(cur, p, nxt)
            cur = nxt
        setattr(cur, parts[-1], m)
        return root
    if full.split(".")[0] in ("numpy", "scipy"):
        import importlib
        sub = full.split(".", 1)
        try:
            return getattr(MODS[sub[0]], sub[1]) if len(sub) > 1 else MODS[sub[0]]
        except AttributeError:
            raise Unsupported("import of %s" % full)
    m = builtins.__import__(full, globals, locals, fromlist, 0)
    return m


def source_of(full):
    parts = full.split(".")
    p = real_os.path.join(PKG[parts[0]], *parts[1:])
    if real_os.path.isdir(p) and real_os.path.exists(real_os.path.join(p, "__init__.py")):
        return real_os.path.join(p, "__init__.py"), True
    if real_os.path.exists(p + ".py"):
        return p + ".py", False
    return None


LOADED = {}
FUNCS = {}      # functions of the code under test entered symbolically


def make_builtins():
    b = types.ModuleType("builtins")
    d = b.__dict__
    d.update(builtins.__dict__)
    d["__symx_mod__"] = T.percent
    d.update(float=sfloat, int=sint, complex=scomplex, bool=sbool, print=s_print, open=v_open,
             isinstance=s_isinstance, type=s_type, sum=s_sum, __import__=s_import)
    return b


class _PercentRewriter(ast.NodeTransformer):
    """`a % b` -> __symx_mod__(a, b): the % operator of str converts numbers in C"""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if not isinstance(n.op, ast.Mod):
            return n
        return ast.copy_location(ast.Call(func=ast.copy_location(ast.Name("__symx_mod__", ast.Load()), n), args=[n.left, n.right], keywords=[]), n)


def _percent(src, path):
    t = _PercentRewriter().visit(ast.parse(src, path))
    return ast.fix_missing_locations(t)


BUILTINS = None


def load(full):
    global BUILTINS
    if full in LOADED:
        return LOADED[full]
    if BUILTINS is None:
        install()
        BUILTINS = make_builtins()
    src = source_of(full)
    if src is None:
        raise ModuleNotFoundError("No module named %r" % full)
    path, ispkg = src
    m = types.ModuleType(full)
    m.__file__ = path
    m.__package__ = full if ispkg else full.rsplit(".", 1)[0]
    if ispkg:
        m.__path__ = [real_os.path.dirname(path)]
    m.__dict__["__builtins__"] = BUILTINS.__dict__
    LOADED[full] = m
    if "." in full:
        parent = load(full.rsplit(".", 1)[0])
        setattr(parent, full.rsplit(".", 1)[1], m)
    with builtins.open(path) as f:
        code = compile(_percent(f.read(), path), path, "exec")
    try:
        exec(code, m.__dict__)
    except BaseException:
        LOADED.pop(full, None)
        raise
    return m


def in_symbolic():
    return getattr(WORLD, "active", False)


class M:
    """attribute access to the symbolic copies: M.spacegroup.SymmetryOperation"""

    def __getattr__(self, n):
        if n == "irreptables":
            return load("irreptables")
        if n == "irrep":
            return load("irrep")
        return load("irrep." + n)


def real_modules():
    """the unmodified code, imported by the real interpreter"""
    import importlib
    for p in (REPO, real_os.path.join(REPO, "irreptables")):
        if p not in sys.path:
            sys.path.insert(0, p)

    class R:
        def __getattr__(self, n):
            if n in ("irreptables", "irrep"):
                return importlib.import_module(n)
            return importlib.import_module("irrep." + n)
    return R()
