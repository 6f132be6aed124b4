"""Path exploration, property queries, model extraction and concrete replay."""
import cmath
import json
import math
import os
import random
import shutil
import sys
import tempfile
import select
import signal
import time
import traceback
from fractions import Fraction
import numpy as np
import z3
from . import num as N
from . import arr as A
from . import loader as L
from . import text as T
from .num import Num, SymBool, Unsupported, PathAbort, BudgetExceeded, CTX, Ctx, Stats, b_and, b_or, b_not, conv


class Discard(Exception):
    """concrete inputs do not satisfy an assumption"""


class Res:
    """outcome of a call into the code under test"""

    def __init__(self, ok, val, exc):
        self.ok, self.val, self.exc = ok, val, exc

    def raised(self, *types):
        return (not self.ok) and (not types or isinstance(self.exc, types))

    @property
    def err(self):
        return None if self.ok else "%s: %s" % (type(self.exc).__name__, str(self.exc)[:200])


# ===========================================================================
class Sym:
    """input factory of the symbolic run"""
    symbolic = True

    def __init__(self, ctx):
        self.ctx = ctx
        self.np = L.NP
        self.checks = []
        self.inputs = {}        # name -> kind
        self.picks = {}
        self.M = L.M()
        self.pi = N.PI
        self.I = N.I
        self.patched = []
        self.reached = set()

    # ---- inputs
    def real(self, name, lo=None, hi=None, strict=False, nonzero=False, integer=False):
        a = N.new_atom("real", name, integer)
        self.inputs[name] = "int" if integer else "real"
        n = N.atom_num(a)
        if lo is not None:
            self.assume(n > lo if strict else n >= lo)
        if hi is not None:
            self.assume(n < hi if strict else n <= hi)
        if nonzero:
            self.assume(n != 0)
        return n

    def int(self, name, lo, hi):
        return self.real(name, lo, hi, integer=True)

    def cplx(self, name, lo=None, hi=None):
        return Num((self.real(name + ".re", lo, hi) + self.real(name + ".im", lo, hi) * N.I).t, 2)

    def phase(self, name):
        self.inputs[name] = "phase"
        return N.free_unit(name)

    def turn(self, name):
        """a real number of which only the phase E(x) matters"""
        a = N.new_atom("real", name, False)
        N.WHOLE.add(a.aid)
        self.inputs[name] = "turn"
        return N.atom_num(a)

    def pick(self, name, options):
        options = list(options)
        k = self.ctx.choose(len(options))
        self.picks[name] = k
        return options[k]

    def assume(self, c):
        if isinstance(c, np.ndarray):
            c = b_and(list(A.base(c).reshape(-1)))
        if isinstance(c, SymBool):
            self.ctx.add(c.e)
            return
        if not c:
            raise PathAbort()

    def array(self, x, dtype=None):
        return L.NP.array(x, dtype=dtype)

    def zeros(self, *a, **k):
        return L.NP.zeros(*a, **k)

    def E(self, x):
        if isinstance(x, np.ndarray):
            return A._map(A.mkarr(x), lambda v: N.E(v), "c")
        return N.E(x)

    def rat(self, p, q=1):
        return Num({(): N.norm_coef(Fraction(p) / q)} if p else {}, 1)

    def sqrt(self, x):
        return N.num_sqrt(conv(x))

    def floor(self, x):
        return N.num_floor(conv(x))

    def round(self, x):
        return N.num_round(conv(x))

    def ite(self, c, a, b):
        return N.ite(c, conv(a), conv(b))

    def abs(self, x):
        return abs(conv(x))

    # ---- logic (usable in both modes)
    def eq(self, a, b, tol=None):
        return _sym_eq(a, b)

    def same(self, a, b):
        """identical normal forms (no query, no fork)"""
        a, b = A.base(a).reshape(-1), A.base(b).reshape(-1)
        return len(a) == len(b) and all(not (conv(x) - conv(y)).t for x, y in zip(a, b))

    def le(self, a, b, tol=None):
        return A.tob(conv(a) <= b) if not A.is_special(b) else True

    def And(self, *c):
        return b_and([A.tob(x) for x in c])

    def Or(self, *c):
        return b_or([A.tob(x) for x in c])

    def Not(self, c):
        return b_not(c)

    def Implies(self, a, b):
        return b_or([b_not(a), b])

    def is_true(self, c):
        """fork on a condition"""
        return bool(c)

    # ---- execution
    def call(self, f, *a, **k):
        try:
            return Res(True, f(*a, **k), None)
        except (Unsupported, PathAbort, BudgetExceeded):
            raise
        except (Exception, SystemExit) as e:
            if self.ctx.poison is not None:
                raise self.ctx.poison
            e.tb = traceback.format_exc()
            return Res(False, None, e)

    def check(self, label, cond, info=None):
        self.reached.add(label)
        if isinstance(cond, np.ndarray):
            cond = b_and(list(A.base(cond).reshape(-1)))
        if isinstance(cond, Num):
            cond = cond != 0
        self.checks.append((label, cond, [info] if isinstance(info, np.ndarray) else info))

    def reach(self, label):
        self.reached.add(label)

    # ---- environment
    def hook(self, name, f):
        A.HOOKS[name] = f

    def ties(self, mode):
        A.OPTS["ties"] = mode

    def file_text(self, name, text):
        L.WORLD.files[L.norm_name(name)] = L.VText(text)

    def file_records(self, name, records):
        L.WORLD.files[L.norm_name(name)] = L.VRecords(records)

    def file_cells(self, name, cells, size):
        """cells: {byte offset: (type, value)}"""
        L.WORLD.files[L.norm_name(name)] = L.VCells(cells, size)

    def read_file(self, name):
        f = L.WORLD.files.get(L.norm_name(name))
        if f is None:
            return None
        if isinstance(f, L.Dumped):
            return f.obj
        return f.text

    def exists(self, name):
        return L.norm_name(name) in L.WORLD.files

    def stdout(self):
        return "".join(L.WORLD.stdout)

    def fmt(self, x, spec=".16g"):
        """number -> text"""
        if isinstance(x, (int, str)):
            return str(x)
        return format(conv(x), "")

    def value(self, s):
        """text -> (number, tolerance): the number printed and its possible rounding error"""
        e = T.exact(s)
        if e is not None:
            n, spec = e
            d = T.spec_decimals(spec) if spec else None
            return n, d
        return conv(float(s)), "lit"

    def textnum(self, s, x, dec=None):
        """does the text s print the number x (with at least dec decimals) ?"""
        r = T.exact(s)
        if dec is not None and r is not None:
            d = T.spec_decimals(r[1])
            if d is not None and (isinstance(d, tuple) and d[1] < dec or not isinstance(d, tuple) and d < dec):
                return False
        if r is None:
            try:
                v = float(s)
            except ValueError:
                return False
            if dec is not None and _dec(s) < dec:
                return False
            return abs(conv(x) - v) <= Fraction(1, 10 ** _dec(s))
        n, spec = r
        return _sym_eq(n, x)

    def patch(self, target, value):
        """replace an attribute of a loaded module / class"""
        obj, attr = _resolve(self.M, target)
        self.patched.append((obj, attr, getattr(obj, attr)))
        setattr(obj, attr, value)

    def finish(self):
        for o, a, v in reversed(self.patched):
            setattr(o, a, v)


def _dec(s):
    s = s.strip()
    if "e" in s or "E" in s:
        return 6
    return len(s.split(".")[1].rstrip("j")) if "." in s else 0


def _resolve(M, target):
    parts = target.split(".")
    o = getattr(M, parts[0])
    for p in parts[1:-1]:
        o = getattr(o, p)
    return o, parts[-1]


def _sym_eq(a, b):
    if isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, (np.ndarray, list, tuple)):
        a, b = A.base(a), A.base(b)
        if a.shape != b.shape:
            return False
        cs = []
        for x, y in zip(a.reshape(-1), b.reshape(-1)):
            c = _sym_eq(x, y)
            if c is False:
                return False
            cs.append(c)
        return b_and(cs)
    if A.is_special(a) or A.is_special(b):
        return (a == b or (a != a and b != b)) if (A.is_special(a) and A.is_special(b)) else False
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a is b or (isinstance(a, str) and a == b)
    ca, cb = conv(a), conv(b)
    if ca is NotImplemented or cb is NotImplemented:
        return a == b
    r = A.tob(ca == cb)
    if r is True:
        return _emit(ca, cb)
    return r


def _emit(ca, cb):
    """equal normal forms over the inputs: still hand the identity to the solver"""
    if ca.const() is not None or len(ca.t) > 80:
        return True
    for m in ca.t:
        if sum(abs(e) for aid, e in m if N.ATOMS[aid].kind == "unit") > 6:
            return True
        for aid, e in m:
            if N.ATOMS[aid].kind == "unit" and (N.ATOMS[aid].mono == () or abs(e) > 6 or len(ca.t) > 24):
                return True     # roots of unity / long phases: the normal form decides
    try:
        if ca.is_real() and cb.is_real():
            return SymBool(N.to_z3(ca) == N.to_z3(cb))
        return SymBool(z3.And(N.to_z3(ca.real) == N.to_z3(cb.real), N.to_z3(ca.imag) == N.to_z3(cb.imag)))
    except Unsupported:
        CTX.cur.poison = None
        return True


# ===========================================================================
class RandomPicks:
    """discrete choices of a concrete search"""

    def __init__(self, rng):
        self.rng = rng
        self.done = {}

    def take(self, name, n):
        if name not in self.done:
            self.done[name] = self.rng.randrange(n)
        return self.done[name] % n


class Con:
    """input factory of a concrete run on the real code"""
    symbolic = False

    def __init__(self, values, picks, rng=None, jitter=0.0):
        self.values = values
        self.picks = picks
        self.np = np
        self.M = L.real_modules()
        self.checks = []
        self.failed = []
        self.pi = math.pi
        self.I = 1j
        self.rng = rng
        self.jitter = jitter
        self.used = {}
        self.patched = []
        self.dir = None
        self.reached = set()
        self.out = None
        self._np_patched = []

    def real(self, name, lo=None, hi=None, strict=False, nonzero=False, integer=False):
        v = self.values.get(name)
        if v is None:
            if self.rng is not None:
                a = lo if isinstance(lo, (int, float, Fraction)) else -2.0
                b = hi if isinstance(hi, (int, float, Fraction)) else 2.0
                v = self.rng.randint(math.ceil(a), math.floor(b)) if integer else self.rng.uniform(float(a), float(b))
            else:
                a = lo if isinstance(lo, (int, float, Fraction)) else 0
                b = hi if isinstance(hi, (int, float, Fraction)) else a + 1
                v = math.ceil(a) if integer else float(a + b) / 2
        elif self.jitter and not integer:
            v = v + self.rng.uniform(-1, 1) * self.jitter * max(abs(v), 0.1)
        v = int(round(v)) if integer else float(v)
        self.used[name] = v
        if lo is not None:
            self.assume(v > lo - 1e-12)
        if hi is not None:
            self.assume(v < hi + 1e-12)
        if nonzero:
            self.assume(v != 0)
        return v

    def int(self, name, lo, hi):
        return self.real(name, lo, hi, integer=True)

    def cplx(self, name, lo=None, hi=None):
        return complex(self.real(name + ".re", lo, hi), self.real(name + ".im", lo, hi))

    def phase(self, name):
        th = self.values.get(name)
        if th is None:
            th = self.rng.random() if self.rng is not None else 0.1234
        self.used[name] = th
        return cmath.exp(2j * math.pi * th)

    def turn(self, name):
        th = self.values.get(name)
        if th is None:
            th = self.rng.random() if self.rng is not None else 0.1234
        elif self.jitter:
            th = th + self.rng.uniform(-1, 1) * self.jitter
        self.used[name] = th
        return th

    def pick(self, name, options):
        options = list(options)
        if isinstance(self.picks, RandomPicks):
            return options[self.picks.take(name, len(options))]
        return options[self.picks.get(name, 0) % len(options)]

    def assume(self, c):
        if isinstance(c, np.ndarray):
            c = c.all()
        if not c:
            raise Discard()

    def array(self, x, dtype=None):
        return np.array(x, dtype=dtype)

    def zeros(self, *a, **k):
        return np.zeros(*a, **k)

    def E(self, x):
        return np.exp(2j * np.pi * np.asarray(x)) if isinstance(x, np.ndarray) else cmath.exp(2j * math.pi * x)

    def rat(self, p, q=1):
        return float(Fraction(p) / q)

    def sqrt(self, x):
        return math.sqrt(x)

    def floor(self, x):
        return math.floor(x)

    def round(self, x):
        return round(x)

    def ite(self, c, a, b):
        return a if c else b

    def abs(self, x):
        return abs(x)

    def eq(self, a, b, tol=None):
        tol = 1e-6 if tol is None else tol
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return a is b or (isinstance(a, str) and a == b)
        try:
            a, b = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
        except (TypeError, ValueError):
            return False
        if a.shape != b.shape:
            return False
        if a.size == 0:
            return True
        fin = np.isfinite(b)
        if not (np.isfinite(a) == fin).all():
            return False
        if not fin.all():
            x, y = a[~fin], b[~fin]
            if not np.array_equal(x, y, equal_nan=True):
                return False
            a, b = a[fin], b[fin]
        return bool((abs(a - b) <= tol * (1 + abs(b))).all())

    def le(self, a, b, tol=None):
        return bool(a <= b + (1e-7 if tol is None else tol) * (1 + abs(b)))

    def And(self, *c):
        return all(bool(np.all(x)) for x in c)

    def Or(self, *c):
        return any(bool(np.all(x)) for x in c)

    def Not(self, c):
        return not c

    def Implies(self, a, b):
        return (not a) or bool(b)

    def is_true(self, c):
        return bool(c)

    def call(self, f, *a, **k):
        try:
            return Res(True, f(*a, **k), None)
        except (Exception, SystemExit) as e:
            if isinstance(e, Discard):
                raise
            e.tb = traceback.format_exc()
            return Res(False, None, e)

    def check(self, label, cond, info=None):
        self.reached.add(label)
        ok = bool(np.all(cond))
        self.checks.append((label, ok, info))
        if not ok:
            self.failed.append((label, None if info is None else str(info)[:600]))

    def reach(self, label):
        self.reached.add(label)

    # ---- environment: real modules patched for the duration of the run
    _HOOKS = {"expm": "spacegroup.expm", "minimize": "spacegroup.minimize", "eig": None}

    def hook(self, name, f):
        pass

    def ties(self, mode):
        pass

    def file_text(self, name, text):
        p = os.path.join(self.dir, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as fh:
            fh.write(text)

    def file_records(self, name, records):
        p = os.path.join(self.dir, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        import struct
        with open(p, "wb") as fh:
            for rec in records:
                b = b""
                for t, vals in rec:
                    if t[0] == "a":
                        for v in vals:
                            b += v.encode().ljust(int(t[1:]))[:int(t[1:])]
                    else:
                        b += np.array(list(vals)).astype(t).tobytes()
                fh.write(struct.pack("<i", len(b)) + b + struct.pack("<i", len(b)))

    def file_cells(self, name, cells, size):
        buf = bytearray(size)
        for off, (t, v) in cells.items():
            b = np.array([v]).astype(t).tobytes()
            buf[off:off + len(b)] = b
        with open(os.path.join(self.dir, name), "wb") as fh:
            fh.write(bytes(buf))

    def read_file(self, name):
        p = os.path.join(self.dir, name)
        if not os.path.exists(p):
            return None
        if name.endswith(".json"):
            with open(p) as fh:
                return json.load(fh)
        with open(p) as fh:
            return fh.read()

    def exists(self, name):
        return os.path.exists(os.path.join(self.dir, name))

    def stdout(self):
        return self.out.getvalue()

    def fmt(self, x, spec=".17g"):
        if isinstance(x, (int, str)) and not isinstance(x, bool):
            return str(x)
        return repr(float(x))

    def value(self, s):
        return float(s), "lit"

    def textnum(self, s, x, dec=None):
        try:
            v = float(s)
        except ValueError:
            return False
        if dec is not None and _dec(s) < dec:
            return False
        return abs(v - x) <= 0.5000001 * 10.0 ** (-_dec(s)) + 1e-9

    def patch(self, target, value):
        obj, attr = _resolve(self.M, target)
        self.patched.append((obj, attr, getattr(obj, attr)))
        setattr(obj, attr, value)

    def np_patch(self, name, f):
        o = np
        parts = name.split(".")
        for q in parts[:-1]:
            o = getattr(o, q)
        self.patched.append((o, parts[-1], getattr(o, parts[-1])))
        setattr(o, parts[-1], f)

    def finish(self):
        for o, a, v in reversed(self.patched):
            setattr(o, a, v)


class Pre(Sym):
    """inputs of a first use of the code, before the one that is decided: arbitrary constants, nothing is asserted"""

    def __init__(self, ctx, rng):
        super().__init__(ctx)
        self.rng = rng

    def real(self, name, lo=None, hi=None, strict=False, nonzero=False, integer=False):
        self.inputs[name] = "real"
        num = lambda x, d: Fraction(x) if isinstance(x, (int, float, Fraction)) else Fraction(d)
        a, b = num(lo, -2), num(hi, 2)
        if integer:
            return conv(self.rng.randint(math.ceil(a), math.floor(b)))
        return self.rat(a + (b - a) * Fraction(self.rng.randint(1, 22), 23))

    def phase(self, name):
        return N.E(self.rat(self.rng.randrange(24), 24))

    def turn(self, name):
        return self.rat(self.rng.randrange(24), 24)

    def pick(self, name, options):
        options = list(options)
        return options[self.rng.randrange(len(options))]

    def check(self, label, cond, info=None):
        pass


class _Late(BaseException):
    pass


def first_use(body, params, seed, limit=4):
    """run a body once with other inputs in the same process, on the encoded modules and on the real ones: what is decided
    afterwards must not depend on it"""
    import signal

    def late(*a):
        raise _Late()
    old = signal.signal(signal.SIGALRM, late)
    for k in range(3):
        saved = dict(A.HOOKS)
        ctx = Ctx([], Stats(), branch_timeout=500)
        ctx.deadline = time.time() + limit
        CTX.cur = ctx
        L.WORLD.reset()
        S = Pre(ctx, random.Random(seed + k))
        ok = False
        signal.setitimer(signal.ITIMER_REAL, limit)
        L.WORLD.active = True
        try:
            body(S, S.M, params)
            ok = True
        except (PathAbort, _Late, Unsupported, BudgetExceeded, Exception, SystemExit):
            pass
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            L.WORLD.active = False
            S.finish()
            A.HOOKS.clear()
            A.HOOKS.update(saved)
            A.OPTS["ties"] = "stable"
            L.WORLD.reset()
            CTX.cur = N.NullCtx()
        if ok:
            break
    signal.signal(signal.SIGALRM, old)
    first_use_concrete(body, params, seed)
    return ok


def first_use_concrete(body, params, seed):
    for k in range(3):
        rng = random.Random(seed + k)
        status, failed, C = run_concrete(body, params, {}, RandomPicks(rng), rng)
        if status == "done":
            break


def run_concrete(body, params, values, picks, rng=None, jitter=0.0):
    """run a harness body on the real code; returns (status, failed, used)"""
    import io
    import contextlib
    import warnings
    S = Con(values, picks, rng, jitter)
    S.dir = tempfile.mkdtemp(prefix="symx-replay-")
    S.out = io.StringIO()
    cwd = os.getcwd()
    exc = None
    try:
        os.chdir(S.dir)
        with contextlib.redirect_stdout(S.out), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            body(S, S.M, params)
        status = "done"
    except Discard:
        status = "discard"
    except (Exception, SystemExit) as e:
        status = "exc"
        exc = "%s: %s" % (type(e).__name__, str(e)[:300])
        S.failed.append(("unexpected exception", exc))
        S.tb = traceback.format_exc()
    finally:
        os.chdir(cwd)
        S.finish()
        shutil.rmtree(S.dir, ignore_errors=True)
    return status, S.failed, S


# ===========================================================================
def model_values(ctx_model, inputs):
    """concrete values of the inputs in a z3 model"""
    m = ctx_model
    out = {}
    for name, kind in inputs.items():
        if kind == "real":
            v = m.eval(z3.Real(name), model_completion=False)
            x = z3num(v)
            if x is not None:
                out[name] = x
        elif kind == "int":
            v = m.eval(z3.Int(name), model_completion=False)
            x = z3num(v)
            if x is not None:
                out[name] = x
        elif kind in ("phase", "turn"):
            u, d = (name, 2) if kind == "phase" else ("e(%s)" % name, 1)
            c = z3num(m.eval(z3.Real("c[%s/%d]" % (u, d)), model_completion=False))
            s = z3num(m.eval(z3.Real("s[%s/%d]" % (u, d)), model_completion=False))
            if c is not None and s is not None:
                out[name] = (math.atan2(s, c) / (2 * math.pi) * d) % 1
    return out


def z3num(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return None


# ===========================================================================
class TaskResult(dict):
    pass


def refuted(m, claims, limit=3.0):
    """index of the first claim that is false in the model, or None.  Evaluation with algebraic numbers may not end:
    then it is done by a child process that is given a few seconds"""
    def first():
        for i, c in enumerate(claims):
            if z3.is_false(m.eval(c.e, model_completion=True)):
                return i
        return None
    if not any(d.arity() == 0 and z3.is_algebraic_value(m[d]) for d in m.decls()):
        return first()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            i = first()
            os.write(w, b"-" if i is None else str(i).encode())
        finally:
            os._exit(0)
    os.close(w)
    try:
        out = os.read(r, 20) if select.select([r], [], [], limit)[0] else b""
    finally:
        os.close(r)
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    return int(out) if out.isdigit() else None


def explore(body, params, *, max_paths=2000, budget=120.0, prop_timeout=15000, branch_timeout=4000,
            witnesses=2, seed=1, want=(), retries=40, stop_on_violation=True, before=()):
    """all paths of body(Sym) ; property queries ; replay"""
    used_before = sum(1 for b, p, s in before if first_use(b, p, s))
    t0 = time.time()
    st = Stats()
    res = dict(paths=0, aborted=0, checks=0, labels={}, violations=[], inconclusive=[], trivial=0, queries=0,
               unsat=0, witness_ok=0, witness_bad=[], feasible=0, reached=[])
    stack = [[]]
    rng = random.Random(seed)
    reached = set()
    confirmed_labels = set()
    cand_count = {}
    wit = 0
    while stack:
        if time.time() - t0 > budget:
            res["inconclusive"].append("time budget of %.0f s exhausted with %d open paths" % (budget, len(stack)))
            break
        if res["paths"] + res["aborted"] >= max_paths:
            res["inconclusive"].append("path bound %d reached with %d open paths" % (max_paths, len(stack)))
            break
        prefix = stack.pop()
        ctx = Ctx(prefix, st, branch_timeout=branch_timeout)
        ctx.deadline = t0 + budget
        CTX.cur = ctx
        L.WORLD.reset()
        saved_hooks = dict(A.HOOKS)
        S = Sym(ctx)
        exc = None
        L.WORLD.active = True
        try:
            body(S, S.M, params)
            if ctx.poison is not None:
                raise ctx.poison
        except PathAbort:
            exc = "abort"
        except Unsupported as e:
            exc = "unsupported"
            res["inconclusive"].append("unsupported: %s" % e)
            res.setdefault("tb", traceback.format_exc()[-1800:])
        except BudgetExceeded as e:
            exc = "budget"
            res["inconclusive"].append("budget: %s" % e)
        except (Exception, SystemExit) as e:
            if ctx.poison is not None:
                if isinstance(ctx.poison, PathAbort):
                    exc = "abort"
                else:
                    exc = "unsupported"
                    res["inconclusive"].append("unsupported: %s" % ctx.poison)
            else:
                S.checks.append(("unexpected exception", False, "%s: %s" % (type(e).__name__, str(e)[:300])))
                res.setdefault("exc_tb", traceback.format_exc()[-2500:])
        finally:
            L.WORLD.active = False
            S.finish()
            A.HOOKS.clear()
            A.HOOKS.update(saved_hooks)
            A.OPTS["ties"] = "stable"
        stack.extend(ctx.alternatives)
        if exc == "abort":
            res["aborted"] += 1
            continue
        if exc is not None:
            # the encoding stopped here: replay a model of the path so far on the real code
            if exc == "unsupported" and not res["violations"] and cand_count.get("?", 0) < 6:
                cand_count["?"] = cand_count.get("?", 0) + 1
                if ctx.check(timeout=prop_timeout) == z3.sat:
                    vals = model_values(ctx.solver.model(), S.inputs)
                    hit = replay_search(body, params, S, vals, rng, 12)
                    if hit is not None:
                        res["violations"].append(dict(label=hit["failed"][0][0], symbolic_label="(path not encodable)",
                                                      info=hit["failed"][0][1], values=hit["values"], picks=S.picks,
                                                      params=params, how="model of the path prefix: " + hit["how"]))
            if len(res["inconclusive"]) > 5 or (res["violations"] and stop_on_violation):
                break
            continue
        res["paths"] += 1
        # ---- property queries
        conds = []
        for lab, c, info in S.checks:
            res["labels"][lab] = res["labels"].get(lab, 0) + 1
            if c is True:
                res["trivial"] += 1
            conds.append((lab, c, info))
        res["checks"] += len(conds)
        bad = [x for x in conds if x[1] is False]
        sym = [x for x in conds if isinstance(x[1], SymBool)]
        cands = []
        r = ctx.check(timeout=prop_timeout if bad else min(prop_timeout, 3000))
        feas = r
        if r == z3.unsat:
            res["aborted"] += 1
            res["paths"] -= 1
            continue
        reached |= S.reached
        model0 = None
        if r == z3.sat:
            res["feasible"] += 1
            model0 = ctx.solver.model()
        if bad:
            res["queries"] += 1
            cands.append((bad[0][0], bad[0][2], model0))
        if sym and model0 is not None and not bad:
            # the solver's model of the path may already refute a claim: replay it before the full query
            i = refuted(model0, [c for _, c, _ in sym])
            if i is not None:
                l2, c, i2 = sym[i]
                if l2 not in confirmed_labels and cand_count.get(l2, 0) < 3:
                    cand_count[l2] = cand_count.get(l2, 0) + 1
                    hit = replay_search(body, params, S, model_values(model0, S.inputs), rng, 6)
                    if hit is not None:
                        cands.append((l2, i2, model0))
                        bad = [(l2, c, i2)]
        if (sym or not bad) and not cands:
            # one query for the conjunction of everything claimed on this path
            ctx.push()
            neg = [z3.Not(c.e) for _, c, _ in sym]
            ctx.sadd(z3.Or(*neg) if neg else z3.BoolVal(False))
            r = ctx.check(timeout=prop_timeout)
            res["queries"] += 1
            if r == z3.unsat:
                res["unsat"] += 1
                ctx.pop()
            elif r == z3.sat:
                m = ctx.solver.model()
                ctx.pop()
                lab, _, info = sym[refuted(m, [c for _, c, _ in sym]) or 0]
                cands.append((lab, info, m))
            else:
                ctx.pop()
                unk = []
                for l2, c, i2 in sym:
                    ctx.push()
                    ctx.sadd(z3.Not(c.e))
                    r = ctx.check(timeout=prop_timeout)
                    res["queries"] += 1
                    if r == z3.sat:
                        cands.append((l2, i2, ctx.solver.model()))
                    elif r == z3.unsat:
                        res["unsat"] += 1
                    else:
                        unk.append((l2, i2))
                    ctx.pop()
                    if r == z3.sat:
                        break
                if unk and not cands:
                    # undecided by the solver: try the witness of the path before giving up
                    res["inconclusive"].append("solver returned unknown for '%s'" % unk[0][0])
                    cands.append((unk[0][0], "unknown", model0))
        # ---- replay of counterexamples
        for lab, info, m in cands:
            if lab in confirmed_labels:
                continue
            cand_count[lab] = cand_count.get(lab, 0) + 1
            if cand_count[lab] > 6:
                continue
            vals = model_values(m, S.inputs) if m is not None else {}
            hit = replay_search(body, params, S, vals, rng, retries if info != "unknown" else 12)
            if hit is not None:
                confirmed_labels.add(lab)
                for q in hit["failed"]:
                    confirmed_labels.add(q[0])
                res["violations"].append(dict(label=hit["failed"][0][0], symbolic_label=lab, info=hit["failed"][0][1],
                                              values=hit["values"], picks=S.picks, params=params, how=hit["how"]))
            elif info != "unknown":
                res["inconclusive"].append("counterexample for '%s' not reproduced (%s) values=%s picks=%s"
                                           % (lab, str(info)[:200], vals, S.picks))
        # ---- witness of the path on the real code
        elif_ok = not cands
        if elif_ok and model0 is not None and wit < witnesses:
            wit += 1
            vals = model_values(model0, S.inputs)
            status, failed, C = run_concrete(body, params, vals, S.picks, random.Random(seed))
            if status == "done" and not failed:
                res["witness_ok"] += 1
            elif failed:
                again = None
                for k in range(4):
                    s2, f2, C2 = run_concrete(body, params, vals, S.picks, random.Random(seed + k), jitter=0.01)
                    if f2 and s2 != "discard":
                        again = (f2, C2)
                        break
                if again and again[0][0][0] not in confirmed_labels:
                    confirmed_labels.add(again[0][0][0])
                    res["violations"].append(dict(label=again[0][0][0], info=again[0][0][1], values=again[1].used,
                                                  picks=S.picks, params=params, how="path witness"))
                else:
                    res["witness_bad"].append((failed[0], vals))
        if res["violations"] and stop_on_violation:
            break
    CTX.cur = N.NullCtx()
    res["reached"] = sorted(reached)
    for w in want:
        if w not in reached and not res["violations"]:
            res["inconclusive"].append("vacuity: '%s' was never reached" % w)
    if not res["feasible"] and not res["violations"]:
        res["inconclusive"].append("vacuity: no path with a model")
    if not res["checks"]:
        res["inconclusive"].append("vacuity: no property was checked")
    res["before"] = used_before
    res["branch_queries"] = st.branch_queries
    res["solver_time"] = st.solver_time
    res["unknown_branches"] = st.unknown
    res["wall"] = time.time() - t0
    return res


def replay_search(body, params, S, vals, rng, retries):
    def attempt(v, how, jitter=0.0, r=None):
        status, failed, C = run_concrete(body, params, v, S.picks, r or random.Random(7), jitter)
        if failed and status != "discard":
            return dict(failed=failed, values=C.used, how=how)
        return None
    h = attempt(vals, "solver model")
    if h:
        return h
    for k in range(retries):
        r = random.Random(1000 + k)
        if k % 4 == 0:
            h = attempt(vals, "solver model, perturbed", 0.02 * (1 + k), r)
        elif k % 4 == 1:
            # keep integers and keep about half of the reals
            v = {n: x for n, x in vals.items() if S.inputs[n] == "int" or r.random() < 0.5}
            h = attempt(v, "partial solver model", 0.0, r)
        elif k % 4 == 2:
            v = {n: x for n, x in vals.items() if S.inputs[n] == "int"}
            h = attempt(v, "solver integers, random reals", 0.0, r)
        else:
            h = attempt({}, "same path family, random values", 0.0, r)
        if h:
            return h
    return None
