"""Text representation of symbolic numbers: placeholder tokens that survive
formatting, string splitting and re-parsing."""
import re
from fractions import Fraction
from . import num as N

OPEN, CLOSE = "\u27e8", "\u27e9"
TABLE = []          # id -> (Num, spec)
TOK = re.compile(OPEN + r"(\d+)" + CLOSE)
SPEC = re.compile(r"^(?:(.)?([<>=^]))?([+\- ])?(#)?(0)?(\d+)?(,|_)?(?:\.(\d+))?([a-zA-Z%])?$")


def token(n, spec=""):
    TABLE.append((n, spec))
    return "%s%d%s" % (OPEN, len(TABLE) - 1, CLOSE)


def fmt(n, spec):
    m = SPEC.match(spec)
    if not m:
        raise ValueError("Invalid format specifier")
    fill, align, sign, alt, zero, width, comma, prec, typ = m.groups()
    if n.tag > 0 and typ in ("d", "b", "o", "x", "c", "n"):
        raise ValueError("Unknown format code '%s' for object of type 'float'" % typ)
    if typ == "s":
        raise ValueError("Unknown format code 's' for object of type 'float'")
    c = n.const()
    if c is not None:
        if n.tag == 0:
            return format(int(c), spec)
        if n.tag == 1:
            if not (prec is not None and int(prec) >= 12 and Fraction(c).denominator not in (1, 2, 4, 5, 8, 10)):
                return format(float(c), spec)
        if n.tag == 2:
            return format(complex(float(c), 0.0), spec)
    if n.tag == 2:
        v = N.approx_value(n)
        if n.real.const() is not None and n.imag.const() is not None:
            return format(complex(float(n.real.const()), float(n.imag.const())), spec)
        return token(n, spec)
    out = ""
    if sign == "+":
        neg = n < 0
        if bool(neg):
            out = "-"
            n = -n
        else:
            out = "+"
    s = out + token(n, spec)
    if width is not None:
        p = int(prec) if prec is not None else 0
        if int(width) > p + 2 + (sign is not None):
            s = (s + " ") if align == "<" else (" " + s)
    return s


_PCT = re.compile(r"%(?:\((\w+)\))?([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?(.)")


def percent(a, b):
    """a % b, with the printf-style formatting of str done through format()"""
    if not isinstance(a, str):
        return a % b
    args = list(b) if isinstance(b, tuple) else [b]
    if not any(isinstance(x, N.Num) for x in (b.values() if isinstance(b, dict) else args)):
        return a % b
    pos = [0]

    def take():
        if pos[0] >= len(args):
            raise TypeError("not enough arguments for format string")
        pos[0] += 1
        return args[pos[0] - 1]

    def one(m):
        name, flags, width, prec, typ = m.groups()
        if typ == "%":
            return "%"
        if width == "*":
            width = str(int(take()))
        if prec == "*":
            prec = str(int(take()))
        x = b[name] if name is not None else take()
        if not isinstance(x, N.Num):
            return ("%" + flags + (width or "") + ("." + prec if prec is not None else "") + typ) % (x,)
        if typ in "sra":
            t = format(str(x), ("<" if "-" in flags else ">") + (width or "") if width else "")
            return t
        if typ in "diu":
            x, typ, prec = N.num_trunc(x) if x.tag else x, "d", None
        elif typ in "eEfFgG":
            x = N.Num(x.t, 1) if x.tag == 0 else x
        else:
            raise N.Unsupported("%%%s of a symbolic number" % typ)
        f = "<" if "-" in flags else ">" if "0" not in flags else ""
        f += "+" if "+" in flags else " " if " " in flags else ""
        f += "0" if "0" in flags and "-" not in flags else ""
        return format(x, f + (width or "") + ("." + prec if prec is not None else "") + typ)

    out = _PCT.sub(one, a)
    if not isinstance(b, dict) and pos[0] < len(args):
        raise TypeError("not all arguments converted during string formatting")
    return out


def spec_decimals(spec):
    """(decimals, kind): number of decimals printed, None when exact"""
    m = SPEC.match(spec)
    prec, typ = m.group(8), m.group(9)
    if typ in ("f", "F"):
        return int(prec) if prec is not None else 6
    if prec is None:
        return None
    if typ in ("e", "E"):
        return ("sig", int(prec) + 1)
    return ("sig", int(prec))


def value_of(i):
    """number obtained by parsing token i back"""
    n, spec = TABLE[i]
    d = spec_decimals(spec)
    if d is None:
        return n
    if isinstance(d, tuple):
        if d[1] >= 12:
            return n
        raise N.Unsupported("re-parsing of %d significant digits" % d[1])
    if d >= 12:
        return n
    s = 10 ** d
    if n.tag == 0:
        return n
    r = N.num_round(n * s) / s
    return N.Num(r.t, 1)


def has_token(s):
    return OPEN in s


def parse_num(s, integer=False):
    """float()/int() of a string"""
    t = s.strip()
    neg = False
    u = t
    if u[:1] in "+-" and u[:1]:
        neg = u[0] == "-"
        u = u[1:]
    m = TOK.fullmatch(u)
    if not m:
        if has_token(s):
            raise ValueError("could not convert string to float: %r" % s)
        return None
    v = value_of(int(m.group(1)))
    if v.tag == 2:
        raise ValueError("could not convert string to float: %r" % s)
    if integer:
        if v.tag != 0:
            raise ValueError("invalid literal for int() with base 10: %r" % s)
        return -v if neg else v
    v = N.Num(v.t, 1)
    return -v if neg else v


def exact(s):
    """the exact number printed by the token(s) in s, and the spec"""
    t = s.strip()
    neg = False
    if t[:1] in ("+", "-"):
        neg = t[0] == "-"
        t = t[1:]
    m = TOK.fullmatch(t)
    if m:
        n, spec = TABLE[int(m.group(1))]
        return (-n if neg else n), spec
    return None


_NUM = r"(?:%s\d+%s|(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)" % (OPEN, CLOSE)
_CPLX = re.compile(r"(?P<re>[+-]?%s)?(?:(?P<im>[+-]?%s|[+-])[jJ])?" % (_NUM, _NUM))


def parse_complex(s):
    """complex() of a string with tokens"""
    t = s.strip()
    if t[:1] == "(" and t[-1:] == ")":
        t = t[1:-1].strip()
    m = re.fullmatch(r"(?P<im>[+-]?%s|[+-]?)[jJ]" % _NUM, t) or _CPLX.fullmatch(t)
    if not m or not t:
        raise ValueError("complex() arg is a malformed string")
    d = m.groupdict()

    def one(u):
        if u in (None,):
            return N.conv(0)
        if u in ("+", "-", ""):
            return N.conv(-1 if u == "-" else 1)
        v = parse_num(u)
        return N.conv(float(u)) if v is None else v
    re_, im = one(d.get("re")), one(d.get("im"))
    if d.get("re") and d.get("im") and d["im"][0] not in "+-":
        raise ValueError("complex() arg is a malformed string")
    return N.Num((re_ + N.I * im).t, 2)
