"""In-memory text files with symbolic numbers.

A symbolic number printed with a format specification becomes an opaque
token; reading the token back yields the value rounded as the format rounds."""
import io as _io
import re
from fractions import Fraction

from . import core
from .core import B, S, ZERO, Unsupported, lift

TOK = re.compile("\ue000(\\d+)\ue001")


def tokens():
    c = core.CTX
    if not hasattr(c, "tok"):
        c.tok = []
        c.fs = {}
    return c.tok


def fs():
    tokens()
    return core.CTX.fs


def new_token(v):
    t = tokens()
    t.append(v)
    return "\ue000%d\ue001" % (len(t) - 1)


SPEC = re.compile(r"^(?:(.)?([<>=^]))?([-+ ])?(#)?(0)?(\d+)?([,_])?(?:\.(\d+))?([a-zA-Z%])?$")


def rsig(x, digits):
    """x rounded to a number of significant decimal digits."""
    c = core.CTX
    if x.is_const():
        f = float(x.cval())
        return S.const(Fraction("%.*e" % (digits - 1, f)))
    if len(x.t) == 1:
        (m, k), = x.t.items()
        if len(m) == 1 and m[0][1] == 1 and abs(k) == 1:
            at = c.atoms[m[0][0]]
            if at.kind == "uf:rsig" and at.args[1] <= digits:
                return x
    new = ("uf:rsig", (x.key(), digits)) not in c.table
    a = c.atom("uf:rsig", (x, digits), ev=lambda env: float("%.*e" % (digits - 1, c.evalf(x, env))))
    s = c.s(a)
    if new:
        h = Fraction(5, 10**digits)
        ax = abs(x)
        c.fact(B(("<=", s - x - ax * h)))
        c.fact(B(("<=", x - s - ax * h)))
    return s


def formatter(v, spec):
    if v.sp:
        return format(float(v.sp), spec)
    if v.is_const() and "n" not in spec:
        return format(float(v.cval()), spec)
    m = SPEC.match(spec)
    if not m:
        raise ValueError("Invalid format specifier")
    fill, align, sign, alt, zero, width, comma, prec, typ = m.groups()
    if comma:
        raise Unsupported("format grouping")
    c = core.CTX
    w = int(width) if width else 0
    if typ in ("d", "x", "b", "o", "X", "c"):
        raise ValueError("Unknown format code '%s' for object of type 'float'" % typ)
    if typ in ("f", "F"):
        p = int(prec) if prec is not None else 6
        val = c.rnd(v, p)
        tail = p + 1 if p else 0
        introom = w - tail - 1  # one char must stay free for a blank
        if w and w > 0:
            if introom >= 2 and c.sure(B(("<", v - 10**(introom - 1)))) and c.sure(B(("<", -v - 10**(introom - 1)))):
                fits = True
            else:
                neg = bool(v < 0)
                room = introom - (1 if neg or sign in ("+", " ") else 0)
                fits = room >= 1 and bool(abs(v) < 10**room)
        else:
            fits = False
    elif typ in ("e", "E"):
        p = int(prec) if prec is not None else 6
        val = rsig(v, p + 1)
        ln = 1 + (1 + p if p else 0) + 4
        fits = w > ln + 1 or w > ln and not bool(v < 0)
    elif typ in ("g", "G", "n"):
        p = int(prec) if prec is not None else 6
        val = rsig(v, max(1, p))
        fits = w > p + 7
    elif typ is None:
        val = v if prec is None else rsig(v, max(1, int(prec)))
        fits = w > 24
    else:
        raise Unsupported("format %r" % spec)
    t = new_token(val)
    if not w or not fits:
        return t
    al = align or ">"
    pad = fill or " "
    if pad != " " or zero:
        return t
    if al == "<":
        return t + " "
    if al == ">":
        return " " + t
    if al == "^":
        return " " + t + " "
    return t


def parse_float(x):
    s = x.strip()
    m = TOK.fullmatch(s)
    if m:
        return tokens()[int(m.group(1))]
    m = re.fullmatch("-\ue000(\\d+)\ue001", s)
    if m:
        return -tokens()[int(m.group(1))]
    if "\ue000" in s or "\ue001" in s:
        raise ValueError("could not convert string to float: %r" % x)
    return lift(float(s))


class SymFile(_io.StringIO):
    def __init__(self, name, mode):
        self._name = str(name)
        self._mode = mode
        self._closed_once = False
        f = fs()
        if "r" in mode and "+" not in mode:
            if self._name not in f:
                raise FileNotFoundError(2, "No such file or directory", self._name)
            super().__init__(f[self._name])
        elif "a" in mode:
            super().__init__()
            self.write(f.get(self._name, ""))
        elif "w" in mode or "x" in mode:
            f[self._name] = ""
            super().__init__()
        else:
            raise Unsupported("open mode " + mode)

    def close(self):
        if not self.closed and ("w" in self._mode or "a" in self._mode or "x" in self._mode):
            fs()[self._name] = self.getvalue()
        super().close()

    def __exit__(self, *a):
        self.close()
        return False

    def __enter__(self):
        return self


def sym_open(name, mode="r", *a, **k):
    if "b" in mode:
        raise Unsupported("binary files")
    return SymFile(name, mode)


def genfromtxt(fname, skip_header=0, skip_footer=0, delimiter=None, max_rows=None, **kw):
    from .npshim import sarr

    bad = set(kw) - {"dtype", "comments"}
    if bad:
        raise Unsupported("genfromtxt options %r" % bad)
    if hasattr(fname, "readlines"):
        lines = fname.readlines()
    else:
        if str(fname) not in fs():
            raise FileNotFoundError("%s not found." % fname)
        lines = fs()[str(fname)].splitlines()
    lines = lines[skip_header:]
    rows = []
    for ln in lines:
        ln = ln.split("#")[0].strip()
        if not ln:
            continue
        rows.append(ln.split(delimiter))
    if skip_footer:
        rows = rows[:-skip_footer]
    if max_rows is not None:
        rows = rows[:max_rows]
    if not rows:
        return sarr([])
    n = len(rows[0])
    if any(len(r) != n for r in rows):
        raise ValueError("Some errors were detected !")
    out = []
    for r in rows:
        o = []
        for t in r:
            try:
                o.append(parse_float(t))
            except ValueError:
                o.append(S({}, "nan"))
        out.append(o)
    if len(out) == 1:
        return sarr(out[0])
    if n == 1:
        return sarr([r[0] for r in out])
    return sarr(out)
