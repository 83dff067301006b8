"""Exact symbolic scalars and path exploration.

A value is a polynomial with rational coefficients over interned *atoms*
(input variables and applications of sqrt, exp, cos, ... to such
polynomials).  Python control flow over symbolic conditions forks: one path
is executed per feasible combination of decisions (depth-first by
re-execution), feasibility being decided by z3 over the linear abstraction of
the polynomials plus the axioms of the atoms.
"""
import math
import sys
import time
from fractions import Fraction

import z3

sys.setrecursionlimit(20000)


class EngineStop(BaseException):
    """Never caught by the code under test."""


class Unsupported(EngineStop):
    def __init__(self, *a):
        super().__init__(*a)
        if CTX is not None and getattr(CTX, "stopped", None) is None:
            CTX.stopped = self  # remembered where a bare except swallows it


class PathCut(EngineStop):
    """The path's assumptions are infeasible (assume(False))."""


class Budget(EngineStop):
    pass


# --------------------------------------------------------------------------
CTX = None  # current Ctx


def ctx():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


class Atom:
    __slots__ = ("id", "kind", "args", "name", "pos", "nonneg", "ev", "payload")

    def __init__(self, id, kind, args, name):
        self.id = id
        self.kind = kind
        self.args = args
        self.name = name
        self.pos = False
        self.nonneg = False
        self.ev = None
        self.payload = None


def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def q(v):
    """Exact rational of a Python/numpy number (decimal reading of floats)."""
    if isinstance(v, (bool,)):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Fraction):
        return _norm(v)
    import numpy as np

    if isinstance(v, np.bool_):
        return int(v)
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, (float, np.floating)):
        f = float(v)
        if f != f or f in (float("inf"), float("-inf")):
            raise ValueError("special")
        r = Fraction(repr(f))
        if r.denominator > 10**9:
            # quotients such as 1.0/3.0 are read as the exact quotient
            r2 = r.limit_denominator(720)
            if float(r2) == f:
                r = r2
        return _norm(r)
    raise TypeError(type(v))


ONE = ()


class S:
    __slots__ = ("t", "sp", "_h")

    def __init__(self, t, sp=None):
        self.t = t
        self.sp = sp
        self._h = None

    # -- construction helpers
    @staticmethod
    def const(v):
        v = q(v)
        return S({ONE: v} if v != 0 else {})

    def is_const(self):
        if self.sp:
            return False
        t = self.t
        return not t or (len(t) == 1 and ONE in t)

    def cval(self):
        return self.t.get(ONE, 0)

    def key(self):
        if self._h is None:
            if self.sp:
                self._h = (self.sp,)
            else:
                self._h = tuple(sorted(self.t.items()))
        return self._h

    def __hash__(self):
        if self.is_const():
            return hash(self.cval())
        return hash(self.key())

    # -- printing
    def __repr__(self):
        if self.sp:
            return self.sp
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items()):
            mono = "*".join(
                CTX.atoms[a].name + ("^%d" % e if e != 1 else "") for a, e in m
            )
            if m == ONE:
                out.append(str(c))
            elif c == 1:
                out.append(mono)
            else:
                out.append("%s*%s" % (c, mono))
        s = " + ".join(out)
        return s if len(s) < 600 else s[:600] + "...[%d terms]" % len(self.t)

    __str__ = __repr__

    def __format__(self, spec):
        if CTX is not None and CTX.formatter is not None:
            return CTX.formatter(self, spec)
        return repr(self)

    # -- arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if self.sp or o.sp:
            return _sp_add(self, o)
        a, b = self.t, o.t
        if not b:
            return self
        if not a:
            return o
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = _norm(v + c)
                if v == 0:
                    del r[m]
                else:
                    r[m] = v
        return S(r)

    __radd__ = __add__

    def __neg__(self):
        if self.sp:
            return S({}, {"inf": "-inf", "-inf": "inf", "nan": "nan"}[self.sp])
        return S({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if self.sp or o.sp:
            return _sp_mul(self, o)
        a, b = self.t, o.t
        if not a or not b:
            return ZERO
        if len(a) == 1 and ONE in a:
            return o.scale(a[ONE])
        if len(b) == 1 and ONE in b:
            return self.scale(b[ONE])
        C = CTX
        # p * den(p)
        for x, y in ((self, o), (o, self)):
            if len(y.t) == 1 and len(x.t) > 1:
                (m, c), = y.t.items()
                for i, (aid, e) in enumerate(m):
                    at = C.atoms[aid]
                    if at.kind == "den" and e >= 1:
                        k = _proportional(x.t, at.payload.t)
                        if k is not None:
                            mm = (
                                m[:i]
                                + (((aid, e - 1),) if e > 1 else ())
                                + m[i + 1:]
                            )
                            return S({mm: _norm(c * k)})
        r = {}
        mm = C.mono_mul
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                p = mm(m1, m2)
                c = c1 * c2
                if type(p) is tuple:
                    v = r.get(p, 0) + c
                    if v == 0:
                        r.pop(p, None)
                    else:
                        r[p] = _norm(v)
                else:
                    for m, k in p.t.items():
                        v = r.get(m, 0) + c * k
                        if v == 0:
                            r.pop(m, None)
                        else:
                            r[m] = _norm(v)
            if len(r) > C.max_terms:
                raise Budget("polynomial too large")
        return S(r)

    __rmul__ = __mul__

    def scale(self, c):
        if c == 1:
            return self
        if c == 0:
            return ZERO
        return S({m: _norm(k * c) for m, k in self.t.items()})

    def inv(self):
        """1/self (self known non-zero)."""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            r = S({(): _norm(Fraction(1) / c)})
            plain = []
            for aid, e in m:
                at = CTX.atoms[aid]
                if at.kind == "exp":
                    r = r * CTX.exp(at.args[0] * (-e))
                elif at.kind == "csqrt":
                    # 1/sqrt(k) = sqrt(k)/k
                    k = at.payload.cval()
                    r = r * S({((aid, 1),): Fraction(1) / k}) if e == 1 else r * S.const(Fraction(1) / k)
                elif at.kind == "den":
                    r = r * (at.payload ** e)
                else:
                    plain.append((aid, -e))
            if plain:
                r = r * S({tuple(plain): 1})
            return r
        return CTX.den(self)

    def __truediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if self.sp or o.sp:
            return _sp_div(self, o)
        if o.is_const():
            c = o.cval()
            if c == 0:
                return _div0(self)
            return self.scale(_norm(Fraction(1) / c))
        if not (o == 0).decided_false():
            # forks unless the denominator is known to be non-zero
            if bool(o == 0):
                return _div0(self)
        if not self.t:
            return ZERO
        k = _proportional(self.t, o.t)
        if k is not None:
            return S.const(k)
        return self * o.inv()

    def __rtruediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return o / self

    def __floordiv__(self, o):
        return CTX.floor(self / o)

    def __rfloordiv__(self, o):
        return CTX.floor(lift(o) / self)

    def __mod__(self, o):
        o = lift(o)
        return self - CTX.floor(self / o) * o

    def __rmod__(self, o):
        return lift(o) % self

    def __pow__(self, o, mod=None):
        o = lift(o)
        if o is None:
            return NotImplemented
        if self.sp or o.sp:
            if o.is_const() and o.cval() == 2:
                return self * self
            raise Unsupported("pow of special")
        if o.is_const():
            e = o.cval()
            if isinstance(e, int):
                if e == 0:
                    return UNIT
                if e < 0:
                    return UNIT / (self ** (-e))
                r = None
                base = self
                while e:
                    if e & 1:
                        r = base if r is None else r * base
                    e >>= 1
                    if e:
                        base = base * base
                return r
            if e == Fraction(1, 2):
                return self.sqrt()
        return CTX.power(self, o)

    def __rpow__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return o ** self

    def __abs__(self):
        if self.sp:
            return S({}, "nan" if self.sp == "nan" else "inf")
        if self.is_const():
            return S.const(abs(self.cval()))
        c = self >= 0
        if bool(c):
            return self
        return -self

    # methods numpy's object loops call
    def sqrt(self):
        return CTX.sqrt(self)

    def exp(self):
        return CTX.exp(self)

    def log(self):
        return CTX.log(self)

    def sin(self):
        return CTX.sin(self)

    def cos(self):
        return CTX.cos(self)

    def tan(self):
        return CTX.sin(self) / CTX.cos(self)

    def arctan2(self, o):
        return CTX.arctan2(self, lift(o))

    def arccos(self):
        return CTX.arccos(self)

    def arctan(self):
        return CTX.arctan2(self, UNIT)

    def arcsin(self):
        return CTX.pi_s().scale(Fraction(1, 2)) - CTX.arccos(self)

    def hypot(self, o):
        return (self * self + lift(o) * lift(o)).sqrt()

    def deg2rad(self):
        return self * CTX.pi_s() / 180

    radians = deg2rad

    def rad2deg(self):
        return self * 180 / CTX.pi_s()

    degrees = rad2deg

    def square(self):
        return self * self

    def floor(self):
        return CTX.floor(self)

    def ceil(self):
        return -CTX.floor(-self)

    def log10(self):
        return CTX.log(self) / CTX.log(S.const(10))

    def expm1(self):
        return CTX.exp(self) - 1

    def conjugate(self):
        return self

    def cbrt(self):
        raise Unsupported("cbrt")

    def item(self):
        return self

    @property
    def real(self):
        return self

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        import numpy as np

        return np.dtype("float64")

    def ravel(self):
        from .npshim import sarr

        return sarr([self])

    flatten = ravel

    def __float__(self):
        if self.is_const():
            return float(self.cval())
        if self.sp:
            return float(self.sp)
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        if self.is_const():
            return int(self.cval())
        r = CTX.floor(self)
        if bool(self >= 0):
            return _concretize_int(r)
        return _concretize_int(-CTX.floor(-self))

    def __index__(self):
        if self.is_const() and isinstance(self.cval(), int):
            raise TypeError("'float' object cannot be interpreted as an integer")
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __round__(self, nd=None):
        return CTX.rnd(self, nd or 0)

    def __bool__(self):
        return bool(self != 0)

    def isnan(self):
        return self.sp == "nan"

    def isinf(self):
        return self.sp in ("inf", "-inf")

    # -- comparisons
    def _cmp(self, o, op):
        o = lift(o)
        if o is None:
            return NotImplemented
        if self.sp or o.sp:
            return _sp_cmp(self, o, op)
        d = self - o
        if not d.is_const():
            d = CTX.monotone(d)
        if d.is_const():
            v = d.cval()
            return B(
                {"==": v == 0, "!=": v != 0, "<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0}[op]
            )
        if op == ">":
            return B(("<", -d))
        if op == ">=":
            return B(("<=", -d))
        if op == "!=":
            return ~B(("==", _canon_sign(d)))
        if op == "==":
            return B(("==", _canon_sign(d)))
        return B((op, d))

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")


def _canon_sign(d):
    m = min(d.t)
    if d.t[m] < 0:
        return -d
    return d


def _proportional(a, b):
    """k with a == k*b, or None."""
    if len(a) != len(b) or not a:
        return None
    m0 = next(iter(a))
    if m0 not in b:
        return None
    k = Fraction(a[m0]) / b[m0]
    for m, c in a.items():
        v = b.get(m)
        if v is None or v * k != c:
            return None
    return _norm(k)


def _concretize_int(s):
    """Fork over the integer values of s (bounded)."""
    if s.is_const():
        return int(s.cval())
    for k in range(-1, 12):
        if bool(s == k):
            return k
    raise Unsupported("int() of an unbounded symbolic value")


def lift(v):
    if type(v) is S:
        return v
    if isinstance(v, B):
        if v.is_const():
            return S.const(int(v.c))
        return S.const(int(bool(v)))
    if isinstance(v, (int, Fraction)):
        return S.const(v)
    try:
        import numpy as np

        if isinstance(v, np.ndarray):
            if v.ndim == 0:
                return lift(v.item())
            return None
        if isinstance(v, (float, np.floating)):
            f = float(v)
            if f != f:
                return S({}, "nan")
            if f == float("inf"):
                return S({}, "inf")
            if f == float("-inf"):
                return S({}, "-inf")
            k = CTX.known_float(f) if CTX is not None else None
            if k is not None:
                return k
            return S.const(f)
        return S.const(v)
    except TypeError:
        return None


ZERO = S({})
UNIT = S({ONE: 1})


def _sp_add(a, b):
    s = {a.sp, b.sp} - {None}
    if "nan" in s or len(s) == 2:
        return S({}, "nan")
    return S({}, s.pop())


def _sgn(a):
    if a.sp == "inf":
        return 1
    if a.sp == "-inf":
        return -1
    if bool(a > 0):
        return 1
    if bool(a < 0):
        return -1
    return 0


def _sp_mul(a, b):
    if a.sp == "nan" or b.sp == "nan":
        return S({}, "nan")
    s = _sgn(a) * _sgn(b)
    return S({}, {1: "inf", -1: "-inf", 0: "nan"}[s])


def _sp_div(a, b):
    if a.sp == "nan" or b.sp == "nan" or (a.sp and b.sp):
        return S({}, "nan")
    if b.sp:
        return ZERO
    if b.is_const() and b.cval() == 0:
        return a
    s = _sgn(a) * _sgn(b)
    if s == 0:
        return a
    return S({}, {1: "inf", -1: "-inf"}[s])


def _div0(a):
    if CTX.pyscalar_div:
        raise ZeroDivisionError("division by zero")
    if a.is_const():
        v = a.cval()
        return S({}, "nan" if v == 0 else ("inf" if v > 0 else "-inf"))
    s = _sgn(a)
    return S({}, {1: "inf", -1: "-inf", 0: "nan"}[s])


def _sp_cmp(a, b, op):
    if a.sp == "nan" or b.sp == "nan":
        return B(op == "!=")
    def v(x):
        return {"inf": 1, "-inf": -1, None: 0}[x.sp]
    x, y = v(a), v(b)
    return B(
        {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
    )


# --------------------------------------------------------------------------
def _bkey(k, p):
    t = sorted(p.t.items())
    c = t[0][1] if t else 1
    if k != "==":
        c = abs(c)
    if c != 1 and isinstance(c, (int, Fraction)):
        t = [(m, Fraction(v) / c) for m, v in t]
    return (k, tuple(t))


class B:
    """Symbolic truth value.  c is bool, ('==',p), ('<',p), ('<=',p),
    ('not',B), ('and',[B]), ('or',[B])."""

    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def is_const(self):
        return self.c is True or self.c is False

    def decided_false(self):
        return self.c is False

    def __bool__(self):
        if self.c is True or self.c is False:
            return self.c
        return CTX.decide(self)

    def __invert__(self):
        if self.is_const():
            return B(not self.c)
        k = self.c[0]
        if k == "not":
            return self.c[1]
        if k == "<":
            return B(("<=", -self.c[1]))
        if k == "<=":
            return B(("<", -self.c[1]))
        return B(("not", self))

    def __and__(self, o):
        if not isinstance(o, B):
            o = B(bool(o))
        if self.c is False or o.c is False:
            return B(False)
        if self.c is True:
            return o
        if o.c is True:
            return self
        return B(("and", [self, o]))

    __rand__ = __and__

    def __or__(self, o):
        if not isinstance(o, B):
            o = B(bool(o))
        if self.c is True or o.c is True:
            return B(True)
        if self.c is False:
            return o
        if o.c is False:
            return self
        return B(("or", [self, o]))

    __ror__ = __or__

    def logical_not(self):
        return ~self

    def __repr__(self):
        if self.is_const():
            return str(self.c)
        k = self.c[0]
        if k in ("==", "<", "<="):
            return "%r %s 0" % (self.c[1], k)
        if k == "not":
            return "not(%r)" % self.c[1]
        return "(" + (" %s " % k).join(map(repr, self.c[1])) + ")"

    def to_z3(self, enc):
        if self.is_const():
            return z3.BoolVal(self.c)
        k = self.c[0]
        if k == "==":
            return enc(self.c[1]) == 0
        if k == "<":
            return enc(self.c[1]) < 0
        if k == "<=":
            return enc(self.c[1]) <= 0
        if k == "not":
            return z3.Not(self.c[1].to_z3(enc))
        if k == "and":
            return z3.And([b.to_z3(enc) for b in self.c[1]])
        return z3.Or([b.to_z3(enc) for b in self.c[1]])

    def polys(self):
        if self.is_const():
            return []
        k = self.c[0]
        if k in ("==", "<", "<="):
            return [self.c[1]]
        if k == "not":
            return self.c[1].polys()
        return [p for b in self.c[1] for p in b.polys()]

    def ev(self, env, tol=0.0):
        """Numeric evaluation."""
        if self.is_const():
            return self.c
        k = self.c[0]
        if k in ("==", "<", "<="):
            v = CTX.evalf(self.c[1], env)
            if v != v:
                return False
            if k == "==":
                return abs(v) <= tol
            return v < 0 if k == "<" else v <= tol
        if k == "not":
            return not self.c[1].ev(env, tol)
        if k == "and":
            return all(b.ev(env, tol) for b in self.c[1])
        return any(b.ev(env, tol) for b in self.c[1])


def AND(*bs):
    r = B(True)
    for b in bs:
        r = r & b
    return r


def OR(*bs):
    r = B(False)
    for b in bs:
        r = r | b
    return r


def NOT(b):
    return ~b if isinstance(b, B) else B(not b)


# --------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.goals = 0
        self.proved = 0
        self.cut = 0
        self.infeasible = 0

    def merge(self, d):
        for k, v in d.items():
            setattr(self, k, getattr(self, k) + v)

    def as_dict(self):
        return dict(self.__dict__)


class Ctx:
    """State of one path."""

    def __init__(self, prefix, stats, opts=None):
        opts = opts or {}
        self.atoms = []
        self.table = {}
        self.special = set()
        self.mm_cache = {}
        self.prefix = prefix  # list of (kind, value)
        self.trace = []
        self.pending = []  # alternative prefixes discovered
        self.pc = []  # list of B, in order
        self.settled = {}
        self.eqs = []  # polynomials known to be zero
        self.stats = stats
        self.max_terms = opts.get("max_terms", 60000)
        self.max_decisions = opts.get("max_decisions", 4000)
        z3.z3._main_ctx = None  # no influence of earlier paths on the search
        self.solver = z3.SolverFor("QF_LRA")
        self.solver.set("timeout", opts.get("decide_ms", 1500))
        self.zmono = {}
        self.inputs = {}  # name -> (S, meta)
        self.choices = {}
        self.formatter = None
        self.pyscalar_div = False
        self._pi = None
        self.exps = []
        self.stopped = None
        self.square_facts = True
        self.failures = []
        self.reached = 0
        self.notes = []
        self.invs = []
        self.deadline = opts.get("deadline")
        self._kf = {}

    # ---------------------------------------------------------------- atoms
    def atom(self, kind, args, name=None, special=False, pos=False, nonneg=False, payload=None, ev=None):
        k = (kind, tuple(a.key() if type(a) is S else a for a in args))
        a = self.table.get(k)
        if a is not None:
            return a
        a = Atom(len(self.atoms), kind, args, name or "%s#%d" % (kind, len(self.atoms)))
        a.pos = pos
        a.nonneg = nonneg or pos
        a.payload = payload
        a.ev = ev
        self.atoms.append(a)
        self.table[k] = a
        if special:
            self.special.add(a.id)
        if a.pos:
            self.fact(B(("<", -self.s(a))))
        elif a.nonneg:
            self.fact(B(("<=", -self.s(a))))
        return a

    def s(self, a):
        return S({((a.id, 1),): 1})

    def var(self, name, pos=False, nonneg=False):
        return self.s(self.atom("var", (name,), name, pos=pos, nonneg=nonneg))

    def fresh(self, stem, ev=None, pos=False, nonneg=False, key=None):
        name = "%s!%d" % (stem, len(self.atoms))
        return self.s(
            self.atom("fresh", (key if key is not None else name,), name, ev=ev, pos=pos, nonneg=nonneg)
        )

    def known_float(self, f):
        if not self._kf:
            import numpy as np

            p = self.pi_s()
            self._kf = {
                np.pi: p,
                -np.pi: -p,
                np.pi / 180.0: p.scale(Fraction(1, 180)),
                np.pi / 2: p.scale(Fraction(1, 2)),
                2 * np.pi: p.scale(2),
                360.0 / np.pi: S.const(360) / p,
                180.0 / np.pi: S.const(180) / p,
            }
        return self._kf.get(f)

    # ------------------------------------------------------------ monomials
    def mono_mul(self, m1, m2):
        if not m1:
            return m2
        if not m2:
            return m1
        k = (m1, m2) if m1 <= m2 else (m2, m1)
        r = self.mm_cache.get(k)
        if r is not None:
            return r
        d = dict(m1)
        hit = False
        sp = self.special
        nexp = 0
        for a, e in m1:
            if a in sp:
                hit = True
        for a, e in m2:
            if a in sp:
                hit = True
            v = d.get(a, 0) + e
            if v:
                d[a] = v
            else:
                d.pop(a, None)
        if not hit:
            r = tuple(sorted(d.items()))
        else:
            r = self._reduce(d)
        self.mm_cache[k] = r
        return r

    def _reduce(self, d):
        sp = self.special
        exps = []
        mult = None
        for a in list(d):
            if a not in sp:
                continue
            e = d[a]
            at = self.atoms[a]
            if at.kind in ("sqrt", "csqrt"):
                if e >= 2 or e < -1 or (e == -1 and at.kind == "csqrt"):
                    h, rem = divmod(e, 2)
                    if rem:
                        d[a] = 1
                    else:
                        del d[a]
                    p = at.payload ** h if h > 0 else (at.payload ** (-h)).inv()
                    mult = p if mult is None else mult * p
            elif at.kind == "sin":
                if e >= 2:
                    h, rem = divmod(e, 2)
                    if rem:
                        d[a] = 1
                    else:
                        del d[a]
                    c = self.cos(at.args[0])
                    p = (UNIT - c * c) ** h
                    mult = p if mult is None else mult * p
            elif at.kind == "exp":
                exps.append((a, e))
        if len(exps) > 1 or (exps and exps[0][1] != 1):
            tot = ZERO
            for a, e in exps:
                tot = tot + self.atoms[a].args[0].scale(e)
                del d[a]
            p = self.exp(tot)
            mult = p if mult is None else mult * p
        m = tuple(sorted(d.items()))
        if mult is None:
            return m
        r = S({m: 1}) * mult if m else mult
        if len(r.t) == 1 and next(iter(r.t.values())) == 1:
            return next(iter(r.t))
        return r

    # ------------------------------------------------------------ functions
    def pi_s(self):
        if self._pi is None:
            a = self.atom("pi", (), "pi", pos=True)
            self._pi = self.s(a)
            self.fact(B(("<", S.const(Fraction(314159265, 10**8)) - self._pi)))
            self.fact(B(("<", self._pi - S.const(Fraction(314159266, 10**8)))))
        return self._pi

    def den(self, p):
        lead = p.t[min(p.t)]
        c = p.scale(_norm(Fraction(1) / lead))
        a = self.atom("den", (c,), special=False, payload=c)
        s = self.s(a)
        return s.scale(_norm(Fraction(1) / lead))

    def sqrt(self, x):
        if x.sp:
            return S({}, "nan") if x.sp != "inf" else x
        if x.is_const():
            v = Fraction(x.cval())
            if v < 0:
                return S({}, "nan")
            return self._csqrt(v)
        # pull the rational content out
        lead = abs(Fraction(x.t[min(x.t)]))
        sq = lead
        # monomial content with even exponents
        if len(x.t) == 1:
            (m, c), = x.t.items()
            if all(e % 2 == 0 for _, e in m) and c > 0:
                root = S({tuple((a, e // 2) for a, e in m): 1})
                return self._csqrt(Fraction(c)) * abs(root)
        r = _poly_sqrt(x)
        if r is not None:
            return abs(r)
        y = x.scale(_norm(1 / sq))
        # common even monomial factors of known sign
        com = None
        for m in y.t:
            dd = dict(m)
            com = dd if com is None else {a: min(e, dd.get(a, 0)) for a, e in com.items() if a in dd and dd[a] > 0 and e > 0}
            if not com:
                break
        if com:
            com = {a: (e // 2) * 2 for a, e in com.items() if e >= 2}
        if com:
            y = S({tuple(sorted((a, e - com.get(a, 0)) for a, e in m if e - com.get(a, 0))): c for m, c in y.t.items()})
            root = S({tuple(sorted((a, e // 2) for a, e in com.items())): 1})
            return self._csqrt(sq) * abs(root) * self.sqrt(y)
        new = ("sqrt", (y.key(),)) not in self.table
        a = self.atom("sqrt", (y,), special=True, nonneg=True, payload=y)
        s = self.s(a)
        if new:
            self.fact(B(("<=", -y)))
        return self._csqrt(sq) * s

    def _csqrt(self, v):
        n, d = v.numerator, v.denominator
        # sqrt(n/d) = sqrt(n*d)/d
        k = n * d
        out = 1
        f = 2
        r = math.isqrt(k)
        if r * r == k:
            return S.const(Fraction(r, d))
        rest = k
        while f * f <= rest and f < 10000:
            while rest % (f * f) == 0:
                rest //= f * f
                out *= f
            f += 1
        a = self.atom("csqrt", (rest,), "sqrt(%d)" % rest, special=True, pos=True, payload=S.const(rest))
        s = self.s(a)
        lo = Fraction(math.isqrt(rest * 10**20), 10**10)
        self.fact(B(("<=", S.const(lo) - s)))
        self.fact(B(("<=", s - S.const(lo + Fraction(1, 10**10)))))
        return s.scale(_norm(Fraction(out, d)))

    def exp(self, x):
        if x.sp:
            if x.sp == "-inf":
                return ZERO
            return x
        if x.is_const() and x.cval() == 0:
            return UNIT
        # exp(log(y)) and exp(k*log(y) + r)
        for m, c in x.t.items():
            if len(m) == 1 and m[0][1] == 1:
                at = self.atoms[m[0][0]]
                if at.kind == "log" and (isinstance(c, int) or ((c > 1 or c < 0) and not at.args[0].is_const())):
                    n = math.floor(c)
                    rest = {k: v for k, v in x.t.items() if k != m}
                    if c != n:
                        rest[m] = _norm(Fraction(c) - n)
                    return (at.args[0] ** n) * self.exp(S(rest))
        new = ("exp", (x.key(),)) not in self.table
        a = self.atom("exp", (x,), special=True, pos=True)
        s = self.s(a)
        if new:
            self.fact(B(("<=", x + 1 - s)))  # exp x >= 1 + x
            self.fact(OR(B(("<", -x)), B(("<=", s - 1))))
            self.fact(OR(B(("<=", -x)), B(("<", s - 1))))
            if x.is_const() and abs(x.cval()) < 500:  # enclosure
                v = Fraction(math.exp(float(x.cval())))
                w = v * (1 + Fraction(abs(x.cval()))) / 10**12
                self.fact(B(("<=", S.const(v - w) - s)))
                self.fact(B(("<=", s - S.const(v + w))))
            for o, so in self.exps[-12:]:
                d = x - o
                self.fact(OR(B(("<", -d)), B(("<=", s - so))))
                self.fact(OR(B(("<", d)), B(("<=", so - s))))
            self.exps.append((x, s))
        return s

    def positive(self, a):
        """Atom known positive by its form."""
        at = self.atoms[a]
        if at.kind == "den":
            return all(c > 0 and all(self.positive(b) or e % 2 == 0 for b, e in m) for m, c in at.payload.t.items()) and (
                any(all(self.positive(b) for b, e in m) for m in at.payload.t))
        return at.pos

    def monotone(self, d):
        """A polynomial of the same sign, simpler: common positive factors
        dropped, exponentials of both sides replaced by their arguments."""
        if not any(self.atoms[a].kind == "exp" for m in d.t for a, _ in m):
            return d
        com = None
        for m in d.t:
            f = {a: e for a, e in m if self.positive(a)}
            com = f if com is None else {a: min(e, f.get(a, 0)) for a, e in com.items() if (e > 0) == (f.get(a, 0) > 0) and a in f}
        com = {a: e for a, e in com.items() if e}
        if com:
            d = S({tuple(sorted((a, e - com.get(a, 0)) for a, e in m if e != com.get(a, 0))): c for m, c in d.t.items()})
        if len(d.t) == 2:
            (m1, c1), (m2, c2) = d.t.items()
            if c1 < 0 < c2:
                m1, c1, m2, c2 = m2, c2, m1, c1
            if c1 > 0 > c2 and all(self.positive(a) for m in (m1, m2) for a, _ in m) and any(
                    self.atoms[a].kind == "exp" for m in (m1, m2) for a, _ in m):
                return self.log(S({m1: c1})) - self.log(S({m2: -c2}))
        return d

    def log(self, x):
        if x.sp:
            return x if x.sp == "inf" else S({}, "nan")
        if x.is_const():
            v = x.cval()
            if v == 1:
                return ZERO
            if v == 0:
                return S({}, "-inf")
            if v < 0:
                return S({}, "nan")
        else:
            if bool(x <= 0):
                if bool(x == 0):
                    return S({}, "-inf")
                return S({}, "nan")
        if len(x.t) == 1:
            (m, c), = x.t.items()
            if len(m) == 1 and c == 1:
                at = self.atoms[m[0][0]]
                if at.kind == "exp" and m[0][1] == 1:
                    return at.args[0]
                if m[0][1] != 1 and at.pos:
                    return self.log(self.s(at)).scale(m[0][1])
                if at.kind == "sqrt" and m[0][1] == 1:
                    return self.log(at.payload).scale(Fraction(1, 2))
            elif len(m) > 1 and all(self.positive(a) for a, _ in m):
                r = self.log(S.const(c))
                for a, e in m:
                    if self.atoms[a].kind == "den":
                        r = r - self.log(self.atoms[a].payload).scale(e)
                    else:
                        r = r + self.log(self.s(self.atoms[a])).scale(e)
                return r
        k = ("log", (x.key(),))
        new = k not in self.table
        a = self.atom("log", (x,))
        s = self.s(a)
        if new:
            self.fact(B(("<=", s - (x - 1))))
        return s

    def power(self, x, y):
        """x**y for non-integer or symbolic exponents, x >= 0 expected."""
        if x.is_const() and x.cval() == 1:
            return UNIT
        if x.is_const() and x.cval() == 0:
            if bool(y > 0):
                return ZERO
            if bool(y == 0):
                return UNIT
            return S({}, "inf")
        if bool(x < 0):
            return S({}, "nan")
        if bool(x == 0):
            return self.power(ZERO, y)
        new = ("pow", (x.key(), y.key())) not in self.table
        a = self.atom("pow", (x, y), pos=True)
        s = self.s(a)
        return s

    def _pi_split(self, x):
        """x = k*pi + rest with rational k."""
        p = self.pi_s()
        m = next(iter(p.t))
        k = x.t.get(m, 0)
        rest = x - p.scale(k) if k else x
        return Fraction(k), rest

    def sin(self, x):
        k, rest = self._pi_split(x)
        return self._trig(k, rest, "sin")

    def cos(self, x):
        k, rest = self._pi_split(x)
        return self._trig(k, rest, "cos")

    def _trig(self, k, rest, f):
        k = k % 2
        # reduce k to [0, 1/2) by quarter turns
        quarter = int(k / Fraction(1, 2))
        k0 = k - Fraction(quarter, 2)
        for _ in range(quarter):
            pass
        # sin(a + pi/2) = cos a ; cos(a + pi/2) = -sin a
        sign = 1
        fn = f
        for _ in range(quarter):
            if fn == "sin":
                fn = "cos"
            else:
                fn = "sin"
                sign = -sign
        r = self._trig0(k0, rest, fn)
        return r if sign == 1 else -r

    def _trig0(self, k, rest, fn):
        if not rest.t:
            if k == 0:
                return ZERO if fn == "sin" else UNIT
            tab = {
                Fraction(1, 6): (S.const(Fraction(1, 2)), lambda: self._csqrt(Fraction(3)).scale(Fraction(1, 2))),
                Fraction(1, 4): (None, None),
                Fraction(1, 3): (None, None),
            }
            if k == Fraction(1, 6):
                return S.const(Fraction(1, 2)) if fn == "sin" else self._csqrt(Fraction(3, 4))
            if k == Fraction(1, 3):
                return self._csqrt(Fraction(3, 4)) if fn == "sin" else S.const(Fraction(1, 2))
            if k == Fraction(1, 4):
                return self._csqrt(Fraction(1, 2))
        elif k != 0:
            # keep sums of a constant angle and a symbolic one separate
            a, b = self._trig0(k, ZERO, "sin"), self._trig0(k, ZERO, "cos")
            s, c = self._trig0(Fraction(0), rest, "sin"), self._trig0(Fraction(0), rest, "cos")
            return a * c + b * s if fn == "sin" else b * c - a * s
        x = rest + self.pi_s().scale(_norm(k)) if k else rest
        # arctan2 / arccos arguments
        if len(x.t) == 1:
            (m, c), = x.t.items()
            if len(m) == 1 and m[0][1] == 1:
                at = self.atoms[m[0][0]]
                if at.kind == "arctan2" and c in (1, -1):
                    y0, x0 = at.args
                    rho = self.sqrt(y0 * y0 + x0 * x0)
                    if fn == "sin":
                        return (y0 / rho).scale(c)
                    return x0 / rho
                if at.kind == "arccos" and c in (1, -1):
                    x0 = at.args[0]
                    if fn == "cos":
                        return x0
                    return self.sqrt(UNIT - x0 * x0).scale(c)
                if at.kind == "arccos" and c in (2, -2):
                    x0 = at.args[0]
                    if fn == "cos":
                        return x0 * x0 * 2 - 1
                    return (self.sqrt(UNIT - x0 * x0) * x0).scale(c)
        neg = x.t[min(x.t)] < 0
        if neg:
            x = -x
        kk = (fn, (x.key(),))
        new = kk not in self.table
        a = self.atom(fn, (x,), special=(fn == "sin"))
        s = self.s(a)
        if new:
            self.fact(B(("<=", s - 1)))
            self.fact(B(("<=", -s - 1)))
        return -s if (neg and fn == "sin") else s

    def arctan2(self, y, x):
        if y.is_const() and y.cval() == 0:
            if x.is_const():
                return ZERO if x.cval() >= 0 else self.pi_s()
            if bool(x >= 0):
                return ZERO
            return self.pi_s()
        kk = ("arctan2", (y.key(), x.key()))
        new = kk not in self.table
        nn = new and self.check(B(("<", y)).to_z3(self.enc)) == z3.unsat
        a = self.atom("arctan2", (y, x), nonneg=nn)
        s = self.s(a)
        if new:
            p = self.pi_s()
            self.fact(B(("<=", s - p)))
            self.fact(B(("<", -s - p)))
            self.fact(OR(B(("<", y)), B(("<=", -s))))  # y>=0 -> s>=0
            self.fact(OR(B(("<=", -y)), B(("<=", s))))  # y<0 -> s<=0
        return s

    def arccos(self, x):
        if x.is_const():
            v = Fraction(x.cval())
            p = self.pi_s()
            t = {Fraction(1): ZERO, Fraction(0): p.scale(Fraction(1, 2)), Fraction(-1): p,
                 Fraction(1, 2): p.scale(Fraction(1, 3)), Fraction(-1, 2): p.scale(Fraction(2, 3))}
            if v in t:
                return t[v]
            if abs(v) > 1:
                return S({}, "nan")
        else:
            if bool(x > 1) or bool(x < -1):
                return S({}, "nan")
        kk = ("arccos", (x.key(),))
        new = kk not in self.table
        a = self.atom("arccos", (x,), nonneg=True)
        s = self.s(a)
        if new:
            h = self.pi_s().scale(Fraction(1, 2))
            self.fact(B(("<=", s - self.pi_s())))
            self.fact(OR(B(("<", x)), B(("<=", s - h))))
            self.fact(OR(B(("<", -x)), B(("<=", h - s))))
        return s

    def floor(self, x):
        if x.sp:
            return x
        if x.is_const():
            return S.const(math.floor(Fraction(x.cval())))
        kk = ("floor", (x.key(),))
        new = kk not in self.table
        a = self.atom("floor", (x,))
        s = self.s(a)
        if new:
            self.fact(B(("<=", s - x)))
            self.fact(B(("<", x - s - 1)))
        return s

    def rnd(self, x, nd):
        """x rounded to nd decimals (any rounding of ties)."""
        if x.sp:
            return x
        if x.is_const():
            f = Fraction(x.cval())
            r = round(f * 10**nd) / Fraction(10**nd)
            return S.const(r)
        # rounding an already rounded value is the identity
        if len(x.t) == 1:
            (m, c), = x.t.items()
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
                at = self.atoms[m[0][0]]
                if at.kind == "rnd" and at.args[1] <= nd:
                    return x
        kk = ("rnd", (x.key(), nd))
        new = kk not in self.table
        a = self.atom("rnd", (x, nd))
        s = self.s(a)
        if new:
            h = Fraction(1, 2 * 10**nd)
            self.fact(B(("<=", s - x - h)))
            self.fact(B(("<=", x - s - h)))
        return s

    def minmax(self, xs, kind):
        """max / min of several values as one atom (no fork)."""
        d = {}
        for x in xs:
            if x.sp:
                if x.sp == "nan":
                    return x
                if (x.sp == "inf") == (kind == "max"):
                    return x
                continue
            d[x.key()] = x
        xs = list(d.values())
        if not xs:
            raise Unsupported("max of nothing")
        if len(xs) == 1:
            return xs[0]
        cs = [x for x in xs if x.is_const()]
        if len(cs) > 1:
            best = (max if kind == "max" else min)(cs, key=lambda x: x.cval())
            xs = [x for x in xs if not x.is_const()] + [best]
            if len(xs) == 1:
                return xs[0]
        xs.sort(key=lambda x: x.key())
        if len(xs) == 2 and (xs[0].is_const() or xs[1].is_const()):
            # a clamp that never acts, or always
            d = xs[1] - xs[0] if kind == "max" else xs[0] - xs[1]
            if self.check(B(("<", d)).to_z3(self.enc)) == z3.unsat:
                return xs[1]
            if self.check(B(("<", -d)).to_z3(self.enc)) == z3.unsat:
                return xs[0]
        kk = (kind, tuple(x.key() for x in xs))
        new = kk not in self.table
        a = self.atom(kind, tuple(xs))
        s = self.s(a)
        if new:
            for x in xs:
                self.fact(B(("<=", x - s if kind == "max" else s - x)))
            self.fact(OR(*[B(("==", s - x)) for x in xs]))
        return s

    def uf(self, fname, args, pos=False, nonneg=False, ev=None):
        args = tuple(lift(a) for a in args)
        a = self.atom("uf:" + fname, args, pos=pos, nonneg=nonneg, ev=ev)
        if a.name.startswith("uf:"):
            a.name = "%s(%s)" % (fname, ",".join(repr(x)[:40] for x in args))
        return self.s(a)

    # ---------------------------------------------------------------- facts
    def enc(self, p):
        """Linear abstraction of a polynomial."""
        if not p.t:
            return z3.RealVal(0)
        ts = []
        for m, c in p.t.items():
            cv = z3.RealVal(str(c))
            if m == ONE:
                ts.append(cv)
            else:
                v = self.zmono.get(m)
                if v is None:
                    v = z3.Real("m%d" % len(self.zmono))
                    self.zmono[m] = v
                    self._mono_facts(m, v)
                ts.append(v if c == 1 else cv * v)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def _mono_facts(self, m, v):
        if len(m) == 1 and m[0][1] == 1:
            return
        strict = True
        for a, e in m:
            at = self.atoms[a]
            if at.pos:
                continue
            strict = False
            if e % 2 == 0 or at.nonneg:
                continue
            return
        self.solver.add(v > 0 if strict else v >= 0)

    def fact(self, b):
        """Add a true fact (axiom)."""
        if b.is_const():
            return
        self.solver.add(b.to_z3(self.enc))
        self.pc.append(("fact", b))

    def assume(self, b):
        if not isinstance(b, B):
            if b:
                return
            raise PathCut()
        if b.is_const():
            if not b.c:
                raise PathCut()
            return
        self._add(b, "assume")

    def _known(self, b):
        """b decided before on this path, up to a positive factor?"""
        k = b.c[0]
        if k == "not":
            r = self._known(b.c[1])
            return None if r is None else not r
        if k not in ("<", "<=", "=="):
            return None
        return self.settled.get(_bkey(k, b.c[1]))

    def _settle(self, b):
        k = b.c[0]
        if k == "and":
            for x in b.c[1]:
                if not x.is_const():
                    self._settle(x)
        elif k in ("<", "<="):
            p = b.c[1]
            self.settled[_bkey(k, p)] = True
            self.settled[_bkey("<=", p)] = True
            self.settled[_bkey("<=" if k == "<" else "<", -p)] = False
            if k == "<":
                self.settled[_bkey("<", -p)] = False
                self.settled[_bkey("==", p)] = False
        elif k == "==":
            p = b.c[1]
            self.settled[_bkey("==", p)] = True
            for q in (p, -p):
                self.settled[_bkey("<=", q)] = True
                self.settled[_bkey("<", q)] = False
        elif k == "not" and b.c[1].c[0] == "==":
            self.settled[_bkey("==", b.c[1].c[1])] = False

    def _add(self, b, kind):
        self.solver.add(b.to_z3(self.enc))
        self._settle(b)
        self.pc.append((kind, b))
        if b.c[0] == "==":
            self.eqs.append(b.c[1])
        elif b.c[0] == "and":
            for x in b.c[1]:
                if not x.is_const() and x.c[0] == "==":
                    self.eqs.append(x.c[1])

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget("time")

    def check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        dt = time.time() - t
        st = self.stats
        st.queries += 1
        st.solver_s += dt
        if r == z3.unsat:
            st.unsat += 1
        elif r == z3.sat:
            st.sat += 1
        else:
            st.unknown += 1
        return r

    def decide(self, b):
        """Truth of b on this path, forking when both are possible."""
        self.tick()
        if b.c[0] in ("==", "<", "<=") and len(b.c[1].t) == 1:
            (m, c), = b.c[1].t.items()
            if all(e > 0 for _, e in m) and any(e > 2 or (e == 2 and b.c[0] == "==") for _, e in m):
                odd = (lambda e: 1) if b.c[0] == "==" else (lambda e: 2 - e % 2)
                b = B((b.c[0], S({tuple((a, odd(e)) for a, e in m): c})))
        i = len(self.trace)
        if i < len(self.prefix):
            kind, v = self.prefix[i]
            self.trace.append((kind, v))
            if kind == "d" or kind == "f":
                if self._known(b) is None:
                    self._add(b if v else ~b, "dec")
                return v
            raise EngineStop("replay divergence: %s" % kind)
        if len(self.trace) > self.max_decisions:
            raise Budget("too many decisions")
        v = self._known(b)
        if v is not None:
            self.trace.append(("f", v))
            return v
        f = b.to_z3(self.enc)
        rt = self.check(f)
        if rt == z3.unsat:
            self.trace.append(("f", False))
            self._add(~b, "dec")
            return False
        rf = self.check(z3.Not(f))
        if rf == z3.unsat:
            self.trace.append(("f", True))
            self._add(b, "dec")
            return True
        self.pending.append(self.trace + [("d", False)])
        self.trace.append(("d", True))
        self._add(b, "dec")
        return True

    def sure(self, b):
        """b holds on this path for certain (no fork)."""
        if b.is_const():
            return bool(b)
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i][1]
        else:
            v = self._known(b)
            if v is None:
                v = self.check(z3.Not(b.to_z3(self.enc))) == z3.unsat
        self.trace.append(("s", v))
        return v

    def recorded(self, f):
        """Outcome of a side computation, the same on every path that shares
        this point."""
        i = len(self.trace)
        v = self.prefix[i][1] if i < len(self.prefix) else bool(f())
        self.trace.append(("s", v))
        return v

    def choice(self, name, values):
        """Enumerated (unconstrained) discrete choice."""
        i = len(self.trace)
        if i < len(self.prefix):
            kind, v = self.prefix[i]
            assert kind == "c"
            self.trace.append((kind, v))
        else:
            for k in range(len(values) - 1, 0, -1):
                self.pending.append(self.trace + [("c", k)])
            v = 0
            self.trace.append(("c", 0))
        self.choices[name] = v
        return values[v]

    # ------------------------------------------------------------- numerics
    def evalf(self, s, env):
        """Numeric value under env: {input name: float}."""
        if s.sp:
            return float(s.sp)
        tot = 0.0
        for m, c in s.t.items():
            v = float(c)
            for a, e in m:
                x = self.eval_atom(self.atoms[a], env)
                try:
                    v *= x**e
                except ZeroDivisionError:
                    v = float("nan")
                except OverflowError:
                    v = float("inf")
            tot += v
        return tot

    def eval_atom(self, at, env):
        cache = env.setdefault("__cache__", {})
        if at.id in cache:
            return cache[at.id]
        k = at.kind
        try:
            if k == "var":
                v = float(env[at.name])
            elif k == "pi":
                v = math.pi
            elif k in ("sqrt", "csqrt"):
                v = math.sqrt(max(0.0, self.evalf(at.payload, env)))
            elif k == "den":
                v = 1.0 / self.evalf(at.payload, env)
            elif k in ("exp", "log", "sin", "cos"):
                v = getattr(math, k)(self.evalf(at.args[0], env))
            elif k == "arccos":
                v = math.acos(max(-1.0, min(1.0, self.evalf(at.args[0], env))))
            elif k == "arctan2":
                v = math.atan2(self.evalf(at.args[0], env), self.evalf(at.args[1], env))
            elif k == "floor":
                v = math.floor(self.evalf(at.args[0], env))
            elif k == "rnd":
                v = round(self.evalf(at.args[0], env), at.args[1])
            elif k == "pow":
                v = self.evalf(at.args[0], env) ** self.evalf(at.args[1], env)
            elif k in ("max", "min"):
                v = (max if k == "max" else min)(self.evalf(x, env) for x in at.args)
            elif at.ev is not None:
                v = at.ev(env)
            else:
                v = float("nan")
        except (ValueError, ZeroDivisionError, OverflowError):
            v = float("nan")
        cache[at.id] = v
        return v


def _poly_sqrt(x):
    """Polynomial r with r*r == x if x is a perfect square over plain atoms."""
    C = CTX
    n = len(x.t)
    if n < 3 or n > 40:
        return None
    # only plain variables / non special atoms
    for m in x.t:
        for a, e in m:
            if a in C.special or e < 0:
                return None
    # leading monomial under lex order must be a square
    def key(m):
        return tuple(sorted(m))
    # order: use degree vector compare over all atoms
    ids = sorted({a for m in x.t for a, _ in m})
    pos = {a: i for i, a in enumerate(ids)}

    def vec(m):
        v = [0] * len(ids)
        for a, e in m:
            v[pos[a]] = e
        return tuple(v)

    def unvec(v):
        return tuple((ids[i], e) for i, e in enumerate(v) if e)

    rem = {vec(m): Fraction(c) for m, c in x.t.items()}
    lead = max(rem)
    c = rem[lead]
    if c <= 0 or any(e % 2 for e in lead):
        return None
    rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if rn * rn != c.numerator or rd * rd != c.denominator:
        return None
    rc = Fraction(rn, rd)
    rl = tuple(e // 2 for e in lead)
    root = {rl: rc}
    r2 = {lead: c}
    for _ in range(12):
        diff = {}
        for v in set(rem) | set(r2):
            d = rem.get(v, 0) - r2.get(v, 0)
            if d:
                diff[v] = d
        if not diff:
            return S({unvec(v): _norm(c) for v, c in root.items()})
        l = max(diff)
        nv = tuple(a - b for a, b in zip(l, rl))
        if any(e < 0 for e in nv):
            return None
        nc = diff[l] / (2 * rc)
        if nv in root:
            return None
        root[nv] = nc
        r2 = {}
        for a, ca in root.items():
            for b, cb in root.items():
                k = tuple(i + j for i, j in zip(a, b))
                r2[k] = r2.get(k, 0) + ca * cb
    return None
