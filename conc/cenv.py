"""Concrete twin of symx/env.py: runs a harness on the real package."""
import importlib
import math
import os
import tempfile
import warnings
from fractions import Fraction

import numpy as np

from . import fam


class Skip(Exception):
    """Inputs outside the precondition."""


class Violated(Exception):
    pass


class ConcEnv:
    sym = False

    def __init__(self, inputs, choices, tmp, rtol=1e-6, atol=1e-7):
        self.inputs = inputs
        self.choices = choices
        self.tmp = tmp
        self.rtol, self.atol = rtol, atol
        self.np = np
        self.pi = math.pi
        self.goals = 0
        self.scale = 1.0
        self.profile = 0
        self.nonsing = False  # set by harnesses whose systems are solvable

    # ------------------------------------------------------------- inputs
    def real(self, name, lo=None, hi=None, prof=None):
        if name in self.inputs:
            v = float(Fraction(self.inputs[name]))
        elif prof:
            v = float(Fraction(prof[self.profile % len(prof)]))
        else:
            a = float(Fraction(lo)) if lo is not None else -3.0
            b = float(Fraction(hi)) if hi is not None else a + 7.0
            v = a + (b - a) * 0.37
        if lo is not None and v < float(Fraction(lo)) - 1e-12:
            raise Skip("input range")
        if hi is not None and v > float(Fraction(hi)) + 1e-12:
            raise Skip("input range")
        self.scale = max(self.scale, abs(v))
        return v

    def reals(self, stem, n, lo=None, hi=None, prof=None):
        out = []
        for i in range(n):
            p = [row[i % len(row)] for row in prof] if prof else None
            out.append(self.real("%s%d" % (stem, i), lo, hi, p))
        return out

    def num(self, v):
        return float(v)

    def arr(self, x):
        return np.array(x, dtype=np.float64)

    def choice(self, name, values):
        return values[self.choices.get(name, 0)]

    def assume(self, cond):
        if not bool(cond):
            raise Skip("assumption")

    def inv(self, m):
        a = np.array(m, dtype=float)
        if not np.isfinite(a).all() or np.linalg.cond(a) > 1e8:
            raise Skip("ill-conditioned system")
        return np.linalg.inv(a).tolist()

    # ------------------------------------------------------------ the code
    def load(self, name):
        return importlib.import_module(name)

    def guarded(self, fn):
        """Runs compiled code with guard pages around numpy's arrays."""
        from . import guard

        kind, res = guard.run(fn)
        if kind == "fault":
            raise Violated("illegal memory access: %s" % res)
        return kind, res

    def gstools(self, version):
        import sys

        from . import fakegs

        for k in list(sys.modules):
            if k == "pykrige" or k.startswith("pykrige.") and not k.startswith("pykrige.lib"):
                del sys.modules[k]
        sys.modules["gstools"] = fakegs.module(version) if version else None
        return fakegs.CovModel

    def fits(self):
        return list(self._fits)

    def watch_fits(self):
        import sys

        import scipy.optimize

        import pykrige.core

        self._fits = []
        real = scipy.optimize.least_squares
        real = getattr(real, "_real", real)

        def ls(fun, x0, *a, **kw):
            r = real(fun, x0, *a, **kw)
            lb, ub = kw.get("bounds", (-np.inf, np.inf))
            one = np.ones(len(x0))

            def f(ps):
                return fun(np.array([float(p) for p in ps]), *kw.get("args", ()), **kw.get("kwargs", {}))

            self._fits.append(dict(x0=list(x0), lb=list(lb * one), ub=list(ub * one), loss=kw.get("loss", "linear"), f_scale=kw.get("f_scale", 1.0),
                                   x=list(r.x), residuals=f))
            return r

        ls._real = real
        scipy.optimize.least_squares = ls
        for n, m in list(sys.modules.items()):
            if n.startswith("pykrige") and hasattr(m, "least_squares"):
                m.least_squares = ls

    def vario(self, name, npar):
        def f(params, d):
            dd = np.asarray(d, dtype=float)
            out = np.empty(dd.shape)
            for i, v in np.ndenumerate(dd):
                out[i] = fam.vario([float(p) for p in params], float(v))
            return out if out.ndim else float(out)

        return f

    def scalar_fn(self, name, nargs):
        def f(*args):
            arrs = np.broadcast_arrays(*[np.asarray(a, dtype=float) for a in args])
            out = np.empty(arrs[0].shape)
            for i in np.ndindex(*out.shape):
                out[i] = fam.scalar(name, [float(a[i]) for a in arrs])
            return out if out.ndim else float(out)

        return f

    # ------------------------------------------------------------- maths
    def sqrt(self, x):
        return math.sqrt(x)

    def exp(self, x):
        return math.exp(x)

    def log(self, x):
        return math.log(x)

    def sin(self, x):
        return math.sin(x)

    def cos(self, x):
        return math.cos(x)

    def pow(self, x, y):
        return x**y

    def arctan2(self, y, x):
        return math.atan2(y, x)

    def abs(self, x):
        return abs(x)

    def max(self, xs):
        return max(xs)

    def min(self, xs):
        return min(xs)

    def round(self, x, nd):
        return round(x, nd)

    def sig(self, x, digits):
        return float("%.*e" % (digits - 1, x))

    def AND(self, *a):
        return all(bool(x) for x in a)

    def OR(self, *a):
        return any(bool(x) for x in a)

    def NOT(self, a):
        return not bool(a)

    def same(self, a, b, tol=None):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        t = self.rtol if tol is None else tol
        return abs(a - b) <= self.atol * max(1.0, min(self.scale, 1e3)) + t * max(abs(a), abs(b))

    def solution(self, stem, rows, rhs):
        return [float(v) for v in fam.any_solution(rows, rhs)]

    # ------------------------------------------------------------- goals
    def fail(self, name, detail=""):
        raise Violated("%s: %s" % (name, detail))

    def check(self, name, cond, detail=""):
        self.goals += 1
        if not bool(cond):
            self.fail(name, detail or "does not hold")

    def eq(self, name, a, b, tol=None, shape=True):
        self.goals += 1
        x = np.asarray(a.data if isinstance(a, np.ma.MaskedArray) else a, dtype=float)
        y = np.asarray(b.data if isinstance(b, np.ma.MaskedArray) else b, dtype=float)
        if shape and x.shape != y.shape:
            self.fail(name, "shape %s instead of %s" % (x.shape, y.shape))
        if not shape:
            x, y = np.broadcast_arrays(x, y)
        for i in np.ndindex(*x.shape):
            if not self.same(x[i], y[i], tol):
                self.fail(name, "entry %s is %r instead of %r" % (i, float(x[i]), float(y[i])))

    def mask_is(self, name, res, mask):
        self.check(name + ": masked array", isinstance(res, np.ma.MaskedArray))
        m = np.ma.getmaskarray(res)
        want = np.asarray(mask, dtype=bool)
        self.check(name + ": mask", m.shape == want.shape and bool((m == want).all()))

    def raises(self, name, fn, exc=Exception):
        self.goals += 1
        try:
            fn()
        except exc:
            return
        except Exception as e:
            self.fail(name, "raised %s: %s" % (type(e).__name__, e))
        self.fail(name, "no error was raised")

    def warns(self, name, fn, cat=UserWarning):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            r = fn()
        self.check(name, any(issubclass(x.category, cat) for x in w), "no warning")
        return r

    def defined(self, name, a):
        x = np.asarray(a.data if isinstance(a, np.ma.MaskedArray) else a, dtype=float)
        self.check(name, bool(np.isfinite(x).all()), "not finite: %s" % x.tolist())

    # ------------------------------------------------------------- files
    def path(self, name):
        return os.path.join(self.tmp, name)

    def put(self, name, text):
        with open(name, "w") as f:
            f.write(text)

    def get(self, name):
        with open(name) as f:
            return f.read()

    def is_masked_array(self, a):
        return isinstance(a, np.ma.MaskedArray)
