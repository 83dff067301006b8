"""Harness environment of the symbolic runs (the concrete twin is
conc/cenv.py)."""
import warnings
from fractions import Fraction

import numpy as np

from . import core, files, npshim, smt
from .core import AND, B, OR, PathCut, S, lift


class GoalFailed(core.EngineStop):
    """Stop the path after a failed goal (no point in going on)."""


class SymEnv:
    sym = True

    def __init__(self, c, loader, opts):
        self.c = c
        self.loader = loader
        self.opts = opts
        self.fails = []
        self.goals = 0
        self.np = npshim.NP
        self.pi = c.pi_s()
        self.warned = []
        self._nfam = 0
        self.nonsing = False

    # ------------------------------------------------------------- inputs
    def real(self, name, lo=None, hi=None, prof=None):
        c = self.c
        if name in c.inputs:
            return c.inputs[name][0]
        lo = Fraction(lo) if lo is not None else None
        hi = Fraction(hi) if hi is not None else None
        s = c.var(name, pos=lo is not None and lo > 0)
        c.inputs[name] = (s, dict(lo=lo, hi=hi, prof=prof))
        if lo is not None:
            c.assume(s >= S.const(lo))
        if hi is not None:
            c.assume(s <= S.const(hi))
        return s

    def reals(self, stem, n, lo=None, hi=None, prof=None):
        out = []
        for i in range(n):
            p = [row[i % len(row)] for row in prof] if prof else None
            out.append(self.real("%s%d" % (stem, i), lo, hi, p))
        return out

    def num(self, v):
        return lift(v)

    def arr(self, x):
        return npshim.sarr(x)

    def choice(self, name, values):
        return self.c.choice(name, values)

    def assume(self, cond):
        if isinstance(cond, (bool, np.bool_)):
            if not cond:
                raise PathCut()
            return
        self.c.assume(cond)

    # ------------------------------------------------------------ the code
    def load(self, name):
        return self.loader.get(name)

    def gstools(self, version):
        """Install a stand-in for gstools of that version (None: not
        installed) and load the package afresh."""
        from conc import fakegs

        for k in [k for k in self.loader.mods if k.split(".")[0] == "pykrige"]:
            del self.loader.mods[k]
        self.loader.ext["gstools"] = fakegs.module(version) if version else ImportError("gstools")
        return fakegs.CovModel

    def guarded(self, fn):
        """Runs compiled code; illegal memory accesses are failed goals."""
        try:
            return "value", fn()
        except Exception as e:
            return "error", "%s: %s" % (type(e).__name__, e)

    def no_statistics(self, module):
        """Replace the cross-validation statistics computed by a constructor
        (decided in K15) by constants."""
        m = self.loader.get(module)
        if hasattr(m, "_find_statistics"):

            def stub(X, *a, **k):
                one = npshim.sarr([S.const(1)] * max(1, X.shape[0] - 1))
                return one * 0, one, one

            if not hasattr(m._find_statistics, "_real"):
                stub._real = m._find_statistics
                m._find_statistics = stub

    def with_statistics(self, module):
        m = self.loader.get(module)
        m._find_statistics = getattr(m._find_statistics, "_real", m._find_statistics)

    def watch_fits(self):
        pass

    def fits(self):
        """The least-squares problems posed so far."""
        out = []
        for k in getattr(self.c, "lsq_calls", []):
            def f(ps, k=k):
                return k["fun"](npshim.sarr(list(ps)), *k["args"], **k["kwargs"])
            out.append(dict(x0=k["x0"], lb=k["lb"], ub=k["ub"], loss=k["loss"], f_scale=k["f_scale"], x=list(k["res"].x), residuals=f))
        return out

    def vario(self, name, npar):
        """Arbitrary variogram function f(params, d) as an uninterpreted
        function of the parameters and the distance."""
        c = self.c

        def f(params, d, _n=name):
            ps = [lift(p) for p in params]
            dd = np.asarray(npshim._obj(d))
            out = np.empty(dd.shape, dtype=object)
            for i, v in np.ndenumerate(dd):
                v = lift(v)
                out[i] = c.uf(_n, tuple(ps) + (v,), ev=lambda env, v=v: _fam(c, ps, v, env))
            return out.view(npshim.SArr) if out.ndim else out.item()

        return f

    def scalar_fn(self, name, nargs):
        """Arbitrary real function of nargs scalars, elementwise."""
        c = self.c

        def f(*args):
            arrs = np.broadcast_arrays(*[np.asarray(npshim._obj(a)) for a in args])
            out = np.empty(arrs[0].shape, dtype=object)
            for i in np.ndindex(*out.shape):
                vs = [lift(a[i]) for a in arrs]
                out[i] = c.uf(name, vs, ev=lambda env, vs=vs: conc_scalar_fn(name, [c.evalf(v, env) for v in vs]))
            return out.view(npshim.SArr) if out.ndim else out.item()

        return f

    # ------------------------------------------------------------- maths
    def sqrt(self, x):
        return lift(x).sqrt()

    def exp(self, x):
        return lift(x).exp()

    def log(self, x):
        return lift(x).log()

    def sin(self, x):
        return lift(x).sin()

    def cos(self, x):
        return lift(x).cos()

    def pow(self, x, y):
        return lift(x) ** lift(y)

    def arctan2(self, y, x):
        return self.c.arctan2(lift(y), lift(x))

    def abs(self, x):
        return abs(lift(x))

    def max(self, xs):
        return self.c.minmax([lift(x) for x in xs], "max")

    def min(self, xs):
        return self.c.minmax([lift(x) for x in xs], "min")

    def round(self, x, nd):
        return self.c.rnd(lift(x), nd)

    def sig(self, x, digits):
        """Rounded to significant decimal digits."""
        return files.rsig(lift(x), digits)

    def AND(self, *a):
        return AND(*[x if isinstance(x, B) else B(bool(x)) for x in a])

    def OR(self, *a):
        return OR(*[x if isinstance(x, B) else B(bool(x)) for x in a])

    def NOT(self, a):
        return core.NOT(a)

    def inv(self, m):
        """Spec-side inverse (contract)."""
        return npshim.l_inv(m)

    def solution(self, stem, rows, rhs):
        """An arbitrary vector w with rows w = rhs (any solution)."""
        c = self.c
        rows = [[lift(v) for v in r] for r in rows]
        rhs = [lift(v) for v in rhs]
        n = len(rows[0])
        mid = "SOL%d" % len(c.atoms)

        def ev(env, i):
            cache = env.setdefault("__cache__", {})
            if mid not in cache:
                cache[mid] = any_solution(
                    [[c.evalf(v, env) for v in r] for r in rows], [c.evalf(v, env) for v in rhs])
            return float(cache[mid][i])

        w = []
        for i in range(n):
            a = c.atom("ginv", (mid, i), "%s%d" % (stem, i), ev=lambda env, i=i: ev(env, i))
            w.append(c.s(a))
        for r, t in zip(rows, rhs):
            acc = S.const(0)
            for v, x in zip(r, w):
                acc = acc + v * x
            c.invs.append(acc - t)
        return w

    # ------------------------------------------------------------- goals
    def fail(self, name, goal, detail=""):
        cands = smt.candidates(self.c, goal, self.opts.get("cand_s", 25.0), self.opts.get("cand_n", 6))
        self.fails.append(
            dict(goal=name, detail=str(detail)[:600], cands=cands, choices=dict(self.c.choices))
        )
        raise GoalFailed()

    def check(self, name, cond, detail=""):
        self.goals += 1
        if isinstance(cond, (bool, np.bool_)):
            self.c.stats.goals += 1
            if cond:
                self.c.stats.proved += 1
                return
            # refuted if the path is feasible: a model of the path is the
            # counterexample
            self.fail(name, None, detail or "false on this path")
        if not isinstance(cond, B):
            raise core.Unsupported("goal of type %s" % type(cond))
        if smt.prove(self.c, cond, self.opts.get("nra_ms", 4000)):
            return
        self.fail(name, cond, detail or repr(cond)[:500])

    def _flat(self, a):
        if isinstance(a, np.ma.MaskedArray):
            a = a.data
        a = np.asarray(npshim._obj(a))
        return a

    def eq(self, name, a, b, tol=None, shape=True):
        x, y = self._flat(a), self._flat(b)
        if shape and x.shape != y.shape:
            self.goals += 1
            self.c.stats.goals += 1
            self.fail(name, None, "shape %s instead of %s" % (x.shape, y.shape))
        if not shape:
            x, y = np.broadcast_arrays(x, y)
        for i in np.ndindex(*x.shape):
            u, v = x[i], y[i]
            if not isinstance(u, S):
                u = lift(u)
            if not isinstance(v, S):
                v = lift(v)
            if u is None or v is None:
                self.fail(name, None, "not a number: %r / %r" % (x[i], y[i]))
            if u.sp or v.sp:
                self.check(name, u.sp == v.sp, "%s: %s instead of %s" % (i, u, v))
                continue
            self.check(name, u == v, "" if not i else "entry %s" % (i,))

    def mask_is(self, name, res, mask):
        self.check(name + ": masked array", isinstance(res, np.ma.MaskedArray))
        m = np.ma.getmaskarray(res)
        want = np.asarray(mask, dtype=bool)
        self.check(name + ": mask", m.shape == want.shape and bool((m == want).all()))

    def raises(self, name, fn, exc=Exception):
        try:
            fn()
        except exc:
            self.check(name, True)
            return
        except Exception as e:
            self.check(name, False, "raised %s: %s" % (type(e).__name__, e))
        self.check(name, False, "no error was raised")

    def warns(self, name, fn, cat=UserWarning):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            r = fn()
        self.check(name, any(issubclass(x.category, cat) for x in w), "no warning")
        return r

    def defined(self, name, a):
        """Finite (no NaN, infinity, uninitialised memory)."""
        x = self._flat(a)
        for i in np.ndindex(*x.shape):
            v = lift(x[i])
            self.check(name, v is not None and v.sp is None, "%s: %s" % (i, v))

    # ------------------------------------------------------------- files
    def path(self, name):
        return name

    def put(self, name, text):
        files.fs()[name] = text

    def get(self, name):
        return files.fs()[name]

    def is_masked_array(self, a):
        return isinstance(a, np.ma.MaskedArray)


from conc.fam import any_solution  # noqa: E402


def _fam(c, ps, v, env):
    from conc import fam

    d = c.evalf(v, env)
    return fam.vario([c.evalf(p, env) for p in ps], d)


def conc_scalar_fn(name, vs):
    from conc import fam

    return fam.scalar(name, vs)


def _same(self, a, b, tol=None):
    return lift(a) == lift(b)


SymEnv.same = _same
