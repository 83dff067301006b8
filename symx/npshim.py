"""numpy / scipy as seen by the symbolically executed code.

Everything runs on real numpy object arrays of core.S; only the functions
that cannot work on objects (or that call into LAPACK, KD-trees, ...) are
replaced, the latter by their contracts."""
import builtins
import math
import types
import warnings
from fractions import Fraction

import numpy as np

from . import core
from .core import B, S, UNIT, ZERO, Unsupported, lift


class SArr(np.ndarray):
    """Object array standing for a float64 array."""

    __array_priority__ = 5.0

    def __array_finalize__(self, obj):
        pass

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return _ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        h = OVERRIDE.get(func.__name__)
        if h is not None and getattr(np, func.__name__, None) is func:
            return h(*args, **kwargs)
        if func.__module__ == "numpy.linalg":
            h = LINALG.get(func.__name__)
            if h is None:
                raise Unsupported("numpy.linalg." + func.__name__)
            return h(*args, **kwargs)
        impl = func.__wrapped__ if False else None
        return post(super().__array_function__(func, types_, args, kwargs))

    def astype(self, dtype, *a, **k):
        return cast(self, dtype)

    def __setitem__(self, i, v):
        if isinstance(v, np.ndarray):
            if v.dtype != object:
                v = sarr(v)
            elif not isinstance(v, SArr) and not isinstance(v, np.ma.MaskedArray):
                v = sarr(v)
            if v.ndim == 0:
                v = v.item()
        elif isinstance(v, (list, tuple)):
            v = sarr(v)
        else:
            w = lift(v)
            if w is None:
                raise TypeError("cannot store %r in a float array" % type(v))
            v = w
        np.ndarray.__setitem__(self, i, v)

    def fill(self, v):
        self[...] = v

    def max(self, axis=None, out=None, keepdims=False, **k):
        return amax(self, axis, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return amin(self, axis, keepdims=keepdims)

    def ptp(self, axis=None, **k):
        return amax(self, axis) - amin(self, axis)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis=axis, keepdims=keepdims) / n

    def std(self, axis=None, ddof=0, **k):
        return np.sqrt(self.var(axis=axis, ddof=ddof))

    def var(self, axis=None, ddof=0, **k):
        n = self.size if axis is None else self.shape[axis]
        m = self.mean(axis=axis, keepdims=True) if axis is not None else self.mean()
        d = self - m
        return (d * d).sum(axis=axis) / (n - ddof)

    def argmin(self, axis=None, **k):
        return _argbest(self, axis, lambda a, b: a < b)

    def argmax(self, axis=None, **k):
        return _argbest(self, axis, lambda a, b: a > b)

    def __float__(self):
        raise Unsupported("float(array)")

    @property
    def base_or_self(self):
        return self

    def tobytes(self, *a, **k):
        raise Unsupported("tobytes")

    def round(self, decimals=0, out=None):
        return _map(lambda v: core.CTX.rnd(v, decimals), self)


def _map(f, a):
    a = np.asarray(a, dtype=object)
    out = np.empty(a.shape, dtype=object)
    for i, v in np.ndenumerate(a):
        out[i] = f(lift(v))
    return out.view(SArr) if out.ndim else out.item()


def _argbest(a, axis, better):
    a = np.asarray(a, dtype=object)
    def one(v):
        k = 0
        for i in range(1, len(v)):
            if bool(better(lift(v[i]), lift(v[k]))):
                k = i
        return k
    if axis is None:
        return one(list(a.ravel()))
    a = np.moveaxis(a, axis, -1)
    out = np.zeros(a.shape[:-1], dtype=int)
    for i in np.ndindex(*a.shape[:-1]):
        out[i] = one(list(a[i]))
    return out if out.ndim else int(out)


def is_num(v):
    return isinstance(v, (int, float, Fraction, np.number)) and not isinstance(v, (bool, np.bool_))


def sarr(x):
    """Array of S from anything numeric."""
    if isinstance(x, SArr):
        a = np.array(x, dtype=object, copy=True).view(np.ndarray)
    elif isinstance(x, np.ma.MaskedArray):
        a = np.array(x.data, dtype=object)
    else:
        a = _obj(x)
    out = np.empty(a.shape, dtype=object)
    for i, v in np.ndenumerate(a):
        if isinstance(v, np.ndarray) and v.ndim == 0:
            v = v.item()
        w = lift(v) if not isinstance(v, str) else parse_float(v)
        if w is None:
            raise TypeError(
                "float() argument must be a string or a real number, not %r" % type(v).__name__
            )
        out[i] = w
    return out.view(SArr)


def _unmv(x):
    return x.arr if type(x).__name__ == "MV" else x


def _obj(x):
    x = _unmv(x)
    if isinstance(x, np.ndarray):
        return x.astype(object).view(np.ndarray) if x.dtype != object else x.view(np.ndarray)
    if isinstance(x, S):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    a = np.array(x, dtype=object)
    return a.view(np.ndarray)


def has_s(x):
    x = _unmv(x)
    if isinstance(x, (S, SArr)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(v, S) for v in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_s(v) for v in x)
    return False


def has_float(x):
    if isinstance(x, (float, np.floating, Fraction)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype.kind == "f"
    if isinstance(x, (list, tuple)):
        return any(has_float(v) for v in x)
    return False


def post(r):
    """Normalise a numpy result."""
    if isinstance(r, np.ma.MaskedArray):
        return r
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            if r.ndim == 0:
                v = r.item()
                return v if not is_num(v) else lift(v)
            if r.size and all(isinstance(v, (S, int, float, Fraction, np.number)) and not isinstance(v, (bool, np.bool_)) for v in r.flat):
                if not all(type(v) is S for v in r.flat):
                    flat = [lift(v) for v in r.flat]
                    o = np.empty(len(flat), dtype=object)
                    o[:] = flat
                    return o.reshape(r.shape).view(SArr)
                return r if isinstance(r, SArr) else r.view(SArr)
            if r.size == 0:
                return r if isinstance(r, SArr) else r.view(SArr)
        return r
    if isinstance(r, tuple):
        return tuple(post(v) for v in r)
    if isinstance(r, list):
        return [post(v) for v in r]
    return r


class UFuncTypeError(TypeError):
    pass


UNARY = {
    "sqrt": S.sqrt, "exp": S.exp, "log": S.log, "sin": S.sin, "cos": S.cos,
    "tan": S.tan, "arccos": S.arccos, "arcsin": S.arcsin, "deg2rad": S.deg2rad,
    "radians": S.deg2rad, "rad2deg": S.rad2deg, "degrees": S.rad2deg,
    "square": S.square, "floor": S.floor, "ceil": S.ceil, "absolute": S.__abs__,
    "fabs": S.__abs__, "log10": S.log10, "expm1": S.expm1, "negative": S.__neg__,
    "positive": S.__pos__, "conjugate": S.conjugate, "arctan": S.arctan,
    "reciprocal": lambda s: UNIT / s,
    "rint": lambda s: core.CTX.rnd(s, 0),
    "trunc": lambda s: S.const(int(s)),
    "log1p": lambda s: core.CTX.log(s + 1),
    "sign": lambda s: S.const(1 if bool(s > 0) else (-1 if bool(s < 0) else 0)),
}
PRED = {
    "isnan": S.isnan,
    "isinf": S.isinf,
    "isfinite": lambda s: s.sp is None,
    "signbit": lambda s: bool(s < 0),
    "logical_not": lambda s: not bool(s),
}


def _ufunc(uf, method, inputs, kw):
    name = uf.__name__
    out = kw.get("out")
    where = kw.get("where", True)
    ins = [i.view(np.ndarray) if isinstance(i, SArr) else i for i in inputs]
    if any(isinstance(i, np.ma.MaskedArray) for i in ins):
        return NotImplemented
    if method == "__call__" and where is True:
        if name in UNARY or name in PRED:
            f = UNARY.get(name) or PRED[name]
            a = np.asarray(_obj(ins[0]))
            r = np.empty(a.shape, dtype=object if name in UNARY else bool)
            for i, v in np.ndenumerate(a):
                r[i] = f(lift(v))
            res = r.view(SArr) if name in UNARY else r
            if out is not None:
                return _store(out[0], res, name)
            if res.ndim == 0:
                return res.item()
            return res
        if out is not None:
            o = out[0]
            res = _ufunc(uf, method, inputs, {k: v for k, v in kw.items() if k != "out"})
            return _store(o, res, name)
        kw = dict(kw)
        if "dtype" in kw:
            kw.pop("dtype")
        if "casting" in kw:
            kw.pop("casting")
        ins = [_obj(i) if isinstance(i, np.ndarray) and i.dtype.kind == "f" else i for i in ins]
        return post(getattr(uf, method)(*ins, **kw))
    if method in ("reduce", "accumulate", "outer", "reduceat", "at"):
        if name in ("maximum", "minimum") and method == "reduce":
            return _minmax(ins[0], kw.get("axis", 0), "max" if name == "maximum" else "min", kw.get("keepdims", False))
        kw = {k: v for k, v in kw.items() if not (k == "dtype") and not (k == "out" and v is None)}
        if kw.get("out") is not None:
            o = kw.pop("out")[0]
            return _store(o, post(getattr(uf, method)(*ins, **kw)), name)
        return post(getattr(uf, method)(*ins, **kw))
    if where is not True:
        o = kw.pop("out", (None,))[0]
        kw.pop("where")
        a = [np.broadcast_arrays(*([np.asarray(_obj(i)) for i in ins] + [np.asarray(where)]))]
        arrs = a[0][:-1]
        w = a[0][-1]
        r = np.empty(w.shape, dtype=object).view(SArr) if o is None else o
        for i in np.ndindex(*w.shape):
            if w[i]:
                r[i] = _ufunc(uf, "__call__", [np.array(x[i], dtype=object).view(SArr) for x in arrs], {})
        return r
    raise Unsupported("ufunc %s.%s" % (name, method))


def _store(o, res, name):
    if isinstance(o, SArr):
        o[...] = res
        return o
    if isinstance(o, np.ndarray) and o.dtype.kind in "iub" and (
        isinstance(res, S) or (isinstance(res, np.ndarray) and res.dtype == object)
    ):
        raise UFuncTypeError(
            "Cannot cast ufunc '%s' output from dtype('float64') to dtype('%s') "
            "with casting rule 'same_kind'" % (name, o.dtype)
        )
    if isinstance(o, np.ndarray) and o.dtype == object:
        o[...] = res
        return o
    if isinstance(o, np.ndarray) and o.dtype.kind == "f":
        raise Unsupported("in-place update of a concrete float array")
    o[...] = res
    return o


# ---------------------------------------------------------------- dtypes
def is_float_dtype(d):
    if d is None:
        return False
    if d is FloatShim or d is float:
        return True
    try:
        return np.dtype(d).kind in "f"
    except TypeError:
        return False


def is_f32(d):
    try:
        return d is not FloatShim and np.dtype(d).kind == "f" and np.dtype(d).itemsize < 8
    except TypeError:
        return False


def real_dtype(d):
    if d is FloatShim:
        return float
    if d is IntShim:
        return int
    if d is StrShim:
        return str
    return d


def to_f32(v):
    if v.is_const() or v.sp:
        if v.sp:
            return v
        return S.const(Fraction(float(np.float32(float(v.cval())))))
    c = core.CTX
    a = c.atom("uf:f32", (v,), ev=lambda env, v=v: float(np.float32(c.evalf(v, env))))
    return c.s(a)


def cast(a, d):
    d = real_dtype(d)
    if is_f32(d):
        return _map(to_f32, a)
    if is_float_dtype(d) or d is object:
        return sarr(a)
    k = np.dtype(d).kind
    if k in "iu":
        out = np.zeros(a.shape, dtype=d)
        for i, v in np.ndenumerate(np.asarray(a, dtype=object)):
            out[i] = int(lift(v))
        return out
    if k == "b":
        out = np.zeros(a.shape, dtype=bool)
        for i, v in np.ndenumerate(np.asarray(a, dtype=object)):
            out[i] = bool(v)
        return out
    raise Unsupported("astype %r" % (d,))


# ------------------------------------------------------------- functions
def f_array(x, dtype=None, copy=True, order=None, subok=False, ndmin=0, **k):
    x = _unmv(x)
    if isinstance(x, np.ma.MaskedArray) and not subok:
        x = x.data
    if dtype is not None:
        dtype = real_dtype(dtype)
        if is_float_dtype(dtype):
            a = sarr(x)
            if is_f32(dtype):
                a = _map(to_f32, a)
                a = a if isinstance(a, np.ndarray) else sarr(a)
        else:
            if has_s(x):
                a = cast(sarr(x), dtype)
            else:
                a = np.array(x, dtype=dtype)
    elif has_s(x):
        if isinstance(x, (list, tuple)):
            x = _nested(x)
        a = sarr(x)
    elif has_float(x):
        a = sarr(x)
    else:
        a = np.array(x, copy=True)
        if a.dtype.kind == "f":
            a = sarr(a)
    while a.ndim < ndmin:
        a = a[None]
    return a


def _nested(x):
    """list of arrays/scalars -> nested lists (numpy refuses mixed objects)."""
    out = []
    for v in x:
        if isinstance(v, np.ndarray):
            out.append(v.tolist())
        elif isinstance(v, (list, tuple)):
            out.append(_nested(v))
        else:
            out.append(v)
    return out


def f_asarray(x, dtype=None, order=None, copy=None, **k):
    x = _unmv(x)
    if isinstance(x, np.ma.MaskedArray):
        x = x.data
    if isinstance(x, SArr) and (dtype is None or (is_float_dtype(dtype) and not is_f32(dtype))):
        return x
    if isinstance(x, np.ndarray) and not isinstance(x, SArr) and dtype is None and x.dtype.kind != "f" and x.dtype != object:
        return x
    if isinstance(x, np.ndarray) and dtype is not None and not is_float_dtype(dtype) and np.dtype(real_dtype(dtype)) == x.dtype:
        return x
    return f_array(x, dtype)


def f_fortran(x, dtype=None, **k):
    a = f_asarray(x, dtype)
    if a.flags.f_contiguous:
        return a
    return np.array(a, order="F", subok=True)


def f_contig(x, dtype=None, **k):
    a = f_asarray(x, dtype)
    if a.flags.c_contiguous:
        return a
    return np.array(a, order="C", subok=True)


def _filled(shape, v, dtype):
    dtype = real_dtype(dtype)
    if dtype is None or is_float_dtype(dtype):
        a = np.empty(shape, dtype=object)
        a[...] = lift(v)
        return a.view(SArr)
    return np.full(shape, v, dtype=dtype)


def f_zeros(shape, dtype=None, order="C", **k):
    return _filled(shape, 0, dtype)


def f_ones(shape, dtype=None, order="C", **k):
    return _filled(shape, 1, dtype)


def f_empty(shape, dtype=None, order="C", **k):
    if dtype is None or is_float_dtype(real_dtype(dtype)):
        a = np.empty(shape, dtype=object)
        c = core.CTX
        for i in np.ndindex(*a.shape):
            # uninitialised memory: an arbitrary value
            a[i] = c.fresh("uninit", ev=lambda env: 12345.678)
        return a.view(SArr)
    return np.zeros(shape, dtype=real_dtype(dtype))


def f_full(shape, v, dtype=None, order="C", **k):
    if dtype is None and isinstance(v, (bool, np.bool_, int, np.integer)):
        return np.full(shape, v)
    return _filled(shape, v, dtype)


def _like(f):
    def g(a, dtype=None, order="K", subok=True, shape=None, **k):
        a = np.asanyarray(a) if not isinstance(a, (list, tuple)) else f_asarray(a)
        sh = a.shape if shape is None else shape
        if dtype is None and a.dtype.kind not in "Of":
            return f(sh, a.dtype)
        return f(sh, dtype)
    return g


def f_full_like(a, v, dtype=None, **k):
    a = f_asarray(a)
    if dtype is None and a.dtype.kind not in "Of":
        return np.full(a.shape, v, dtype=a.dtype)
    return _filled(a.shape, v, dtype)


def f_eye(n, M=None, k=0, dtype=None, **kw):
    return f_array(np.eye(n, M, k), dtype or float)


def _minmax(a, axis, kind, keepdims=False):
    a = np.asarray(_obj(a))
    c = core.CTX
    if a.size == 0:
        raise ValueError("zero-size array to reduction operation %simum which has no identity" % kind)
    if axis is None:
        r = c.minmax([lift(v) for v in a.ravel()], kind)
        return r
    if isinstance(axis, tuple):
        raise Unsupported("max over several axes")
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(*b.shape[:-1]):
        out[i] = c.minmax([lift(v) for v in b[i]], kind)
    if keepdims:
        out = np.expand_dims(out, axis)
    return out.view(SArr) if out.ndim else out.item()


def _real_num(a):
    return isinstance(a, np.ndarray) and a.dtype.kind in "iub"


def amax(a, axis=None, out=None, keepdims=False, **k):
    if isinstance(a, (list, tuple)):
        a = f_array(a)
    if _real_num(a):
        return np.amax(a, axis=axis)
    return _minmax(a, axis, "max", keepdims)


def amin(a, axis=None, out=None, keepdims=False, **k):
    if isinstance(a, (list, tuple)):
        a = f_array(a)
    if _real_num(a):
        return np.amin(a, axis=axis)
    return _minmax(a, axis, "min", keepdims)


def f_maximum(a, b, **k):
    return _pairwise(a, b, "max")


def f_minimum(a, b, **k):
    return _pairwise(a, b, "min")


def _pairwise(a, b, kind):
    if not (has_s(a) or has_s(b) or has_float(a) or has_float(b)):
        return (np.maximum if kind == "max" else np.minimum)(a, b)
    a, b = np.broadcast_arrays(np.asarray(_obj(a)), np.asarray(_obj(b)))
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        x, y = lift(a[i]), lift(b[i])
        if x.sp == "nan" or y.sp == "nan":
            out[i] = S({}, "nan")
            continue
        out[i] = core.CTX.minmax([x, y], kind)
    return out.view(SArr) if out.ndim else out.item()


def f_clip(a, lo=None, hi=None, **k):
    lo = k.get("a_min", k.get("min", lo))
    hi = k.get("a_max", k.get("max", hi))
    if lo is not None:
        a = f_maximum(a, lo)
    if hi is not None:
        a = f_minimum(a, hi)
    return a


def f_arange(*args, dtype=None, **k):
    if dtype is not None and is_float_dtype(real_dtype(dtype)):
        args = tuple(lift(a) for a in args)
    if not any(has_s(a) or has_float(a) for a in args):
        return np.arange(*[int(a) if isinstance(a, np.ndarray) else a for a in args], dtype=real_dtype(dtype))
    if len(args) == 1:
        start, stop, step = ZERO, lift(args[0]), UNIT
    elif len(args) == 2:
        start, stop, step = lift(args[0]), lift(args[1]), UNIT
    else:
        start, stop, step = map(lift, args)
    if start.sp or stop.sp or step.sp:
        raise ValueError("arange: cannot compute length")
    if bool(step == 0):
        raise ZeroDivisionError("division by zero")
    w = (stop - start) / step
    c = core.CTX
    if w.is_const():
        f = Fraction(w.cval())
        n = max(0, math.ceil(f))
        exact = f.denominator == 1
        if exact and all(x.is_const() for x in (start, stop, step)):
            # concrete: the length numpy really computes
            return sarr(np.arange(float(start.cval()), float(stop.cval()), float(step.cval())).astype(object)) if False else sarr([start + step * i for i in range(len(np.arange(float(start.cval()), float(stop.cval()), float(step.cval()))))])
    else:
        n = None
        for kk in range(0, 13):
            if bool(w <= kk):
                n = kk
                break
        if n is None:
            raise Unsupported("arange of unbounded length")
        exact = bool(w == n)
    if exact and n > 0 and not k.get("exact"):
        # (stop-start)/step is an integer: rounding may add one element
        extra = c.choice("arange_extra@%d" % len(c.trace), [0, 1])
        n += extra
    return sarr([start + step * i for i in range(n)])


def f_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    start, stop = lift(start), lift(stop)
    num = int(num)
    div = (num - 1) if endpoint else num
    step = (stop - start) / div if div else ZERO
    r = sarr([start + step * i for i in range(num)])
    return (r, step) if retstep else r


def f_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = np.broadcast_arrays(np.asarray(_obj(a)), np.asarray(_obj(b)))
    out = np.zeros(a.shape, dtype=bool)
    for i in np.ndindex(*a.shape):
        x, y = lift(a[i]), lift(b[i])
        if x.sp or y.sp:
            out[i] = x.sp == y.sp and (x.sp != "nan" or equal_nan)
        else:
            out[i] = bool(abs(x - y) <= lift(atol) + lift(rtol) * abs(y))
    return out if out.ndim else bool(out)


def f_allclose(a, b, **k):
    return bool(np.all(f_isclose(a, b, **k)))


def f_array_equal(a, b, **k):
    a, b = f_asarray(a), f_asarray(b)
    return a.shape == b.shape and bool(np.all(a == b))


def f_fill_diagonal(a, v, wrap=False):
    if isinstance(a, SArr):
        n = min(a.shape)
        vv = np.broadcast_to(np.asarray(_obj(v)), (n,))
        for i in range(n):
            a[i, i] = vv[i]
    else:
        np.fill_diagonal(a, v, wrap)


def f_nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    def g(v):
        if v.sp == "nan":
            return lift(nan)
        if v.sp == "inf":
            return lift(posinf if posinf is not None else 1.797e308)
        if v.sp == "-inf":
            return lift(neginf if neginf is not None else -1.797e308)
        return v
    return _map(g, a)


def f_mean(a, axis=None, **k):
    a = f_asarray(a)
    if a.dtype != object:
        a = sarr(a)
    if a.size == 0:
        return S({}, "nan")
    return a.view(SArr).mean(axis=axis, **{x: k[x] for x in k if x == "keepdims"})


def f_average(a, axis=None, weights=None, **k):
    if weights is None:
        return f_mean(a, axis)
    a, w = sarr(a), sarr(weights)
    return (a * w).sum(axis=axis) / w.sum(axis=axis)


def f_where(cond, *args):
    if not args:
        return np.where(np.asarray(cond))
    x, y = args
    cond = np.asarray(cond)
    if cond.dtype == object:
        cond = cast(cond.view(SArr), bool)
    return post(np.where(cond, np.asarray(_obj(x)), np.asarray(_obj(y))))


def _trunc(v):
    v = lift(v)
    return v.floor() if bool(v >= 0) else -((-v).floor())


def f_piecewise(x, condlist, funclist, *args, **kw):
    whole = isinstance(x, np.ndarray) and not isinstance(x, SArr) and x.dtype.kind in "iu" or isinstance(x, int)
    x = sarr(x)
    y = f_zeros(x.shape)
    conds = [np.asarray(c, dtype=bool) for c in (condlist if isinstance(condlist, (list, tuple)) else [condlist])]
    n = len(conds)
    if len(funclist) == n + 1:
        conds = conds + [~np.any(conds, axis=0)]
    elif len(funclist) != n:
        raise ValueError("with %d condition(s), either %d or %d functions are expected" % (n, n, n + 1))
    for c, f in zip(conds, funclist):
        if callable(f):
            v = x[c] if x.ndim else x.reshape(1)[np.atleast_1d(c)]
            if v.size:
                r = f(v, *args, **kw)
                if x.ndim:
                    y[c] = r
                else:
                    y[...] = np.asarray(r, dtype=object).ravel()[0]
        else:
            if x.ndim:
                if np.any(c):
                    y[c] = f
            elif bool(c):
                y[...] = f
    return _map(_trunc, y) if whole else y


def f_select(condlist, choicelist, default=0):
    out = None
    shape = np.broadcast_shapes(*[np.shape(c) for c in condlist])
    r = _filled(shape, default, None)
    done = np.zeros(shape, dtype=bool)
    for c, v in zip(condlist, choicelist):
        c = np.broadcast_to(np.asarray(c, dtype=bool), shape)
        v = np.broadcast_to(np.asarray(_obj(v)), shape)
        m = c & ~done
        if m.any():
            r[m] = v[m]
        done |= c
    return r


def f_round(a, decimals=0, **k):
    return _map(lambda v: core.CTX.rnd(v, decimals), _obj(a))


def f_sort(a, axis=-1, **k):
    if _real_num(f_asarray(a)):
        return np.sort(a, axis=axis)
    return post(np.sort(np.asarray(_obj(a)), axis=axis, kind="stable"))


def f_argsort(a, axis=-1, **k):
    if _real_num(f_asarray(a)):
        return np.argsort(a, axis=axis)
    return np.argsort(np.asarray(_obj(a)), axis=axis, kind="stable")


def f_dot(a, b, out=None):
    if isinstance(a, np.ma.MaskedArray) or isinstance(b, np.ma.MaskedArray):
        # numpy's dot ignores masks (the result is a masked array without mask)
        da = np.asarray(_obj(a.data if isinstance(a, np.ma.MaskedArray) else a))
        db = np.asarray(_obj(b.data if isinstance(b, np.ma.MaskedArray) else b))
        return np.ma.array(np.dot(da, db))
    return post(np.dot(np.asarray(_obj(a)), np.asarray(_obj(b))))


def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    if isinstance(a, np.ma.MaskedArray):
        return a.sum(axis=axis)
    if isinstance(a, (list, tuple)):
        a = f_array(a)
    if isinstance(a, np.ndarray) and a.dtype != object:
        return np.sum(a, axis=axis, keepdims=keepdims)
    if isinstance(a, S):
        return a
    r = np.sum(np.asarray(_obj(a)), axis=axis, keepdims=keepdims)
    return ZERO if not isinstance(r, np.ndarray) and not isinstance(r, S) and r == 0 else post(r)


def f_einsum(spec, *ops, **k):
    return post(np.einsum(spec, *[np.asarray(_obj(o)) for o in ops]))


def f_digitize(x, bins, right=False):
    x = sarr(x)
    bins = list(f_asarray(bins))
    out = np.zeros(x.shape, dtype=int)
    for i, v in np.ndenumerate(x):
        k = 0
        for b in bins:
            if bool(v > b if right else v >= b):
                k += 1
            else:
                break
        out[i] = k
    return out if out.ndim else int(out)


def f_searchsorted(a, v, side="left", sorter=None):
    return f_digitize(v, a, right=(side == "left"))


def f_histogram(x, bins=10, range=None, density=None, weights=None):
    x = f_asarray(x)
    edges = f_asarray(bins)
    if edges.ndim == 0:
        if x.dtype == object or has_s(edges):
            raise Unsupported("histogram with automatic bins")
        return np.histogram(x, bins, range, density, weights)
    if not (has_s(x) or has_s(edges) or (weights is not None and has_s(f_asarray(weights)))):
        return np.histogram(np.asarray(x, dtype=builtins.float), np.asarray(edges, dtype=builtins.float), range, density, weights)
    if density:
        raise Unsupported("histogram density")
    es = list(edges)
    n = len(es) - 1
    out = [0] * n if weights is None else [ZERO] * n
    ws = [1] * x.size if weights is None else list(f_asarray(weights).ravel())
    for v, w in zip(x.ravel(), ws):
        k = f_digitize(v, es) - 1
        if k == n and bool(lift(v) == lift(es[-1])):
            k = n - 1
        if 0 <= k < n:
            out[k] = out[k] + w
    return (np.array(out, dtype=int) if weights is None else f_array(out)), edges


def f_bincount(x, weights=None, minlength=0):
    x = np.asarray(x)
    if weights is None or not has_s(f_asarray(weights)):
        return np.bincount(x, weights, minlength)
    n = max(minlength, int(x.max()) + 1 if x.size else 0)
    out = [ZERO] * n
    for k, w in zip(x, f_asarray(weights)):
        out[int(k)] = out[int(k)] + w
    return f_array(out)


def f_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported("interp with a period")
    xp, fp = [lift(v) for v in f_asarray(xp)], [lift(v) for v in f_asarray(fp)]
    lo = fp[0] if left is None else lift(left)
    hi = fp[-1] if right is None else lift(right)

    def one(v):
        v = lift(v)
        if bool(v < xp[0]):
            return lo
        if bool(v > xp[-1]):
            return hi
        for i in builtins.range(len(xp) - 1):
            if bool(v < xp[i + 1]):
                return fp[i] + (fp[i + 1] - fp[i]) * (v - xp[i]) / (xp[i + 1] - xp[i])
        return fp[-1]

    x = f_asarray(x)
    if x.ndim == 0:
        return one(x.item())
    out = np.empty(x.shape, dtype=object)
    for i, v in np.ndenumerate(x):
        out[i] = one(v)
    return out.view(SArr)


def f_isscalar(x):
    return isinstance(x, S) or np.isscalar(x)


def f_diff(a, n=1, axis=-1, **k):
    a = sarr(a) if not _real_num(f_asarray(a)) else np.asarray(a)
    return post(np.diff(np.asarray(a), n=n, axis=axis))


def f_unique(a, **k):
    a = np.asarray(a)
    if a.dtype == object and has_s(a):
        if any(k.values()):
            raise Unsupported("unique")
        out = []
        for v in f_sort(a.ravel()):
            if not out or bool(lift(v) != lift(out[-1])):
                out.append(v)
        return f_array(out)
    return np.unique(a, **k)


def f_finfo(d):
    return np.finfo(real_dtype(d))


def f_cross(a, b, **k):
    return post(np.cross(np.asarray(_obj(a)), np.asarray(_obj(b)), **k))


def _un(name):
    f = UNARY[name]
    real = getattr(np, name)

    def g(x, *a, **k):
        if a or "out" in k or "where" in k:
            o = a[0] if a else k.get("out")
            if isinstance(x, np.ndarray) and x.dtype != object:
                x = sarr(x)
            kw = dict(k)
            if a:
                kw["out"] = a[0]
            return post(real(x, **kw))
        if isinstance(x, S):
            return f(x)
        if isinstance(x, (int, float, Fraction, np.number)) and not isinstance(x, (bool, np.bool_)):
            if name in ("negative", "positive", "absolute", "conjugate", "square", "sign") and isinstance(x, (int, np.integer)):
                return real(x)
            return f(lift(x))
        if isinstance(x, (list, tuple)):
            x = f_array(x)
        if isinstance(x, np.ma.MaskedArray):
            return real(x)
        if isinstance(x, np.ndarray) and x.dtype.kind in "iub":
            if name in ("negative", "positive", "absolute", "conjugate", "square", "sign"):
                return real(x)
            x = sarr(x)
        return _ufunc(real, "__call__", (x,), {})
    return g


def _pred(name):
    f = PRED[name]
    real = getattr(np, name)

    def g(x, *a, **k):
        if isinstance(x, S):
            return f(x)
        if isinstance(x, (list, tuple)):
            x = f_array(x)
        if isinstance(x, np.ndarray) and x.dtype == object:
            if isinstance(x, np.ma.MaskedArray):
                return np.ma.array(_ufunc(real, "__call__", (x.data.view(SArr),), {}), mask=x.mask)
            return _ufunc(real, "__call__", (x.view(SArr),), {})
        return real(x)
    return g


def f_arctan2(y, x, **k):
    y, x = np.broadcast_arrays(np.asarray(_obj(y)), np.asarray(_obj(x)))
    out = np.empty(y.shape, dtype=object)
    for i in np.ndindex(*y.shape):
        out[i] = core.CTX.arctan2(lift(y[i]), lift(x[i]))
    return out.view(SArr) if out.ndim else out.item()


def f_power(a, b, **k):
    a, b = np.broadcast_arrays(np.asarray(_obj(a)), np.asarray(_obj(b)))
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = lift(a[i]) ** lift(b[i])
    return out.view(SArr) if out.ndim else out.item()


def f_hypot(a, b, **k):
    return np.sqrt(sarr(a) ** 2 + sarr(b) ** 2)


def f_vectorize(f, otypes=None, **k):
    def g(*args):
        arrs = np.broadcast_arrays(*[np.asarray(_obj(a)) for a in args])
        out = np.empty(arrs[0].shape, dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = f(*[a[i] for a in arrs])
        return post(out)
    return g


def f_concatenate(arrs, axis=0, **k):
    arrs = [f_asarray(a) for a in arrs]
    if any(a.dtype == object for a in arrs):
        arrs = [sarr(a) if a.dtype != object else a for a in arrs]
        return post(np.concatenate([np.asarray(a).view(np.ndarray) for a in arrs], axis=axis))
    return np.concatenate(arrs, axis=axis)


def f_block(arrs):
    def depth(x):
        return 1 + max([depth(y) for y in x] or [0]) if isinstance(x, list) else 0

    def nd(x):
        if isinstance(x, list):
            return max(nd(y) for y in x)
        return f_asarray(x).ndim

    D = depth(arrs)
    N = max(D, nd(arrs))

    def go(x, level):
        if isinstance(x, list):
            return f_concatenate([go(y, level + 1) for y in x], axis=-(D - level))
        a = f_asarray(x)
        return a.reshape((1,) * (N - a.ndim) + tuple(a.shape))

    return go(arrs, 0)


def _stack(name):
    real = getattr(np, name)

    def g(arrs, *a, **k):
        arrs = [f_asarray(x) for x in arrs]
        if any(x.dtype == object for x in arrs):
            arrs = [(sarr(x) if x.dtype != object else x).view(np.ndarray) for x in arrs]
        return post(real(arrs, *a, **k))
    return g


OVERRIDE = {
    "array": f_array, "asarray": f_asarray, "asanyarray": f_asarray, "asfarray": lambda x: f_array(x, float),
    "asfortranarray": f_fortran, "ascontiguousarray": f_contig, "asarray_chkfinite": f_asarray,
    "zeros": f_zeros, "ones": f_ones, "empty": f_empty, "full": f_full,
    "zeros_like": _like(f_zeros), "ones_like": _like(f_ones), "empty_like": _like(f_empty),
    "full_like": f_full_like, "eye": f_eye, "identity": f_eye,
    "amax": amax, "max": amax, "amin": amin, "min": amin, "maximum": f_maximum, "minimum": f_minimum,
    "fmax": f_maximum, "fmin": f_minimum,
    "ptp": lambda a, axis=None: amax(a, axis) - amin(a, axis),
    "clip": f_clip, "arange": f_arange, "linspace": f_linspace, "isclose": f_isclose,
    "allclose": f_allclose, "array_equal": f_array_equal, "fill_diagonal": f_fill_diagonal,
    "nan_to_num": f_nan_to_num, "mean": f_mean, "average": f_average, "where": f_where,
    "piecewise": f_piecewise, "select": f_select, "round": f_round, "around": f_round, "sort": f_sort,
    "argsort": f_argsort, "dot": f_dot, "sum": f_sum, "einsum": f_einsum, "digitize": f_digitize,
    "searchsorted": f_searchsorted, "histogram": f_histogram, "interp": f_interp, "isscalar": f_isscalar,
    "diff": f_diff, "unique": f_unique, "finfo": f_finfo, "arctan2": f_arctan2, "power": f_power,
    "float_power": f_power, "hypot": f_hypot, "vectorize": f_vectorize, "concatenate": f_concatenate,
    "block": f_block,
    "vstack": _stack("vstack"), "hstack": _stack("hstack"), "stack": _stack("stack"),
    "column_stack": _stack("column_stack"), "dstack": _stack("dstack"), "argmax": lambda a, axis=None, **k: _argbest(f_asarray(a), axis, lambda x, y: x > y),
    "argmin": lambda a, axis=None, **k: _argbest(f_asarray(a), axis, lambda x, y: x < y),
}
for _n in list(UNARY):
    OVERRIDE[_n] = _un(_n)
OVERRIDE["abs"] = OVERRIDE["absolute"]
OVERRIDE["bincount"] = f_bincount
OVERRIDE["fromiter"] = lambda it, dtype=None, **k: f_array(list(it), dtype)
OVERRIDE["trunc"] = OVERRIDE["fix"] = lambda a: f_where(sarr(a) >= 0, OVERRIDE["floor"](a), OVERRIDE["ceil"](a))
for _n in PRED:
    OVERRIDE[_n] = _pred(_n)


def _methods(g, uf):
    """The methods of a ufunc on its replacement."""
    if isinstance(uf, np.ufunc):
        for m in ("reduce", "accumulate", "outer", "reduceat", "at"):
            def h(*args, _f=getattr(uf, m), **kw):
                return post(_f(*[f_asarray(a) if isinstance(a, (list, tuple)) or has_s(a) else a for a in args], **kw))
            setattr(g, m, h)
    return g


def generic(name, f):
    def g(*args, **kw):
        args = [_tof(a) for a in args]
        for k in kw:
            if k == "dtype":
                kw[k] = real_dtype(kw[k])
                if is_float_dtype(kw[k]) and any(has_s(a) for a in args):
                    kw[k] = None
        return post(f(*args, **kw))
    g.__name__ = name
    return g


def _tof(a):
    if isinstance(a, (list, tuple)) and has_s(a) and not any(isinstance(v, np.ndarray) for v in a):
        return f_array(a)
    return a


class FloatMeta(type):
    def __call__(cls, x=0.0, *a):
        return to_float(x)

    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.float, S))


class FloatShim(builtins.float, metaclass=FloatMeta):
    pass


class StrMeta(type):
    def __call__(cls, x="", *a):
        if isinstance(x, np.ndarray) and x.dtype == object and x.ndim == 0:
            x = x.item()
        if isinstance(x, S):
            return format(x, "")
        return builtins.str(x, *a)

    def __instancecheck__(cls, o):
        return isinstance(o, builtins.str)

    def __subclasscheck__(cls, o):
        return issubclass(o, builtins.str)


class StrShim(builtins.str, metaclass=StrMeta):
    """str() of a symbolic number is an opaque token."""


class IntMeta(type):
    def __call__(cls, x=0, *a):
        if isinstance(x, S):
            return x.__int__()
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return lift(x.item()).__int__()
        if isinstance(x, str) and TOKENS(x):
            v = parse_float(x)
            if v.is_const() and isinstance(v.cval(), int) and "." not in x:
                return v.cval()
            raise ValueError("invalid literal for int() with base 10: %r" % x)
        return builtins.int(x, *a)

    def __instancecheck__(cls, o):
        return isinstance(o, builtins.int)

    def __subclasscheck__(cls, o):
        return issubclass(o, builtins.int)


class IntShim(builtins.int, metaclass=IntMeta):
    pass


def to_float(x):
    if isinstance(x, S):
        return x
    if isinstance(x, B):
        return lift(x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        if x.size == 1:
            return lift(x.item())
        raise TypeError("only length-1 arrays can be converted to Python scalars")
    if isinstance(x, str):
        return parse_float(x)
    return lift(builtins.float(x))


def TOKENS(x):
    return "\ue000" in x or "\ue001" in x


def parse_float(x):
    from . import files

    return files.parse_float(x)


# ---------------------------------------------------------- linear algebra
def _mat(a):
    a = np.asarray(_obj(a.data if isinstance(a, np.ma.MaskedArray) else a))
    return [[lift(v) for v in row] for row in a]


def _check_finite(m):
    if any(v.sp for r in m for v in r):
        raise ValueError("array must not contain infs or NaNs")


def _abskey(v):
    k, kn = repr(v.key()), repr((-v).key())
    return (k, 1) if k <= kn else (kn, -1)


def _signs(sg, s0):
    """(s, d) with sg[i][j] = s*d[i]*d[j]*s0[i][j] wherever non-zero."""
    n = len(sg)
    for s in (1, -1):
        d = [0] * n
        ok = True
        for r in range(n):
            if d[r]:
                continue
            d[r] = 1
            st = [r]
            while st and ok:
                i = st.pop()
                for j in range(n):
                    for x, y in ((i, j), (j, i)):
                        if s0[x][y] == 0:
                            continue
                        want = sg[x][y] * s0[x][y] * s * d[i]
                        if d[j] == 0:
                            d[j] = want
                            st.append(j)
                        elif d[j] != want:
                            ok = False
        if ok:
            return s, d
    return None


def canon(v):
    """A rational expression met before that is provably equal to v."""
    c = core.CTX
    if v.sp or not any(c.atoms[a].kind == "den" for mm in v.t for a, _ in mm):
        return v
    from . import smt

    reps = c.table.setdefault(("REPS",), {})
    if not hasattr(c, "canon_envs"):
        c.canon_envs = []
        for k in (0, 1, 3):
            c.canon_envs.append({n: builtins.float(x) for n, x in smt.profile(c, k).items()})
    try:
        sig = []
        for e in c.canon_envs:
            for n, x in smt.profile(c, 0).items():
                e.setdefault(n, builtins.float(x))
            sig.append("%.8e" % c.evalf(v, e))
    except Exception:
        return v
    if any("n" in x for x in sig):
        return v
    sig = tuple(sig)
    known = reps.setdefault(sig, [])
    for r in known:
        if r.key() == v.key():
            return r
    for r in known:
        if c.recorded(lambda: smt.prove(c, r == v, 1500, lemma=True)):
            return r
    known.append(v)
    return v


def inv_atoms(m):
    """Contract of matrix inversion: G with m*G = G*m = I (m assumed
    non-singular).  Interned up to simultaneous permutation and changes of
    sign s*D*m*D."""
    c = core.CTX
    n = len(m)
    m = [[canon(v) for v in r] for r in m]
    ak = [[_abskey(v) for v in r] for r in m]
    keys = [[x[0] for x in r] for r in ak]
    sgn = [[0 if v.is_const() and v.cval() == 0 else x[1] for v, x in zip(r, rr)] for r, rr in zip(m, ak)]
    perm = sorted(range(n), key=lambda i: (keys[i][i], tuple(sorted(keys[i])), i))
    pm = [[m[i][j] for j in perm] for i in perm]
    ps = [[sgn[i][j] for j in perm] for i in perm]
    tabkey = ("INV", tuple(tuple(keys[i][j] for j in perm) for i in perm))
    G = None
    for s0, G0 in c.table.setdefault(tabkey, []):
        r = _signs(ps, s0)
        if r is not None:
            s, d = r
            G = [[G0[i][j].scale(s * d[i] * d[j]) for j in range(n)] for i in range(n)]
            break
    if G is None:
        mid = len(c.invs) * 1000 + len(c.atoms)
        sym = all(pm[i][j].key() == pm[j][i].key() for i in range(n) for j in range(i))

        def ev_all(env, pm=pm, mid=mid):
            k = "INV%d" % mid
            cache = env.setdefault("__cache__", {})
            if k not in cache:
                try:
                    cache[k] = np.linalg.inv(np.array([[c.evalf(v, env) for v in r] for r in pm], dtype=float))
                except Exception:
                    cache[k] = np.full((n, n), np.nan)
            return cache[k]

        G = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(n):
                if sym and j < i:
                    G[i][j] = G[j][i]
                    continue
                a = c.atom(
                    "ginv", (mid, i, j), "G%d_%d%d" % (mid, i, j),
                    ev=lambda env, i=i, j=j: float(ev_all(env)[i, j]),
                )
                G[i][j] = c.s(a)
        c.table[tabkey].append((ps, G))
        for i in range(n):
            for j in range(n):
                d = S.const(1 if i == j else 0)
                acc = ZERO
                for k in range(n):
                    acc = acc + pm[i][k] * G[k][j]
                c.invs.append(acc - d)
                if not sym:
                    acc = ZERO
                    for k in range(n):
                        acc = acc + G[i][k] * pm[k][j]
                    c.invs.append(acc - d)
    out = [[None] * n for _ in range(n)]
    for a, i in enumerate(perm):
        for b, j in enumerate(perm):
            out[i][j] = G[a][b]
    return out


def _arr2(m):
    return sarr(m)


def dup_groups(m):
    n = len(m)
    keys = [tuple(v.key() for v in r) for r in m]
    cols = [tuple(m[i][j].key() for i in range(n)) for j in range(n)]
    groups = []
    for i in range(n):
        for g in groups:
            if keys[g[0]] == keys[i] and cols[g[0]] == cols[i]:
                g.append(i)
                break
        else:
            groups.append([i])
    return groups


def l_inv(a, *args, **kw):
    m = _mat(a)
    _check_finite(m)
    if len(m) != len(m[0]):
        raise ValueError("expected square matrix")
    if any(all(v.is_const() and v.cval() == 0 for v in r) for r in m):
        raise np.linalg.LinAlgError("Singular matrix")
    if len(dup_groups(m)) < len(m):
        raise np.linalg.LinAlgError("Singular matrix")
    return _arr2(inv_atoms(m))


def l_solve(a, b, *args, **kw):
    m = _mat(a)
    bb = np.asarray(_obj(b))
    _check_finite(m)
    if any(lift(v).sp for v in bb.ravel()):
        raise ValueError("array must not contain infs or NaNs")
    if len(m) != len(m[0]) or bb.shape[0] != len(m):
        raise ValueError("incompatible dimensions")
    if len(dup_groups(m)) < len(m):
        raise np.linalg.LinAlgError("Singular matrix")
    G = np.asarray(_arr2(inv_atoms(m))).view(np.ndarray)
    return post(_unit_cols(m, bb, np.dot(G, bb)))


def lu_factor(a, *args, **kw):
    a = f_asarray(a)
    return a, np.arange(len(a))


def lu_solve(lu, b, trans=0, **kw):
    a = lu[0]
    return l_solve(a.T if trans else a, b)


def _unit_cols(m, bb, x):
    """Where the right-hand side is column k of the matrix, the solution is
    the unit vector k."""
    n = len(m)
    b2, x2 = bb.reshape(n, -1), x.reshape(n, -1)
    for c in range(b2.shape[1]):
        for k in range(n):
            if all((d := lift(b2[i, c]) - m[i][k]).is_const() and d.cval() == 0 for i in range(n)):
                for i in range(n):
                    x2[i, c] = lift(1 if i == k else 0)
                break
    return x2.reshape(x.shape)


def l_pinv(a, *args, **kw):
    """Moore-Penrose contract: for duplicated rows/columns
    A = D Ar D^T, pinv(A) = D M^-1 Ar^-1 M^-1 D^T, M = D^T D."""
    m = _mat(a)
    _check_finite(m)
    g = dup_groups(m)
    if len(g) == len(m):
        return _arr2(inv_atoms(m))
    red = [[m[x[0]][y[0]] for y in g] for x in g]
    G = inv_atoms(red)
    n = len(m)
    out = [[None] * n for _ in range(n)]
    for i, x in enumerate(g):
        for j, y in enumerate(g):
            v = G[i][j].scale(Fraction(1, len(x) * len(y)))
            for p in x:
                for q in y:
                    out[p][q] = v
    return _arr2(out)


def l_lstsq(a, b, *args, **kw):
    P = np.asarray(l_pinv(a)).view(np.ndarray)
    m = _mat(a)
    bb = np.asarray(_obj(b))
    x = np.dot(P, bb)
    if len(dup_groups(m)) == len(m):
        x = _unit_cols(m, bb, x)
    x = post(x)
    n = P.shape[0]
    return x, sarr([]), n, sarr([0] * n)


def l_norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        raise Unsupported("norm ord")
    x = sarr(x)
    return np.sqrt((x * x).sum(axis=axis, keepdims=keepdims)) if axis is not None else (x * x).sum().sqrt()


def l_det(a):
    m = _mat(a)
    n = len(m)
    if n == 1:
        return m[0][0]
    tot = ZERO
    for j in range(n):
        sub = [[m[i][k] for k in range(n) if k != j] for i in range(1, n)]
        t = m[0][j] * l_det(sub)
        tot = tot + t if j % 2 == 0 else tot - t
    return tot


LINALG = {"inv": l_inv, "solve": l_solve, "pinv": l_pinv, "lstsq": l_lstsq, "norm": l_norm, "det": l_det}


# ------------------------------------------------------------- the proxies
class Proxy(types.ModuleType):
    def __init__(self, real, over, name=None, deny=()):
        super().__init__(name or real.__name__)
        self.__dict__["_real"] = real
        self.__dict__["_over"] = over
        self.__dict__["_cache"] = {}
        self.__dict__["_deny"] = deny

    def __getattr__(self, name):
        o = self._over
        if name in o:
            return o[name]
        ca = self._cache
        if name in ca:
            return ca[name]
        v = getattr(self._real, name)
        if isinstance(v, np.ufunc) or (callable(v) and not isinstance(v, type)):
            if self._deny == "all":
                raise Unsupported("%s.%s" % (self.__name__, name))
            v = _methods(generic(name, v), v)
        ca[name] = v
        return v


def ma_array(data, mask=np.ma.nomask, dtype=None, copy=False, **k):
    if isinstance(data, np.ma.MaskedArray):
        r = np.ma.array(data, mask=mask, **k)
        return r
    d = f_asarray(data)
    if d.dtype == object:
        d = np.asarray(d).view(np.ndarray)
    return np.ma.array(d, mask=mask, copy=copy, **{x: y for x, y in k.items() if x in ("fill_value", "keep_mask", "hard_mask")})


MA = Proxy(np.ma, {"array": ma_array, "masked_array": ma_array, "MaskedArray": np.ma.MaskedArray}, "numpy.ma")
LIN = Proxy(np.linalg, dict(LINALG, LinAlgError=np.linalg.LinAlgError), "numpy.linalg", deny="all")


class NPProxy(Proxy):
    def __getattr__(self, name):
        if name == "pi":
            return core.CTX.pi_s()
        if name in ("inf", "Inf", "infty"):
            return S({}, "inf")
        if name in ("nan", "NaN"):
            return S({}, "nan")
        if name == "ma":
            return MA
        if name == "linalg":
            return LIN
        if name in ("float64", "double", "float_"):
            return FloatShim
        if name == "random":
            raise Unsupported("numpy.random")
        return super().__getattr__(name)


def f_genfromtxt(fname, skip_header=0, skip_footer=0, **kw):
    from . import files

    return files.genfromtxt(fname, skip_header, skip_footer, **kw)


OVERRIDE["genfromtxt"] = f_genfromtxt
OVERRIDE["loadtxt"] = lambda fname, skiprows=0, **kw: f_genfromtxt(fname, skip_header=skiprows)
OVERRIDE["savetxt"] = lambda *a, **k: (_ for _ in ()).throw(Unsupported("savetxt"))

for _n, _f in OVERRIDE.items():
    if isinstance(getattr(np, _n, None), np.ufunc):
        _methods(_f, getattr(np, _n))
NP = NPProxy(np, OVERRIDE, "numpy")


# ---------------------------------------------------------------- scipy
def _sqd(p, q):
    acc = ZERO
    for a, b in zip(p, q):
        d = lift(a) - lift(b)
        acc = acc + d * d
    return acc


def _metric(metric):
    if callable(metric) or str(metric).lower() not in ("euclidean", "sqeuclidean", "cityblock"):
        raise Unsupported("metric %r" % (metric,))
    if metric == "sqeuclidean":
        return _sqd
    if metric == "cityblock":
        return lambda p, q: sum((abs(lift(a) - lift(b)) for a, b in zip(p, q)), ZERO)
    return lambda p, q: _sqd(p, q).sqrt()


def cdist(XA, XB, metric="euclidean", **k):
    XA, XB = np.asarray(_obj(XA)), np.asarray(_obj(XB))
    if XA.ndim != 2 or XB.ndim != 2:
        raise ValueError("XA and XB must be 2-dimensional arrays.")
    if XA.shape[1] != XB.shape[1]:
        raise ValueError("XA and XB must have the same number of columns")
    f = _metric(metric)
    out = np.empty((len(XA), len(XB)), dtype=object)
    for i in range(len(XA)):
        for j in range(len(XB)):
            out[i, j] = f(XA[i], XB[j])
    return out.view(SArr)


def pdist(X, metric="euclidean", **k):
    X = np.asarray(_obj(X))
    if X.ndim != 2:
        raise ValueError("A 2-dimensional array must be passed.")
    f = _metric(metric)
    n = len(X)
    out = np.empty(n * (n - 1) // 2, dtype=object)
    k = 0
    for i in range(n):
        for j in range(i + 1, n):
            out[k] = f(X[i], X[j])
            k += 1
    return out.view(SArr)


def squareform(v, **k):
    v = np.asarray(_obj(v))
    if v.ndim == 1:
        n = int((1 + math.isqrt(1 + 8 * len(v))) // 2) if len(v) else 1
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            out[i, i] = ZERO
        k = 0
        for i in range(n):
            for j in range(i + 1, n):
                out[i, j] = out[j, i] = lift(v[k])
                k += 1
        return out.view(SArr)
    n = len(v)
    return sarr([v[i, j] for i in range(n) for j in range(i + 1, n)])


class KDTree:
    def __init__(self, data, *a, **k):
        self.data = sarr(data)
        if self.data.ndim != 2:
            raise ValueError("data must be 2 dimensions")
        self.n, self.m = self.data.shape

    def query(self, x, k=1, eps=0.0, p=2, distance_upper_bound=None, workers=1):
        if p not in (2, 2.0):
            raise Unsupported("KDTree p")
        if eps not in (0, 0.0):
            raise Unsupported("KDTree eps")
        x = sarr(x)
        if x.shape[-1] != self.m:
            raise ValueError("x must consist of vectors of length %d" % self.m)
        if isinstance(k, (list, tuple, np.ndarray)):
            ks = [int(v) for v in k]
            kk = max(ks)
            squeeze = False
        else:
            kk = int(k)
            if kk < 1:
                raise ValueError("k must be an integer >= 1")
            ks = list(range(1, kk + 1))
            squeeze = kk == 1
        flat = x.reshape((-1, self.m))
        D = np.empty((len(flat), len(ks)), dtype=object)
        I = np.zeros((len(flat), len(ks)), dtype=np.int64)
        for r in range(len(flat)):
            sq = [_sqd(flat[r], self.data[i]) for i in range(self.n)]
            order = []
            for i in range(self.n):
                pos = len(order)
                # insertion by symbolic comparison
                for t, o in enumerate(order):
                    if bool(sq[i] < sq[o]):
                        pos = t
                        break
                order.insert(pos, i)
                if len(order) > kk:
                    order.pop()
            for t, kq in enumerate(ks):
                if kq - 1 < len(order):
                    I[r, t] = order[kq - 1]
                    D[r, t] = sq[order[kq - 1]].sqrt()
                else:
                    I[r, t] = self.n
                    D[r, t] = S({}, "inf")
        D = D.reshape(x.shape[:-1] + (len(ks),)).view(SArr)
        I = I.reshape(x.shape[:-1] + (len(ks),))
        if squeeze:
            D, I = D[..., 0], I[..., 0]
        return D, I


def helmert(n, full=False):
    """Exact Helmert matrix (scipy.linalg.helmert)."""
    n = int(n)
    rows = []
    c = core.CTX
    if full:
        rows.append([S.const(Fraction(1, n)).sqrt()] * n)
    for i in range(1, n):
        nrm = S.const(Fraction(1, i * (i + 1))).sqrt()
        rows.append([nrm] * i + [nrm * (-i)] + [ZERO] * (n - i - 1))
    return sarr(rows)


class OptResult(dict):
    __getattr__ = dict.__getitem__


def least_squares(fun, x0, jac="2-point", bounds=None, method="trf", ftol=None, xtol=None, gtol=None,
                  x_scale=None, loss="linear", f_scale=1.0, args=(), kwargs=None, **kw):
    """Contract: refuses an infeasible start or empty bounds; returns a point
    inside the bounds."""
    c = core.CTX
    x0 = [lift(v) for v in (list(x0) if not isinstance(x0, S) else [x0])]
    n = len(x0)
    if bounds is None:
        lb, ub = [S({}, "-inf")] * n, [S({}, "inf")] * n
    else:
        lb, ub = bounds
        lb = [lift(v) for v in (lb if isinstance(lb, (list, tuple, np.ndarray)) else [lb] * n)]
        ub = [lift(v) for v in (ub if isinstance(ub, (list, tuple, np.ndarray)) else [ub] * n)]
    if len(lb) != n or len(ub) != n:
        raise ValueError("Inconsistent shapes between bounds and `x0`.")
    for a, b in zip(lb, ub):
        if bool(a >= b) if not (a.sp == "nan" or b.sp == "nan") else True:
            raise ValueError("Each lower bound must be strictly less than each upper bound.")
    for x, a, b in zip(x0, lb, ub):
        if x.sp == "nan" or bool(x < a) or bool(x > b):
            raise ValueError("`x0` is infeasible.")
    r0 = fun(sarr(x0), *args, **(kwargs or {}))
    r0 = sarr(np.atleast_1d(np.asarray(_obj(r0))))
    if any(v.sp for v in r0.ravel()):
        raise ValueError("Residuals are not finite in the initial point.")
    xs = []
    key = ("LSQ", tuple(v.key() for v in x0), tuple(v.key() for v in lb), tuple(v.key() for v in ub),
           tuple(v.key() for v in r0.ravel()), str(loss))
    for i in range(n):
        lo = lb[i]
        hi = ub[i]
        s = c.fresh("fit", key=(key, i), ev=lambda env, i=i: c.evalf(x0[i], env))
        if not lo.sp:
            c.fact(B(("<=", lo - s))) if not (lo - s).is_const() else None
        if not hi.sp:
            c.fact(B(("<=", s - hi)))
        xs.append(s)
    res = OptResult(x=sarr(xs), success=True, status=1, cost=None, fun=None, message="")
    c.lsq_calls = getattr(c, "lsq_calls", []) + [
        dict(fun=fun, x0=x0, lb=lb, ub=ub, args=args, kwargs=kwargs or {}, loss=loss, res=res, f_scale=f_scale)
    ]
    return res


def _mk(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m


class StrictModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("%s.%s" % (self.__name__, n))


def _strict(name, **kw):
    m = StrictModule(name)
    m.__dict__.update(kw)
    return m


def build_modules():
    lapack = _strict("scipy.linalg.lapack")
    linalg = _strict("scipy.linalg", inv=l_inv, solve=l_solve, pinv=l_pinv, pinvh=l_pinv, lstsq=l_lstsq,
                     helmert=helmert, norm=l_norm, det=l_det, lu_factor=lu_factor, lu_solve=lu_solve, lapack=lapack, LinAlgError=np.linalg.LinAlgError)
    dist = _strict("scipy.spatial.distance", cdist=cdist, pdist=pdist, squareform=squareform)
    spatial = _strict("scipy.spatial", cKDTree=KDTree, KDTree=KDTree, distance=dist,
                      distance_matrix=lambda a, b: cdist(a, b))
    optimize = _strict("scipy.optimize", least_squares=least_squares, OptimizeResult=OptResult)
    special = _strict("scipy.special")
    sp = _strict("scipy", linalg=linalg, spatial=spatial, optimize=optimize, special=special)

    def m1(f):
        return lambda x: f(lift(x))

    def pyscalar(f):
        return f

    mt = _strict(
        "math", sqrt=m1(S.sqrt), exp=m1(S.exp), log=m1(S.log), sin=m1(S.sin), cos=m1(S.cos), tan=m1(S.tan),
        acos=m1(S.arccos), asin=m1(S.arcsin), atan2=lambda y, x: core.CTX.arctan2(lift(y), lift(x)),
        radians=m1(S.deg2rad), degrees=m1(S.rad2deg), fabs=m1(S.__abs__),
        hypot=lambda *a: sum((lift(x) * lift(x) for x in a), ZERO).sqrt(),
        floor=lambda x: math.floor(x) if not isinstance(x, S) else core._concretize_int(x.floor()),
        ceil=lambda x: math.ceil(x) if not isinstance(x, S) else core._concretize_int(x.ceil()),
        isnan=lambda x: lift(x).isnan(), isinf=lambda x: lift(x).isinf(),
        isfinite=lambda x: lift(x).sp is None,
        isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.0: f_isclose(a, b, rtol=rel_tol, atol=abs_tol),
        pow=lambda a, b: lift(a) ** lift(b), inf=S({}, "inf"), nan=S({}, "nan"),
        fsum=lambda xs: sum((lift(x) for x in xs), ZERO), prod=math.prod,
        comb=math.comb, factorial=math.factorial, isqrt=math.isqrt, gcd=math.gcd,
    )
    type(mt)  # pi depends on the path context
    mt.__class__ = type("MathMod", (StrictModule,), {"pi": property(lambda self: core.CTX.pi_s())})
    return {
        "numpy": NP, "numpy.ma": MA, "numpy.linalg": LIN,
        "scipy": sp, "scipy.linalg": linalg, "scipy.linalg.lapack": lapack, "scipy.spatial": spatial,
        "scipy.spatial.distance": dist, "scipy.optimize": optimize, "scipy.special": special, "math": mt,
    }
