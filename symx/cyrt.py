"""Run-time model of compiled Cython code: memoryviews without wrap-around,
pointers into them, C conversions, BLAS/LAPACK contracts."""
import numpy as np

from . import core, npshim
from .core import EngineStop, S, Unsupported, ZERO, lift
from .npshim import SArr


class MemoryViolation(EngineStop):
    """Undefined behaviour reached: reported as a failed goal."""


class _Uninit:
    def _bad(self, *a):
        raise MemoryViolation("use of an uninitialised C variable")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __bool__ = __index__ = __neg__ = _bad
    __hash__ = object.__hash__


UNINIT = _Uninit()


class Ref:
    def __init__(self, v):
        self.v = v


DT = {"double": "f", "int": "int32", "long": "int64", "char": "int8"}


class MV:
    def __init__(self, arr, name):
        self.__dict__["arr"] = arr
        self.__dict__["name"] = name

    @property
    def base(self):
        return self.arr

    @property
    def shape(self):
        return tuple(self.arr.shape)

    @property
    def size(self):
        return self.arr.size

    @property
    def ndim(self):
        return self.arr.ndim

    @property
    def T(self):
        return MV(self.arr.T, self.name)

    def _check(self, i):
        if not isinstance(i, tuple):
            i = (i,)
        if len(i) > self.arr.ndim:
            raise Unsupported("too many indices")
        out = []
        for k, x in enumerate(i):
            if isinstance(x, slice):
                out.append(x)
                continue
            if x is UNINIT:
                raise MemoryViolation("uninitialised index")
            if isinstance(x, S):
                raise Unsupported("symbolic index")
            x = int(x)
            if x < 0 or x >= self.arr.shape[k]:
                raise MemoryViolation(
                    "index %d out of bounds for axis %d of %s with size %d" % (x, k, self.name, self.arr.shape[k])
                )
            out.append(x)
        return tuple(out)

    def __getitem__(self, i):
        j = self._check(i)
        r = np.ndarray.__getitem__(self.arr, j)
        if isinstance(r, np.ndarray) and (len(j) < self.arr.ndim or any(isinstance(x, slice) for x in j)):
            return MV(r, self.name)
        if isinstance(r, np.generic):
            return r.item()
        return r

    def __setitem__(self, i, v):
        j = self._check(i)
        if isinstance(v, MV):
            v = v.arr
        full = len(j) == self.arr.ndim and not any(isinstance(x, slice) for x in j)
        if full and isinstance(self.arr, SArr):
            if v is UNINIT:
                raise MemoryViolation("store of an uninitialised variable")
            v = lift(v)
        elif full and isinstance(v, S):
            v = ccastint(v)
        self.arr[j] = v

    def __len__(self):
        return self.arr.shape[0]

    def __iter__(self):
        return iter([self[i] for i in range(self.arr.shape[0])])

    def __neg__(self):
        raise TypeError("bad operand type for unary -")

    def copy(self):
        return MV(self.arr.copy(), self.name)

    def __array__(self, dtype=None, copy=None):
        return np.array(self.arr, dtype=object if isinstance(self.arr, SArr) else None)


def mv(x, name, base, longness, axes):
    """Conversion to a typed memoryview."""
    if isinstance(x, MV):
        x = x.arr
    if not isinstance(x, np.ndarray):
        raise TypeError("a bytes-like object is required, not %r" % type(x).__name__)
    if isinstance(x, np.ma.MaskedArray):
        x = x.data
    if x.ndim != len(axes):
        raise ValueError("Buffer has wrong number of dimensions (expected %d, got %d)" % (len(axes), x.ndim))
    want = DT["long" if (base == "int" and longness) else base]
    if want == "f":
        if x.dtype == object and not isinstance(x, SArr):
            x = x.view(SArr)
        if not isinstance(x, SArr) and x.dtype != np.float64:
            raise ValueError("Buffer dtype mismatch, expected 'double' but got %r" % x.dtype.name)
    elif isinstance(x, SArr) or x.dtype != np.dtype(want):
        raise ValueError("Buffer dtype mismatch, expected %r but got %r" % (base, x.dtype.name))
    if axes[-1] == "1" and not x.flags.c_contiguous:
        raise ValueError("ndarray is not C-contiguous")
    if axes[0] == "1" and len(axes) > 1 and not x.flags.f_contiguous:
        raise ValueError("ndarray is not Fortran contiguous")
    return MV(x, name)


def cint(v):
    if v is UNINIT or isinstance(v, (int, np.integer)):
        return v if v is UNINIT else int(v)
    if isinstance(v, S):
        return ccastint(v)
    if isinstance(v, bool):
        return int(v)
    raise TypeError("an integer is required")


def ccastint(v):
    if isinstance(v, S):
        return v.__int__()
    return int(v)


def cdouble(v):
    if v is UNINIT:
        return v
    if isinstance(v, np.ndarray):
        if v.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        v = v.item()
    if isinstance(v, str) or v is None:
        raise TypeError("must be real number, not %s" % type(v).__name__)
    r = lift(v)
    if r is None:
        raise TypeError("must be real number, not %s" % type(v).__name__)
    return r


def cfloat(v):
    return npshim.to_f32(cdouble(v)) if v is not UNINIT else v


def cpow(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a**b if b >= 0 else S.const(a) ** b
    return lift(a) ** lift(b)


def carray(n, dt):
    if dt == "double":
        return MV(npshim.f_empty((int(n),)), "array")
    return MV(np.zeros(int(n), dtype="int32"), "array")


class Ptr:
    """Pointer into the memory of a contiguous memoryview."""

    def __init__(self, mvw, idx):
        a = mvw.arr
        self.name = mvw.name
        self.arr = a
        if a.flags.c_contiguous:
            self.order = "C"
        elif a.flags.f_contiguous:
            self.order = "F"
        else:
            raise Unsupported("pointer into strided memory")
        self.off = int(np.ravel_multi_index(idx, a.shape, order=self.order)) if a.size else 0
        self.n = a.size

    def _ix(self, k):
        p = self.off + k
        if p < 0 or p >= self.n:
            raise MemoryViolation("pointer access %d beyond %s of %d elements" % (p, self.name, self.n))
        return np.unravel_index(p, self.arr.shape, order=self.order)

    def __getitem__(self, k):
        return self.arr[self._ix(k)]

    def __setitem__(self, k, v):
        self.arr[self._ix(k)] = v


def ptr(m, idx):
    m._check(idx)
    return Ptr(m, idx)


def _v(r):
    if isinstance(r, Ref):
        if r.v is UNINIT:
            raise MemoryViolation("uninitialised argument")
        return r.v
    return r[0]


def dgemv(trans, m, n, alpha, a, lda, x, incx, beta, y, incy):
    m, n, lda, incx, incy = (int(_v(v)) for v in (m, n, lda, incx, incy))
    al, be = lift(_v(alpha)), lift(_v(beta))
    if trans[0] not in "NnTtCc" or m < 0 or n < 0 or lda < max(1, m) or incx == 0 or incy == 0:
        raise MemoryViolation("dgemv called with illegal arguments")
    if incx < 0 or incy < 0:
        raise Unsupported("negative increments")
    tr = trans[0] in "TtCc"
    rows, cols = (n, m) if tr else (m, n)
    out = []
    for i in range(rows):
        acc = ZERO
        for j in range(cols):
            e = a[j + i * lda] if tr else a[i + j * lda]
            acc = acc + lift(e) * lift(x[j * incx])
        acc = acc * al
        if not (be.is_const() and be.cval() == 0):
            acc = acc + be * lift(y[i * incy])
        out.append(acc)
    for i, v in enumerate(out):
        y[i * incy] = v


def dgesv(n, nrhs, a, lda, ipiv, b, ldb, info):
    n, nrhs, lda, ldb = (int(_v(v)) for v in (n, nrhs, lda, ldb))
    if n < 0 or nrhs < 0 or lda < max(1, n) or ldb < max(1, n):
        raise MemoryViolation("dgesv called with illegal arguments")
    A = [[lift(a[i + j * lda]) for j in range(n)] for i in range(n)]
    Bm = [[lift(b[i + j * ldb]) for j in range(nrhs)] for i in range(n)]
    for i in range(n):
        ipiv[i] = 0
    c = core.CTX
    fail = 0
    hook = getattr(c, "dgesv_info", None)
    if hook is not None:
        fail = hook(n)
    if fail == 0 and len(npshim.dup_groups(A)) < n:
        fail = n
    bad = any(v.sp for r in A for v in r) or any(v.sp for r in Bm for v in r)
    for i in range(n):
        for j in range(n):
            a[i + j * lda] = c.fresh("lu", ev=lambda env: 7.25)
    if fail:
        info.v = fail
        if isinstance(fail, int) and fail > 0:
            for i in range(n):
                for j in range(nrhs):
                    b[i + j * ldb] = c.fresh("garbage", ev=lambda env: 1e9)
        return
    info.v = 0
    if bad:
        for i in range(n):
            for j in range(nrhs):
                b[i + j * ldb] = S({}, "nan")
        return
    G = npshim.inv_atoms(A)
    for j in range(nrhs):
        for i in range(n):
            acc = ZERO
            for k in range(n):
                acc = acc + G[i][k] * Bm[k][j]
            b[i + j * ldb] = acc


def ddot(n, x, incx, y, incy):
    n, incx, incy = (int(_v(v)) for v in (n, incx, incy))
    acc = ZERO
    for i in range(n):
        acc = acc + lift(x[i * incx]) * lift(y[i * incy])
    return acc


_FN = {
    "exp": lambda x: lift(x).exp(), "sqrt": lambda x: lift(x).sqrt(), "log": lambda x: lift(x).log(),
    "sin": lambda x: lift(x).sin(), "cos": lambda x: lift(x).cos(), "fabs": lambda x: abs(lift(x)),
    "pow": lambda a, b: lift(a) ** lift(b), "dgemv": dgemv, "dgesv": dgesv, "ddot": ddot,
}


def get(name):
    if name not in _FN:
        raise Unsupported("C function " + name)
    return _FN[name]


__all__ = []
