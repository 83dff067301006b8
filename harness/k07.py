"""K07: anisotropy."""
from .common import *
from .k01 import okd
from .k02 import uk

ID = "K07"


def problem(env, kind, dim, n, drifts, where="free"):
    """Isotropic description of one problem (drift terms that need no more
    than distances)."""
    geo = Iso(env, dim)
    pts = points(env, n, dim)
    mod = mkmodel(env, "custom")
    return geo, pts, mod, env.reals("v", n, -100, 100, PV)


def unit(env, kind, dim, n, backend, drifts=(), style="points"):
    """Unit scaling: no angle makes a difference."""
    geo, pts, mod, zv = problem(env, kind, dim, n, drifts)
    apart(env, geo, pts)
    qs = targets(env, geo, pts, "free")
    if dim == 2:
        turned = Aniso2(env, 1, env.real("angle", -360, 360, [r[0] for r in PA]))
    else:
        turned = Aniso3(env, 1, 1, *env.reals("angle", 3, -360, 360, [[30, 10, -50], [-75, 20, 15], [120, -10, 33], [200, 95, 5], [10, 0, 70]]))
    kw, ekw, fd, fq = drift_2d(env, drifts, geo, pts, qs, tuple([env.num(0)] * dim)) if kind == "uk" else ({}, {}, [], [])
    if kind == "uk":
        wellposed(env, geo, mod, pts, fd)
    a = make(env, kind, dim, pts, zv, mod, geo, **kw)
    b = make(env, kind, dim, pts, zv, mod, turned, **kw)
    za, sa = execute(env, a, style, qs, backend=backend, **ekw)
    zb, sb = execute(env, b, style, qs, backend=backend, **ekw)
    env.eq("values with unit scaling", zb, za)
    env.eq("variances with unit scaling", sb, sa)


def shift(env, kind, dim, n, backend, drifts=(), window=None):
    """A common shift of all coordinates makes no difference."""
    geo = mkgeo(env, True, dim)
    pts = points(env, n, dim)
    apart(env, geo, pts)
    qs = targets(env, geo, pts, "free")
    if window:
        for p in pts[1:]:
            env.assume(geo.dist2(pts[0], qs[0][0]) + env.num(Fraction(1, 32)) <= geo.dist2(p, qs[0][0]))
    mod = mkmodel(env, "custom")
    zv = env.reals("v", n, -100, 100, PV)
    kw, ekw, fd, fq = drift_2d(env, drifts, geo, pts, qs, tuple([env.num(0)] * dim)) if kind == "uk" else ({}, {}, [], [])
    if kind == "uk":
        wellposed(env, geo, mod, pts, fd)
    t = env.reals("t", dim, -50, 50, [[1, 2, -3], [-10, 4, "1/2"], [3, 3, 3], [0, "7/2", 1], [-1, 0, 20]])

    def moved(p):
        return tuple(u + w for u, w in zip(p, t))

    kw2 = dict(kw)
    if "point_drift" in kw:
        w = kw["point_drift"]
        kw2["point_drift"] = env.arr([[r[0] + t[0], r[1] + t[1], r[2]] for r in w])
    if window:
        ekw["n_closest_points"] = window
    a = make(env, kind, dim, pts, zv, mod, geo, **kw)
    b = make(env, kind, dim, [moved(p) for p in pts], zv, mod, geo, **kw2)
    za, sa = execute(env, a, "points", qs, backend=backend, **ekw)
    zb, sb = execute(env, b, "points", [(moved(q), at) for q, at in qs], backend=backend, **ekw)
    env.eq("values after a common shift", zb, za)
    env.eq("variances after a common shift", sb, sa)


def lag(env, kind, dim):
    """The experimental variogram of two points is at their distance."""
    geo = mkgeo(env, True, dim)
    pts = points(env, 2, dim)
    apart(env, geo, pts)
    mod = mkmodel(env, "custom")
    k = make(env, kind, dim, pts, env.reals("v", 2, -100, 100, PV), mod, geo)
    env.eq("lag of the only pair", k.lags, [geo.dist(pts[0], pts[1])])


BOUNDS = ("2D and 3D, every class and backend, 2-4 data points in [-50, 50] pairwise at least 1/8 apart, 1-2 targets free or on a datum; any "
          "scalings in [1/10, 10] and angles in [-360, 360] degrees; shifts in [-50, 50]; point, linear, functional, specified and external drift")
OUTSIDE = "more data points; geographic coordinates (K08)"
needs_c = c_task


def tasks(thorough):
    out = []

    def add(fn, **k):
        out.append((fn, k))

    for dim in (2, 3):
        for b in ("vectorized", "loop") + (("C",) if dim == 2 else ()):
            for where in ("free", "mix"):
                for n in (2, 3):
                    add("okd", dim=dim, n=n, backend=b, aniso=True, where=where, exact=True, model="linear" if b == "C" else "custom")
            if b == "C":
                continue
            for d in (["lin"], ["well"], ["func"], ["spec"], ["extZx"], []) if dim == 2 else (["lin"], ["func"], ["spec"], []):
                n = (3 if d else 2) if dim == 2 else (4 if d == ["lin"] else 3)
                add("uk", dim=dim, n=n, backend=b, aniso=True, where="mix" if dim == 2 else "free", exact=True, drifts=d)
            if dim == 2:
                add("uk", dim=2, n=3, backend=b, aniso=True, where="free", exact=True, drifts=["well2"])
            for kd in ("ok", "uk"):
                for n in (2, 3):
                    add("unit", kind=kd, dim=dim, n=n, backend=b)
                    add("shift", kind=kd, dim=dim, n=n, backend=b)
            if dim == 2:
                add("unit", kind="uk", dim=2, n=3, backend=b, drifts=["well"])
                add("unit", kind="uk", dim=2, n=3, backend=b, drifts=["extZx"])
                add("shift", kind="uk", dim=2, n=3, backend=b, drifts=["well"])
            add("unit", kind="uk", dim=dim, n=3, backend=b, drifts=["spec"])
            add("shift", kind="uk", dim=dim, n=3, backend=b, drifts=["spec"])
            if b == "loop":
                add("shift", kind="ok", dim=dim, n=3, backend=b, window=2)
        for kd in ("ok", "uk"):
            add("lag", kind=kd, dim=dim)
    return out
