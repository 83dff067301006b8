"""K10: the compiled variogram models."""
from .common import *
from .k09 import formula, params

ID = "K10"
CHECKED = True
KEYS = dict(linear=("slope", "nugget"), power=("scale", "exponent", "nugget"))


def model(env, name):
    p = params(env, name)
    env.assume(p[0] >= env.num(Fraction(1, 8)))
    keys = KEYS.get(name, ("psill", "range", "nugget"))
    return p, Model(dict(variogram_model=name, variogram_parameters=dict(zip(keys, p))), None)


def compiled(env, k, qs, **kw):
    """The compiled backend, with its memory accesses watched."""
    kind, r = env.guarded(lambda: execute(env, k, "points", qs, backend="C", **kw))
    env.check("no error", kind == "value", str(r)[:200] if kind != "value" else "")
    return r


def near(env, pts, q, m):
    for j in range(m, len(pts)):
        for i in range(m):
            env.assume(d2_plain(pts[i], q) + env.num(Fraction(1, 32)) <= d2_plain(pts[j], q))


def off_range(env, name, p, geo, pts, qs):
    """No distance exactly at the range (see `boundary`)."""
    if name == "spherical":
        all_ = list(pts) + [q for q, at in qs if at is None]
        for i in range(len(all_)):
            for j in range(min(i, len(pts))):
                d = geo.dist(all_[j], all_[i])
                env.assume(env.OR(d < p[1], p[1] < d))


def boundary(env, name):
    """Distances exactly at the range."""
    geo = Iso(env, 2)
    pts = [tuple(env.num(v) for v in p) for p in ((0, 0), (3, 4), (6, 0))]
    q = [((env.num(3), env.num(-4)), None), ((env.num(0), env.num(5)), None)]
    env.nonsing = True
    p = [env.real("psill", "1/8", 10, [1, 2, "1/2", "3/2", 3]), env.num(5), env.real("nugget", 0, 5, ["1/2", 0, 1, "1/4", 3])]
    k = make(env, "ok", 2, pts, env.reals("v", 3, -100, 100, PV),
             Model(dict(variogram_model=name, variogram_parameters=dict(zip(("psill", "range", "nugget"), p))), None), geo)
    zc, sc = compiled(env, k, q)
    zp, sp = execute(env, k, "points", q, backend="loop")
    env.eq("values", zc, zp)
    env.eq("variances", sc, sp)


def same(env, name, n, where, window=None, exact=True, geographic=False):
    if geographic:
        geo = Sphere(env)
        pts = lonlat(env, "d", n)
        gapart(env, geo, pts)
        qs = [((env.real("qlon", -180, 180, [20, -45, 100, 60, -7]), env.real("qlat", -90, 90, [10, 30, -60, 5, 1])), None)]
        for p in pts:
            env.assume(geo.dist(p, qs[0][0]) >= env.num(Fraction(1, 8)))
    else:
        geo = Iso(env, 2)
        pts = points(env, n, 2)
        apart(env, geo, pts)
        qs = targets(env, geo, pts, where)
    env.nonsing = True
    kw = {}
    if window:
        kw["n_closest_points"] = window
        near(env, pts, qs[0][0], window)
    p, mod = model(env, name)
    off_range(env, name, p, geo, pts, qs)
    k = make(env, "ok", 2, pts, env.reals("v", n, -100, 100, PV), mod, geo, exact_values=exact)
    zc, sc = compiled(env, k, qs, **kw)
    zp, sp = execute(env, k, "points", qs, backend="loop", **kw)
    env.eq("values", zc, zp)
    env.eq("variances", sc, sp)


def weights(env, name, n, exact):
    """The compiled system is written in the documented formula."""
    geo = Iso(env, 2)
    pts = points(env, n, 2)
    apart(env, geo, pts)
    qs = targets(env, geo, pts, "mix")
    env.nonsing = True
    p, mod = model(env, name)
    off_range(env, name, p, geo, pts, qs)
    lam, sss = [], []
    for u in units(env, n):
        z, s = compiled(env, make(env, "ok", 2, pts, u, mod, geo, exact_values=exact), qs)
        lam.append(z)
        sss.append(s)
    gam = lambda d: formula(env, name, p, d)
    A = gamma_matrix(env, geo, gam, pts)
    for k, (q, at) in enumerate(qs):
        b = gamma_rhs(env, geo, gam, pts, q, exact, at)
        kkt(env, name, A, b, [lam[i][k] for i in range(n)], sss[0][k])


def refused(env, what, window=None):
    geo = Iso(env, 2)
    pts = points(env, 3, 2)
    apart(env, geo, pts)
    q = [((env.num(11), env.num(12)), None)]
    for p in pts:
        apart_from(env, geo, q[0][0], [p])
    kw = {}
    if window:
        kw["n_closest_points"] = window
        near(env, pts, q[0][0], 2)
    if what == "hole-effect":
        p, mod = model(env, what)
    else:
        def f(m, d):
            return m[0] * d * 2
        if what != "custom":
            f.__name__ = what + "_variogram_model"
        mod = Model(dict(variogram_model="custom", variogram_parameters=[1, 1, 1], variogram_function=f), None)
    k = make(env, "ok", 2, pts, env.reals("v", 3, -100, 100, PV), mod, geo)
    env.raises("no compiled %s model" % what, lambda: execute(env, k, "points", q, backend="C", **kw), Exception)


BOUNDS = ("linear, power, Gaussian, exponential and spherical model; 2-3 data points in [-50, 50] pairwise at least 1/8 apart, 1-2 targets free or on a datum; "
          "parameters as in K09; whole system and moving windows; great-circle distances; refusal of hole-effect and of custom functions, also with "
          "the name of a built-in model")
OUTSIDE = "more data points; distances exactly at the range only for a concrete geometry"
needs_c = lambda fn, cfg: True


def tasks(thorough):
    out = []

    def add(f, **k):
        out.append((f, k))

    for m in ("gaussian", "exponential", "spherical"):
        add("boundary", name=m)
    for m in ("linear", "power", "gaussian", "exponential", "spherical"):
        for n in (2,) if m == "spherical" and not thorough else (2, 3):
            add("same", name=m, n=n, where="free")
        for where in ("datum", "mix", "free2"):
            for ex in (True, False):
                add("same", name=m, n=2, where=where, exact=ex)
        add("same", name=m, n=3, where="free", window=2)
        add("same", name=m, n=2, where="free", geographic=True)
        for ex in (True, False):
            add("weights", name=m, n=2, exact=ex)
        add("refused", what=m)
        add("refused", what=m, window=2)
    for w in ("hole-effect", "custom", "hole_effect"):
        add("refused", what=w)
        add("refused", what=w, window=2)
    return out
