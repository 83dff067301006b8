"""K08: geographic coordinates."""
from .common import *

ID = "K08"
TP = [[20, -45, 100], [0, 90, -135], [170, -179, 1], [60, 61, 62], [-7, 30, 8]]
TL = [[10, 30, -60], [0, 45, 80], [-5, 5, 89], [-70, 12, 33], [1, -2, 3]]


def core_dist(env):
    return getattr(env.load("pykrige.core"), "great_circle_distance", None)


def law(env, arrays):
    """The spherical law of cosines decides the angle."""
    f = core_dist(env)
    if f is None:
        return
    p, q = lonlat(env, "d", 2)
    r = env.pi / 180
    if arrays:
        d = f(env.arr([p[0], q[0]]), env.arr([p[1], q[1]]), env.arr([q[0], p[0]]), env.arr([q[1], p[1]]))
        env.check("elementwise", env.np.shape(d) == (2,))
        d, back = d[0], d[1]
    else:
        d, back = f(p[0], p[1], q[0], q[1]), f(q[0], q[1], p[0], p[1])
    env.check("not negative", d >= 0)
    env.check("at most 180", d <= 180)
    env.check("symmetric", env.same(d, back))
    w = env.sin(p[1] * r) * env.sin(q[1] * r) + env.cos(p[1] * r) * env.cos(q[1] * r) * env.cos((p[0] - q[0]) * r)
    env.check("law of cosines", env.same(env.cos(d * r), w))
    for k in (360, -360, 720):
        env.check("longitude shifted by %d" % k, env.same(f(p[0] + k, p[1], q[0], q[1]), d))
        env.check("other longitude shifted by %d" % k, env.same(f(p[0], p[1], q[0] + k, q[1]), d))
    env.check("zero for equal points", env.same(f(p[0], p[1], p[0], p[1]), 0))


def chord(env, arrays):
    f = getattr(env.load("pykrige.core"), "euclid3_to_great_circle", None)
    if f is None:
        return
    c = env.reals("c", 2, 0, 2, [[1, "1/2"], [0, 2], ["3/2", 1], ["1/10", "19/10"], [2, 0]])
    d = f(env.arr(list(c))) if arrays else [f(c[0]), f(c[1])]
    for k in range(2):
        env.check("not negative", d[k] >= 0)
        env.check("at most 180", d[k] <= 180)
        env.check("chord of the angle", env.same(2 * env.sin(d[k] * env.pi / 360), c[k]))


def sphere_points(env, n, shifts=None):
    geo = Sphere(env)
    pts = lonlat(env, "d", n)
    gapart(env, geo, pts)
    env.nonsing = True
    return geo, pts


LP = [[10, 20, 35], [-30, 45, 100], [170, -175, 3], [-90, 60, 12], [0, 5, 9]]
LL = [[5, -20, 40], [0, 10, 60], [70, 45, -33], [-80, -10, 85], [2, 4, -3]]


def near_target(env, geo, pts, near):
    pr = [[Fraction(sum(w[i] for i in near), len(near)) + 1 + c for w in a] for c, a in enumerate((LP, LL))]
    q = (env.real("q0lon", -180, 180, pr[0]), env.real("q0lat", -90, 90, pr[1]))
    for p in pts:
        env.assume(geo.dist(p, q) >= env.num(Fraction(1, 8)))
    return [(q, None)]


def sphere_targets(env, geo, pts, where):
    qs = []
    for t, w in enumerate(where):
        if w == "f":
            q = (env.real("q%dlon" % t, -180, 180, [a[t] for a in TP]), env.real("q%dlat" % t, -90, 90, [a[t] for a in TL]))
            for p in pts:
                env.assume(geo.dist(p, q) >= env.num(Fraction(1, 8)))
            qs.append((q, None))
        else:
            qs.append((pts[int(w)], int(w)))
    return qs


def system(env, n, backend, where, exact, model):
    """The kriging system is written in great-circle distances."""
    geo, pts = sphere_points(env, n)
    qs = sphere_targets(env, geo, pts, where)
    mod = mkmodel(env, model)

    def run(zv):
        k = make(env, "ok", 2, pts, zv, mod, geo, exact_values=exact)
        return execute(env, k, "points", qs, backend=backend)

    lam, sss = zip(*[run(u) for u in units(env, n)])
    A = gamma_matrix(env, geo, mod.gam, pts)
    for k, (q, at) in enumerate(qs):
        b = gamma_rhs(env, geo, mod.gam, pts, q, exact, at)
        kkt(env, "OK", A, b, [lam[i][k] for i in range(n)], sss[0][k])


def wrap(env, n, backend, where, window=None, style="points"):
    """Whole turns added to any longitude change nothing."""
    geo, pts = sphere_points(env, n)
    qs = sphere_targets(env, geo, pts, where)
    if window:
        for q, _ in qs:
            for p in pts[2:]:
                for o in pts[:2]:
                    env.assume(geo.dist2(o, q) + env.num(Fraction(1, 256)) <= geo.dist2(p, q))
    mod = mkmodel(env, "linear")
    zv = env.reals("v", n, -100, 100, PV)
    kw = dict(n_closest_points=window) if window else {}
    a = make(env, "ok", 2, pts, zv, mod, geo)
    za, sa = execute(env, a, style, qs, backend=backend, **kw)
    for turns in ((360, 0, 0, 0), (0, -360, 360, 0), (0, 0, 0, 360)):
        moved = [(p[0] + t, p[1]) for p, t in zip(pts, turns)]
        b = make(env, "ok", 2, moved, zv, mod, geo)
        zb, sb = execute(env, b, style, [((q[0] + turns[3], q[1]), at) for q, at in qs], backend=backend, **kw)
        env.eq("values after turns %s" % (turns,), zb, za)
        env.eq("variances after turns %s" % (turns,), sb, sa)
        if n == 2:
            env.eq("lags after turns %s" % (turns,), b.lags, a.lags)


def lag(env):
    """The experimental variogram is in great-circle degrees."""
    geo, pts = sphere_points(env, 2)
    k = make(env, "ok", 2, pts, env.reals("v", 2, -100, 100, PV), mkmodel(env, "custom"), geo)
    env.eq("lag of the only pair", k.lags, [geo.dist(pts[0], pts[1])])


def window(env, n, backend, near):
    """Window selection is by great-circle distance, and so are the distances
    of the system solved in it."""
    geo, pts = sphere_points(env, n)
    qs = near_target(env, geo, pts, near)
    q = qs[0][0]
    for i in near:
        for j in range(n):
            if j not in near:
                env.assume(geo.dist2(pts[i], q) + env.num(Fraction(1, 256)) <= geo.dist2(pts[j], q))
    mod = mkmodel(env, "linear")
    m = len(near)
    lam, sss = [], []
    for i in range(n):
        k = make(env, "ok", 2, pts, units(env, n)[i], mod, geo)
        z, ss = execute(env, k, "points", qs, backend=backend, n_closest_points=m)
        lam.append(z[0])
        sss.append(ss[0])
    sub = [pts[i] for i in near]
    A = gamma_matrix(env, geo, mod.gam, sub)
    b = gamma_rhs(env, geo, mod.gam, sub, q, True, None)
    for j in range(n):
        if j not in near:
            env.check("no weight outside the window", env.same(lam[j], 0))
    kkt(env, "OK", A, b, [lam[i] for i in near], sss[0])


def ignored(env, backend, what):
    """Anisotropy settings are ignored, with a warning."""
    geo, pts = sphere_points(env, 2)
    qs = sphere_targets(env, geo, pts, "f0")
    mod = mkmodel(env, "linear")
    zv = env.reals("v", 2, -100, 100, PV)
    kw = {}
    if what in ("scaling", "both"):
        kw["anisotropy_scaling"] = env.real("scal", "11/10", 10, [2, 3, 5, 10, "3/2"])
    if what in ("angle", "both"):
        kw["anisotropy_angle"] = env.real("angle", 1, 360, [30, 75, 120, 200, 10])
    a = make(env, "ok", 2, pts, zv, mod, geo)
    za, sa = execute(env, a, "points", qs, backend=backend)
    warns = env.warns if what != "angle" else lambda name, fn: fn()  # an angle alone has no effect anyhow
    b = warns("anisotropy of geographic coordinates", lambda: make(env, "ok", 2, pts, zv, mod, geo, **kw))
    zb, sb = execute(env, b, "points", qs, backend=backend)
    env.eq("values with ignored anisotropy", zb, za)
    env.eq("variances with ignored anisotropy", sb, sa)
    env.eq("lags with ignored anisotropy", b.lags, a.lags)
    kw.setdefault("anisotropy_scaling", 1)
    kw.setdefault("anisotropy_angle", 0)
    warns("anisotropy on update", lambda: a.update_variogram_model(mod.kw["variogram_model"], mod.kw["variogram_parameters"], **kw))
    zb, sb = execute(env, a, "points", qs, backend=backend)
    env.eq("values after an update with ignored anisotropy", zb, za)
    env.eq("variances after an update with ignored anisotropy", sb, sa)


BOUNDS = ("2-3 data points anywhere on the sphere at least 1/8 degree apart, 1-2 targets free or on a datum; longitudes up to two turns off; "
          "every backend, moving windows of two of three points; every variogram (Python) or linear (C)")
OUTSIDE = "more data points; antipodal points exactly on the branch cut are included in the distance goals only"
needs_c = c_task


def tasks(thorough):
    out = []

    def add(fn, **k):
        out.append((fn, k))

    for a in (False, True):
        add("law", arrays=a)
        add("chord", arrays=a)
    add("lag")
    for b in ("vectorized", "loop", "C"):
        m = "linear" if b == "C" else "custom"
        for n in (2, 3):
            for where in ("f", "1f", "ff"):
                for ex in (True, False):
                    add("system", n=n, backend=b, where=where, exact=ex, model=m)
            add("wrap", n=n, backend=b, where="f")
        add("wrap", n=2, backend=b, where="1f")
        for what in ("scaling", "angle", "both"):
            add("ignored", backend=b, what=what)
        if b != "vectorized":
            add("wrap", n=3, backend=b, where="f", window=2)
            for near in ((0, 1), (0, 2), (1, 2)):
                add("window", n=3, backend=b, near=near)
    return out
