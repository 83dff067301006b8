"""K27: external covariance models bring their own variogram and anisotropy."""
from .common import *
from .k21 import METHODS, is_number, same_value

ID = "K27"


def angles_of(env, tag, dim):
    """Anisotropy of a covariance model: (ratios, angles); the third angle
    turns about z."""
    k = "ab".index(tag)
    lo, hi = (Fraction(11, 10), 10) if k == 0 else (Fraction(1, 10), Fraction(9, 10))

    def scal(name):
        return env.real(name, lo, hi, [lo + (hi - lo) * Fraction(i + 1, 7) for i in range(5)])

    def angle(name, off):
        return env.real(name, off + 1, off + 89, [off + r for r in (30, 75, 10, 60, 45)])

    if dim == 2:
        return (scal("cs" + tag), 1), (0, 0, angle("ca" + tag, 90 * k))
    return (scal("csy" + tag), scal("csz" + tag)), (angle("cax" + tag, 90 * k), angle("cay" + tag, 90 * k - 180), angle("caz" + tag, 180 + 90 * k))


def functions(env, tag):
    g = env.vario("g", 1)
    c = env.num({"a": 1, "b": 3, "o": 5}[tag])
    return lambda r: g([c], r)


def explicit(env, kind, dim, fn, anis, ang, geographic=False):
    """The keywords that say the same as the covariance model."""
    kw = dict(variogram_model="custom", variogram_parameters=[], variogram_function=lambda ps, r: fn(r))
    if geographic:
        return kw
    if dim == 2:
        kw.update(anisotropy_scaling=anis[0], anisotropy_angle=ang[2])
    else:
        kw.update(anisotropy_scaling_y=anis[0], anisotropy_scaling_z=anis[1], anisotropy_angle_x=ang[0], anisotropy_angle_y=ang[1], anisotropy_angle_z=ang[2])
    return kw


def distract(env, dim, what):
    """Separately given settings that have to be ignored."""
    kw = {}
    if "a" in what:
        if dim == 2:
            kw.update(anisotropy_scaling=env.num(7), anisotropy_angle=env.num(11))
        else:
            kw.update(anisotropy_scaling_y=env.num(7), anisotropy_scaling_z=env.num(3), anisotropy_angle_x=env.num(11), anisotropy_angle_y=env.num(50),
                      anisotropy_angle_z=env.num(-20))
    if "f" in what:
        kw.update(variogram_function=lambda ps, r: functions(env, "o")(r))
    if "p" in what:
        kw.update(variogram_parameters=[env.num(4), env.num(2)])
    return kw


def same_state(env, name, a, b):
    env.check(name + ": class", type(a) is type(b))
    for n in sorted(vars(b)):
        if n in ("model", "variogram_function"):
            continue
        env.check("%s: attribute %s" % (name, n), hasattr(a, n))
        same_value(env, "%s: %s" % (name, n), getattr(a, n), getattr(b, n))


def place(env, kind, dim, n, where, drifts, geographic, anis, ang):
    if geographic:
        geo = Sphere(env)
        pts = lonlat(env, "d", n)
        gapart(env, geo, pts)
        env.nonsing = True
        q = (env.real("qlon", -180, 180, [20, -45, 100, 60, -7]), env.real("qlat", -90, 90, [10, 30, -60, 5, 1]))
        gapart(env, geo, [q], pts)
        return geo, pts, [(q, None), (pts[0], 0)], ({}, {}, [], [])
    geo = Aniso2(env, anis[0], ang[2]) if dim == 2 else Aniso3(env, *anis, *ang)
    pts = points(env, n, dim)
    apart(env, geo, pts)
    qs = targets(env, geo, pts, where)
    dr = ({}, {}, [], [])
    if kind == "uk":
        dr = drift_2d(env, drifts, geo, pts, qs, center_of(env, pts) if "lin" in str(drifts) or "func" in str(drifts) else (env.num(0),) * dim)
    return geo, pts, qs, dr


def build(env, kind, dim, pts, zv, **kw):
    if env.sym:
        env.no_statistics(CLS[kind, dim][0])
    return kclass(env, kind, dim)(*columns(env, pts), env.arr(list(zv)), nlags=1, **kw)


def compare(env, name, kind, k, d, qs, ekw, windows=()):
    for be in ("vectorized", "loop"):
        for w in (None,) + (tuple(windows) if be == "loop" else ()):
            e = dict(ekw) if w is None else dict(ekw, n_closest_points=w)
            z, s = execute(env, k, "points", qs, backend=be, **e)
            zd, sd = execute(env, d, "points", qs, backend=be, **e)
            env.eq("%s: values, %s" % (name, be), z, zd)
            env.eq("%s: variances, %s" % (name, be), s, sd)


def construct(env, kind, dim, n, where="free", drifts=(), geographic=False, ignore="", field_dim=None, window=False, exact=True):
    """At construction; also what a later update without a model does."""
    Cov = env.gstools("1.5.0")
    anis, ang = angles_of(env, "a", dim)
    geo, pts, qs, dr = place(env, kind, dim, n, where, drifts, geographic, anis, ang)
    zv = env.reals("v", n, -100, 100, PV)
    fa = functions(env, "a")
    m = Cov(fa, field_dim or dim, geographic, (1, 1) if geographic else anis, (0, 0, 0) if geographic else ang)
    base = dict(dr[0], exact_values=exact)
    if geographic:
        base["coordinates_type"] = "geographic"
    k = build(env, kind, dim, pts, zv, variogram_model=m, **dict(base, **distract(env, dim, ignore)))
    env.check("the model is kept", k.model is m)
    ex = explicit(env, kind, dim, fa, anis, ang, geographic)
    d = build(env, kind, dim, pts, zv, **dict(base, **ex))
    same_state(env, "object", k, d)
    compare(env, "construction", kind, k, d, qs, dr[1], (n,) if window else ())


def update(env, kind, dim, n, seq, where="free", drifts=(), geographic=False, ignore=""):
    """seq: what was given at construction and at every update: a, b
    (covariance models), c (explicit custom function with its own
    anisotropy), p (a plain model)."""
    Cov = env.gstools("1.5.0")
    sets = {}
    for s in seq:
        t = "a" if s in "ac" else "b" if s == "b" else None
        if t and s not in sets:
            sets[s] = angles_of(env, t, dim)
    anis, ang = sets[seq[-1]] if seq[-1] in sets else ((1, 1), (0, 0, 0))
    if seq[-1] not in sets and not geographic:
        geo = Iso(env, dim)
        pts = points(env, n, dim)
        apart(env, geo, pts)
        qs = targets(env, geo, pts, where)
        dr = drift_2d(env, drifts, geo, pts, qs, (env.num(0),) * dim) if kind == "uk" else ({}, {}, [], [])
    else:
        geo, pts, qs, dr = place(env, kind, dim, n, where, drifts, geographic, anis, ang)
    zv = env.reals("v", n, -100, 100, PV)
    base = dict(coordinates_type="geographic") if geographic else {}
    if (kind, dim) == ("ok", 2):
        base["enable_statistics"] = True

    def given(s):
        """(keywords as given, keywords that say the same)"""
        if s == "p":
            kw = dict(variogram_model="linear", variogram_parameters=[env.num(2), env.num(Fraction(1, 4))])
            return kw, kw
        fn = functions(env, "a" if s in "ac" else "b")
        if geographic:
            m = Cov(fn, 2, True, (1, 1), (0, 0, 0))
        else:
            m = Cov(fn, dim, False, *sets[s])
        ex = explicit(env, kind, dim, fn, *(((1, 1), (0, 0, 0)) if geographic else sets[s]), geographic)
        if s == "c":
            return ex, ex
        return dict(distract(env, dim, ignore), variogram_model=m), ex

    g0, e0 = given(seq[0])
    k = build(env, kind, dim, pts, zv, **dict(dict(base, **dr[0]), **g0))
    for s in seq[1:]:
        g, e = given(s)
        k.update_variogram_model(nlags=1, **g)
        env.check("the model in use", k.model is (g["variogram_model"] if s in "ab" else None))
    d = build(env, kind, dim, pts, zv, **dict(dict(base, **dr[0]), **given(seq[-1])[1]))
    same_state(env, "object", k, d)
    compare(env, "update", kind, k, d, qs, dr[1])


def wrapper(env, method, n, ignore=""):
    """Through the scikit-learn wrapper."""
    kind, dim = METHODS[method]
    Cov = env.gstools("1.5.0")
    anis, ang = angles_of(env, "a", dim)
    geo, pts, qs, dr = place(env, kind, dim, n, "free", (), False, anis, ang)
    zv = env.reals("v", n, -100, 100, PV)
    fa = functions(env, "a")
    m = Cov(fa, dim, False, anis, ang)
    if env.sym:
        env.no_statistics(CLS[kind, dim][0])
    w = dict(nlags=1, n_closest_points=None)
    if ignore:
        w.update(anisotropy_scaling=(7, 3), anisotropy_angle=(11, 50, -20))
    k = env.load("pykrige.compat").Krige(method=method, variogram_model=m, **w)
    k.fit(env.arr([list(p) for p in pts]), env.arr(list(zv)))
    env.check("the model is kept", k.model.model is m)
    d = build(env, kind, dim, pts, zv, **explicit(env, kind, dim, fa, anis, ang))
    same_state(env, "object", k.model, d)
    zd, _ = execute(env, d, "points", qs, backend="loop")
    env.eq("prediction", k.predict(env.arr([list(q) for q, _ in qs])), zd)


class Other:
    """Has the interface but is no covariance model."""

    pykrige_kwargs = {}
    latlon = False
    pykrige_anis = pykrige_anis_y = pykrige_anis_z = 1
    pykrige_angle = pykrige_angle_x = pykrige_angle_y = pykrige_angle_z = 0

    def __init__(self, d):
        self.field_dim = self.dim = d

    def pykrige_vario(self, args=None, r=0):
        return r


def rejected(env, kind, dim, n=3):
    """Wrong dimensions, geographic models without geographic coordinates,
    anything but a covariance model, missing or old versions."""
    pts = points(env, n, dim)
    apart(env, Iso(env, dim), pts)
    zv = env.reals("v", n, -100, 100, PV)
    fa = functions(env, "a")
    plain = dict(variogram_model="linear", variogram_parameters=[env.num(1), env.num(0)])

    def both(name, m, **kw):
        env.raises(name, lambda: build(env, kind, dim, pts, zv, variogram_model=m, **kw))
        k = build(env, kind, dim, pts, zv, **dict(plain, **kw))
        env.raises(name + " at update", lambda: k.update_variogram_model(m, nlags=1))

    for version in ("1.5.0", "2.0.1", "1.10.0"):
        Cov = env.gstools(version)
        for fd in (1, 2, 3, 4, 5):
            if (fd in (1, 2)) != (dim == 2) if fd < 4 else True:
                both("%s: a model of dimension %d" % (version, fd), Cov(fa, fd))
        for fd in (2, 3):
            if dim == 2 and kind == "ok":
                both("%s: a geographic model (%d), euclidean coordinates" % (version, fd), Cov(fa, fd, True))
                if fd == 3:
                    both("a geographic model with time, geographic coordinates", Cov(fa, fd, True), coordinates_type="geographic")
            else:
                both("%s: a geographic model (%d)" % (version, fd), Cov(fa, fd, True))
        both("%s: not a covariance model" % version, Other(dim))
        # and the right ones are not rejected
        for fd in (1, 2) if dim == 2 else (3,):
            k = build(env, kind, dim, pts, zv, variogram_model=Cov(fa, fd))
            k.update_variogram_model(Cov(fa, fd), nlags=1)
            env.check("%s: accepted" % version, True)
    for version in ("1.2.9", "0.9.0", "1.0.10"):
        Cov = env.gstools(version)
        both("version %s" % version, Cov(fa, dim))
        if dim == 2 and kind == "ok":
            both("version %s, geographic" % version, Cov(fa, dim, True), coordinates_type="geographic")
    Cov = env.gstools("1.3.5")
    build(env, kind, dim, pts, zv, variogram_model=Cov(fa, dim))
    if dim == 2 and kind == "ok":
        both("version 1.3.5, geographic", Cov(fa, dim, True), coordinates_type="geographic")
    Cov = env.gstools(None)
    both("not installed", Cov(fa, dim))


BOUNDS = ("four kriging classes and the wrapper, 2-3 data points, 1-2 requests; covariance models with an arbitrary variogram function, symbolic ratios and "
          "angles, dimensions 1-5, geographic or not; conflicting anisotropy, function and parameters given besides; construction, and sequences of up to three "
          "settings (models, custom functions, plain models); every attribute and all results against the same settings given explicitly; gstools versions 0.9 to "
          "2.0 and not installed")
OUTSIDE = "gstools itself is not installed here; a stand-in with the attributes that PyKrige documents takes its place (also in replays)"


def tasks(thorough):
    out = []

    def add(fn, **k):
        out.append((fn, k))

    for kind, dim in CLS:
        c = dict(kind=kind, dim=dim)
        for ig in ("", "a", "f", "p", "afp"):
            add("construct", n=2, ignore=ig, **c)
        for w in ("datum", "mix"):
            add("construct", n=2, where=w, **c)
            add("construct", n=2, where=w, exact=False, **c)
        add("construct", n=3, **c)
        if dim == 2:
            add("construct", n=2, field_dim=1, ignore="a", **c)
        if kind == "ok":
            add("construct", n=2, window=True, **c)
        for seq in ("pa", "ab", "aa", "ap", "ac", "ca", "pab", "aba", "apa", "bpa"):
            add("update", n=2, seq=seq, **c)
        add("update", n=2, seq="pa", ignore="a", **c)
        add("update", n=2, seq="ab", ignore="afp", **c)
        add("update", n=2, seq="ba", ignore="a", where="mix", **c)
        add("rejected", **c)
        if kind == "uk":
            for d in ("spec", "func") + (("well", "extZx") if dim == 2 else ()):
                add("construct", n=2 if d != "well" else 3, drifts=[d], ignore="a", **c)
                for seq in ("pa", "ab", "ca"):
                    add("update", n=2, seq=seq, drifts=[d], **c)
            if dim == 2:
                add("construct", n=4, drifts=["lin"], **c)
    for ig in ("", "a", "f"):
        add("construct", kind="ok", dim=2, n=2, geographic=True, ignore=ig)
    for seq in ("pa", "ab", "ap", "ac"):
        add("update", kind="ok", dim=2, n=2, seq=seq, geographic=True)
    add("update", kind="ok", dim=2, n=2, seq="pa", geographic=True, ignore="a")
    for m in METHODS:
        for ig in ("", "a"):
            add("wrapper", method=m, n=2, ignore=ig)
    return out
