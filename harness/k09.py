"""K09: the variogram models and their formulas."""
from .common import *

ID = "K09"
MODELS = ("linear", "power", "gaussian", "exponential", "spherical", "hole-effect")


def fname(name):
    return name.replace("-", "_") + "_variogram_model"


def params(env, name, tag=""):
    """(parameters in the order of the documentation, nugget)"""
    nug = env.real("nugget" + tag, 0, 5, ["1/2", 0, 1, "1/4", 3])
    if name == "linear":
        return [env.real("slope" + tag, 0, 10, [1, 2, "1/2", "3/2", 3]), nug]
    if name == "power":
        return [env.real("scale" + tag, 0, 10, [1, 2, "1/2", "3/2", 3]), env.real("exponent" + tag, "1/1000", "1999/1000", [1, "1/2", "3/2", "19/10", "1/10"]), nug]
    return [env.real("psill" + tag, 0, 10, [1, 2, "1/2", "3/2", 3]), env.real("range" + tag, "1/10", 100, [2, 5, 10, 1, 30]), nug]


def formula(env, name, p, d):
    if name == "linear":
        return p[0] * d + p[1]
    if name == "power":
        if d == 0:
            return p[2]
        return p[0] * env.pow(d, p[1]) + p[2]
    a, r, n = p
    if name == "gaussian":
        return a * (1 - env.exp(-(7 * d / (4 * r)) * (7 * d / (4 * r)))) + n
    if name == "exponential":
        return a * (1 - env.exp(-3 * d / r)) + n
    if name == "spherical":
        if d <= r:
            return a * (3 * d / (2 * r) - d * d * d / (2 * r * r * r)) + n
        return a + n
    if name == "hole-effect":
        return a * (1 - (1 - 3 * d / r) * env.exp(-3 * d / r)) + n
    raise ValueError(name)


DP = [[1, "1/2", 3, "5/2"], [2, 6, "9/2", 0], [10, 11, 1, 40], ["1/8", 1, 2, 3], [60, 20, 5, 30]]


def fn(env, name):
    return getattr(env.load("pykrige.variogram_models"), fname(name))


def values(env, name, shape, as_array):
    """Elementwise formula, whatever the shape."""
    shape = tuple(shape)
    p = params(env, name)
    m = 1
    for s in shape:
        m *= s
    d = env.reals("d", m, 0, 100, DP)
    g = fn(env, name)(env.arr(p) if as_array else list(p), env.arr(list(d)).reshape(shape))
    env.check("shape", g.shape == shape)
    g = g.reshape(-1)
    for i in range(m):
        env.check("value %d" % i, env.same(g[i], formula(env, name, p, d[i])))


def special(env, name):
    """Zero distance, the range itself, and limits."""
    p = params(env, name)
    f = fn(env, name)
    d = env.real("d", 0, 100, [r[0] for r in DP])
    g = f(p, env.arr([env.num(0), d, env.num(0)]))
    env.check("nugget at zero", env.AND(env.same(g[0], p[-1]), env.same(g[2], p[-1])))
    if name in ("linear", "power", "gaussian", "exponential", "spherical"):
        env.check("not below the nugget", g[1] >= p[-1] - env.num(Fraction(0 if env.sym else "1/1000000000")))
    if name in ("gaussian", "exponential", "spherical"):
        env.check("not above the sill", g[1] <= p[0] + p[-1] + env.num(Fraction(0 if env.sym else "1/1000000000")))
    if name == "spherical":
        x = env.real("beyond", 0, 50, [0, 1, "1/3", 7, 20])
        g = f(p, env.arr([p[1], p[1] + x, env.num(0)]))
        env.check("sill at the range", env.same(g[0], p[0] + p[2]))
        env.check("sill beyond the range", env.same(g[1], p[0] + p[2]))


def integers(env, name):
    """Whole-number distances are distances like any other."""
    p = params(env, name)
    d = [0, 1, 2, 7, 40]
    for dt in ("int64", "int32"):
        g = fn(env, name)(p, env.np.array(d, dtype=dt))
        for i, x in enumerate(d):
            env.check("value at %d (%s)" % (x, dt), env.same(g[i], formula(env, name, p, env.num(x))))


def used(env, name, kind, dim, backend):
    """The objects use the model of that name."""
    geo = Iso(env, dim)
    pts = points(env, 2, dim)
    apart(env, geo, pts)
    q = targets(env, geo, pts, "free")
    p = params(env, name)
    env.assume(p[0] >= env.num(Fraction(1, 8)))
    zv = env.reals("v", 2, -100, 100, PV)
    env.nonsing = True

    def g(pars, d):
        f = lambda x: formula(env, name, p, x)
        if env.np.ndim(d) == 0:
            return f(d)
        flat = [f(x) for x in env.np.reshape(d, (-1,))]
        return env.arr(flat).reshape(d.shape)

    keys = dict(linear=("slope", "nugget"), power=("scale", "exponent", "nugget")).get(name, ("psill", "range", "nugget"))
    a = make(env, kind, dim, pts, zv, Model(dict(variogram_model=name, variogram_parameters=dict(zip(keys, p))), None), geo)
    b = make(env, kind, dim, pts, zv, Model(dict(variogram_model="custom", variogram_parameters=list(p), variogram_function=g), None), geo)
    za, sa = execute(env, a, "points", q, backend=backend)
    zb, sb = execute(env, b, "points", q, backend=backend)
    env.eq("values", za, zb)
    env.eq("variances", sa, sb)
    x = env.real("d", 0, 100, [r[0] for r in DP])
    y = a.variogram_function(a.variogram_model_parameters, env.arr([x]))
    env.check("variogram function of the object", env.same(y[0], formula(env, name, p, x)))
    if dim == 3 or name == "spherical":
        return
    lags, gam = a.get_variogram_points()
    for l, v in list(zip(lags, gam))[:2]:
        env.check("variogram point", env.same(v, formula(env, name, p, l)))


BOUNDS = ("every model; distances in [0, 100], sill, slope and scale in [0, 10], range in [1/10, 100], exponent in [1/1000, 1999/1000], nugget in "
          "[0, 5]; arrays of shape 1, 3, 2x2, 1x3, 2x1x2; in the classes: two data points and one target, every class and Python backend")
OUTSIDE = "the compiled versions (K10); exp and the real power are uninterpreted functions with their order and sign facts"


def tasks(thorough):
    out = []

    def add(f, **k):
        out.append((f, k))

    for m in MODELS:
        for sh in ((1,), (3,), (2, 2), (1, 3), (2, 1, 2)):
            add("values", name=m, shape=sh, as_array=sh == (3,))
        add("special", name=m)
        add("integers", name=m)
        for kd, dim in (("ok", 2), ("uk", 2), ("ok", 3), ("uk", 3)):
            for b in ("vectorized", "loop"):
                add("used", name=m, kind=kd, dim=dim, backend=b)
    return out
