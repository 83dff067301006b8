"""K11: ways of giving variogram parameters."""
from .common import *
from .k09 import formula, params, DP

ID = "K11"
SILL = ("gaussian", "exponential", "spherical", "hole-effect")
MODELS = ("linear", "power") + SILL


def forms(env, name, p):
    """Every documented way of writing the parameters p (partial sill)."""
    if name == "linear":
        return [dict(slope=p[0], nugget=p[1]), dict(nugget=p[1], slope=p[0]), [p[0], p[1]]]
    if name == "power":
        return [dict(scale=p[0], exponent=p[1], nugget=p[2]), dict(nugget=p[2], exponent=p[1], scale=p[0]), [p[0], p[1], p[2]]]
    s = p[0] + p[2]
    return [dict(psill=p[0], range=p[1], nugget=p[2]), dict(sill=s, range=p[1], nugget=p[2]), dict(nugget=p[2], range=p[1], sill=s), [s, p[1], p[2]]]


def setup_(env, dim, n=2):
    geo = Iso(env, dim)
    pts = points(env, n, dim)
    apart(env, geo, pts)
    env.nonsing = True
    return geo, pts, targets(env, geo, pts, "free"), env.reals("v", n, -100, 100, PV)


def same(env, name, kind, dim, backend, update):
    geo, pts, qs, zv = setup_(env, dim)
    p = params(env, name)
    env.assume(p[0] >= env.num(Fraction(1, 8)))
    ref = None
    for i, f in enumerate(forms(env, name, p)):
        if update:
            k = make(env, kind, dim, pts, zv, mkmodel(env, "linear", "u"), geo)
            k.update_variogram_model(name, f)
        else:
            k = make(env, kind, dim, pts, zv, Model(dict(variogram_model=name, variogram_parameters=f), None), geo)
        env.eq("parameters, form %d" % i, list(k.variogram_model_parameters), list(p))
        if name in SILL:
            a = list(k.variogram_model_parameters)
            env.check("full sill, form %d" % i, env.same(a[0] + a[2], p[0] + p[2]))
        r = execute(env, k, "points", qs, backend=backend)
        if ref is None:
            ref = r
            x = env.real("d", 0, 100, [r[0] for r in DP])
            g = k.variogram_function(k.variogram_model_parameters, env.arr([x]))
            env.check("variogram", env.same(g[0], formula(env, name, p, x)))
        else:
            env.eq("values, form %d" % i, r[0], ref[0])
            env.eq("variances, form %d" % i, r[1], ref[1])


def wrong(env, name, kind, dim, update):
    geo, pts, qs, zv = setup_(env, dim)
    p = params(env, name)
    good = forms(env, name, p)
    bad = []
    for f in good:
        if isinstance(f, dict):
            bad += [{k: v for k, v in f.items() if k != d} for d in f]
            bad += [{(k.upper() if k == d else k): v for k, v in f.items()} for d in f]
    lst = list(good[-1])
    bad += [[], lst[:1], lst[:-1], lst + [lst[-1]], lst + [1, 1], {}]
    bad += [tuple(lst), env.arr(lst), lst[0], "parameters", (lambda: 1)]
    kl = kclass(env, kind, dim)
    k = make(env, kind, dim, pts, zv, mkmodel(env, "linear", "u"), geo) if update else None
    for i, b in enumerate(bad):
        if update:
            env.raises("parameters %d" % i, lambda: k.update_variogram_model(name, b), Exception)
        else:
            env.raises("parameters %d" % i, lambda: kl(*columns(env, pts), env.arr(list(zv)), variogram_model=name, variogram_parameters=b), Exception)
    for u in ("Linear", "", "cubic", "hole effect", "lin", None, 3):
        for v in (None, [1, 2], [1, 2, 3], dict(slope=1, nugget=0)):
            if update:
                env.raises("unknown model %r" % (u,), lambda: k.update_variogram_model(u, v), Exception)
            else:
                env.raises("unknown model %r" % (u,), lambda: kl(*columns(env, pts), env.arr(list(zv)), variogram_model=u, variogram_parameters=v), Exception)


def custom(env, kind, dim, backend, update, npar):
    """The user's function gets the user's parameters."""
    geo, pts, qs, zv = setup_(env, dim)
    ps = env.reals("p", npar, -5, 5, [[1, 2, 3, 4], [2, 1, 0, 5], ["1/2", 1, -1, 2], [3, 0, 1, 2], [2, 2, 5, 1]])
    got = []
    g = env.vario("g", 1)

    def f(pars, d):
        got.append([v for v in pars])
        return g([ps[0]], d)

    if update:
        k = make(env, kind, dim, pts, zv, mkmodel(env, "linear", "u"), geo)
        k.update_variogram_model("custom", list(ps), variogram_function=f)
    else:
        k = make(env, kind, dim, pts, zv, Model(dict(variogram_model="custom", variogram_parameters=list(ps), variogram_function=f), None), geo)
    execute(env, k, "points", qs, backend=backend)
    env.check("function used", len(got) > 0)
    for c in got:
        env.check("parameters handed over", len(c) == npar and env.AND(*[env.same(a, b) for a, b in zip(c, ps)]))
    kl = kclass(env, kind, dim)
    for i, kw in enumerate((dict(variogram_parameters=dict(slope=1, nugget=0), variogram_function=f),
                            dict(variogram_parameters=None, variogram_function=f),
                            dict(variogram_parameters=list(ps), variogram_function=None),
                            dict(variogram_parameters=list(ps), variogram_function="linear"),
                            dict(variogram_parameters=tuple(ps), variogram_function=f),
                            dict(variogram_parameters=list(ps)))):
        if update:
            env.raises("bad custom model %d" % i, lambda: k.update_variogram_model("custom", **kw), Exception)
        else:
            env.raises("bad custom model %d" % i, lambda: kl(*columns(env, pts), env.arr(list(zv)), variogram_model="custom", **kw), Exception)


BOUNDS = ("every model, class and backend, constructor and update_variogram_model; parameters as in K09; two data points and one target; every "
          "dictionary with one key missing or misspelt, lists of 0 to n+2 entries, tuples, arrays, numbers, strings; seven unknown model names; "
          "custom models of 1-4 parameters")
OUTSIDE = "dictionaries with additional keys; more data points"
needs_c = c_task


def tasks(thorough):
    out = []

    def add(f, **k):
        out.append((f, k))

    for kd, dim in (("ok", 2), ("uk", 2), ("ok", 3), ("uk", 3)):
        for u in (False, True):
            for m in MODELS:
                for b in ("vectorized", "loop") if m == "gaussian" or thorough else ("vectorized",):
                    add("same", name=m, kind=kd, dim=dim, backend=b, update=u)
                if (kd, dim) == ("ok", 2) and m != "hole-effect":
                    add("same", name=m, kind=kd, dim=dim, backend="C", update=u)
                add("wrong", name=m, kind=kd, dim=dim, update=u)
            for npar in (1, 2, 3, 4):
                add("custom", kind=kd, dim=dim, backend="loop" if npar % 2 else "vectorized", update=u, npar=npar)
    return out
