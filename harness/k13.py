"""K13: automatic variogram fitting."""
from .common import *
from .k09 import DP, MODELS, formula, params

ID = "K13"
LINE = ((0, 0, 0), (1, 0, 0), (3, 0, 0))
CENTRE = ((0, 0, 0), (3, 0, 0), (13, 0, 0))
LINE4 = ((0, 0, 0), (0, 1, 0), (0, 3, 0), (0, 7, 0))


def problem(env, dim, layout, n):
    geo = Iso(env, dim)
    if layout == "line":
        pts = [tuple(env.num(c) for c in p[:dim]) for p in LINE[:n]]
        nlags = 3
    elif layout == "centre":  # distances 3, 10, 13: the second at the centre of the weighting
        pts = [tuple(env.num(c) for c in p[:dim]) for p in CENTRE[:n]]
        nlags = 4
    elif layout == "line4":
        pts = [tuple(env.num(c) for c in p[:dim]) for p in LINE4[:n]]
        nlags = 6
    else:  # three points in order on a line
        a = env.real("a", "1/8", 20, [1, 2, "1/2", 3, 5])
        b = env.real("b", "1/8", 20, [3, "5/2", 2, 7, 6])
        env.assume(a + env.num(Fraction(1, 8)) <= b)
        z = env.num(0)
        pts = [(z,) * dim, (a,) + (z,) * (dim - 1), (a + b,) + (z,) * (dim - 1)]
        nlags = 2
    zv = env.reals("v", len(pts), -100, 100, PV)
    env.assume(env.OR(*[env.OR(zv[i] + env.num(Fraction(1, 8)) <= zv[0], zv[0] + env.num(Fraction(1, 8)) <= zv[i]) for i in range(1, len(pts))]))
    return geo, pts, zv, nlags


def fit(env, name, kind, dim, layout, weight, update, n=3):
    geo, pts, zv, nlags = problem(env, dim, layout, n)
    env.watch_fits()
    if update:
        k = make(env, kind, dim, pts, zv, mkmodel(env, "linear", "u"), geo, nlags=1)
        before = len(env.fits())
        k.update_variogram_model(name, nlags=nlags, weight=weight)
        calls = env.fits()[before:]
    else:
        k = make(env, kind, dim, pts, zv, Model(dict(variogram_model=name), None), geo, nlags=nlags, weight=weight)
        calls = env.fits()
    got = list(k.variogram_model_parameters)
    env.check("one parameter set", len(got) == (2 if name == "linear" else 3))
    eps = env.num(Fraction(0 if env.sym else "1/1000000"))
    lagmax = k.lags[-1]
    for x in k.lags:
        env.check("longest lag last", x <= lagmax)
    env.check("nugget not negative", got[-1] >= -eps)
    env.check("slope, scale or partial sill not negative", got[0] >= -eps)
    if name == "power":
        env.check("exponent above 0", got[1] > 0)
        env.check("exponent below 2", got[1] < 2)
    elif name != "linear":
        env.check("range not negative", got[1] >= -eps)
        env.check("range at most the longest lag", got[1] <= lagmax * (1 + eps))
    if not calls:
        return  # another optimiser
    env.check("one fit", len(calls) == 1)
    c = calls[0]
    env.eq("the fitted parameters are used", got, list(c["x"]))
    env.check("soft L1 misfit", c["loss"] == "soft_l1" and env.AND(env.same(c["f_scale"], 1)))
    for i in range(len(got)):
        env.check("bounds %d not empty" % i, c["lb"][i] < c["ub"][i])
        env.check("start %d feasible" % i, env.AND(c["lb"][i] <= c["x0"][i], c["x0"][i] <= c["ub"][i]))
    # the misfit at any parameters
    p = params(env, name, "*")
    if name != "linear" and name != "power":
        env.assume(p[1] <= lagmax)
    m = len(k.lags)
    w = [1] * m
    if weight:
        # at slope / sill zero the model is its nugget
        u = [env.num(0), env.num(1), env.num(0)][: len(got)]
        r0 = c["residuals"](u[:-1] + [env.num(0)])
        r1 = c["residuals"](u[:-1] + [env.num(1)])
        w = [r1[i] - r0[i] for i in range(m)]
        tot = w[0]
        for i in range(m):
            env.check("weight %d positive" % i, w[i] > 0)
            if i:
                tot = tot + w[i]
                env.check("weight %d not above the one before" % i, w[i] <= w[i - 1] + eps)
        env.check("weights sum to one", env.same(tot, 1))
        if layout == "centre":
            env.check("three lags", m == 3)
            env.check("half weight at the centre", env.AND(w[1] * 2 >= w[0] * env.num(Fraction(99, 100)), w[1] * 2 <= w[0] * env.num(Fraction(101, 100))))
            env.check("weight of the longest lag about 0", w[2] * 50 <= w[0])
    r = c["residuals"](list(p))
    env.check("one difference per lag", len(r) == m)
    for i in range(m):
        env.check("difference %d" % i, env.same(r[i], w[i] * (formula(env, name, p, k.lags[i]) - k.semivariance[i])))


BOUNDS = ("every model, class, constructor and update, weighted and not; 3 points on a line at fixed places (3 bins) or anywhere in order (2 bins), "
          "4 points with 6 bins; any values of which two differ by at least 1/8; misfit at any parameters")
OUTSIDE = ("SciPy's optimiser is modelled by its contract (a point within the bounds; refusal of empty bounds or an infeasible start): that it finds the "
           "minimum is not decided; data that leave fewer than two lags or no variability")


def tasks(thorough):
    out = []

    def add(f, **k):
        out.append((f, k))

    for m in MODELS:
        for kd, dim in (("ok", 2), ("uk", 2), ("ok", 3), ("uk", 3)):
            for weight in (False, True):
                for u in (False, True):
                    if m == "spherical" or not thorough and u and kd == "uk":
                        continue
                    add("fit", name=m, kind=kd, dim=dim, layout="line", weight=weight, update=u)
        for weight in (False, True):
            if weight:
                add("fit", name=m, kind="ok", dim=2, layout="centre", weight=True, update=False)
            add("fit", name=m, kind="ok", dim=2, layout="free", weight=weight, update=False)
            if thorough:
                add("fit", name=m, kind="ok", dim=2, layout="line4", weight=weight, update=False, n=4)
    for kd, dim in (("ok", 2), ("uk", 2), ("ok", 3), ("uk", 3)):
        for u in (False, True):
            add("fit", name="spherical", kind=kd, dim=dim, layout="line", weight=False, update=u)
    return out
