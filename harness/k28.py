"""K28: predictions are linear in the data values, variances independent of
them; multiplying the variogram multiplies the variances."""
from .common import *

ID = "K28"


def problem(env, kind, dim, n, aniso, where, model, drifts, style, axis, geographic):
    if geographic:
        geo = Sphere(env)
        pts = lonlat(env, "d", n)
        gapart(env, geo, pts)
        env.nonsing = True
        mod = mkmodel(env, model)
        q = (env.real("qlon", -180, 180, [20, -45, 100, 60, -7]), env.real("qlat", -90, 90, [10, 30, -60, 5, 1]))
        gapart(env, geo, [q], pts)
        return geo, pts, mod, [(q, None)] + ([(pts[0], 0)] if style == "points" else []), ({}, {}, [], [])
    tf = None
    if style != "points":
        tf = lambda e, g, p, w: line_nodes(e, g, p, axis, w)  # noqa: E731
    geo, pts, mod, qs, dr = setup(env, kind, dim, n, aniso, where, model, drifts, tf)
    if kind == "uk":
        wellposed(env, geo, mod, pts, dr[2])
        env.nonsing = True
    return geo, pts, mod, qs, dr


def run(env, k, style, axis, qs, backend, mask, ekw):
    if style == "points" or len(qs) == 1:
        z, ss = execute(env, k, "points", qs, backend=backend, **ekw)
        return [z[i] for i in range(len(qs))], [ss[i] for i in range(len(qs))]
    return run_line(env, k, style, qs, axis, mask, backend, **ekw)


def window_of(env, geo, pts, qs, window, far):
    if window and window < len(pts):
        for q, _ in qs:
            for i in range(len(pts)):
                if i != far:
                    env.assume(geo.dist2(q, pts[i]) + env.num(Fraction(1, 8)) <= geo.dist2(q, pts[far]))


def linear(env, kind, dim, n, backend, where="free", aniso=False, model="custom", drifts=(), style="points", axis=0, window=None, geographic=False,
           opts=None, far=1):
    """Same variogram and points, four sets of values."""
    geo, pts, mod, qs, dr = problem(env, kind, dim, n, aniso, where, model, drifts, style, axis, geographic)
    window_of(env, geo, pts, qs, window, far)
    v = env.reals("v", n, -100, 100, PV)
    u = env.reals("u", n, -100, 100, PV[2:] + PV[:2])
    a = env.real("a", -10, 10, [2, -3, "1/2", 7, -1])
    b = env.real("b", -1000, 1000, [5, -100, 0, 33, 1000])
    sets = dict(v=v, u=u, axb=[a * x + b for x in v], sum=[x + y for x, y in zip(v, u)], zero=[env.num(0)] * n, const=[b] * n)
    mask = [False, True] if style == "masked" else None
    ekw = dict(dr[1])
    if window:
        ekw["n_closest_points"] = window
    out = {}
    kw = dict(opts or {}, **dr[0])
    for name, zv in sets.items():
        k = make(env, kind, dim, pts, zv, mod, geo, **kw)
        out[name] = run(env, k, style, axis, qs, backend, mask, ekw)
    for i in range(len(qs)):
        if mask and mask[i]:
            continue
        z = {m: r[0][i] for m, r in out.items()}
        for m, r in out.items():
            env.check("variance does not depend on the values (%s, %d)" % (m, i), env.same(r[1][i], out["v"][1][i]))
        env.check("zero values give zero (%d)" % i, env.same(z["zero"], 0))
        env.check("sum of predictions (%d)" % i, env.same(z["sum"], z["v"] + z["u"]))
        env.check("constant values are reproduced (%d)" % i, env.same(z["const"], b))
        env.check("scaled and shifted (%d)" % i, env.same(z["axb"], a * z["v"] + b))


def scaled(env, kind, dim, n, backend, where="free", aniso=False, drifts=(), style="points", axis=0, exact=True, via="new", model="custom"):
    """The variogram multiplied by a positive factor: the weights solve the
    same equations (unit value vectors give the weights)."""
    geo, pts, mod, qs, dr = problem(env, kind, dim, n, aniso, where, "custom", drifts, style, axis, False)
    f = env.real("f", "1/10", 10, [2, "1/3", 5, "3/2", "1/5"])
    m1, m2, gam = models(env, model, f)
    mask = [False, True] if style == "masked" else None
    lam, ss = {}, {}
    for which in (1, 2):
        lam[which] = []
        for e in units(env, n):
            kw = dict(dr[0], exact_values=exact)
            if via == "new" or which == 1:
                k = make(env, kind, dim, pts, e, m1 if which == 1 else m2, geo, **kw)
            else:
                k = make(env, kind, dim, pts, e, m1, geo, **kw)
                ukw = dict(m2.kw)
                ukw.update({x: y for x, y in geo.kw.items()})
                k.update_variogram_model(nlags=1, **ukw)
            z, s = run(env, k, style, axis, qs, backend, mask, dr[1])
            lam[which].append(z)
            ss[which] = s
    A = gamma_matrix(env, geo, gam, pts)
    for i, (q, at) in enumerate(qs):
        if mask and mask[i]:
            continue
        b = gamma_rhs(env, geo, gam, pts, q, exact, at)
        for which, c in ((1, 1), (2, f)):
            A2 = [[c * x for x in r] for r in A]
            b2 = [c * x for x in b]
            w = [lam[which][j][i] for j in range(n)]
            name = "%s variogram, request %d" % ("the" if which == 1 else "multiplied", i)
            if kind == "ok":
                kkt(env, name, A2, b2, w, ss[which][i])
                if which == 2:
                    kkt(env, name + ", divided again", A, b, w, ss[2][i] / f)
            else:
                uk_equations(env, name, A2, b2, w, ss[which][i], dr[2], [r[i] for r in dr[3]])
        if not env.sym:
            for j in range(n):
                env.check("weight %d unchanged" % j, env.same(lam[1][j][i], lam[2][j][i]))
            env.check("variance multiplied", env.same(ss[2][i], f * ss[1][i]))


def models(env, model, f):
    """A model, the same multiplied by f, and the first as a function."""
    if model == "custom":
        g = env.vario("g", 1)
        p = env.real("p0", -5, 5, [1, 2, "1/2", 3, 2])
        return (Model(dict(variogram_model="custom", variogram_parameters=[p], variogram_function=g), None),
                Model(dict(variogram_model="custom", variogram_parameters=[p], variogram_function=lambda ps, d: f * g(ps, d)), None), lambda d: g([p], d))
    if model == "linear":
        s = env.real("slope", "1/100", 10, [1, 2, "1/2", "3/2", 3])
        c = env.real("nugget", 0, 5, ["1/2", 0, 1, "1/4", 0])
        return (Model(dict(variogram_model="linear", variogram_parameters=[s, c]), None),
                Model(dict(variogram_model="linear", variogram_parameters=[s * f, c * f]), None), lambda d: s * d + c)
    s = env.real("sill", 1, 10, [1, 2, 3, "3/2", 5])
    c = env.real("nugget", 0, "1/2", ["1/2", 0, "1/3", "1/4", 0])
    r = env.real("range", 1, 20, [3, 10, 5, 2, 8])
    return (Model(dict(variogram_model="exponential", variogram_parameters=[s, r, c]), None),
            Model(dict(variogram_model="exponential", variogram_parameters=[s * f, r, c * f]), None),
            lambda d: (s - c) * (1 - env.exp(-d / (r / 3))) + c)


BOUNDS = ("four kriging classes, all backends, 2-4 data points, 1-2 requests (free or on a datum, as points, a row of grid nodes or a masked row), windows of 2; "
          "arbitrary variogram function (C: linear, exponential); symbolic values, factors, shifts, coordinates, anisotropy; every drift term; exact and filtering; "
          "the multiplied variogram given at construction or by update")
OUTSIDE = "that the equations of a non-singular system determine weights and variance (linear algebra) is used to compare the two variograms symbolically"


def needs_c(fn, cfg):
    return cfg.get("backend") == "C"


def tasks(thorough):
    out = []

    def add(fn, **k):
        out.append((fn, k))

    for kind, dim in CLS:
        c = dict(kind=kind, dim=dim)
        for be in ("vectorized", "loop", "C") if (kind, dim) == ("ok", 2) else ("vectorized", "loop"):
            m = "linear" if be == "C" else "custom"
            for w in ("free", "datum", "mix"):
                for n in (2, 3):
                    add("linear", n=n, backend=be, where=w, model=m, **c)
                add("linear", n=2, backend=be, where=w, model=m, opts=dict(exact_values=False), **c)
            for st in ("grid", "masked"):
                for ax in range(dim):
                    for w in ("free", "datum"):
                        add("linear", n=2, backend=be, where=w, model=m, style=st, axis=ax, **c)
            add("linear", n=2, backend=be, aniso=True, model=m, **c)
            for t in ("pinv", "pinvh") if be != "C" else ():
                add("linear", n=2, backend=be, where="mix", model=m, opts=dict(pseudo_inv=True, pseudo_inv_type=t), **c)
            if kind == "ok" and be != "vectorized":
                for n, w in ((2, "mix"), (3, "free"), (3, "datum")):
                    for far in ((1, 2) if dim == 2 else (1, 0) if w == "free" else (1,))[:n - 1]:
                        add("linear", n=n, backend=be, where=w, model=m, window=2, far=far, **c)
                for st in ("grid", "masked"):
                    add("linear", n=2, backend=be, model=m, style=st, axis=0, window=2, **c)
            if (kind, dim) == ("ok", 2):
                add("linear", n=2, backend=be, model=m, geographic=True, **c)
                add("linear", n=2, backend=be, model="linear", geographic=True, **c)
            if kind == "uk":
                for d in ("lin", "spec", "func", "func2") + (("well", "well2", "well@q", "extZx") if dim == 2 else ()):
                    add("linear", n=(4 if dim == 2 else 5) if d == "lin" else 3 if d in ("func2", "well2") else 2, backend=be, drifts=[d], **c)
                    if d != "lin":
                        add("linear", n=3, backend=be, drifts=[d], where="datum", **c)
                add("linear", n=2, backend=be, drifts=["spec"], style="masked", axis=1, **c)
                add("linear", n=2, backend=be, drifts=["spec"], style="grid", axis=0, **c)
            # the variogram
            for w in ("free", "datum", "mix"):
                for ex in (True, False):
                    add("scaled", n=2, backend=be, where=w, exact=ex, model=m, **c)
            for via in ("new", "update"):
                for mm in ("linear", "exponential") if kind == "ok" else ("linear",):
                    add("scaled", n=2, backend=be, model=mm, via=via, **c)
            add("scaled", n=3, backend=be, model=m, **c)
            add("scaled", n=2, backend=be, model=m, style="masked", axis=0, **c)
            add("scaled", n=2, backend=be, model=m, style="grid", axis=1, where="datum", **c)
            add("scaled", n=2, backend=be, model=m, aniso=True, **c)
            add("scaled", n=2, backend=be, model=m, aniso=True, via="update", **c)
            if kind == "uk":
                for d in ("spec", "func") + (("well",) if dim == 2 else ()):
                    add("scaled", n=2, backend=be, drifts=[d], **c)
    return out
