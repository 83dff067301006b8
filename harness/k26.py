"""K26: the pseudo-inverse averages redundant data and changes nothing else."""
from .common import *

ID = "K26"


def no_nugget(env, model):
    """Models without nugget; an arbitrary one is d times an arbitrary
    function."""
    if model == "custom":
        p = env.real("p0", -5, 5, [1, 2, "1/2", 3, 2])
        g = env.vario("g", 1)
        return Model(dict(variogram_model="custom", variogram_parameters=[p], variogram_function=lambda ps, d: d * g(ps, d) / 4), lambda d: d * g([p], d) / 4)
    if model == "linear":
        return mkmodel(env, "linear0")
    s = env.real("sill", 1, 10, [1, 2, 3, "3/2", 5])
    r = env.real("range", 1, 20, [3, 10, 5, 2, 8])
    return Model(dict(variogram_model="exponential", variogram_parameters=[s, r, 0]), lambda d: s * (1 - env.exp(-d / (r / 3))))


def windowed(env, geo, pts, qs, window, far):
    """The window of every request is every datum but the far one."""
    if window and window < len(pts):
        for q, _ in qs:
            for i in range(len(pts)):
                if i != far:
                    env.assume(geo.dist2(q, pts[i]) + env.num(Fraction(1, 8)) <= geo.dist2(q, pts[far]))


def request(env, k, style, axis, qs, backend, ekw):
    if style == "points":
        z, ss = execute(env, k, "points", qs, backend=backend, **ekw)
        return [z[i] for i in range(len(qs))], [ss[i] for i in range(len(qs))]
    return run_line(env, k, style, qs, axis, [False, True] if style == "masked" else None, backend, **ekw)


def place(env, where, style, axis, kind, dim, n, aniso, model, drifts, nonug):
    tf = (lambda e, g, p, w: line_nodes(e, g, p, axis, w)) if style != "points" else None
    geo, pts, mod, qs, dr = setup(env, kind, dim, n, aniso, where, model, drifts, tf)
    if nonug is not None:
        mod = nonug
    if kind == "uk":
        wellposed(env, geo, mod, pts, dr[2])
    env.nonsing = True
    return geo, pts, mod, qs, dr


def same(env, kind, dim, n, pinv, backend, where="free", aniso=False, model="custom", drifts=(), style="points", axis=0, window=None, far=1, exact=True,
         stats=False, geographic=False, update=False):
    """A solvable problem with and without the pseudo-inverse."""
    if geographic:
        geo = Sphere(env)
        pts = lonlat(env, "d", n)
        gapart(env, geo, pts)
        mod = mkmodel(env, model)
        q = (env.real("qlon", -180, 180, [20, -45, 100, 60, -7]), env.real("qlat", -90, 90, [10, 30, -60, 5, 1]))
        gapart(env, geo, [q], pts)
        qs, dr = [(q, None), (pts[0], 0)], ({}, {}, [], [])
        env.nonsing = True
    else:
        geo, pts, mod, qs, dr = place(env, where, style, axis, kind, dim, n, aniso, model, drifts, None)
    windowed(env, geo, pts, qs, window, far)
    zv = env.reals("v", n, -100, 100, PV)
    ekw = dict(dr[1])
    if window:
        ekw["n_closest_points"] = window
    out = []
    for p in (False, True):
        kw = dict(dr[0], exact_values=exact)
        if p:
            kw.update(pseudo_inv=True, pseudo_inv_type=pinv)
        if stats:
            kw["stats"] = True
        k = make(env, kind, dim, pts, zv, mod, geo, **kw)
        if update:
            ukw = dict(mod.kw)
            ukw.update({x: y for x, y in geo.kw.items()})
            k.update_variogram_model(nlags=1, **ukw)
        r = request(env, k, style, axis, qs, backend, ekw)
        if stats:
            r = r + tuple([k.delta[i] for i in range(n - 1)] if False else [list(x) for x in (k.delta, k.sigma, k.epsilon)])
        out.append(r)
    for i, (a, b) in enumerate(zip(*out)):
        what = ("value", "variance", "delta", "sigma", "epsilon")[i]
        for j, (x, y) in enumerate(zip(a, b)):
            if x is None or y is None:
                env.check("%s %d masked" % (what, j), x is y)
            else:
                env.check("%s %d" % (what, j), env.same(y, x))


def dup(env, kind, dim, groups, pinv, backend, where="free", aniso=False, model="custom", drifts=(), style="points", axis=0, window=None, far=None, exact=True,
        geographic=False, m=None):
    """groups[i]: the location of datum i; duplicated data act as their
    average."""
    m = max(groups) + 1
    nonug = no_nugget(env, model)
    if geographic:
        geo = Sphere(env)
        pts = lonlat(env, "d", m)
        gapart(env, geo, pts)
        mod = nonug
        q = (env.real("qlon", -180, 180, [20, -45, 100, 60, -7]), env.real("qlat", -90, 90, [10, 30, -60, 5, 1]))
        gapart(env, geo, [q], pts)
        qs, dr = [(q, None), (pts[0], 0)], ({}, {}, [], [])
        env.nonsing = True
    else:
        geo, pts, mod, qs, dr = place(env, where, style, axis, kind, dim, m, aniso, "custom" if model == "custom" else "linear0", drifts, nonug)
    if far is not None:
        windowed(env, geo, pts, qs, len(pts) - 1, far)
    n = len(groups)
    zv = env.reals("v", n, -100, 100, PV)
    mean = []
    for g in range(m):
        mem = [zv[i] for i in range(n) if groups[i] == g]
        s = 0
        for x in mem:
            s = s + x
        mean.append(s / len(mem))
    full = [pts[g] for g in groups]
    kw = dict(dr[0], exact_values=exact)
    kw2 = dict(kw, pseudo_inv=True, pseudo_inv_type=pinv)
    if "specified_drift" in kw2:
        kw2["specified_drift"] = [env.arr([a[g] for g in groups]) for a in kw["specified_drift"]]
    out = []
    near = [i for i in range(m) if i != far]
    for p, v, k2, w in (([pts[i] for i in near], [mean[i] for i in near], kw, None), (full, zv, kw2, window)):
        ekw = dict(dr[1])
        if w:
            ekw["n_closest_points"] = w
        k = make(env, kind, dim, p, v, mod, geo, **k2)
        out.append(request(env, k, style, axis, qs, backend, ekw))
    for what, a, b in zip(("value", "variance"), *out):
        for j, (x, y) in enumerate(zip(a, b)):
            if x is None or y is None:
                env.check("%s %d masked" % (what, j), x is y)
            else:
                env.check("%s %d" % (what, j), env.same(y, x))


BOUNDS = ("four kriging classes, both algorithms, all backends, 2-4 distinct locations holding 2-6 data (pairs, triples, two pairs), requests free or on a datum, as "
          "points, a row of grid nodes or a masked row, windows of 2-3 points; arbitrary variogram function (times the distance where no nugget is wanted; C: "
          "linear, exponential), symbolic values, coordinates, anisotropy, geographic coordinates; every drift term; exact or filtering; cross-validation "
          "statistics of distinct data; after an update")
OUTSIDE = ("rank-deficient systems other than duplicated data; the pseudo-inverse itself is a contract: the inverse of a regular matrix, the Moore-Penrose inverse "
           "of one with duplicated rows and columns")


def needs_c(fn, cfg):
    return cfg.get("backend") == "C"


def tasks(thorough):
    out = []

    def add(fn, **k):
        out.append((fn, k))

    for kind, dim in CLS:
        for be in ("vectorized", "loop", "C") if (kind, dim) == ("ok", 2) else ("vectorized", "loop"):
            mo = "linear" if be == "C" else "custom"
            for t in ("pinv", "pinvh"):
                c = dict(kind=kind, dim=dim, backend=be, pinv=t)
                for w in ("free", "datum", "mix"):
                    add("same", n=3, where=w, model=mo, **c)
                    add("same", n=2, where=w, model=mo, exact=False, **c)
                    for g in ([0, 1, 0], [0, 1, 1], [0, 0, 1], [0, 1, 1, 1], [0, 1, 0, 1], [1, 0, 2, 0], [0, 1, 2, 2, 1], [0, 1, 2, 0, 0]):
                        add("dup", groups=g, where=w, model=mo, **c)
                    add("dup", groups=[0, 1, 0], where=w, model=mo, exact=False, **c)
                for st in ("grid", "masked"):
                    for ax in range(dim):
                        add("same", n=2, style=st, axis=ax, model=mo, **c)
                        add("dup", groups=[1, 0, 1], style=st, axis=ax, model=mo, where="datum" if ax else "free", **c)
                add("same", n=2, aniso=True, model=mo, **c)
                add("same", n=2, aniso=True, model=mo, update=True, **c)
                add("same", n=2, model=mo, update=True, **c)
                add("dup", groups=[0, 1, 0], aniso=True, model=mo, **c)
                add("same", n=2, model="linear", **c)
                add("dup", groups=[0, 1, 0], model="exponential", **c)
                if kind == "ok" and be != "vectorized":
                    add("same", n=2, window=2, model=mo, **c)
                    add("same", n=3, window=3, model=mo, where="mix", **c)
                    for far in (0, 1, 2) if dim == 2 else (0, 1):
                        add("same", n=3, window=2, far=far, model=mo, **c)
                    add("dup", groups=[0, 1, 0], window=3, model=mo, **c)
                    add("dup", groups=[0, 1, 0], window=3, model=mo, where="datum", **c)
                    add("dup", groups=[0, 1, 2, 1], window=4, model=mo, **c)
                    add("dup", groups=[0, 1, 2, 0], window=3, far=1, model=mo, **c)
                    if dim == 2:
                        add("dup", groups=[0, 1, 2, 0, 1], window=4, far=2, model=mo, **c)
                    add("dup", groups=[0, 1, 0], window=3, model=mo, style="masked", **c)
                    add("dup", groups=[0, 1, 0], window=3, model=mo, style="grid", **c)
                if (kind, dim) == ("ok", 2):
                    for g in ([0, 1, 0], [0, 1, 1]):
                        add("dup", groups=g, model=mo, geographic=True, **c)
                    add("same", n=2, model=mo, geographic=True, **c)
                if kind == "uk":
                    for d in ("lin", "spec", "func") + (("well", "well2", "extZx", "well@q") if dim == 2 else ()):
                        n = (4 if dim == 2 else 5) if d == "lin" else 3
                        if dim == 3 and d == "lin":
                            continue
                        add("same", n=n, drifts=[d], model=mo, **c)
                        add("dup", groups=list(range(n)) + [n - 2], drifts=[d], model=mo, **c)
                        if d != "lin":
                            add("dup", groups=[0, 1, 2, 0], drifts=[d], model=mo, where="datum", **c)
                if be == "vectorized":
                    add("same", n=3, stats=True, model="linear", **c)
    return out
