"""K21: the scikit-learn style wrapper is the kriging class it names."""
import itertools

from .common import *

ID = "K21"
METHODS = {"ordinary": ("ok", 2), "universal": ("uk", 2), "ordinary3d": ("ok", 3), "universal3d": ("uk", 3)}


def same_object(env, a, b):
    """Two kriging objects of the same class in the same state."""
    env.check("class", type(a) is type(b))
    for name in sorted(vars(b)):
        if not hasattr(a, name):
            env.check("attribute " + name, False)
        same_value(env, name, getattr(a, name), getattr(b, name))


def same_value(env, name, x, y):
    if y is None or isinstance(y, (str, bool)):
        env.check("attribute %s: %r instead of %r" % (name, x, y), x is y if y is None else type(x) is type(y) and x == y)
    elif isinstance(y, (list, tuple)):
        env.check("attribute " + name, type(x) is type(y) and len(x) == len(y))
        for i, (u, v) in enumerate(zip(x, y)):
            same_value(env, "%s[%d]" % (name, i), u, v)
    elif isinstance(y, dict) or callable(y):
        env.check("attribute " + name, x is y or x == y)
    elif hasattr(y, "shape"):
        env.eq("attribute " + name, x, y)
    elif is_number(env, y):
        env.check("attribute " + name, env.same(x, y))
    else:
        env.check("attribute " + name, type(x) is type(y))


def is_number(env, y):
    return isinstance(y, (int, float)) or (env.sym and type(y).__name__ == "S")


def wrapper_kw(kind, dim, geo, mod, dr, extra):
    """Wrapper arguments that mean the same as the class arguments."""
    direct = dict(mod.kw)
    direct.update(geo.kw)
    direct.update(extra)
    if kind == "uk":
        direct.update(dr[0])
    w = {k: v for k, v in direct.items() if not k.startswith("anisotropy") and not k.startswith("external")}
    if dim == 2:
        if "anisotropy_scaling" in direct:
            w["anisotropy_scaling"] = (direct["anisotropy_scaling"], 7)
            w["anisotropy_angle"] = (direct["anisotropy_angle"], 8, 9)
    elif "anisotropy_scaling_y" in direct:
        w["anisotropy_scaling"] = (direct["anisotropy_scaling_y"], direct["anisotropy_scaling_z"])
        w["anisotropy_angle"] = tuple(direct["anisotropy_angle_" + a] for a in "xyz")
    if "external_drift" in direct:
        w["ext_drift_grid"] = tuple(direct[a] for a in ("external_drift", "external_drift_x", "external_drift_y"))
    return direct, w


def wrap(env, method, n, where="free2", aniso=False, drifts=(), window=None, extra=None, via="predict", geographic=False, model="custom", far=2):
    kind, dim = METHODS[method]
    if geographic:
        geo = Sphere(env)
        pts = lonlat(env, "d", n)
        gapart(env, geo, pts)
        env.nonsing = True
        mod = mkmodel(env, model)
        qs = [((env.real("qlon", -180, 180, [20, -45, 100, 60, -7]), env.real("qlat", -90, 90, [10, 30, -60, 5, 1])), None)]
        gapart(env, geo, [qs[0][0]], pts)
        dr = ({}, {}, [], [])
    else:
        geo, pts, mod, qs, dr = setup(env, kind, dim, n, aniso, where, model, drifts)
        if kind == "uk":
            wellposed(env, geo, mod, pts, dr[2])
    zv = env.reals("v", n, -100, 100, PV)
    if window and window < n:
        for q, _ in qs:
            for i in range(n):
                if i != far:
                    env.assume(geo.dist2(q, pts[i]) + env.num(Fraction(1, 8)) <= geo.dist2(q, pts[far]))
    if via == "grid":
        for q in itertools.product(*zip(*[q for q, _ in qs])):
            apart_from(env, geo, q, pts)
    env.nonsing = True
    extra = dict(dict(nlags=1), **(extra or {}))
    direct, w = wrapper_kw(kind, dim, geo, mod, dr, extra)
    if env.sym and not extra.get("enable_statistics"):
        env.no_statistics(CLS[kind, dim][0])
    C = env.load("pykrige.compat")
    k = C.Krige(method=method, n_closest_points=window, **w)
    for name, v in w.items():
        env.check("argument %s stored" % name, getattr(k, name) is v and k.get_params()[name] is v)
    env.check("argument method stored", k.method == method and k.n_closest_points == window)
    k2 = type(k)(**k.get_params())
    for name, v in k.get_params().items():
        env.check("parameter %s cloned" % name, getattr(k2, name) is v)
    X = env.arr([list(p) for p in pts])
    Q = env.arr([list(q) for q, _ in qs])
    y = env.arr(list(zv))
    k.fit(X, y)
    for name, v in w.items():
        env.check("argument %s kept by fit" % name, getattr(k, name) is v)
    d = kclass(env, kind, dim)(*columns(env, pts), env.arr(list(zv)), **direct)
    same_object(env, k.model, d)
    ekw = {}
    if kind == "ok":
        ekw["n_closest_points"] = window
    for backend in (None, "vectorized") if not window else (None,) + (("C",) if method == "ordinary" and model == "linear" else ()):
        bk = {} if backend is None else dict(backend=backend)
        zd, sd = execute(env, d, "points", qs, backend=backend or "loop", **ekw)
        env.eq("prediction", k.predict(Q, **bk), zd)
        names = ["xpoints", "ypoints", "zpoints"][:dim]
        z, s = k.execute(dict(zip(names, columns(env, [q for q, _ in qs]))), **bk)
        env.eq("executed values", z, zd)
        env.eq("executed variances", s, sd)
        if via == "grid":
            z, s = k.execute(dict(zip(names, columns(env, [q for q, _ in qs]))), style="grid", **bk)
            zd, sd = execute(env, d, "grid", qs, backend=backend or "loop", **ekw)
            env.eq("grid values", z, zd)
            env.eq("grid variances", s, sd)
    # fitting again forgets the first fit
    v2 = env.reals("u", n, -100, 100, PV[1:] + PV[:1])
    k.fit(X, env.arr(list(v2)))
    d2 = kclass(env, kind, dim)(*columns(env, pts), env.arr(list(v2)), **direct)
    same_object(env, k.model, d2)
    zd, _ = execute(env, d2, "points", qs, backend="loop", **ekw)
    env.eq("prediction after a second fit", k.predict(Q), zd)


def fitted(env, method, nlags, weight):
    """Lags and weights reach the class when it fits the variogram itself."""
    kind, dim = METHODS[method]
    pts = [tuple(env.num(c) for c in p[:dim]) for p in ((0, 0, 0), (1, 0, 0), (3, 0, 0))]
    zv = env.reals("v", 3, -100, 100, PV)
    env.assume(env.OR(*[env.OR(zv[i] + env.num(Fraction(1, 8)) <= zv[0], zv[0] + env.num(Fraction(1, 8)) <= zv[i]) for i in (1, 2)]))
    if env.sym:
        env.no_statistics(CLS[kind, dim][0])
    C = env.load("pykrige.compat")
    k = C.Krige(method=method, nlags=nlags, weight=weight)
    k.fit(env.arr([list(p) for p in pts]), env.arr(list(zv)))
    d = kclass(env, kind, dim)(*columns(env, pts), env.arr(list(zv)), nlags=nlags, weight=weight)
    same_object(env, k.model, d)


def rejected(env, method, n=3):
    kind, dim = METHODS[method]
    C = env.load("pykrige.compat")
    for bad in ("ord", "ORDINARY", None, 3, "universal2d"):
        env.raises("method %r" % (bad,), lambda: C.Krige(method=bad))
    k = C.Krige(method=method, variogram_model="linear", variogram_parameters=[env.num(1), env.num(0)])
    X = {c: env.arr([[env.real("c%d%d%d" % (c, i, j), -50, 50, [i * i + j - 3 * j * i, 1, 2, 3, 4]) for j in range(c)] for i in range(n)]) for c in (1, 2, 3, 4)}
    y = env.arr(env.reals("v", n, -100, 100, PV))
    env.raises("predicting before fitting", lambda: k.predict(X[dim]))
    for c in (1, 2, 3, 4):
        if c != dim:
            env.raises("fitting on %d-dimensional points" % c, lambda: k.fit(X[c], y))
            env.raises("predicting after a rejected fit", lambda: k.predict(X[dim]))
    X0 = env.arr([[i + 2 * j * (i == j) for j in range(dim)] for i in range(n)])
    for kw in (dict(pseudo_inv=True, pseudo_inv_type="nope"), dict(variogram_model="nope"), dict(nlags=-1)) + ((dict(coordinates_type="nope"),) if method == "ordinary" else ()):
        kw = dict(dict(variogram_model="linear", variogram_parameters=[1, 0], nlags=1), **kw)
        env.raises("fitting with %s" % sorted(kw.items()), lambda: C.Krige(method=method, **kw).fit(X0, y))
    pts = points(env, n, dim)
    apart(env, Iso(env, dim), pts)
    if env.sym:
        env.no_statistics(CLS[kind, dim][0])
    k.fit(env.arr([list(p) for p in pts]), y)
    for c in (1, 2, 3, 4):
        if c != dim:
            env.raises("predicting %d-dimensional points" % c, lambda: k.predict(X[c]))
    for kw in (dict(backend="nope"), dict(style="nope")):
        env.raises("predicting with %s" % sorted(kw.items()), lambda: k.predict(X[dim], **kw))


BOUNDS = ("four methods, 2-4 data points, 1-2 requested points (free or on a datum) or a 2x2 (2x2x2) grid; arbitrary variogram function; symbolic anisotropy "
          "ratios and angles, geographic coordinates, exact values off, pseudo-inverse, statistics, windows of 2-3 points or none, every drift the wrapper "
          "can pass, lags and weights; every attribute of the underlying object and its results against a directly constructed one; two fits in a row")
OUTSIDE = "scikit-learn's own clone and grid search (its BaseEstimator is replaced by a stand-in during symbolic execution)"


def needs_c(fn, cfg):
    return bool(cfg.get("window"))


def tasks(thorough):
    out = []

    def add(fn, **k):
        out.append((fn, k))

    for m, (kd, dim) in METHODS.items():
        n = 2
        for w in ("free2", "mix"):
            add("wrap", method=m, n=n, where=w)
            add("wrap", method=m, n=n, where=w, extra=dict(exact_values=False))
        add("wrap", method=m, n=n, where="free2", via="grid", model="linear")
        add("wrap", method=m, n=n, where="free", aniso=True)
        add("wrap", method=m, n=n, where="free", extra=dict(enable_statistics=True) if m == "ordinary" else {})
        for t in ("pinv", "pinvh"):
            add("wrap", method=m, n=n, where="free", extra=dict(pseudo_inv=True, pseudo_inv_type=t))
        for nl in (2, 3):
            for wt in (False, True):
                add("fitted", method=m, nlags=nl, weight=wt)
        add("rejected", method=m)
        if kd == "ok":
            for wd, nn in ((2, 2), (2, 3), (3, 3)):
                for far in ((0, 1, 2) if dim == 2 else (0, 1)) if nn > wd else (2,):
                    add("wrap", method=m, n=nn, where="free", window=wd, model="linear" if dim == 2 else "custom", far=far)
        if m == "ordinary":
            add("wrap", method=m, n=2, geographic=True, model="linear")
            add("wrap", method=m, n=2, geographic=True, model="linear", window=2)
        if kd == "uk":
            for dr in ([], ["lin"], ["func"], ["func2"]) + ((["well"], ["well2"], ["extZx"], ["extZy"], ["well", "extZx"]) if dim == 2 else ()):
                add("wrap", method=m, n=4 if dr in (["lin"], ["func2"], ["well2"], ["well", "extZx"]) or dim == 3 else 3, where="free", drifts=dr)
            add("wrap", method=m, n=3, where="free", drifts=["func"], aniso=True)
            if dim == 2:
                add("wrap", method=m, n=3, where="free", drifts=["well"], aniso=True)
    return out
