"""K17: containers and number types of the inputs."""
from .common import *

ID = "K17"
# whole-number data layouts and targets (apart from one another)
LX = [[0, 3, 1, 5], [-7, 4, 0, 3], [40, 41, 44, -2], [0, 0, 0, 0]]
LY = [[0, 1, 4, 3], [2, 2, 5, -3], [-1, -1, 0, 6], [1, 3, 6, 10]]
LZ = [[0, 2, 1, -3], [5, 5, 5, 5], [1, 0, 3, 2], [0, 0, 2, 1]]
LV = [[1, 4, -2, 7], [0, 3, 3, 5], [-6, 2, 9, 1], [2, 2, 2, 8]]
TQ = [(2, 7, -1), (9, -4, 3)]


def form(env, f, vals):
    """The same numbers in another container."""
    np = env.np
    if f == "list":
        return list(vals)
    if f == "tuple":
        return tuple(vals)
    if f == "array":
        return env.arr(list(vals))
    if f == "column":
        return env.arr([[v] for v in vals])
    if f == "row":
        return env.arr([list(vals)])
    if f == "mixed":
        return [vals[0]] + [v for v in vals[1:]]
    if f == "scalar":
        return vals[0]
    if f == "zerod":
        return np.array(vals[0], dtype=float)
    if f == "strided":
        a = env.arr([v for x in vals for v in (x, 99)])
        return a[::2]
    if f == "reversed":
        return env.arr(list(vals)[::-1])[::-1]
    if f == "fortran":
        return np.asfortranarray(env.arr([[v, 99] for v in vals]))[:, 0]
    if f in ("int64", "int32", "int16"):
        return np.array([int(v) for v in vals], dtype=f)
    if f == "pyint":
        return [int(v) for v in vals]
    if f == "pyint-tuple":
        return tuple(int(v) for v in vals)
    if f == "intcolumn":
        return np.array([[int(v)] for v in vals], dtype="int64")
    if f == "int-scalar":
        return int(vals[0])
    raise ValueError(f)


WHOLE = ("int64", "int32", "int16", "pyint", "pyint-tuple", "intcolumn")


def layout(env, dim, n, k):
    return [tuple(c[k][i] for c in (LX, LY, LZ)[:dim]) for i in range(n)]


def problem(env, dim, n, whole, aniso, geographic=False):
    if geographic:
        geo = Sphere(env)
        if whole is not None:
            return geo, layout(env, 2, n, whole)
        pts = lonlat(env, "d", n)
        gapart(env, geo, pts)
        return geo, pts
    geo = mkgeo(env, aniso, dim)
    if whole is None:
        pts = points(env, n, dim)
        apart(env, geo, pts)
    else:
        pts = layout(env, dim, n, whole)
        if aniso:
            apart(env, geo, [tuple(env.num(v) for v in p) for p in pts])
    return geo, pts


def build(env, kind, dim, pts, zv, mod, geo, f, fz, **kw):
    k = dict(mod.kw)
    k.update(geo.kw)
    k.update(kw)
    k["nlags"] = 1
    if env.sym:
        env.no_statistics(CLS[kind, dim][0])
    cols = [form(env, f, c) for c in zip(*pts)]
    return kclass(env, kind, dim)(*cols, form(env, fz, zv), **k)


def data(env, kind, dim, n, f, fz="array", whole=None, wv=None, aniso=False, geographic=False, backend="vectorized", drifts=(), model="custom", fit=False):
    geo, pts = problem(env, dim, n, whole, aniso, geographic)
    mod = mkmodel(env, model)
    env.nonsing = True
    zv = LV[wv][:n] if wv is not None else env.reals("v", n, -100, 100, PV)
    num = [tuple(env.num(v) for v in p) for p in pts]
    if geographic:
        q = (env.real("qlon", -180, 180, [12, 40, 150, 60, -9]), env.real("qlat", -90, 90, [8, 33, 20, -44, 13]))
        gapart(env, geo, [q], num)
        qs = [(q, None)]
    else:
        qs = targets(env, geo, num, "free")
    kw, ekw = {}, {}
    if kind == "uk":
        need = aniso and ("func" in str(drifts) or "lin" in str(drifts))
        kw, ekw = drift_2d(env, drifts, geo, num, qs, center_of(env, num) if need else tuple([env.num(0)] * dim))[:2]
    a = build(env, kind, dim, num, [env.num(v) for v in zv], mod, geo, "array", "array", **kw)
    b = build(env, kind, dim, pts, zv, mod, geo, f, fz, **kw)
    za, va = execute(env, a, "points", qs, backend=backend, **ekw)
    zb, vb = execute(env, b, "points", qs, backend=backend, **ekw)
    env.eq("values", zb, za)
    env.eq("variances", vb, va)
    env.eq("lags", b.lags, a.lags)
    env.eq("semivariance", b.semivariance, a.semivariance)


def request(env, kind, dim, n, f, m=2, whole=False, aniso=False, geographic=False, backend="vectorized", drifts=(), model="custom", style="points", on=None):
    """The same requested points (or grid axes) in another container."""
    geo, pts = problem(env, dim, n, None, aniso, geographic)
    mod = mkmodel(env, model)
    env.nonsing = True
    zv = env.reals("v", n, -100, 100, PV)
    if whole:
        qs = [q[:dim] for q in TQ[:m]]
        nq = [tuple(env.num(v) for v in q) for q in qs]
    elif geographic:
        qs = nq = list(zip(env.reals("qlon", m, -180, 180, [[12, 40], [7, -60], [150, 20], [60, 3], [-9, 17]]), env.reals("qlat", m, -90, 90, [[8, 33], [-15, 5], [20, 60], [9, -44], [1, 13]])))
    else:
        qs = nq = [q for q, _ in targets(env, geo, pts, "free2" if m == 2 else "free")]
    import itertools

    for q in (itertools.product(*zip(*nq)) if style != "points" else nq):
        if geographic:
            gapart(env, geo, [q], pts)
        else:
            apart_from(env, geo, q, pts)
    kw, ekw = {}, {}
    if kind == "uk":
        need = aniso and ("func" in str(drifts) or "lin" in str(drifts))
        kw, ekw = drift_2d(env, drifts, geo, pts, [(q, None) for q in nq], center_of(env, pts) if need else tuple([env.num(0)] * dim))[:2]
    k = make(env, kind, dim, pts, zv, mod, geo, **kw)
    ca, cb = [], []
    for c, d in zip(zip(*nq), zip(*qs)):
        ca.append(form(env, "array", c))
        cb.append(form(env, f, d))
    mk = {}
    if style == "masked":
        mk["mask"] = env.np.zeros((m,) * dim, dtype=bool)
    za, va = k.execute(style, *ca, backend=backend, **ekw, **mk)
    zb, vb = k.execute(style, *cb, backend=backend, **ekw, **mk)
    env.check("shape", za.shape == ((m,) if style == "points" else (m,) * dim))
    env.eq("values", zb, za)
    env.eq("variances", vb, va)


def strip(env, kind, dim, n, backend, axes, model="custom", masked=False):
    """A grid of one row or column (or one node) against its points."""
    geo = Iso(env, dim)
    pts = points(env, n, dim)
    apart(env, geo, pts)
    mod = mkmodel(env, model)
    env.nonsing = True
    zv = env.reals("v", n, -100, 100, PV)
    ax = []
    for c, s in enumerate(axes):
        ax.append(env.reals("g%s" % "xyz"[c], s, -50, 50, [[2, 7], ["7/2", 6], ["5/2", -4], [3, 8], [6, 9]][c:] + [[2, 7]] * c))
    import itertools

    nodes = [tuple(reversed(t)) for t in itertools.product(*reversed(ax))]
    for q in nodes:
        apart_from(env, geo, q, pts)
    k = make(env, kind, dim, pts, zv, mod, geo)
    kw = dict(mask=env.np.zeros(tuple(reversed(axes)), dtype=bool)) if masked else {}
    zg, vg = k.execute("masked" if masked else "grid", *[env.arr(a) for a in ax], backend=backend, **kw)
    env.check("shape", zg.shape == tuple(reversed(axes)) and vg.shape == tuple(reversed(axes)))
    zp, vp = execute(env, k, "points", [(q, None) for q in nodes], backend=backend)
    env.eq("values", zg.reshape(-1), zp)
    env.eq("variances", vg.reshape(-1), vp)


def drift(env, what, f, backend="vectorized", aniso=False):
    """Drift inputs in other containers."""
    geo = mkgeo(env, aniso, 2)
    pts = points(env, 3, 2)
    apart(env, geo, pts)
    mod = mkmodel(env, "custom")
    zv = env.reals("v", 3, -100, 100, PV)
    qs = targets(env, geo, pts, "free2")
    wh = f in WHOLE
    kws = []
    ekw = [{}, {}]
    if what == "well":
        w = [(20, -30, 2)] if wh else [(env.real("wx", 20, 40, [25]), env.real("wy", -40, -20, [-30]), env.real("st", "1/10", 5, [2]))]
        num = [tuple(env.num(v) for v in r) for r in w]
        apart_from(env, geo, num[0][:2], pts + [q for q, _ in qs])
        kws = [dict(drift_terms=["point_log"], point_drift=env.arr([list(r) for r in num])),
               dict(drift_terms=["point_log"], point_drift=w[0] if f == "tuple" else [list(r) for r in w] if f in ("list", "pyint") else form(env, f, w[0]))]
    elif what == "spec":
        if wh:
            sd, sq = [1, 4, -2], [2, 5]
        else:
            sd, sq = env.reals("sd", 3, -20, 20, [[1, 4, -2]]), env.reals("sq", 2, -20, 20, [[2, 5]])
        for i, fr in enumerate(("array", f)):
            kws.append(dict(drift_terms=["specified"], specified_drift=[form(env, fr, sd if i else [env.num(v) for v in sd])]))
            ekw[i] = dict(specified_drift_arrays=[form(env, fr, sq if i else [env.num(v) for v in sq])])
    elif what == "ext":
        g = [[1, 3], [0, 5]]
        if not wh:
            g = [env.reals("e0", 2, -20, 20, [[1, 3]]), env.reals("e1", 2, -20, 20, [[0, 5]])]
        H = [-64, 64]
        kws.append(dict(drift_terms=["external_Z"], external_drift=env.arr([[env.num(v) for v in r] for r in g]), external_drift_x=env.arr(H), external_drift_y=env.arr(H)))
        kws.append(dict(drift_terms=["external_Z"], external_drift=env.np.array(g, dtype=f) if wh else env.arr(g), external_drift_x=form(env, f, H), external_drift_y=form(env, f, H)))
    env.nonsing = True
    res = []
    for kw, e in zip(kws, ekw):
        k = make(env, "uk", 2, pts, zv, mod, geo, **kw)
        res.append(execute(env, k, "points", qs, backend=backend, **e))
    env.eq("values", res[1][0], res[0][0])
    env.eq("variances", res[1][1], res[0][1])


PAR = {"linear": ("slope nugget", (2, 1)), "power": ("scale exponent nugget", (2, 1, 1)), "gaussian": ("sill range nugget", (5, 9, 1)),
       "spherical": ("sill range nugget", (5, 40, 0)), "exponential": ("sill range nugget", (4, 6, 0)), "hole-effect": ("psill range nugget", (3, 4, 1))}


def settings(env, kind, dim, model, f, backend, window=None, aniso=False, via="new", wv=None):
    """Variogram parameters and anisotropy as whole numbers in several
    containers."""
    np = env.np
    names, vals = PAR[model]
    names = names.split()
    fl = [env.num(v) for v in vals]
    if f == "dict":
        given = dict(zip(names, vals))
        ref = dict(zip(names, fl))
    else:
        if names[0] == "psill":
            fl[0] = fl[0] + fl[2]
            vals = (vals[0] + vals[2],) + vals[1:]
        ref = fl
        given = {"pyint": list(vals), "npint": [np.int64(v) for v in vals], "npint32": [np.int32(v) for v in vals],
                 "mixed": [fl[0]] + list(vals[1:]), "mixed2": list(vals[:1]) + fl[1:]}[f]
    geo = Iso(env, dim)
    pts = points(env, 2, dim)
    apart(env, geo, pts)
    env.nonsing = True
    qs = targets(env, geo, pts, "mix")
    zv = LV[wv][:2] if wv is not None else env.reals("v", 2, -100, 100, PV)
    an = [{}, {}]
    if aniso:
        v = dict(anisotropy_scaling=2, anisotropy_angle=90) if dim == 2 else dict(anisotropy_scaling_y=2, anisotropy_scaling_z=3, anisotropy_angle_z=90)
        an = [{k: env.num(x) for k, x in v.items()}, v]
        geo = Aniso2(env, env.num(2), env.num(90)) if dim == 2 else Aniso3(env, env.num(2), env.num(3), env.num(0), env.num(0), env.num(90))
        apart(env, geo, pts)
        apart_from(env, geo, qs[0][0], pts)
    if env.sym:
        env.no_statistics(CLS[kind, dim][0])
    res = []
    for i, par in enumerate((ref, given)):
        z = env.arr([env.num(v) for v in zv]) if i == 0 or wv is None else np.array(zv, dtype="int64")
        kw = dict(variogram_model=model, variogram_parameters=par, nlags=1, **an[i])
        if via == "update":
            k = kclass(env, kind, dim)(*columns(env, pts), z, variogram_model="linear", variogram_parameters=[env.num(1), env.num(0)], nlags=1)
            k.update_variogram_model(**kw)
        else:
            k = kclass(env, kind, dim)(*columns(env, pts), z, **kw)
        e = {} if window is None else dict(n_closest_points=window if i == 0 else np.int64(window))
        res.append((k, execute(env, k, "points", qs, backend=backend, **e)))
    (a, (za, va)), (b, (zb, vb)) = res
    env.eq("values", zb, za)
    env.eq("variances", vb, va)
    env.eq("parameters", env.arr([x for x in b.variogram_model_parameters]), env.arr([x for x in a.variogram_model_parameters]))


BOUNDS = ("2-3 data points, 1-2 requested points or a grid of 1-2 nodes per axis; lists, tuples, columns, rows, strided and Fortran-ordered views, scalars and 0-d "
          "arrays with any symbolic numbers; whole-number containers (int16/32/64 arrays, columns, Python ints) with 4 fixed layouts, everything else symbolic; "
          "variogram parameters, anisotropy and window sizes as whole numbers in lists, dictionaries, numpy integers or mixed with floats; every class and backend, anisotropy, geographic coordinates, drift inputs")
OUTSIDE = "float32 input; data frames; larger sizes; other whole-number layouts"
needs_c = c_task


def tasks(thorough):
    out = []

    def add(fn, **k):
        out.append((fn, k))

    REAL = ("list", "tuple", "column", "row", "strided", "reversed", "fortran")
    for kd, dim in (("ok", 2), ("uk", 2), ("ok", 3), ("uk", 3)):
        bks = ["vectorized", "loop"] + (["C"] if (kd, dim) == ("ok", 2) else [])
        for f in REAL:
            add("data", kind=kd, dim=dim, n=2, f=f, fz=f)
            add("data", kind=kd, dim=dim, n=2, f=f, fz=f, aniso=True)
        for i, f in enumerate(WHOLE):
            for w in range(4) if thorough or dim == 2 else (i % 4, (i + 1) % 4):
                add("data", kind=kd, dim=dim, n=3, f=f, fz=f, whole=w, wv=(w + i) % 4)
            add("data", kind=kd, dim=dim, n=2, f=f, whole=i % 4, aniso=True)
            add("data", kind=kd, dim=dim, n=2, f="array", fz=f, wv=i % 4)
            if kd == "uk":
                for d in (["lin"], ["func"], ["spec"]) + ((["well"], ["extZ"]) if dim == 2 else ()):
                    if d != ["lin"]:
                        add("data", kind=kd, dim=dim, n=3, f=f, whole=i % 3, drifts=d)
        for b in bks:
            m = "linear" if b == "C" else "custom"
            add("data", kind=kd, dim=dim, n=2, f="int64", fz="int64", whole=1, wv=1, backend=b, model=m)
            for f in REAL:
                add("request", kind=kd, dim=dim, n=2, f=f, backend=b, model=m)
            for f in WHOLE:
                add("request", kind=kd, dim=dim, n=2, f=f, whole=True, backend=b, model=m)
                add("request", kind=kd, dim=dim, n=2, f=f, whole=True, backend=b, model=m, aniso=True)
            for st in ("grid", "masked"):
                for f in ("list", "column", "int64"):
                    add("request", kind=kd, dim=dim, n=2, f=f, whole=f == "int64", backend=b, model=m, style=st)
                    if dim == 2 or f == "int64":
                        add("request", kind=kd, dim=dim, n=2, f=f, whole=f == "int64", backend=b, model=m, style=st, aniso=True)
            for f in ("scalar", "zerod", "list", "column"):
                for st in ("points", "grid", "masked"):
                    add("request", kind=kd, dim=dim, n=2, f=f, m=1, backend=b, model=m, style=st)
            for f in ("int-scalar", "int64", "pyint"):
                add("request", kind=kd, dim=dim, n=2, f=f, m=1, whole=True, backend=b, model=m, aniso=True)
            for ax in ((1, 2), (2, 1), (1, 1)) if dim == 2 else ((1, 1, 2), (2, 1, 1), (1, 2, 1), (1, 1, 1)):
                for mk in (False, True):
                    add("strip", kind=kd, dim=dim, n=2, backend=b, axes=ax, model=m, masked=mk)
            if kd == "uk" and b != "C":
                for d in (["spec"], ["func"]) + ((["well"], ["extZ"]) if dim == 2 else ()):
                    for f in ("list", "int64", "column"):
                        if d == ["spec"] or f != "column":
                            add("request", kind=kd, dim=dim, n=3, f=f, whole=f == "int64", backend=b, model=m, drifts=d, aniso=dim == 2)
    for kd, dim in CLS:
        for b in ["vectorized", "loop"] + (["C"] if (kd, dim) == ("ok", 2) else []):
            for m in PAR:
                if m == "hole-effect" and b == "C":
                    continue
                for f in ("pyint", "dict", "npint", "npint32", "mixed", "mixed2"):
                    add("settings", kind=kd, dim=dim, model=m, f=f, backend=b)
                add("settings", kind=kd, dim=dim, model=m, f="pyint", backend=b, wv=1)
                if m in ("linear", "power", "exponential"):
                    add("settings", kind=kd, dim=dim, model=m, f="pyint", backend=b, via="update")
                    add("settings", kind=kd, dim=dim, model=m, f="dict", backend=b, via="update", aniso=True)
                    add("settings", kind=kd, dim=dim, model=m, f="npint", backend=b, aniso=True)
                    if kd == "ok" and b != "vectorized":
                        add("settings", kind=kd, dim=dim, model=m, f="pyint", backend=b, window=2)
    for f in ("list", "tuple", "column", "int64", "pyint", "intcolumn"):
        add("data", kind="ok", dim=2, n=2, f=f, fz=f, geographic=True, whole=1 if f in WHOLE else None, wv=2 if f in WHOLE else None)
        add("request", kind="ok", dim=2, n=2, f=f, geographic=True, whole=f in WHOLE)
    for w in ("well", "spec"):
        for f in ("list", "tuple", "int64", "pyint", "strided"):
            for an in (False, True):
                add("drift", what=w, f=f, aniso=an)
    for f in ("list", "int64", "column"):
        add("drift", what="ext", f=f)
        add("drift", what="ext", f=f, aniso=True)
    return out
