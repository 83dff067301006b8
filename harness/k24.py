"""K24: invalid requests are rejected, valid ones are not.

Names are only ever compared for equality with literals of the package, so
every string falls into one of finitely many classes: equal to one of those
literals, or to none of them.  All classes are tried (plus close variants of
the documented names), with symbolic data."""
import ast
import glob
import os

from .common import *

ID = "K24"
MODELS = {"linear": [1, Fraction(1, 2)], "power": [2, Fraction(3, 2), Fraction(1, 2)], "gaussian": [2, 10, Fraction(1, 2)],
          "spherical": [2, 10, Fraction(1, 2)], "exponential": [2, 10, Fraction(1, 2)], "hole-effect": [2, 10, Fraction(1, 2)]}
DOC = {
    "variogram_model": list(MODELS) + ["custom"],
    "style": ["grid", "points", "masked"],
    "backend": ["vectorized", "loop", "C"],
    "coordinates_type": ["euclidean", "geographic"],
    "pseudo_inv_type": ["pinv", "pinvh"],
}
SEVERAL = {"ok": ("vectorized", "loop", "C"), "uk": ("vectorized", "loop")}


def names(valid):
    """One string of every class the package can tell apart, without the
    valid ones."""
    lits = set()
    root = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src", "pykrige")
    for f in glob.glob(os.path.join(root, "*.py")):
        for n in ast.walk(ast.parse(open(f, encoding="utf-8").read())):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and 0 < len(n.value) <= 16 and " " not in n.value and "\n" not in n.value:
                lits.add(n.value)
    for vs in DOC.values():
        for v in vs:
            lits |= {v, v.upper(), v.lower(), v.capitalize(), v + " ", " " + v, v[:-1], v + "s", v[:1]}
    lits |= {"", "zq_unknown", "None", "default", "pinv2"}
    return sorted(lits - set(valid))


ODD = [None, 0, 1, 2.5, True, False]


def base(env, kind, dim, n=3):
    pts = points(env, n, dim)
    apart(env, Iso(env, dim), pts)
    zv = env.reals("v", n, -100, 100, PV)
    if env.sym:
        env.no_statistics(CLS[kind, dim][0])
    env.nonsing = True
    return pts, zv, kclass(env, kind, dim)


def args(env, pts, zv):
    return columns(env, pts) + [env.arr(list(zv))]


def lin(env):
    return dict(variogram_model="linear", variogram_parameters=[env.num(1), env.num(Fraction(1, 2))], nlags=1)


def params(env, m):
    return [env.num(Fraction(x)) for x in MODELS[m]]


def bad_option(env, kind, dim, opt):
    """Unknown names and odd values of a constructor option."""
    pts, zv, cls = base(env, kind, dim)
    a = args(env, pts, zv)
    kw = lin(env)
    for v in names(DOC[opt]) + (ODD if opt != "variogram_model" else ODD[1:3]):
        env.raises("%s=%r" % (opt, v), lambda: cls(*a, **dict(kw, **{opt: v})))
    if opt == "variogram_model":
        env.raises("model custom without a function", lambda: cls(*a, **dict(kw, variogram_model="custom")))
        for f in (3, "linear", [1]):
            env.raises("custom function %r" % (f,), lambda: cls(*a, **dict(kw, variogram_model="custom", variogram_function=f)))


def bad_update(env, kind, dim):
    pts, zv, cls = base(env, kind, dim)
    k = cls(*args(env, pts, zv), **lin(env))
    p = [env.num(1), env.num(0)]
    for v in names(DOC["variogram_model"]) + [1, 2.5]:
        env.raises("update to model %r" % (v,), lambda: k.update_variogram_model(v, variogram_parameters=p))
    env.raises("update to custom without a function", lambda: k.update_variogram_model("custom", variogram_parameters=p))
    for f in (3, "linear", [1]):
        env.raises("custom function %r" % (f,), lambda: k.update_variogram_model("custom", variogram_parameters=p, variogram_function=f))


def bad_exact(env, kind, dim):
    pts, zv, cls = base(env, kind, dim)
    a = args(env, pts, zv)
    kw = lin(env)
    for v in (0, 1, None, "True", "False", "", 1.0, [], [True], (), env.num(1)):
        env.raises("exact_values=%r" % (v,), lambda: cls(*a, **dict(kw, exact_values=v)))


def bad_lengths(env, kind, dim):
    """Data columns of different lengths."""
    pts, zv, cls = base(env, kind, dim, n=4)
    kw = lin(env)
    for c in range(dim + 1):
        for m in (2, 3):
            a = args(env, pts, zv)
            a[c] = env.arr([a[c][i] for i in range(m)])
            env.raises("column %d has %d of 4 entries" % (c, m), lambda: cls(*a, **kw))


def req(env, dim, m=2, tag="r"):
    prof = [[2, 5, -4], [7, 1, 3], [0, -8, 6], [9, 4, 12], [3, -2, 8]]
    return [env.arr(env.reals("%s%s" % (tag, "xyz"[c]), m, -50, 50, [[v + c for v in p] for p in prof])) for c in range(dim)]


def bad_request(env, kind, dim, geographic=False):
    """Unknown styles and backends, missing or wrong masks, mismatched point
    lists."""
    if geographic:
        geo = Sphere(env)
        pts = lonlat(env, "d", 3)
        gapart(env, geo, pts)
        zv = env.reals("v", 3, -100, 100, PV)
        cls = kclass(env, kind, dim)
        k = cls(*args(env, pts, zv), coordinates_type="geographic", **lin(env))
    else:
        pts, zv, cls = base(env, kind, dim)
        k = cls(*args(env, pts, zv), **lin(env))
    q = req(env, dim)
    good = SEVERAL[kind] if dim == 2 else SEVERAL["uk"]
    for be in good:
        for v in names(DOC["style"]) + ODD:
            env.raises("style %r, backend %s" % (v, be), lambda: k.execute(v, *q, backend=be))
        env.raises("masked without a mask, backend %s" % be, lambda: k.execute("masked", *q, backend=be))
        env.raises("mask None, backend %s" % be, lambda: k.execute("masked", *q, backend=be, mask=None))
        for bad in mask_shapes(dim):
            m = env.np.zeros(bad, dtype=bool)
            env.raises("mask of shape %s, backend %s" % (bad, be), lambda: k.execute("masked", *q, backend=be, mask=m))
    for v in names(good) + ODD:
        for st in ("points", "grid"):
            env.raises("backend %r, %s" % (v, st), lambda: k.execute(st, *q, backend=v))
        m = env.np.zeros((2,) * dim, dtype=bool)
        env.raises("backend %r, masked" % (v,), lambda: k.execute("masked", *q, mask=m, backend=v))
    long = req(env, dim, 3, "l")
    for c in range(dim):
        for part in (1, 2):
            p = list(long)
            p[c] = env.arr([long[c][i] for i in range(part)])
            for be in good:
                env.raises("%d values for column %d of 3 points, backend %s" % (part, c, be), lambda: k.execute("points", *p, backend=be))


def mask_shapes(dim):
    """Shapes that do not fit a 2x2 (2x2x2) grid."""
    if dim == 2:
        return [(2,), (4,), (1, 2), (2, 1), (2, 3), (3, 2), (3, 3), (1, 4), (1, 2, 2), (2, 2, 1), (2, 2, 2)]
    return [(2,), (2, 2), (8,), (1, 2, 2), (2, 1, 2), (2, 2, 1), (2, 2, 3), (3, 2, 2), (2, 3, 2), (2, 2, 2, 1), (4, 2)]


def bad_mask_rect(env, kind, dim):
    """Wrong masks of a grid with different extents."""
    pts, zv, cls = base(env, kind, dim)
    k = cls(*args(env, pts, zv), **lin(env))
    q = [req(env, dim, m, "n%d" % m)[c] for c, m in enumerate((3, 2, 4)[:dim])]
    if dim == 2:
        bad = [(3, 3), (2, 2), (1, 6), (6, 1), (6,), (2, 4), (4, 3), (2, 3, 1)]
    else:
        bad = [(4, 2, 2), (4, 4, 3), (3, 3, 4), (2, 2, 2), (24,), (4, 6), (2, 4, 3), (2, 3, 4), (4, 3, 2), (3, 4, 2), (4, 2, 3, 1)]
    for b in bad:
        m = env.np.zeros(b, dtype=bool)
        for be in SEVERAL[kind] if dim == 2 else SEVERAL["uk"]:
            env.raises("mask of shape %s, backend %s" % (b, be), lambda: k.execute("masked", *q, backend=be, mask=m))


def bad_window(env, dim, n=3):
    """Windows that are too small or too large, or not available for the
    backend."""
    pts, zv, cls = base(env, "ok", dim, n)
    k = cls(*args(env, pts, zv), **lin(env))
    q = req(env, dim)
    here = [tuple(env.num(v) for v in p[:dim]) for p in ((0, 0, 2), (4, 1, 0), (1, 5, 3))]
    k3 = cls(*args(env, here, zv), **lin(env))
    q3 = [env.arr([env.num(v + c) for v in (11, 13)]) for c in range(dim)]
    good = ("loop", "C") if dim == 2 else ("loop",)
    for st in ("points", "grid"):
        for be in good:
            for w in (n + 1, n + 2, 50) + ((1, 0, -1) if dim == 2 else ()):
                env.raises("window %d, backend %s, %s" % (w, be, st), lambda: k.execute(st, *q, backend=be, n_closest_points=w))
        for be in names(good) + [None, 0, 1, True]:
            env.raises("window with backend %r, %s" % (be, st), lambda: k3.execute(st, *q3, backend=be, n_closest_points=2))


def bad_c(env):
    """Backend C has neither custom variograms nor the hole-effect model; it
    says so."""
    pts, zv, cls = base(env, "ok", 2)
    q = req(env, 2)
    g = env.vario("g", 1)
    k = cls(*args(env, pts, zv), variogram_model="custom", variogram_parameters=[env.num(1)], variogram_function=g, nlags=1)
    for st in ("points", "grid"):
        env.raises("custom function, %s" % st, lambda: k.execute(st, *q, backend="C"))
        env.raises("custom function with a window, %s" % st, lambda: k.execute(st, *q, backend="C", n_closest_points=2))
    k = cls(*args(env, pts, zv), variogram_model="hole-effect", variogram_parameters=params(env, "hole-effect"), nlags=1)
    env.raises("hole-effect", lambda: k.execute("points", *q, backend="C"))


def bad_drift(env, dim, which):
    """Drift terms whose inputs are missing or do not fit."""
    pts, zv, cls = base(env, "uk", dim, 3)
    a = args(env, pts, zv)
    kw = lin(env)

    def no(name, **k):
        env.raises(name, lambda: cls(*a, **dict(kw, **k)))

    def mat(r, c, tag="e"):
        return env.arr([env.reals("%s%d%d_%d" % (tag, r, c, i), c, -20, 20, [[i + 1, 3, i - 4, 2, 6][:c]]) for i in range(r)])

    if which == "external":
        H = 60
        x2, y3 = env.arr([-H, H]), env.arr([-H, 0, H])
        dt = dict(drift_terms=["external_Z"])
        no("no drift grid", **dt)
        no("no drift grid, only coordinates", external_drift_x=x2, external_drift_y=y3, **dt)
        no("no coordinates", external_drift=mat(3, 2), **dt)
        no("no y coordinates", external_drift=mat(3, 2), external_drift_x=x2, **dt)
        no("no x coordinates", external_drift=mat(3, 2), external_drift_y=y3, **dt)
        for r, c in ((2, 2), (3, 3), (4, 2), (3, 1), (2, 4), (1, 6), (6, 1)):
            no("grid of shape %s" % ((r, c),), external_drift=mat(r, c), external_drift_x=x2, external_drift_y=y3, **dt)
        no("flat grid", external_drift=env.arr([1, 2, 3, 4, 5, 6]), external_drift_x=x2, external_drift_y=y3, **dt)
    elif which == "point":
        no("no wells", drift_terms=["point_log"])
        no("no wells, other drift", drift_terms=["regional_linear", "point_log"])
        for row in ([1], [1, 2]):
            no("wells of %d columns" % len(row), drift_terms=["point_log"], point_drift=env.arr([row]))
    elif which == "specified":
        s = env.reals("s", 4, -20, 20, [[1, 2, 3, 7], [4, 1, 0, 5]])
        arr3, arr2, arr4 = env.arr(s[:3]), env.arr(s[:2]), env.arr(s)
        dt = dict(drift_terms=["specified"])
        no("nothing", **dt)
        no("empty list", specified_drift=[], **dt)
        for v in (arr3, (arr3,), {"a": arr3}, 3, "abc"):
            no("not a list: %s" % type(v).__name__, specified_drift=v, **dt)
        for v in ([arr2], [arr4], [arr3, arr2], [arr4, arr3], [env.num(1)], [env.arr([s[0]])]):
            no("wrong number of values %s" % [getattr(x, "size", 1) for x in v], specified_drift=v, **dt)
        for m in (1, 2):
            sd = [arr3, env.arr(s[1:])][:m]
            k = cls(*a, **dict(kw, specified_drift=sd, **dt))
            q = req(env, dim)
            ok = env.arr(s[:2])
            sq = {(r, c): mat(r, c, "g") for r, c in ((1, 2), (2, 1), (3, 2), (2, 3), (1, 4), (4, 1))}
            for be in ("vectorized", "loop"):
                def nox(name, st="points", q=q, **k2):
                    env.raises("%s, %s, %s, %d terms" % (name, st, be, m), lambda: k.execute(st, *q, backend=be, **k2))

                for st in ("points", "grid"):
                    nox("no arrays", st)
                    nox("empty list", st, specified_drift_arrays=[])
                    nox("None", st, specified_drift_arrays=None)
                good = ok if dim else None
                nox("tuple", specified_drift_arrays=(good,) * m)
                nox("array", specified_drift_arrays=good)
                nox("dictionary", specified_drift_arrays={"a": good})
                nox("too many terms", specified_drift_arrays=[good] * (m + 1))
                if m == 2:
                    nox("too few terms", specified_drift_arrays=[good])
                for v in (env.arr(s[:1]), env.arr(s[:3]), env.arr(s), sq[1, 2], sq[2, 1], sq[2, 3]):
                    nox("array of shape %s" % (tuple(v.shape),), specified_drift_arrays=[good] * (m - 1) + [v])
                    nox("first array of shape %s" % (tuple(v.shape),), specified_drift_arrays=[v] + [good] * (m - 1))
                full = env.arr(s[:4]).reshape((2, 2)) if dim == 2 else env.np.concatenate((env.arr(s), env.arr(s))).reshape((2, 2, 2))
                for v in (env.arr(s[:2]), env.arr(s), sq[1, 2], sq[2, 1], sq[3, 2], sq[1, 4]):
                    nox("grid array of shape %s" % (tuple(v.shape),), "grid", specified_drift_arrays=[full] * (m - 1) + [v])
                nox("too many grid terms", "grid", specified_drift_arrays=[full] * (m + 1))
                if m == 2:
                    nox("too few grid terms", "grid", specified_drift_arrays=[full])
                nox("grid tuple", "grid", specified_drift_arrays=(full,) * m)
                # a flat list is a row of grid nodes at best
                row = [env.arr([q[c][0]]) if c else q[0] for c in range(dim)]
                nox("flat array for a row of nodes", "grid", q=row, specified_drift_arrays=[env.arr(s[:2])] * m)
    elif which == "functional":
        f = env.scalar_fn("h", dim)
        dt = dict(drift_terms=["functional"])
        no("nothing", **dt)
        no("empty list", functional_drift=[], **dt)
        for v in (f, (f,), {"a": f}, 3, "abc"):
            no("not a list: %s" % type(v).__name__, functional_drift=v, **dt)


def beyond(env, sgn, axis):
    """Data or requests outside of the external drift grid."""
    _, zv, cls = base(env, "uk", 2, 3)
    pts = [tuple(env.num(v) for v in p) for p in ((0, 0), (4, 1), (1, 5))]
    z = env.reals("e", 4, -20, 20, [[1, 3, 2, 6], [0, -4, 5, 1]])
    kw = dict(lin(env), drift_terms=["external_Z"], external_drift=env.arr([z[:2], z[2:]]), external_drift_x=env.arr([-60, 60]), external_drift_y=env.arr([-60, 60]))
    far = env.real("far", "121/2", 1000, [61, 70, 500, 64, 62]) * sgn
    b = args(env, pts, zv)
    for i in range(3):
        c = list(b)
        c[axis] = env.arr([far if j == i else b[axis][j] for j in range(3)])
        env.raises("datum %d beyond the drift grid" % i, lambda: cls(*c, **kw))
    k = cls(*b, **kw)
    q = [env.arr([env.num(v + c) for v in (11, 13)]) for c in range(2)]
    for v in (11, 13):
        apart_from(env, Iso(env), (v + 0, far) if axis else (far, v + 1), pts)
    for i in range(2):
        c = list(q)
        c[axis] = env.arr([far if j == i else q[axis][j] for j in range(2)])
        for st in ("points", "grid"):
            for be in ("vectorized", "loop"):
                env.raises("request %d beyond the drift grid, %s, %s" % (i, st, be), lambda: k.execute(st, *c, backend=be))


def accepted(env, kind, dim, model, opts, pinv=None, exact=True, geographic=False, drifts=(), stats=False, n=3):
    """A documented combination gives finite results of the right shape for
    every style and backend."""
    geo = Iso(env, dim)
    if geographic:
        geo = Sphere(env)
        pts = [tuple(env.num(v) for v in p) for p in ((0, 0), (90, 0))]
        q = [env.arr([env.num(30)]), env.arr([env.num(60)])]
        zv = env.reals("v", 2, -100, 100, PV)
        env.nonsing = True
        qs = None
        kw = geo.kw
        ekw = {}
    else:
        pts = [tuple(env.num(v) for v in p[:dim]) for p in ((0, 0, 2), (4, 1, 0), (1, 5, 3), (-3, 2, 7), (6, -4, -5), (9, 8, 1), (-7, -2, -6))[:n]]
        zv = env.reals("v", n, -100, 100, PV)
        env.nonsing = True
        q = [env.arr([env.num(v + c) for v in (11, 13)]) for c in range(dim)]
        qs = [(tuple(q[c][i] for c in range(dim)), None) for i in range(2)]
        kw, ekw, _, _ = drift_2d(env, drifts, geo, pts, qs, tuple([env.num(0)] * dim)) if kind == "uk" else ({}, {}, [], [])
    kw = dict(kw, nlags=1)
    if model == "custom":
        kw.update(variogram_model="custom", variogram_parameters=[env.num(1)], variogram_function=env.vario("g", 1))
    else:
        p = params(env, model)
        kw.update(variogram_model=model, variogram_parameters=dict(zip(NAMES[model], p)) if "dict" in opts else p)
    if pinv:
        kw.update(pseudo_inv=True, pseudo_inv_type=pinv)
    if not exact:
        kw.update(exact_values=False)
    if stats and (kind, dim) == ("ok", 2):
        kw.update(enable_statistics=True)
    if env.sym and not stats:
        env.no_statistics(CLS[kind, dim][0])
    k = kclass(env, kind, dim)(*columns(env, pts), env.arr(list(zv)), **kw)
    want = "custom" if model == "custom" else model
    env.check("the model is the one asked for", k.variogram_model == want)
    for be in SEVERAL[kind] if dim == 2 else SEVERAL["uk"]:
        if be == "C" and (model in ("custom", "hole-effect") or pinv):
            continue
        for st in ("points", "grid", "masked"):
            for w in (None, 2) if kind == "ok" and be != "vectorized" and not geographic else (None,):
                e = {} if w is None else dict(n_closest_points=w)
                L = 1 if geographic else 2
                shape = (L,) if st == "points" else (L,) * dim
                if st == "masked":
                    m = env.np.zeros(shape, dtype=bool)
                    m[(0,) * dim] = not geographic
                    e["mask"] = m
                if "specified_drift_arrays" in ekw:
                    e["specified_drift_arrays"] = list(ekw["specified_drift_arrays"])
                    if st != "points":
                        s = [v for a in ekw["specified_drift_arrays"] for v in a]
                        e["specified_drift_arrays"] = [env.arr([s[i % 2] for i in range(2 ** dim)]).reshape(shape) for _ in ekw["specified_drift_arrays"]]
                z, ss = k.execute(st, *q, backend=be, **e)
                env.check("shape, %s %s" % (st, be), z.shape == shape and ss.shape == shape)
                if st == "masked":
                    env.mask_is("%s" % be, z, m)
                    env.mask_is("%s" % be, ss, m)
                    keep = [i for i in env.np.ndindex(*shape) if any(i) or geographic]
                    z, ss = [[a.data[i] for i in keep] for a in (z, ss)]
                    z, ss = env.arr(z), env.arr(ss)
                env.defined("value %s %s" % (st, be), z)
                env.defined("variance %s %s" % (st, be), ss)


NAMES = {"linear": ["slope", "nugget"], "power": ["scale", "exponent", "nugget"], "gaussian": ["sill", "range", "nugget"],
         "spherical": ["sill", "range", "nugget"], "exponential": ["sill", "range", "nugget"], "hole-effect": ["sill", "range", "nugget"]}

BOUNDS = ("all four kriging classes, 3-4 data points with symbolic coordinates and values; every name that the package's literals can tell apart (each string "
          "constant of its sources, variants of the documented names, an unknown name) plus None, numbers and booleans, for models, styles, backends, coordinate "
          "types and pseudo-inverse types, at construction, update and execution; masks of up to 11 wrong shapes, point lists of 1-3 against 3, columns of 2-3 "
          "against 4; windows below 2 and above the number of points; every drift input missing, of the wrong type, size or number, data and requests beyond the "
          "drift grid; accepted: six models and custom, both pseudo-inverses, exact or not, geographic, every drift term and some pairs, in three styles and all backends")
OUTSIDE = "unknown names in drift_terms (not covered by the statement); strings that the package would have to parse rather than compare"


def needs_c(fn, cfg):
    return fn in ("bad_request", "bad_window", "bad_c", "bad_mask_rect", "accepted") and cfg.get("dim", 2) == 2 and cfg.get("kind", "ok") == "ok"


def tasks(thorough):
    out = []

    def add(fn, **k):
        out.append((fn, k))

    for kind, dim in CLS:
        c = dict(kind=kind, dim=dim)
        for o in ("variogram_model", "pseudo_inv_type") + (("coordinates_type",) if (kind, dim) == ("ok", 2) else ()):
            add("bad_option", opt=o, **c)
        for f in ("bad_update", "bad_exact", "bad_lengths", "bad_request", "bad_mask_rect"):
            add(f, **c)
        if kind == "ok":
            add("bad_window", dim=dim)
        else:
            for w in ("specified", "functional") + (("external", "point") if dim == 2 else ()):
                add("bad_drift", dim=dim, which=w)
        for m in DOC["variogram_model"]:
            add("accepted", model=m, opts="", **c)
            if m != "custom":
                add("accepted", model=m, opts="dict", **c)
        for p in ("pinv", "pinvh"):
            add("accepted", model="linear", opts="", pinv=p, **c)
        add("accepted", model="linear", opts="", exact=False, **c)
        add("accepted", model="spherical", opts="", exact=False, **c)
        add("accepted", model="linear", opts="", stats=True, **c)
        if kind == "uk":
            one = ["lin", "spec", "spec2", "func", "func2"] + (["well", "well2", "extZx"] if dim == 2 else [])
            for d in one:
                add("accepted", model="linear", opts="", drifts=[d], n=6, **c)
            two = [["lin", "spec"], ["spec", "func"], ["lin", "func"]] + ([["lin", "well"], ["extZx", "spec"], ["well", "extZx"], ["well", "func"]] if dim == 2 else [])
            for d in two:
                add("accepted", model="linear", opts="", drifts=d, n=7, **c)
    add("bad_request", kind="ok", dim=2, geographic=True)
    add("bad_c")
    for sgn in (1, -1):
        for axis in (0, 1):
            add("beyond", sgn=sgn, axis=axis)
    for m in DOC["variogram_model"]:
        add("accepted", model=m, opts="", geographic=True, kind="ok", dim=2)
    return out
