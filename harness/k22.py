"""K22: regression kriging adds the kriged residual to the regression."""
import numpy as np

from .common import *
from .k21 import METHODS, same_object, wrapper_kw

ID = "K22"


def regression(env, n, d, base):
    """An arbitrary regression model: its prediction is an arbitrary function
    of a row of covariates and of the targets it was fitted to."""
    C = env.load("pykrige.compat")
    f = env.scalar_fn("reg", d + n)

    class Model(C.RegressorMixin, C.BaseEstimator):
        def __init__(self):
            pass

        def fit(self, p, y):
            self.seen = (p, y)
            self.fits = getattr(self, "fits", 0) + 1
            self.y = [y[i] for i in range(n)]
            return self

        def predict(self, p):
            return env.arr([f(*[p[i, j] for j in range(d)], *self.y) for i in range(p.shape[0])])

    return Model(), lambda p, y: [f(*[p[i, j] for j in range(d)], *y) for i in range(p.shape[0])]


def rk(env, method, n, d=1, where="free2", aniso=False, drifts=(), window=None, extra=None, model="custom", backend=None, far=2, geographic=False, whole=None):
    kind, dim = METHODS[method]
    if geographic:
        geo = Sphere(env)
        pts = lonlat(env, "d", n)
        gapart(env, geo, pts)
        mod = mkmodel(env, model)
        qs = [((env.real("qlon", -180, 180, [20, -45, 100, 60, -7]), env.real("qlat", -90, 90, [10, 30, -60, 5, 1])), None)]
        gapart(env, geo, [qs[0][0]], pts)
        dr = ({}, {}, [], [])
    else:
        geo, pts, mod, qs, dr = setup(env, kind, dim, n, aniso, where, model, drifts)
        if kind == "uk":
            wellposed(env, geo, mod, pts, dr[2])
        elif not env.sym:
            wellposed(env, geo, mod, pts, [])
    if window and window < n:
        for q, _ in qs:
            for i in range(n):
                if i != far:
                    env.assume(geo.dist2(q, pts[i]) + env.num(Fraction(1, 8)) <= geo.dist2(q, pts[far]))
    env.nonsing = True
    y = env.reals("v", n, -100, 100, PV)
    P = env.arr([env.reals("p%d_" % i, d, -20, 20, [[1 + i, 2], [3 * i, -1], [i * i, 5], [2 - i, i], [4, 7]]) for i in range(n)])
    P2 = env.arr([env.reals("t%d_" % i, d, -20, 20, [[2 + i, 0], [5 * i, -3], [i, 6], [7 - i, i], [1, 2]]) for i in range(len(qs))])
    X, Q, Y = env.arr([list(p) for p in pts]), env.arr([list(q) for q, _ in qs]), env.arr(list(y))
    if whole:  # whole-number targets in an integer array
        Y = np.array([5, -3, 12, 7][:n], dtype=whole)
        y = [env.num(int(v)) for v in Y]
    given = [(a, a.copy()) for a in (P, P2, X, Q, Y)]
    m, ref = regression(env, n, d, None)
    extra = dict(dict(nlags=1), **(extra or {}))
    direct, w = wrapper_kw(kind, dim, geo, mod, dr, extra)
    if env.sym:
        env.no_statistics(CLS[kind, dim][0])
    R = env.load("pykrige.rk").RegressionKriging
    r = R(regression_model=m, method=method, n_closest_points=window, **w)
    r.fit(P, X, Y)
    env.check("regression fitted once", m.fits == 1)
    env.eq("regression fitted on the covariates", m.seen[0], P)
    env.eq("regression fitted on the targets", m.seen[1], Y)
    bk = {} if backend is None else dict(backend=backend)
    got = r.predict(P2, Q, **bk)
    res = r.krige_residual(Q, **bk)
    fitted = ref(P, y)
    d_ = kclass(env, kind, dim)(*columns(env, pts), env.arr([a - b for a, b in zip(y, fitted)]), **direct)
    ekw = dict(n_closest_points=window) if kind == "ok" else {}
    want, _ = execute(env, d_, "points", qs, backend=backend or "loop", **ekw)
    env.eq("kriged residual", res, want)
    f2 = ref(P2, y)
    env.eq("prediction", got, env.arr([a + b for a, b in zip(want, f2)]))
    for i, (a, b) in enumerate(given):
        env.eq("argument %d unmodified" % i, a, b)
    if not window and not geographic and (extra or {}).get("exact_values", True):
        back = r.predict(P, X, **bk)
        env.eq("training targets reproduced", back, Y)
        if not env.sym and n > 2:
            env.check("score of the training data", bool(abs(r.score(P, X, Y, **bk) - 1) < 1e-6))
    if len(qs) == 2:
        t = env.arr([env.real("a", 10, 20, [11, 12, 13, 14, 15]), env.real("b", -20, -10, [-11, -12, -13, -14, -15])])
        s = r.score(P2, Q, t, **bk)
        mean = (t[0] + t[1]) / 2
        tot = (t[0] - mean) * (t[0] - mean) + (t[1] - mean) * (t[1] - mean)
        env.check("score", env.same(s * tot, tot - (t[0] - got[0]) * (t[0] - got[0]) - (t[1] - got[1]) * (t[1] - got[1])))
    # fitting again forgets the first fit
    y2 = env.reals("u", n, -100, 100, PV[1:] + PV[:1])
    r.fit(P, X, env.arr(list(y2)))
    d2 = kclass(env, kind, dim)(*columns(env, pts), env.arr([a - b for a, b in zip(y2, ref(P, y2))]), **direct)
    want, _ = execute(env, d2, "points", qs, backend=backend or "loop", **ekw)
    env.eq("prediction after a second fit", r.predict(P2, Q, **bk), env.arr([a + b for a, b in zip(want, ref(P2, y2))]))


def fitted(env, method, nlags, weight):
    """Lags and weights reach the class when it fits the variogram itself."""
    kind, dim = METHODS[method]
    n = 3
    pts = [tuple(env.num(c) for c in p[:dim]) for p in ((0, 0, 0), (1, 0, 0), (3, 0, 0))]
    y = env.reals("v", n, -100, 100, PV)
    P = env.arr([[i + 1] for i in range(n)])
    m, ref = regression(env, n, 1, None)
    f = ref(P, y)
    zv = [a - b for a, b in zip(y, f)]
    env.assume(env.OR(*[env.OR(zv[i] + env.num(Fraction(1, 8)) <= zv[0], zv[0] + env.num(Fraction(1, 8)) <= zv[i]) for i in (1, 2)]))
    if env.sym:
        env.no_statistics(CLS[kind, dim][0])
    r = env.load("pykrige.rk").RegressionKriging(regression_model=m, method=method, nlags=nlags, weight=weight, n_closest_points=None)
    r.fit(P, env.arr([list(p) for p in pts]), env.arr(list(y)))
    d = kclass(env, kind, dim)(*columns(env, pts), env.arr(zv), nlags=nlags, weight=weight)
    q = tuple(env.num(c) for c in (2, 1, 1)[:dim])
    want, _ = execute(env, d, "points", [(q, None)], backend="loop")
    env.eq("kriged residual", r.krige_residual(env.arr([list(q)])), want)


def forwarded(env, method):
    """Every setting reaches the kriging of the residual."""
    kind, dim = METHODS[method]
    n = 4
    pts = [tuple(env.num(c) for c in p[:dim]) for p in ((0, 0, 0), (1, 0, 1), (3, 0, 0), (0, 2, 1))]
    y = env.reals("v", n, -100, 100, PV)
    P, X = env.arr([[env.num(i)] for i in range(n)]), env.arr([list(p) for p in pts])
    m, ref = regression(env, n, 1, None)
    if env.sym:
        env.no_statistics(CLS[kind, dim][0])
    s = [env.real("s%d" % i, Fraction(1, 4), 4, [2, 3, Fraction(1, 2), 1, 3]) for i in range(2)]
    prm = [env.real("slope", Fraction(1, 4), 4, [2, 1, 3, 1, 1]), env.real("nug", 0, 4, [1, 2, 1, 0, 3])]
    fd = env.scalar_fn("fd", dim)
    if env.sym:
        drift = lambda *c: env.arr([fd(*[v[i] for v in c]) for i in range(len(c[0]))])
    else:
        import numpy as np

        drift = lambda *c: np.array([fd(*[float(v[i]) for v in c]) for i in range(len(c[0]))])
    kw = dict(variogram_model="linear", variogram_parameters=prm, nlags=2, weight=True, exact_values=False, pseudo_inv=True, pseudo_inv_type="pinvh",
              anisotropy_scaling=(s[0], s[1]), anisotropy_angle=(30.0, 60.0, 20.0))
    if kind == "uk":
        kw.update(drift_terms=["functional"], functional_drift=[drift])
    C = env.load("pykrige.compat")
    r = env.load("pykrige.rk").RegressionKriging(regression_model=m, method=method, n_closest_points=3, **kw)
    r.fit(P, X, env.arr(list(y)))
    d = C.Krige(method=method, n_closest_points=3, **kw)
    d.fit(X, env.arr([a - b for a, b in zip(y, ref(P, y))]))
    env.check("closest points kept", r.krige.n_closest_points == 3)
    same_object(env, r.krige.model, d.model)


def rejected(env):
    C, R = env.load("pykrige.compat"), env.load("pykrige.rk").RegressionKriging

    class Estimator(C.BaseEstimator):
        pass

    class Classifier(C.ClassifierMixin, C.BaseEstimator):
        pass

    class Plain:
        def fit(self, p, y):
            return self

        def predict(self, p):
            return p[:, 0]

    for M in (Estimator, Classifier, Plain):
        env.raises("a %s as regression model" % M.__name__, lambda: R(regression_model=M()))
    for bad in ("ord", None, "universal2d"):
        env.raises("method %r" % (bad,), lambda: R(method=bad))
    m, _ = regression(env, 2, 1, None)
    X, P, Y = env.arr([[0, 0], [1, 2]]), env.arr([[1], [2]]), env.arr([1, 3])
    for kw in (dict(pseudo_inv=True, pseudo_inv_type="nope"), dict(coordinates_type="nope"), dict(variogram_model="nope"), dict(nlags=-1)):
        kw = dict(dict(variogram_model="linear", variogram_parameters=[1, 0], nlags=1), **kw)
        env.raises("fitting with %s" % sorted(kw.items()), lambda: R(regression_model=m, **kw).fit(P, X, Y))
    r = R(regression_model=m)
    env.raises("prediction before fitting", lambda: r.krige_residual(env.arr([[1, 2]])))
    for method in ("ordinary", "universal"):
        if env.sym:
            env.no_statistics(CLS[METHODS[method]][0])
        r = R(regression_model=m, method=method, variogram_model="linear", variogram_parameters=[1, 0], nlags=1)
        r.fit(P, X, Y)
        for k in (dict(backend="nope"), dict(style="nope")):
            env.raises("predicting with %s" % sorted(k.items()), lambda: r.predict(P, X, **k))
            env.raises("residual with %s" % sorted(k.items()), lambda: r.krige_residual(X, **k))
            env.raises("score with %s" % sorted(k.items()), lambda: r.score(P, X, Y, **k))


BOUNDS = ("four methods, 2-4 training points, 1-2 predicted points, 1-2 covariates; an arbitrary regression (uninterpreted function of the covariates and of "
          "all targets it was fitted to), arbitrary variogram; anisotropy, geographic coordinates, drifts, windows, exact values on and off, automatic "
          "variogram fits, backends (an unknown one is refused); whole-number targets; two fits in a row")
OUTSIDE = "particular scikit-learn regressors; statistics"


def needs_c(fn, cfg):
    return cfg.get("backend") == "C"


def tasks(thorough):
    out = []

    def add(fn, **k):
        out.append((fn, k))

    add("rejected")
    for m, (kd, dim) in METHODS.items():
        for w in ("free2", "mix"):
            for b in (None, "vectorized"):
                add("rk", method=m, n=2, where=w, backend=b)
            add("rk", method=m, n=2, where=w, extra=dict(exact_values=False))
        add("forwarded", method=m)
        add("rk", method=m, n=2, d=2, where="free")
        add("rk", method=m, n=3, where="free2")
        for w in ("int64", "int16"):
            add("rk", method=m, n=3, where="free", whole=w)
        add("rk", method=m, n=2, where="free", aniso=True)
        add("rk", method=m, n=2, where="free", extra=dict(pseudo_inv=True, pseudo_inv_type="pinvh"))
        for wt in (False, True):
            add("fitted", method=m, nlags=2, weight=wt)
        if kd == "ok":
            for wd, nn in ((2, 2), (2, 3)):
                for far in ((0, 1, 2) if dim == 2 else (0, 1)) if nn > wd else (2,):
                    add("rk", method=m, n=nn, where="free", window=wd, model="linear" if dim == 2 else "custom", far=far)
        if m == "ordinary":
            add("rk", method=m, n=2, geographic=True, model="linear")
            add("rk", method=m, n=2, where="mix", model="linear", backend="C")
        else:
            pass
        if kd == "uk":
            for dr in ([], ["lin"], ["func"]) + ((["well"], ["extZx"]) if dim == 2 else ()):
                add("rk", method=m, n=4 if dr == ["lin"] or dim == 3 else 3, where="free", drifts=dr)
    return out
