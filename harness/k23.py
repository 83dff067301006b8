"""K23: classification kriging corrects class probabilities in log-ratio space."""
import numpy as np

from .common import *
from .k21 import METHODS, same_object, wrapper_kw

ID = "K23"
LABELS = {
    2: [["no", "yes"], [0, 1], [-1, 1], [1.0, 3.0]],
    3: [["a", "b", "c"], [0, 1, 2], [2, 3, 7], [0.0, 1.0, 2.0]],
    4: [["q", "r", "s", "t"], [-3, 0, 4, 5]],
}
PP = [[5, 9, 3, 7], [8, 2, 6, 4], [3, 3, 9, 2], [7, 5, 2, 8], [2, 6, 4, 9]]


def composition(env, stem, k, rot=0, zero=None):
    """Probabilities of k classes, summing to one; class `zero` exactly 0."""
    live = [i for i in range(k) if i != zero]
    prof = [[Fraction(r[(j + rot) % 4], sum(r) + 3) for j in range(4)] for r in PP]
    v = {}
    for j, i in enumerate(live[:-1]):
        v[i] = env.real("%s%d" % (stem, i), Fraction(1, 64), 1, [r[j] for r in prof])
    last = env.num(1)
    for i in live[:-1]:
        last = last - v[i]
    if env.sym:
        # one variable, so that products stay monomials
        w = env.real("%sw" % stem, Fraction(1, 64), 1, [1 - sum(r[:len(live) - 1]) for r in prof])
        env.assume(w == last)
        last = w
    env.assume(last >= env.num(Fraction(1, 64)))
    v[live[-1]] = last
    if zero is not None:
        v[zero] = env.num(0)
    return [v[i] for i in range(k)]


def positive(env, stem, k, rot=0, lo=Fraction(1, 64), hi=64):
    return [env.real("%s%d" % (stem, i), lo, hi, [r[(i + rot) % 4] for r in PP]) for i in range(k)]


EPS = float(np.finfo(float).eps)


def logs(env, p):
    """Logarithms of a composition, zeros replaced by the machine epsilon."""
    return [env.log(env.num(EPS)) if is_zero(env, v) else env.log(v) for v in p]


def is_zero(env, v):
    if env.sym:
        return v.is_const() and v.cval() == 0
    return v == 0


def roundtrip(env, k, rows=1):
    """Log-ratio coordinates and back: the closed composition."""
    M = env.load("pykrige.ck")
    ps = [positive(env, "p%d_" % r, k, r) for r in range(rows)]
    A = env.arr([list(p) for p in ps])
    given = A.copy()
    v = M.ilr_transformation(A)
    env.check("shape of the coordinates", v.shape == (rows, k - 1))
    env.eq("argument unmodified", A, given)
    back = M.inverse_ilr_transformation(v)
    for r, p in enumerate(ps):
        tot = p[0]
        for x in p[1:]:
            tot = tot + x
        for i in range(k):
            env.check("round trip", env.same(back[r, i] * tot, p[i]))
    c = env.real("c", Fraction(1, 8), 8, [2, 3, 5, 0.5, 0.25])
    for p in ps:
        for x in p:
            env.assume(x * c >= env.num(Fraction(1, 1024)))  # implied
    # a composition is a direction: its scale carries no information
    w = M.ilr_transformation(env.arr([[x * c for x in p] for p in ps]))
    env.eq("coordinates of a scaled composition", w, v)
    cl = M.closure(A)
    for r in range(rows):
        tot = cl[r, 0]
        for i in range(1, k):
            tot = tot + cl[r, i]
        env.check("closure sums to one", env.same(tot, env.num(1)))
        for i in range(k):
            env.check("closure keeps the ratios", env.same(cl[r, i] * ps[r][0], cl[r, 0] * ps[r][i]))
    kk = env.real("k", Fraction(1, 8), 200, [100, 3, 5, 0.5, 0.25])
    env.eq("closure to another total", M.closure(A, kk), env.arr([[cl[r, i] * kk for i in range(k)] for r in range(rows)]))


def geometry(env, k):
    """Isometry, and products of compositions are sums of coordinates."""
    M = env.load("pykrige.ck")
    p, q = positive(env, "p", k), positive(env, "q", k, 1)
    for a, b in zip(p, q):
        env.assume(a * b >= env.num(Fraction(1, 8192)))  # implied
    v = M.ilr_transformation(env.arr([p, q, [a * b for a, b in zip(p, q)]]))
    env.eq("coordinates of a product", v[2], v[0] + v[1])
    d = [env.log(a) - env.log(b) for a, b in zip(p, q)]
    m = d[0]
    for x in d[1:]:
        m = m + x
    m = m / k
    want = env.num(0)
    for x in d:
        want = want + (x - m) * (x - m)
    got = env.num(0)
    for j in range(k - 1):
        got = got + (v[0, j] - v[1, j]) * (v[0, j] - v[1, j])
    env.check("distance kept", env.same(got, want))


def inverse(env, k, rows):
    """Any coordinates give a composition: positive and summing to one."""
    M = env.load("pykrige.ck")
    vs = [env.reals("v%d_" % r, k - 1, -20, 20, [[1, -2, 3], [0, 5, -1], [2, 2, 4], [-7, 1, 0], [3, -3, 6]]) for r in range(rows)]
    V = env.arr([list(v) for v in vs])
    given = V.copy()
    p = M.inverse_ilr_transformation(V)
    env.check("shape of the composition", p.shape == (rows, k))
    env.eq("argument unmodified", V, given)
    for r in range(rows):
        tot = p[r, 0]
        for i in range(1, k):
            tot = tot + p[r, i]
        env.check("sums to one", env.same(tot, env.num(1)))
        for i in range(k):
            env.check("positive", p[r, i] > 0)
    u = M.inverse_ilr_transformation(env.arr([[env.num(0)] * (k - 1)]))
    for i in range(k):
        env.check("no correction is the uniform composition", env.same(u[0, i] * k, env.num(1)))
    # log-ratios of the result are linear in the coordinates
    w = M.inverse_ilr_transformation(env.arr([[-x for x in v] for v in vs]))
    for r in range(rows):
        for i in range(1, k):
            env.check("opposite coordinates", env.same(w[r, i] * p[r, i], w[r, 0] * p[r, 0]))


def classifier(env, classes, tables):
    """A classifier whose probabilities are arbitrary: one table per fit."""
    C = env.load("pykrige.compat")

    class Model(C.ClassifierMixin, C.BaseEstimator):
        def __init__(self):
            pass

        def fit(self, p, y):
            self.fits = getattr(self, "fits", 0) + 1
            self.seen = (p, y)
            cl = classes[self.fits - 1] if isinstance(classes, tuple) else classes  # a tuple: one list per fit
            self.classes_ = cl if isinstance(cl, np.ndarray) else np.array(cl)
            return self

        def predict_proba(self, p):
            rows = []
            for i in range(p.shape[0]):
                for key, row in tables[self.fits - 1].items():
                    if bool(p[i, 0] == key):
                        rows.append(list(row))
            return env.arr(rows)

        def predict(self, p):
            return self.classes_[np.zeros(p.shape[0], dtype=int)]

    return Model()


def classify(env, method, n, k, labels=0, where="free", drifts=(), window=None, extra=None, model="custom", backend=None, aniso=False,
             zero=None, pattern=0, again=False, far=2, single=False):
    kind, dim = METHODS[method]
    geo, pts, mod, qs, dr = setup(env, kind, dim, n, aniso, where, model, drifts)
    if kind == "uk":
        wellposed(env, geo, mod, pts, dr[2])
    elif not env.sym:
        wellposed(env, geo, mod, pts, [])
    if window and window < n:
        for q, _ in qs:
            for i in range(n):
                if i != far:
                    env.assume(geo.dist2(q, pts[i]) + env.num(Fraction(1, 8)) <= geo.dist2(q, pts[far]))
    env.nonsing = True
    classes = LABELS[k][labels]
    order = [classes[(i * (1 + pattern) + pattern) % k] for i in range(n)]
    if single:
        order = [classes[0]] * n
    P = env.arr([[env.num(i), env.num(i % 2)] for i in range(n)])
    P2 = env.arr([[env.num(100 + i), env.num(1)] for i in range(len(qs))])
    X, Q = env.arr([list(p) for p in pts]), env.arr([list(q) for q, _ in qs])
    extra = dict(dict(nlags=1), **(extra or {}))
    direct, w = wrapper_kw(kind, dim, geo, mod, dr, extra)
    if env.sym:
        env.no_statistics(CLS[kind, dim][0])
    M = env.load("pykrige.ck")
    tables = []
    ks = [k, again if type(again) is int and again > 1 else k]
    sets = (classes, LABELS[ks[1]][0 if ks[1] != k else (labels + 1) % len(LABELS[k])] if type(again) is int and again > 1 else classes)
    for f in range(2 if again else 1):
        k = ks[f]
        t = {i: composition(env, "p%d_%d_" % (f, i), k, i + f, zero if i == 0 else None) for i in range(n)}
        for i in range(len(qs)):
            t[100 + i] = composition(env, "t%d_%d_" % (f, i), k, i + 2 * f + 1, zero if i == 1 else None)
        tables.append(t)
    m = classifier(env, sets, tables)
    c = M.ClassificationKriging(classification_model=m, method=method, n_closest_points=window, **w)
    bk = {} if backend is None else dict(backend=backend)
    for f, t in enumerate(tables):
        k, classes = ks[f], sets[f]
        if f:
            order = order[1:] + order[:1] if sets[0] is sets[1] else [classes[(i + 1) % k] for i in range(n)]
        y = np.array([[v] for v in order])
        y0 = y.copy()
        given = [(a, a.copy()) for a in (P, P2, X, Q)]
        c.fit(P, X, y)
        env.check("classifier fitted once", m.fits == f + 1)
        env.eq("classifier fitted on the covariates", m.seen[0], P)
        env.check("classifier fitted on the labels", m.seen[1].shape == (n,) and list(m.seen[1]) == order)
        got = c.predict(P2, Q, **bk)
        res = c.krige_residual(Q, **bk)
        # each class: kriged difference between the log of the (almost
        # certain) observed class and the log of the predicted probability
        ekw = dict(n_closest_points=window) if kind == "ok" else {}
        R = []
        for i, cls in enumerate(classes):
            v = []
            for d in range(n):
                seen = env.log(env.num(EPS)) if order[d] != cls else env.num(0)
                v.append(seen - logs(env, t[d])[i])
            o = kclass(env, kind, dim)(*columns(env, pts), env.arr(v), **direct)
            R.append(execute(env, o, "points", qs, backend=backend or "loop", **ekw)[0])
        env.check("shape of the residual", res.shape == (len(qs), k - 1))
        for a in range(len(qs)):
            S = [logs(env, t[100 + a])[i] + R[i][a] for i in range(k)]
            at = [i for i in range(k) if got[a] == classes[i]]
            env.check("a label of the training set", len(at) == 1)
            for i in range(k):
                if env.sym:
                    env.check("no class is more likely than the predicted one", S[at[0]] >= S[i])
                else:
                    env.check("no class is more likely than the predicted one", S[at[0]] >= S[i] - 1e-7)
            # the residual, as log-ratios of the classes
            back = M.inverse_ilr_transformation(res[a:a + 1])
            sm = R[0][a]
            for i in range(1, k):
                sm = sm + R[i][a]
            nn = env.num(0)
            for j in range(k - 1):
                nn = nn + res[a, j] * res[a, j]
            want = env.num(0)
            for i in range(k):
                want = want + (R[i][a] - sm / k) * (R[i][a] - sm / k)
            env.check("size of the residual", env.same(nn, want))
        env.check("number of labels", len(got) == len(qs))
        env.check("labels unmodified", bool((y == y0).all()))
        for i, (a, b) in enumerate(given):
            env.eq("argument %d unmodified" % i, a, b)
        s = c.score(P2, Q, np.array([got[0]] + [classes[0]] * (len(qs) - 1)), **bk)
        hits = sum(1 for g, e in zip(got, [got[0]] + [classes[0]] * (len(qs) - 1)) if g == e)
        env.check("score is the accuracy", abs(float(s) - hits / len(qs)) < 1e-12)


def forwarded(env, method, k=3):
    """Every setting reaches the kriging of every coordinate."""
    kind, dim = METHODS[method]
    n = 4
    pts = [tuple(env.num(c) for c in p[:dim]) for p in ((0, 0, 0), (1, 0, 1), (3, 0, 0), (0, 2, 1))]
    classes = LABELS[k][0]
    t = {i: composition(env, "p%d_" % i, k, i) for i in range(n)}
    m = classifier(env, classes, [t])
    if env.sym:
        env.no_statistics(CLS[kind, dim][0])
    s = [env.real("s%d" % i, Fraction(1, 4), 4, [2, 3, Fraction(1, 2), 1, 3]) for i in range(2)]
    prm = [env.real("slope", Fraction(1, 4), 4, [2, 1, 3, 1, 1]), env.real("nug", 0, 4, [1, 2, 1, 0, 3])]
    fd = env.scalar_fn("fd", dim)
    if env.sym:
        drift = lambda *c: env.arr([fd(*[v[i] for v in c]) for i in range(len(c[0]))])
    else:
        drift = lambda *c: np.array([fd(*[float(v[i]) for v in c]) for i in range(len(c[0]))])
    kw = dict(variogram_model="linear", variogram_parameters=prm, nlags=2, weight=True, exact_values=False, pseudo_inv=True, pseudo_inv_type="pinvh",
              anisotropy_scaling=(s[0], s[1]), anisotropy_angle=(30.0, 60.0, 20.0), drift_terms=["functional"], functional_drift=[drift])
    C, M = env.load("pykrige.compat"), env.load("pykrige.ck")
    c = M.ClassificationKriging(classification_model=m, method=method, n_closest_points=3, **kw)
    y = np.array([[classes[i % k]] for i in range(n)])
    P, X = env.arr([[env.num(i)] for i in range(n)]), env.arr([list(p) for p in pts])
    c.fit(P, X, y)
    env.check("one kriging model per coordinate", len(c.krige) == k - 1)
    hot = M.ilr_transformation(env.arr([[env.num(1 if order == cl else 0) for cl in classes] for order in y[:, 0]]))
    pr = M.ilr_transformation(env.arr([t[i] for i in range(n)]))
    for j in range(k - 1):
        d = C.Krige(method=method, n_closest_points=3, **kw)
        d.fit(X, env.arr([hot[i, j] - pr[i, j] for i in range(n)]))
        env.check("closest points kept", c.krige[j].n_closest_points == 3)
        same_object(env, c.krige[j].model, d.model)


def rejected(env):
    C, K = env.load("pykrige.compat"), env.load("pykrige.ck").ClassificationKriging

    class Estimator(C.BaseEstimator):
        pass

    class Regressor(C.RegressorMixin, C.BaseEstimator):
        pass

    class Plain:
        pass

    for M in (Estimator, Regressor, Plain):
        env.raises("a %s as classification model" % M.__name__, lambda: K(classification_model=M()))
    classes = LABELS[2][0]
    t = {i: composition(env, "p%d_" % i, 2, i) for i in range(2)}
    P, X = env.arr([[env.num(i)] for i in range(2)]), env.arr([[0, 0], [1, 2]])
    y = np.array([[classes[i]] for i in range(2)])
    for method in ("ordinary", "universal"):
        if env.sym:
            env.no_statistics(CLS[METHODS[method]][0])
        c = K(classification_model=classifier(env, classes, [t]), method=method, variogram_model="linear", variogram_parameters=[1, 0], nlags=1)
        c.fit(P, X, y)
        for kw in (dict(backend="nope"), dict(style="nope")):
            env.raises("predicting with %s" % sorted(kw.items()), lambda: c.predict(P, X, **kw))
            env.raises("residual with %s" % sorted(kw.items()), lambda: c.krige_residual(X, **kw))
            env.raises("score with %s" % sorted(kw.items()), lambda: c.score(P, X, y, **kw))


BOUNDS = ("compositions of 2-5 parts, 1-2 rows; 2-4 classes (text, integer and negative labels), four methods, 2-3 training points, 1-2 predicted points; "
          "arbitrary class probabilities from 1/64 to 1 or exactly 0; arbitrary variogram, drifts, anisotropy, windows, backends; two fits in a row, the second also on more, fewer or other classes")
OUTSIDE = "particular scikit-learn classifiers; automatic variogram fits; statistics; compositions with parts below 1/64 other than 0"


def needs_c(fn, cfg):
    return cfg.get("backend") == "C"


def tasks(thorough):
    out = []

    def add(fn, **k):
        out.append((fn, k))

    add("rejected")
    for k in (2, 3, 4, 5):
        for r in (1, 2):
            add("roundtrip", k=k, rows=r)
        add("geometry", k=k)
    for k in (2, 3, 4):
        for r in (1, 2):
            add("inverse", k=k, rows=r)
    for m, (kd, dim) in METHODS.items():
        add("forwarded", method=m)
        for k in (2, 3):
            for l in range(4):
                add("classify", method=m, n=2, k=k, labels=l, where="free", pattern=l % 3)
            for b in (None, "vectorized"):
                add("classify", method=m, n=2, k=k, where="free2", backend=b)
            add("classify", method=m, n=2, k=k, where="mix")
            add("classify", method=m, n=2, k=k, again=True)
            add("classify", method=m, n=2, k=k, again=k)
            if kd == "ok":
                add("classify", method=m, n=2, k=k, again=5 - k)
            add("classify", method=m, n=2, k=k, where="free2" if k == 3 else "free", zero=1)
            add("classify", method=m, n=2, k=k, single=True)
            add("classify", method=m, n=3, k=k, pattern=k - 2)
            add("classify", method=m, n=2, k=k, extra=dict(exact_values=False), where="mix")
        add("classify", method=m, n=2, k=3, extra=dict(pseudo_inv=True, pseudo_inv_type="pinvh"))
        add("classify", method=m, n=2, k=4)
        add("classify", method=m, n=2, k=3, aniso=True)
        if kd == "ok":
            for wd, nn in ((2, 2), (2, 3)):
                for far in ((0, 1, 2) if dim == 2 else (0, 1)) if nn > wd else (2,):
                    add("classify", method=m, n=nn, k=3, window=wd, model="linear" if dim == 2 else "custom", far=far)
        if m == "ordinary":
            add("classify", method=m, n=2, k=3, where="mix", model="linear", backend="C")
            add("classify", method=m, n=3, k=3, window=2, model="linear", backend="C", far=1)
        if kd == "uk":
            for dr in (["lin"], ["func"]) + ((["well"], ["extZx"]) if dim == 2 else ()):
                add("classify", method=m, n=4 if dr == ["lin"] or dim == 3 else 3, k=2, drifts=dr)
    return out
