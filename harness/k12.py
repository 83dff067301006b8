"""K12: the experimental variogram."""
import itertools

from .common import *

ID = "K12"


def expected(env, d, g, nlags, imin, imax):
    """Lags and semivariances of pairs with distances d and half squared
    differences g; the closest pair is imin, the widest imax."""
    lo, hi = d[imin], d[imax]
    groups = [[] for _ in range(nlags)]
    for i in range(len(d)):
        if i == imin:
            b = 0
        elif i == imax:
            b = nlags - 1
        else:
            b = nlags - 1
            for e in range(1, nlags):
                if d[i] < lo + (hi - lo) * e / nlags:
                    b = e - 1
                    break
        groups[b].append(i)
    lags, sem = [], []
    for gr in groups:
        if gr:
            lags.append(sum((d[i] for i in gr[1:]), d[gr[0]]) / len(gr))
            sem.append(sum((g[i] for i in gr[1:]), g[gr[0]]) / len(gr))
    return lags, sem


def build(env, kind, dim, pts, zv, geo, nlags, update):
    mod = mkmodel(env, "linear")
    if not update:
        return make(env, kind, dim, pts, zv, mod, geo, nlags=nlags)
    k = make(env, kind, dim, pts, zv, mod, geo, nlags=1)
    k.update_variogram_model("linear", mod.kw["variogram_parameters"], nlags=nlags, **{a: b for a, b in geo.kw.items() if a.startswith("aniso")})
    return k


def layouts(n, dim, ends, nlags):
    """Sample positions with the wanted closest and widest pair."""
    import random
    r = random.Random(repr((n, dim, ends, nlags)))
    pairs = list(itertools.combinations(range(n), 2))
    out = []
    while len(out) < 5:
        p = [tuple(r.randint(-9, 9) for _ in range(dim)) for _ in range(n)]
        d = [sum((a - b) ** 2 for a, b in zip(p[i], p[j])) ** 0.5 for i, j in pairs]
        lo, hi = min(d), max(d)
        if lo < 0.5 or d.index(lo) != ends[0] or d.index(hi) != ends[1] or hi - lo < 1:
            continue
        t = [(v - lo) / (hi - lo) * nlags for v in d]
        if all(abs(v - round(v)) > 1e-3 or v in (0, nlags) for v in t):
            out.append(p)
    return out


def bins(env, kind, dim, n, nlags, ends, aniso=False, geographic=False, update=False):
    lay = layouts(n, dim, tuple(ends), nlags)
    prof = [[[p[c] for p in w] for w in lay] for c in range(dim)]
    if geographic:
        geo = Sphere(env)
        pts = lonlat(env, "d", n, *prof)
        gapart(env, geo, pts)
    else:
        geo = mkgeo(env, aniso, dim)
        cs = [env.reals(s, n, -50, 50, p) for s, p in zip("xyz", prof)]
        pts = [tuple(c[i] for c in cs) for i in range(n)]
        apart(env, geo, pts)
    zv = env.reals("v", n, -100, 100, PV)
    pairs = list(itertools.combinations(range(n), 2))
    d = [geo.dist(pts[i], pts[j]) for i, j in pairs]
    g = [(zv[i] - zv[j]) * (zv[i] - zv[j]) / 2 for i, j in pairs]
    imin, imax = ends
    for i in range(len(d)):
        env.assume(d[imin] <= d[i])
        env.assume(d[i] <= d[imax])
    env.assume(d[imin] + env.num(Fraction(1, 8)) <= d[imax])
    for i in range(len(d)):
        for e in range(1, nlags):
            edge = d[imin] + (d[imax] - d[imin]) * e / nlags
            m = env.num(Fraction(1, 1000000))
            env.assume(env.OR(d[i] + m < edge, edge + m < d[i]))
    k = build(env, kind, dim, pts, zv, geo, nlags, update)
    lags, sem = expected(env, d, g, nlags, imin, imax)
    env.check("number of non-empty bins", len(k.lags) == len(lags) and len(k.semivariance) == len(sem), "%d bins, expected %d" % (len(k.lags), len(lags)))
    for i in range(len(lags)):
        env.check("lag %d" % i, env.same(k.lags[i], lags[i]))
        env.check("semivariance %d" % i, env.same(k.semivariance[i], sem[i]))
    for i in range(len(lags) - 1):
        env.check("lags ascend", k.lags[i] < k.lags[i + 1])


GEOM = {
    "square": ((0, 0), (1, 0), (0, 1), (1, 1)),
    "line": ((0, 0), (1, 0), (2, 0), (3, 0), (4, 0)),
    "cross": ((0, 0), (1, 0), (-1, 0), (0, 1), (0, -1)),
    "grid": ((0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1)),
    "random": ((0, 0), (7, 1), (3, 8), (2, 5), (9, 9), (5, 2), (1, 6)),
    "triangle": ((0, 0), (3, 0), (0, 4)),
}


def fixed(env, kind, dim, where, nlags):
    """Any values at given places (equal distances, empty bins)."""
    geo = Iso(env, dim)
    raw = [p + ((p[0] * p[1] + 2 * i) % 5,) for i, p in enumerate(GEOM[where])] if dim == 3 else GEOM[where]
    pts = [tuple(env.num(c) for c in p) for p in raw]
    n = len(pts)
    zv = env.reals("v", n, -100, 100, [[(3 * i * i + k) % 11 - 4 for i in range(n)] for k in range(5)])
    pairs = list(itertools.combinations(range(n), 2))
    q = [sum((a - b) ** 2 for a, b in zip(raw[i], raw[j])) for i, j in pairs]
    d = [env.sqrt(env.num(v)) for v in q]
    f = [v ** 0.5 for v in q]
    for v in f:
        t = (v - min(f)) / (max(f) - min(f)) * nlags
        if abs(t - round(t)) < 1e-6 and 0 < round(t) < nlags:
            return env.check("a distance at the edge of a bin: skipped", True)
    g = [(zv[i] - zv[j]) * (zv[i] - zv[j]) / 2 for i, j in pairs]
    k = build(env, kind, dim, pts, zv, geo, nlags, False)
    lags, sem = expected(env, d, g, nlags, f.index(min(f)), f.index(max(f)))
    env.eq("lags", list(k.lags), lags)
    env.eq("semivariances", list(k.semivariance), sem)


def one(env, kind, dim, n, nlags, geographic=False):
    """All pairs equally far apart: one bin."""
    if geographic:
        geo = Sphere(env)
        pts = lonlat(env, "d", 2)
        gapart(env, geo, pts)
        d = geo.dist(*pts)
    else:
        geo = Iso(env, dim)
        if n == 2:
            pts = points(env, 2, dim)
            apart(env, geo, pts)
            d = geo.dist(*pts)
        else:
            pts = [tuple(env.num(v) for v in p) for p in ((1, 0, 0), (0, 1, 0), (0, 0, 1))]
            d = env.sqrt(env.num(2))
    zv = env.reals("v", n, -100, 100, PV)
    k = build(env, kind, dim, pts, zv, geo, nlags, False)
    g = [(zv[i] - zv[j]) * (zv[i] - zv[j]) / 2 for i, j in itertools.combinations(range(n), 2)]
    env.eq("lag", list(k.lags), [d])
    env.eq("semivariance", list(k.semivariance), [sum(g[1:], g[0]) / len(g)])


BOUNDS = ("2-3 data points anywhere (pairwise at least 1/8 apart) with 1-4 bins, every order of the distances and every assignment to bins, 2D, 3D, "
          "anisotropic and geographic; 4 points with 2 bins (2D); six fixed layouts of 3-7 points with any values and 1-8 bins; every class, constructor "
          "and update")
OUTSIDE = "more free points; a distance within 1e-6 of an inner bin edge"


def tasks(thorough):
    out = []

    def add(f, **k):
        out.append((f, k))

    for kd, dim in (("ok", 2), ("uk", 2), ("ok", 3), ("uk", 3)):
        for nlags in (1, 2, 3) + ((4, 6) if thorough else ()):
            for ends in itertools.permutations(range(3), 2):
                for u in (False, True) if nlags == 2 else (False,):
                    add("bins", kind=kd, dim=dim, n=3, nlags=nlags, ends=ends, update=u)
        add("bins", kind=kd, dim=dim, n=3, nlags=2, ends=(0, 1), aniso=True)
        add("bins", kind=kd, dim=dim, n=3, nlags=3, ends=(2, 1), aniso=True, update=True)
        for nlags in (1, 3):
            for n in (2,) + ((3,) if dim == 3 else ()):
                add("one", kind=kd, dim=dim, n=n, nlags=nlags)
        for w in GEOM:
            for nlags in (1, 2, 3, 4, 6, 8):
                add("fixed", kind=kd, dim=dim, where=w, nlags=nlags)
    for nlags in (2, 3):
        for ends in itertools.permutations(range(3), 2):
            add("bins", kind="ok", dim=2, n=3, nlags=nlags, ends=ends, geographic=True)
    add("bins", kind="ok", dim=2, n=3, nlags=2, ends=(0, 2), geographic=True, update=True)
    add("one", kind="ok", dim=2, n=2, nlags=2, geographic=True)
    for ends in list(itertools.permutations(range(6), 2))[::1 if thorough else 13]:
        for kd, dim in (("ok", 2),) + ((("uk", 2), ("ok", 3), ("uk", 3)) if thorough else ()):
            add("bins", kind=kd, dim=dim, n=4, nlags=2, ends=ends)
    return out
