"""K06: moving windows."""
import itertools

from .common import *

ID = "K06"


def window(env, dim, n, sets, backend, where="ff", aniso=False, geographic=False, model="custom", exact=True):
    """Target t has the data points sets[t] as its nearest ones."""
    m = Fraction(1, 32)
    if geographic:
        m = Fraction(1, 256)
        geo = Sphere(env)
        pts = lonlat(env, "d", n)
        gapart(env, geo, pts)
        env.nonsing = True
        P = ([[10, 20, 35], [-30, 45, 100], [170, -175, 3], [-90, 60, 12], [0, 5, 9]], [[5, -20, 40], [0, 10, 60], [70, 45, -33], [-80, -10, 85], [2, 4, -3]])
    else:
        geo = mkgeo(env, aniso, dim)
        pts = points(env, n, dim)
        apart(env, geo, pts)
        P = (PX, PY, PZ3)[:dim]
    qs = []
    for t, s in enumerate(sets):
        if where[t] != "f":
            qs.append((pts[int(where[t])], int(where[t])))
            continue
        q = []
        for c, a in enumerate(P):
            q.append(env.real("q%d%s" % (t, "xyz"[c]), -50, 50, [sum(Fraction(w[i]) for i in s) / len(s) + Fraction(1 + c, 5) for w in a]))
        q = tuple(q)
        for p in pts + [u for u, _ in qs]:
            if geographic:
                env.assume(geo.dist(p, q) >= env.num(Fraction(1, 8)))
            else:
                apart_from(env, geo, q, [p])
        qs.append((q, None))
    for (q, at), s in zip(qs, sets):
        d = [geo.dist2(p, q) for p in pts]
        for i in s:
            for j in range(n):
                if j not in s:
                    env.assume(d[i] + env.num(m) <= d[j])
    mod = mkmodel(env, model)
    zv = env.reals("v", n, -100, 100, PV)
    big = make(env, "ok", dim, pts, zv, mod, geo, exact_values=exact)
    k = len(sets[0])
    z, ss = execute(env, big, "points", qs, backend=backend, n_closest_points=k)
    env.check("one value per point", z.shape == (len(qs),) and ss.shape == (len(qs),))
    for t, s in enumerate(sets):
        small = make(env, "ok", dim, [pts[i] for i in s], env.arr([zv[i] for i in s]), mod, geo, exact_values=exact)
        zr, sr = execute(env, small, "points", [qs[t]], backend="loop")
        env.eq("value at %d from the nearest %s" % (t, s), z[t], zr[0])
        env.eq("variance at %d from the nearest %s" % (t, s), ss[t], sr[0])


def everything(env, dim, n, backend, aniso=False, where="free", model="custom", exact=True):
    geo = mkgeo(env, aniso, dim)
    pts = points(env, n, dim)
    apart(env, geo, pts)
    qs = targets(env, geo, pts, where)
    mod = mkmodel(env, model)
    zv = env.reals("v", n, -100, 100, PV)
    k = make(env, "ok", dim, pts, zv, mod, geo, exact_values=exact)
    z, ss = execute(env, k, "points", qs, backend=backend, n_closest_points=n)
    zr, sr = execute(env, k, "points", qs, backend=backend)
    env.eq("values with a window of all the data", z, zr)
    env.eq("variances with a window of all the data", ss, sr)


def sizes(env, dim, n, backend, style, model="linear"):
    geo = Iso(env, dim)
    pts = points(env, n, dim)
    apart(env, geo, pts)
    mod = mkmodel(env, model)
    k = make(env, "ok", dim, pts, env.reals("v", n, -100, 100, PV), mod, geo)
    cols = [env.arr([env.num(v)]) for v in (1, 3, 5)][:dim]
    kw = {}
    if style == "masked":
        kw["mask"] = env.np.zeros((1,) * dim, dtype=bool)
    for bad in (-3, -1, 0, 1, n + 1, n + 2, 3 * n):
        env.raises("a window of %d of %d points" % (bad, n), lambda: k.execute(style, *cols, backend=backend, n_closest_points=bad, **kw),
                   Exception)


BOUNDS = ("2-4 (thorough: 6) data points with every possible set of nearest points (window sizes 2 to n), 1-2 targets with different windows; the k-th and "
          "(k+1)-th nearest differ by at least 1/32 (squared distances; 1/256 for squared chords); every variogram (Python loop) or linear (C); anisotropy; great-circle distances; 2D and 3D; "
          "refused sizes -3..1 and above n")
OUTSIDE = "ties between the k-th and (k+1)-th nearest point; more data; SciPy's cKDTree is modelled by its contract (k nearest, sorted)"
needs_c = c_task


def tasks(thorough):
    out = []

    def add(fn, **k):
        out.append((fn, k))

    for dim, b in ((2, "loop"), (2, "C"), (3, "loop")):
        m = "linear" if b == "C" else "custom"
        for n, kk in ((3, 2), (4, 2), (4, 3)) + (((5, 2), (5, 3), (5, 4), (6, 2), (6, 4)) if thorough else ()):
            ss = list(itertools.combinations(range(n), kk))
            for s in ss:
                add("window", dim=dim, n=n, sets=[s], backend=b, model=m)
        for s in itertools.combinations(range(3), 2):
            add("window", dim=dim, n=3, sets=[s], backend=b, model=m, aniso=True)
        for s, t in (((0, 1), (1, 2)), ((1, 2), (0, 2)), ((0, 2), (0, 1))):
            add("window", dim=dim, n=3, sets=[s, t], backend=b, model=m)
        for ex in (True, False):
            add("window", dim=dim, n=3, sets=[(0, 2)], backend=b, model=m, where="2", exact=ex)
            add("window", dim=dim, n=3, sets=[(0, 2), (1, 2)], backend=b, model=m, where="f1", exact=ex)
        if dim == 2:
            for s in itertools.combinations(range(3), 2):
                add("window", dim=dim, n=3, sets=[s], backend=b, model="linear", geographic=True)
        for n in (2, 3):
            add("everything", dim=dim, n=n, backend=b, model=m)
            add("everything", dim=dim, n=n, backend=b, model=m, where="datum", exact=False)
        add("everything", dim=dim, n=2, backend=b, model=m, aniso=True)
        add("everything", dim=dim, n=3, backend=b, model=m, where="mix")
        for style in ("points", "grid", "masked"):
            add("sizes", dim=dim, n=3, backend=b, style=style)
        add("sizes", dim=dim, n=2, backend=b, style="points")
    for dim in (2, 3):
        add("sizes", dim=dim, n=3, backend="vectorized", style="points")
    return out
