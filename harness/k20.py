"""K20: external drift values."""
from .common import *

ID = "K20"
GX = [[0, 3, 5, 9], [-10, -4, 0, 12], [1, "3/2", 7, 8], [0, 1, 2, 3], [-20, 5, 6, 30]]
GY = [[0, 2, 6, 7], [-8, 1, 3, 13], [2, "7/2", 4, 9], [5, 6, 8, 9], [-3, 0, 10, 30]]
T = ["1/3", "3/4", "1/8", "2/3", "2/5"]


def axis(env, stem, n, prof):
    g = env.reals(stem, n, -50, 50, prof)
    for i in range(1, n):
        env.assume(g[i] - g[i - 1] >= env.num(Fraction(1, 4)))
    return g


def cells(env, gx, gy):
    """A consequence of the spacing."""
    for i in range(len(gx) - 1):
        for j in range(len(gy) - 1):
            env.assume((gx[i + 1] - gx[i]) * (gy[j + 1] - gy[j]) >= env.num(Fraction(1, 16)))


def place(env, name, g, w, prof, k):
    """A coordinate strictly inside cell w = "c1" or on node "n1"."""
    i = int(w[1:])
    if w[0] == "n":
        return g[i]
    P = [(Fraction(a[i]) * (1 - t) + Fraction(a[i + 1]) * t) for a, t in zip(prof, [Fraction(x) for x in T[k % 5:] + T[:k % 5]])]
    x = env.real(name, -50, 50, P)
    env.assume(x - g[i] >= env.num(Fraction(1, 100)))
    env.assume(g[i + 1] - x >= env.num(Fraction(1, 100)))
    return x


def bilinear(env, gx, gy, z, p, wx, wy):
    x, y = p
    i, j = int(wx[1:]), int(wy[1:])
    if wx[0] == "n" and wy[0] == "n":
        return z[j][i]
    if wy[0] == "n":
        return (z[j][i] * (gx[i + 1] - x) + z[j][i + 1] * (x - gx[i])) / (gx[i + 1] - gx[i])
    if wx[0] == "n":
        return (z[j][i] * (gy[j + 1] - y) + z[j + 1][i] * (y - gy[j])) / (gy[j + 1] - gy[j])
    a, b, c, d = gx[i + 1] - x, x - gx[i], gy[j + 1] - y, y - gy[j]
    return (z[j][i] * a * c + z[j][i + 1] * b * c + z[j + 1][i] * a * d + z[j + 1][i + 1] * b * d) / ((gx[i + 1] - gx[i]) * (gy[j + 1] - gy[j]))


def zgrid(env, ny, nx):
    v = env.reals("e", ny * nx, -20, 20, [[1, 5, -2, 7, 3, 0, 4, -6, 8, 2, -3, 6], [0, 2, 9, -4, 1, 6, 3, 8, -7, 5, 2, 1], [4, 1, 1, 3, -5, 2, 7, 0, 9, -1, 6, 3]])
    return [v[i * nx:(i + 1) * nx] for i in range(ny)]


def interpolation(env, nx, ny, data, target, backend="vectorized", aniso=False, transposed=False, form="array", style="points", extra=()):
    """External drift against the bilinear values given as specified drift."""
    gx, gy = axis(env, "gx", nx, GX), axis(env, "gy", ny, GY)
    cells(env, gx, gy)
    z = zgrid(env, ny, nx)
    geo = mkgeo(env, aniso, 2)
    pts = [(place(env, "x%d" % k, gx, wx, GX, k), place(env, "y%d" % k, gy, wy, GY, k + 2)) for k, (wx, wy) in enumerate(data)]
    qs = [(place(env, "qx%d" % k, gx, wx, GX, k + 4), place(env, "qy%d" % k, gy, wy, GY, k + 6)) for k, (wx, wy) in enumerate(target)]
    apart(env, geo, pts)
    import itertools

    if style != "points":
        ax, ay = [q[0] for q in qs], [q[1] for q in qs]
        nodes = [((ax[i], ay[j]), (target[i][0], target[j][1])) for j in range(len(qs)) for i in range(len(qs))]
    else:
        nodes = list(zip(qs, target))
    for q, _ in nodes:
        apart_from(env, geo, q, pts)
    mod = mkmodel(env, "custom")
    zv = env.reals("v", len(pts), -100, 100, PV)
    fd = [bilinear(env, gx, gy, z, p, *w) for p, w in zip(pts, data)]
    fq = [bilinear(env, gx, gy, z, p, *w) for p, w in nodes]
    env.nonsing = True
    wellposed(env, geo, mod, pts, [fd])
    za = env.arr(z)
    if transposed:
        za = env.arr([list(c) for c in zip(*z)])
    f = (lambda g: env.arr([[v] for v in g])) if form == "column" else (lambda g: list(g)) if form == "list" else (lambda g: env.arr(list(g)))
    if form == "list":
        za = [list(r) for r in z]
    terms = list(extra)
    a = make(env, "uk", 2, pts, zv, mod, geo, drift_terms=terms + ["external_Z"], external_drift=za, external_drift_x=f(gx), external_drift_y=f(gy))
    b = make(env, "uk", 2, pts, zv, mod, geo, drift_terms=terms + ["specified"], specified_drift=[env.arr(fd)])
    if style == "points":
        args = columns(env, qs)
        sp = env.arr(fq)
    else:
        args = [env.arr([q[0] for q in qs]), env.arr([q[1] for q in qs])]
        n = len(qs)
        sp = env.arr([fq[j * n:(j + 1) * n] for j in range(n)])
    kw = dict(mask=env.np.zeros((len(qs),) * 2, dtype=bool)) if style == "masked" else {}
    z1, v1 = a.execute(style, *args, backend=backend, **kw)
    z2, v2 = b.execute(style, *args, backend=backend, specified_drift_arrays=[sp], **kw)
    env.eq("values", z1, z2)
    env.eq("variances", v1, v2)


def outside(env, who, side, backend="vectorized", transposed=False):
    """A location beyond the drift grid."""
    nx, ny = 3, 2
    gx, gy = axis(env, "gx", nx, GX), axis(env, "gy", ny, GY)
    cells(env, gx, gy)
    z = zgrid(env, ny, nx)
    geo = Iso(env, 2)
    pts = [(place(env, "x%d" % k, gx, "c%d" % (k % 2), GX, k), place(env, "y%d" % k, gy, "c0", GY, k + 2)) for k in range(3)]
    o = env.real("o", "1/100", 20, [1, 3, "1/2", 10, "1/5"])
    bad = {"left": (gx[0] - o, gy[0]), "right": (gx[-1] + o, gy[1]), "below": (gx[1], gy[0] - o), "above": (gx[2], gy[-1] + o), "corner": (gx[-1] + o, gy[-1] + o)}[side]
    if who == "data":
        pts[1] = bad
    apart(env, geo, pts)
    if who == "target":
        apart_from(env, geo, bad, pts)
    mod = mkmodel(env, "custom")
    zv = env.reals("v", 3, -100, 100, PV)
    za = env.arr([list(c) for c in zip(*z)]) if transposed else env.arr(z)
    env.nonsing = True
    mk = lambda: make(env, "uk", 2, pts, zv, mod, geo, drift_terms=["external_Z"], external_drift=za, external_drift_x=env.arr(gx), external_drift_y=env.arr(gy))
    if who == "data":
        env.raises("data outside the drift grid", mk, ValueError)
    else:
        k = mk()
        env.raises("target outside the drift grid", lambda: k.execute("points", env.arr([bad[0]]), env.arr([bad[1]]), backend=backend), ValueError)


def mismatch(env, sy, sx, ny, nx):
    gx, gy = axis(env, "gx", nx, GX), axis(env, "gy", ny, GY)
    cells(env, gx, gy)
    pts = [(place(env, "x%d" % k, gx, "c0", GX, k), place(env, "y%d" % k, gy, "c0", GY, k + 2)) for k in range(3)]
    geo = Iso(env, 2)
    apart(env, geo, pts)
    z = zgrid(env, sy, sx)
    env.raises("grid shape %dx%d for %d rows and %d columns" % (sy, sx, ny, nx), lambda: make(
        env, "uk", 2, pts, env.reals("v", 3, -100, 100, PV), mkmodel(env, "custom"), geo, drift_terms=["external_Z"], external_drift=env.arr(z),
        external_drift_x=env.arr(gx), external_drift_y=env.arr(gy)), ValueError)


BOUNDS = ("drift grids of 2-4 columns and 2-4 rows with any values and any ascending coordinates at least 1/4 apart; 3 data points and 1-2 targets in every cell, on "
          "every kind of edge and node; anisotropy; both backends; points, grid and masked; transposed grids; locations outside by at least 1/100; every mismatched shape up to 4x4")
OUTSIDE = "larger grids; descending grid coordinates; square grids given transposed (undetectable)"


def tasks(thorough):
    out = []

    def add(fn, **k):
        out.append((fn, k))

    D0 = [("c0", "c0"), ("n0", "n1"), ("c0", "n0")]
    for b in ("vectorized", "loop"):
        for nx, ny in ((2, 2), (3, 2), (2, 3), (3, 3)) + (((4, 3), (3, 4), (4, 4)) if thorough else ()):
            wx = ["c%d" % i for i in range(nx - 1)] + ["n%d" % i for i in range(nx)]
            wy = ["c%d" % i for i in range(ny - 1)] + ["n%d" % i for i in range(ny)]
            used = [tuple(d) for d in D0]
            allp = [(a, c) for a in wx for c in wy if not (a[0] == "n" and c[0] == "n" and (a, c) == ("n0", "n1"))]
            for k, t in enumerate(allp):
                if b == "loop" and k % 3 and not thorough:
                    continue
                if t == ("c0", "n0") or True:
                    add("interpolation", nx=nx, ny=ny, data=D0, target=[t], backend=b)
            for k, t in enumerate(allp):
                # the same places for a datum
                if (k % 2 or thorough) and b == "vectorized" or k % 5 == 0:
                    d = [t] + [x for x in (("c0", "c0"), ("n1", "n0"), ("n0", "c0")) if x != t or t[0][0] == "c" or t[1][0] == "c"]
                    add("interpolation", nx=nx, ny=ny, data=d[:3], target=[("c0", "c0")], backend=b)
        add("interpolation", nx=3, ny=2, data=D0, target=[("c1", "c0")], backend=b, aniso=True)
        add("interpolation", nx=2, ny=3, data=[("c0", "c1"), ("n1", "n0"), ("n0", "c0")], target=[("c0", "c1"), ("n1", "c1")], backend=b, aniso=True)
        add("interpolation", nx=2, ny=2, data=D0, target=[("c0", "n1")], backend=b, aniso=True)
        for st in ("grid", "masked"):
            add("interpolation", nx=3, ny=2, data=D0, target=[("c1", "c0"), ("n1", "n0")], backend=b, style=st)
            add("interpolation", nx=3, ny=3, data=D0, target=[("c0", "c1"), ("c1", "c0")], backend=b, style=st)
            add("interpolation", nx=2, ny=3, data=D0, target=[("c0", "c1"), ("n1", "c0")], backend=b, style=st, aniso=True)
        for nx, ny in ((3, 2), (2, 3), (4, 2)):
            for t in (("c1" if nx > 2 else "c0", "c1" if ny > 2 else "c0"), ("n1", "c0")):
                add("interpolation", nx=nx, ny=ny, data=D0, target=[t], backend=b, transposed=True)
        for f in ("column", "list"):
            add("interpolation", nx=3, ny=2, data=D0, target=[("c1", "c0")], backend=b, form=f)
        for s in ("left", "right", "below", "above", "corner"):
            add("outside", who="target", side=s, backend=b)
            add("outside", who="target", side=s, backend=b, transposed=True)
    for s in ("left", "right", "below", "above", "corner"):
        add("outside", who="data", side=s)
        add("outside", who="data", side=s, transposed=True)
    for ny, nx in ((2, 2), (2, 3), (3, 2)):
        for sy in (2, 3, 4):
            for sx in (2, 3, 4):
                if (sy, sx) != (ny, nx) and (sx, sy) != (ny, nx):
                    if sx * sy <= 12:
                        add("mismatch", sy=sy, sx=sx, ny=ny, nx=nx)
    return out
