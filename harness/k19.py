"""K19: ZMAP grid files."""
from .common import *
from .k18 import axis, coordinate_form, exact

ID = "K19"


def cell(env, name, kind, i):
    if kind == "s":  # one cell of any sign, the others of either sign
        return env.real(name, *((-999999, 999999) if i == 1 else (0, 999999) if i % 3 == 0 else (-999999, Fraction(-1, 10**6))), ([["-1/8", 999999, "9999/7", 2, -5]] if i == 1 else [[0, 1, "5/2", 3, "1/3"], ["-1/3", "-1/30000", -77, -12, -9], ["-1/8", -999999, "-9999/7", -2, -5]])[i % 3 if i != 1 else 0])
    if kind == "m":
        return env.real(name, 1000000, 10**30, [1000000, 12345678, 10**9 + 7, 10**20, "98765432101/7"])
    if kind == "n":
        return env.real(name, -(10**30), -1000000, [-1000000, -12345678, -(10**9) - 7, -(10**20), "-98765432101/7"])
    if kind == "h":
        return env.real(name, 10**100, 10**120, [10**100, 3 * 10**101, 10**110, 7 * 10**105, 10**120])
    if kind == "H":
        return env.real(name, -(10**120), -(10**100), [-(10**100), -3 * 10**101, -(10**110), -7 * 10**105, -(10**120)])
    raise ValueError(kind)


def written(env, v, kind):
    if kind == "s":
        return env.round(v, 4)
    return env.sig(v, 8)


def relative(env, name, a, b):
    if env.sym:
        env.check(name, env.same(a, b))
    else:
        env.check(name, abs(a - b) <= 1e-9 * max(1.0, abs(b)), "%r instead of %r" % (a, b))


def zmap(env, ny, nx, kinds="s", masked=(), nan=(), nodata="default", crs=None, form="array"):
    t = env.load("pykrige.kriging_tools")
    x0, dx, xs = axis(env, "x", nx)
    y0, dy, ys = axis(env, "y", ny)
    kd = [[kinds[(i * nx + j) % len(kinds)] for j in range(nx)] for i in range(ny)]
    z = [[cell(env, "z%d_%d" % (i, j), kd[i][j], i * nx + j) for j in range(nx)] for i in range(ny)]
    kw, nd = {}, env.num(-999)
    if nodata == "any":
        nd = kw["no_data"] = env.real("nodata", -999999, 999999, [-9999, 0, "1/4", "-25/2", 1])
    elif nodata != "default":
        kw["no_data"] = nodata
        nd = env.num(nodata)
    if crs is not None:
        kw["coord_sys"] = crs
    za = env.arr(z)
    for i, j in nan:
        za[i, j] = env.np.nan
    if masked or form == "masked":
        m = env.np.zeros((ny, nx), dtype=bool)
        for i, j in masked:
            m[i, j] = True
        za = env.np.ma.array(za, mask=m)
    f = env.path("grid.zmap")
    t.write_zmap_grid(coordinate_form(env, form, xs), coordinate_form(env, form, ys), za, filename=f, **kw)
    g, gx, gy, cs, no, sys = t.read_zmap_grid(f)
    env.check("rows and columns", tuple(g.shape) == (ny, nx))
    relative(env, "no-data value", no, nd)
    env.check("coordinate system", sys == ("<null>" if crs is None else crs.strip()), repr(sys))
    masked, nan = [tuple(p) for p in masked], [tuple(p) for p in nan]
    for i in range(ny):
        for j in range(nx):
            if (i, j) in masked:
                w = env.round(nd, 4)
            elif (i, j) in nan:
                w = env.sig(nd, 8)
            else:
                w = written(env, z[i][j], kd[i][j])
            relative(env, "cell %d,%d" % (i, j), g[i, j], w)
    exact(env, "x-coordinates", gx, xs)
    exact(env, "y-coordinates", gy, ys)
    env.check("two cell sizes", len(cs) == 2)
    exact(env, "cell size x", cs[0], dx)
    exact(env, "cell size y", cs[1], dy)


def foreign(env, ny, nx, per, width=15):
    """A file by another writer: another number of nodes per line."""
    t = env.load("pykrige.kriging_tools")
    x0, dx, xs = axis(env, "x", nx)
    y0, dy, ys = axis(env, "y", ny)
    z = [[cell(env, "z%d_%d" % (i, j), "s", i * nx + j) for j in range(nx)] for i in range(ny)]
    s = lambda v: format(v, "")
    lines = ["! File", "! other", "@Grid HEADER, GRID, %d" % per, "%d, -1.5, , 1, 1" % width,
             "%d, %d, %s, %s, %s, %s" % (ny, nx, s(xs[0]), s(xs[-1]), s(ys[0]), s(ys[-1])), "0.0, 0.0, 0.0", "@"]
    for j in range(nx):
        col = [s(z[i][j]) for i in range(ny - 1, -1, -1)]
        for k in range(0, ny, per):
            lines.append("  " + "  ".join(col[k:k + per]))
    f = env.path("in.zmap")
    env.put(f, "\n".join(lines) + "\n")
    g, gx, gy, cs, no, sys = t.read_zmap_grid(f)
    exact(env, "values", g, env.arr(z))
    exact(env, "no-data", no, env.num(Fraction(-3, 2)))
    exact(env, "x-coordinates", gx, xs)
    exact(env, "y-coordinates", gy, ys)
    exact(env, "cell sizes", list(cs), [dx, dy])
    env.check("no coordinate system", sys == "<null>")


def shapes(env, what, ny, nx):
    """Arrays of the wrong number of dimensions."""
    t = env.load("pykrige.kriging_tools")
    x0, dx, xs = axis(env, "x", nx)
    y0, dy, ys = axis(env, "y", ny)
    z = [[cell(env, "z%d_%d" % (i, j), "s", i) for j in range(nx)] for i in range(ny)]
    xa, ya = env.arr([xs, xs] if what == "x" else xs), env.arr([ys, ys] if what == "y" else ys)
    za = env.arr([z, z]) if what == "box" else env.arr([v for r in z for v in r]) if what == "flat" else env.arr(z)
    env.raises("arrays of the wrong shape (%s)" % what, lambda: t.write_zmap_grid(xa, ya, za, filename=env.path("no.zmap")))


def refused(env, what, n, at):
    t = env.load("pykrige.kriging_tools")
    x0, dx, xs = axis(env, "x", n if what == "x" else 2)
    y0, dy, ys = axis(env, "y", n if what == "y" else 2)
    z = [[cell(env, "z%d_%d" % (i, j), "s", i) for j in range(len(xs))] for i in range(len(ys))]
    e = env.real("e", "1/1000", 1000, ["1/3", 1, "1/50", 4, 9])
    d = dx if what == "x" else dy
    env.assume(e >= d * env.num(Fraction(1, 1000)))
    env.assume(d >= env.num(Fraction(1, 100)))
    a = xs if what == "x" else ys
    a[at] = a[at] + e
    env.raises("uneven spacing", lambda: t.write_zmap_grid(env.arr(xs), env.arr(ys), env.arr(z), filename=env.path("no.zmap")))


BOUNDS = ("grids of 2-7 rows and 2-4 columns (lines wrap after five nodes; 11 rows in the thorough tier), values below 1e6 in magnitude (four decimals written), in [1e6, 1e30] "
          "and [1e100, 1e120] and their negatives (eight digits); masks, NaN cells, no-data values in (-1e6, 1e6), coordinate-system texts; origins in [-1e6, 1e6], spacings in [1/1000, 10000]; foreign line lengths 1-6")
OUTSIDE = "larger grids; no-data values of another magnitude; descending coordinates"


def tasks(thorough):
    out = []

    def add(fn, **k):
        out.append((fn, k))

    for ny, nx in [(2, 2), (2, 3), (3, 2), (4, 3), (5, 2), (6, 2), (7, 3)] + ([(10, 2), (11, 3), (5, 5), (6, 4)] if thorough else []):
        for kd in ("s", "m", "n", "h", "H", "smnhH", "ms", "Hs"):
            add("zmap", ny=ny, nx=nx, kinds=kd)
        add("zmap", ny=ny, nx=nx, form="column")
        add("zmap", ny=ny, nx=nx, form="list")
        add("zmap", ny=ny, nx=nx, form="masked")
        for m in ([(0, 0)], [(ny - 1, nx - 1)], [(1, 0), (0, 1)], [(i, j) for i in range(ny) for j in range(nx)]):
            add("zmap", ny=ny, nx=nx, masked=m)
            add("zmap", ny=ny, nx=nx, nan=m)
            add("zmap", ny=ny, nx=nx, masked=m, nodata="any")
            add("zmap", ny=ny, nx=nx, nan=m, nodata=-9999.0, kinds="sm")
            add("zmap", ny=ny, nx=nx, nan=m, nodata="any")
        add("zmap", ny=ny, nx=nx, masked=[(0, 0)], nan=[(1, 1)])
        add("zmap", ny=ny, nx=nx, nodata=0, nan=[(1, 0)])
    for c in ("<null>", "WGS 84", "EPSG:4326", "urn:ogc:def:crs:EPSG::4326", "  UTM zone 32N ", "a, b; c", "@place", "! local", "COORDINATE REFERENCE SYSTEM: x"):
        add("zmap", ny=3, nx=2, crs=c)
    for ny, nx in ((2, 2), (3, 2), (6, 2), (7, 3)):
        for per in (1, 2, 3, 4, 5, 6):
            add("foreign", ny=ny, nx=nx, per=per)
    for n in (3, 4):
        for at in range(n):
            add("refused", what="x", n=n, at=at)
            add("refused", what="y", n=n, at=at)
    for w in ("x", "y", "flat", "box"):
        add("shapes", what=w, ny=2, nx=2)
        add("shapes", what=w, ny=3, nx=2)
    return out
