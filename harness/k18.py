"""K18: ASCII grid files."""
from .common import *

ID = "K18"


def exact(env, name, a, b):
    """Equal (replays: up to the last digits)."""
    if env.sym:
        env.eq(name, a, b)
        return
    import numpy

    x, y = numpy.asarray(a, dtype=float), numpy.asarray(b, dtype=float)
    env.check(name, x.shape == y.shape and numpy.allclose(x, y, rtol=1e-9, atol=1e-9), "%s instead of %s" % (x.tolist(), y.tolist()))


def axis(env, stem, n, square=None):
    o = env.real(stem + "0", -1000000, 1000000, ["197/50", 10, "-5/2", "1/3", 500000, 0])
    d = square if square is not None else env.real("d" + stem, "1/1000", 10000, ["2/25", 1, "1/4", "1/300", 25, 2] if stem == "x" else ["7/100", 2, "1/2", "1/128", 5, 3])
    return o, d, [o + d * env.num(i) for i in range(n)]


def values(env, ny, nx, lim=10**9):
    P = [[10**13 + 1, 10**14, -10**12, 10**12 - 1, -10**13 - 2, 5, 6, 7]] if lim > 10**9 else []
    P += [[0, 1, "-5/2", 3, 1234567, "1/3", "2/7", -8], ["-1/8", 100, "99999/7", 2, 5, "7/9", -3, 4], [5, 4, 3, 2, 1, 0, -1, -2]]
    P += [[10**6, -10**6 + 1, "1/1000", "-1/1000", "999999/1000", 1, 2, 3], ["12345/100", 0, 0, 1, 1, 2, 2, 3]]
    v = env.reals("z", ny * nx, -lim, lim, P)
    return [v[i * nx:(i + 1) * nx] for i in range(ny)]


def coordinate_form(env, f, xs):
    if f == "column":
        return env.arr([[x] for x in xs])
    if f == "list":
        return list(xs)
    return env.arr(list(xs))


def ascii(env, ny, nx, style, masked=(), form="array", zform="array", nodata="default", footer=0, wide=False):
    t = env.load("pykrige.kriging_tools")
    x0, dx, xs = axis(env, "x", nx)
    y0, dy, ys = axis(env, "y", ny, dx if style == 2 else None)
    z = values(env, ny, nx, 10**14 if wide else 10**9)
    kw, nd = {}, env.num(-999)
    if nodata != "default":
        nd = kw["no_data"] = env.real("nodata", -10**6, 10**6, [-9999, 0, "1/4", "-25/2", 1]) if nodata == "any" else nodata
        nd = env.round(nd, 2) if nodata == "any" else env.num(nd)
    if zform == "list":
        za = [list(r) for r in z]
    else:
        za = env.arr(z)
        if zform == "fortran":
            za = env.np.asfortranarray(za)
        elif zform == "masked":
            m = env.np.zeros((ny, nx), dtype=bool)
            for i, j in masked:
                m[i, j] = True
            za = env.np.ma.array(za, mask=m)
    if style is not None:
        kw["style"] = style
    f = env.path("grid.asc")
    t.write_asc_grid(coordinate_form(env, form, xs), coordinate_form(env, form, ys), za, filename=f, **kw)
    if footer:
        env.put(f, env.get(f) + "\n" + "\n".join("end %d" % i for i in range(footer)))
    g, gx, gy, cell, no = t.read_asc_grid(f, footer=footer) if footer else t.read_asc_grid(f)
    env.check("rows and columns", tuple(g.shape) == (ny, nx))
    exact(env, "no-data value", no, nd)
    for i in range(ny):
        for j in range(nx):
            if (i, j) in [tuple(m) for m in masked]:
                exact(env, "masked cell %d,%d" % (i, j), g[i, j], nd)
            else:
                exact(env, "value %d,%d" % (i, j), g[i, j], env.round(z[i][j], 2))
    exact(env, "x-coordinates", gx, xs)
    exact(env, "y-coordinates", gy, ys)
    if style == 2:
        exact(env, "cell size", cell, dx)
    else:
        env.check("two cell sizes", len(cell) == 2)
        exact(env, "cell size x", cell[0], dx)
        exact(env, "cell size y", cell[1], dy)


def foreign(env, ny, nx, corner, cell, case="lower", order=0):
    """A file by another writer."""
    t = env.load("pykrige.kriging_tools")
    x0 = env.real("x0", -1000000, 1000000, [10, "-5/2", "1/4", 500000, 0])
    y0 = env.real("y0", -1000000, 1000000, [10, "-5/2", "1/4", 500000, 0])
    dx = env.real("dx", "1/1000", 10000, [1, "1/4", "1/32", 25, 2])
    dy = env.real("dy", "1/1000", 10000, [2, "1/2", "1/64", 5, 3]) if cell == "dxdy" else dx
    nd = env.real("nd", -10**6, 10**6, [-9999, 0, "1/4", "-25/2", 1])
    z = values(env, ny, nx)
    w = "corner" if corner else "center"
    h = [("ncols", "%d" % nx), ("nrows", "%d" % ny), ("xll" + w, format(x0, "")), ("yll" + w, format(y0, ""))]
    h += [("dx", format(dx, "")), ("dy", format(dy, ""))] if cell == "dxdy" else [(cell, format(dx, ""))]
    last = ("nodata_value" if order % 2 == 0 else "nodatavalue", format(nd, ""))
    if order < 10:
        h = h[order:] + h[:order] + [last]
    else:  # the no-data value anywhere, a header in any rotation, both ways
        h = (h + [last])[::1 if order < 20 else -1]
        h = h[order % 10:] + h[:order % 10]
    text = "\n".join("%s %s" % (k.upper() if case == "upper" else k, v) for k, v in h) + "\n"
    for i in range(ny - 1, -1, -1):
        text += " ".join(format(v, "") for v in z[i]) + "\n"
    f = env.path("in.asc")
    env.put(f, text)
    g, gx, gy, c, no = t.read_asc_grid(f)
    exact(env, "values", g, env.arr(z))
    exact(env, "no-data value", no, nd)
    half = env.num(Fraction(1, 2)) if corner else env.num(0)
    exact(env, "x-coordinates", gx, [x0 + dx * (half + env.num(i)) for i in range(nx)])
    exact(env, "y-coordinates", gy, [y0 + dy * (half + env.num(i)) for i in range(ny)])
    if cell == "dxdy":
        exact(env, "cell sizes", list(c), [dx, dy])
    else:
        exact(env, "cell size", c, dx)


def contradiction(env, ny, nx, hy, hx):
    """A header that does not fit the body."""
    t = env.load("pykrige.kriging_tools")
    z = values(env, ny, nx)
    text = "NCOLS %d\nNROWS %d\nXLLCENTER 0.0\nYLLCENTER 0.0\nDX 1.0\nDY 1.0\nNODATA_VALUE -999.0\n" % (hx, hy)
    for i in range(ny - 1, -1, -1):
        text += " ".join(format(v, ".2f") for v in z[i]) + "\n"
    f = env.path("bad.asc")
    env.put(f, text)
    env.raises("contradicting header", lambda: t.read_asc_grid(f))


def unknown(env, key):
    t = env.load("pykrige.kriging_tools")
    f = env.path("bad.asc")
    env.put(f, "NCOLS 2\nNROWS 2\nXLLCENTER 0.0\n%s 4\nYLLCENTER 0.0\nDX 1.0\nDY 1.0\nNODATA_VALUE -999.0\n1 2\n3 4\n" % key)
    env.raises("unknown header entry", lambda: t.read_asc_grid(f))


def refused(env, what, ny, nx, at=1, style=1):
    t = env.load("pykrige.kriging_tools")
    x0, dx, xs = axis(env, "x", nx)
    y0, dy, ys = axis(env, "y", ny, dx if style == 2 and what != "cells" else None)
    z = values(env, ny, nx)
    if what in ("x", "y"):
        a = xs if what == "x" else ys
        e = env.real("e", "1/1000", 1000, ["1/3", 1, "1/50", 4, 9])
        d = dx if what == "x" else dy
        env.assume(e >= d * env.num(Fraction(1, 1000)))
        env.assume(d >= env.num(Fraction(1, 100)))
        a[at] = a[at] + e * env.num(1)
    elif what == "cells":
        env.assume(env.OR(dx - dy >= env.num(Fraction(1, 1000)), dy - dx >= env.num(Fraction(1, 1000))))
    f = env.path("no.asc")
    kw = dict(style=style)
    if what == "style":
        kw["style"] = at
    zz = env.arr(z)
    if what == "flat":
        zz = env.arr([v for r in z for v in r])
    if what == "box":
        zz = env.arr([z, z])
    xa, ya = env.arr([xs, xs] if what == "x2" else xs), env.arr([ys, ys] if what == "y2" else ys)
    env.raises("grid that cannot be represented (%s)" % what, lambda: t.write_asc_grid(xa, ya, zz, filename=f, **kw))


BOUNDS = ("grids of 2-4 rows and columns, values in [-1e9, 1e9], small grids also up to 1e14 (two decimals written), origins in [-1e6, 1e6], spacings in [1/1000, 10000]; both styles, "
          "masks, no-data values, footers; foreign headers in corner or center form and in every rotation of their lines; header sizes that contradict the body; one coordinate off an even spacing by at least one thousandth of it")
OUTSIDE = "larger grids; text output in other locales; descending coordinates (a warning)"


def tasks(thorough):
    out = []

    def add(fn, **k):
        out.append((fn, k))

    sizes = [(2, 2), (2, 3), (3, 2), (3, 3), (2, 6), (7, 2)] + ([(2, 4), (4, 2), (4, 4), (5, 3)] if thorough else [])
    for st in (None, 1, 2):
        for ny, nx in sizes:
            add("ascii", ny=ny, nx=nx, style=st)
            add("ascii", ny=ny, nx=nx, style=st, form="column")
            add("ascii", ny=ny, nx=nx, style=st, form="list", zform="list")
            add("ascii", ny=ny, nx=nx, style=st, zform="fortran", nodata="any")
        add("ascii", ny=2, nx=2, style=st, wide=True)
        for ny, nx in ((2, 3), (3, 2)):
            for m in ([], [(0, 0)], [(0, 1), (1, 0)], [(ny - 1, nx - 1)], [(i, j) for i in range(ny) for j in range(nx)]):
                add("ascii", ny=ny, nx=nx, style=st, zform="masked", masked=m)
            add("ascii", ny=ny, nx=nx, style=st, zform="masked", masked=[(0, 1)], nodata=-9999.0)
            add("ascii", ny=ny, nx=nx, style=st, zform="masked", masked=[(1, 1)], nodata=0)
            add("ascii", ny=ny, nx=nx, style=st, zform="masked", masked=[(0, 0)], nodata="any")
            for ft in (1, 2):
                add("ascii", ny=ny, nx=nx, style=st, footer=ft)
    for corner in (False, True):
        for cell in ("dxdy", "cellsize", "cell_size"):
            for ny, nx in ((2, 3), (3, 2)):
                nh = 7 if cell == "dxdy" else 6
                for o in (0, 1, 2, 3) + tuple(range(10, 10 + nh)) + tuple(range(20, 20 + nh)):
                    add("foreign", ny=ny, nx=nx, corner=corner, cell=cell, order=o, case="upper" if o % 2 else "lower")
    for ny, nx in ((2, 2), (2, 3), (3, 2)):
        for hy in (1, 2, 3, 4):
            for hx in (1, 2, 3, 4):
                if (hy, hx) != (ny, nx):
                    add("contradiction", ny=ny, nx=nx, hy=hy, hx=hx)
    for k in ("CELLS", "XLL", "D_X", "ROWS"):
        add("unknown", key=k)
    for st in (1, 2):
        for a in range(3):
            add("refused", what="x", ny=2, nx=3, at=a, style=st)
            add("refused", what="y", ny=3, nx=2, at=a, style=st)
        for a in range(4):
            add("refused", what="x", ny=2, nx=4, at=a, style=st)
            add("refused", what="y", ny=4, nx=2, at=a, style=st)
        for w in ("flat", "box", "x2", "y2"):
            add("refused", what=w, ny=2, nx=2, style=st)
    add("refused", what="cells", ny=2, nx=3, style=2)
    add("refused", what="cells", ny=3, nx=2, style=2)
    for s in (0, 3, -1):
        add("refused", what="style", ny=2, nx=2, at=s)
    return out
