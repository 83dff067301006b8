"""K05: orientation of grids, masks and point lists."""
from .common import *

ID = "K05"


def grid(env, kind, dim, n, shape, backend, drifts=(), aniso=False, masks=(), window=None, geographic=False, model="custom", transposed=False):
    """shape = (ny, nx) or (nz, ny, nx)."""
    shape = tuple(shape)
    axes = "yx" if dim == 2 else "zyx"
    if geographic:
        geo = Sphere(env)
        pts = lonlat(env, "d", n)
        gapart(env, geo, pts)
        env.nonsing = True
        mod = mkmodel(env, model)
    else:
        geo = mkgeo(env, aniso, dim)
        pts = points(env, n, dim)
        apart(env, geo, pts)
        mod = mkmodel(env, model)
    base = {"x": ["3/2", 7, -2, 5], "y": [6, "-5/2", 3, 9], "z": ["1/2", -3, 4, 2]}
    co = {}
    for a, m in zip(axes, shape):
        co[a] = []
        for k in range(m):
            lim = 50 if not geographic else (180 if a == "x" else 90)
            pr = [Fraction(v) + k * Fraction(11, 4) + Fraction(1, 7) for v in base[a]]
            co[a].append(env.real("g%s%d" % (a, k), -lim, lim, pr))
    cells = {}
    for idx in env.np.ndindex(*shape):
        cells[idx] = tuple(co[a][idx[axes.index(a)]] for a in "xyz"[:dim])
    for c in cells.values():
        if geographic:
            for p in pts:
                env.assume(geo.dist(p, c) >= env.num(Fraction(1, 8)))
        else:
            apart_from(env, geo, c, pts)
    qs = [(c, None) for c in cells.values()]
    kw, ekw = {}, {}
    if kind == "uk":
        center = center_of(env, pts) if aniso else tuple([env.num(0)] * dim)
        kw, ekw, fd, fq = drift_2d(env, drifts, geo, pts, qs, center)
        if fd:
            wellposed(env, geo, mod, pts, fd)
    gkw = dict(ekw)
    if "specified_drift_arrays" in ekw:
        gkw["specified_drift_arrays"] = [
            (lambda g: g.T.copy() if transposed else g)(env.arr(list(a)).reshape(shape)) for a in ekw["specified_drift_arrays"]]
    if window:
        ekw, gkw = dict(ekw, n_closest_points=window), dict(gkw, n_closest_points=window)
    zv = env.reals("v", n, -100, 100, PV)
    k = make(env, kind, dim, pts, zv, mod, geo, **kw)
    zp, sp = execute(env, k, "points", qs, backend=backend, **ekw)
    zp, sp = zp.reshape(shape), sp.reshape(shape)
    args = [env.arr(co[a]) for a in "xyz"[:dim]]
    z, ss = k.execute("grid", *args, backend=backend, **gkw)
    env.check("not masked", not env.is_masked_array(z) or not env.np.ma.getmaskarray(z).any())
    env.eq("grid values", raw(env, z), zp)
    env.eq("grid variances", raw(env, ss), sp)
    for m in masks:
        mm = env.np.array(m, dtype=bool).reshape(shape)
        given = [mm] + ([mm.T.copy() if dim == 2 else mm.swapaxes(0, 2).copy()] if shape[0] != shape[-1] else [])
        for g in given:
            z, ss = k.execute("masked", *args, mask=g, backend=backend, **gkw)
            for what, a, ref in (("values", z, zp), ("variances", ss, sp)):
                env.mask_is(what, a, mm)
                env.check("shape of masked " + what, a.shape == shape)
                for idx in env.np.ndindex(*shape):
                    if not mm[idx]:
                        env.check("masked %s at %s" % (what, idx), env.same(raw(env, a)[idx], ref[idx]))


def raw(env, a):
    return a.data if env.is_masked_array(a) else a


def badmask(env, kind, dim, shape, bad, backend):
    """Masks of any other shape are rejected."""
    shape = tuple(shape)
    geo = Iso(env, dim)
    pts = points(env, 2, dim)
    apart(env, geo, pts)
    mod = mkmodel(env, "linear")
    k = make(env, kind, dim, pts, env.reals("v", 2, -100, 100, PV), mod, geo)
    ax = [[1 + 3 * i for i in range(m)] for m in shape][::-1]
    mm = env.np.zeros(tuple(bad), dtype=bool)
    env.raises("mask of shape %s for a grid of shape %s" % (bad, shape),
               lambda: k.execute("masked", *[env.arr(a) for a in ax], mask=mm, backend=backend), (ValueError,))


BOUNDS = ("grids of 2x3, 3x2, 1x3, 3x1, 2x2 and (3D) 2x2x3, 3x1x2, 1x3x2 cells with any coordinates in any order, 2-4 data points, cells at least "
          "1/8 from the data; all masks of three kinds (corner, edge, mixed), straight and transposed; every class, backend and drift; "
          "moving windows; geographic coordinates")
OUTSIDE = "bigger grids; cells on data points (K03, K04)"
needs_c = c_task
M6 = ([1, 0, 0, 0, 0, 0], [0, 1, 0, 0, 1, 1], [0, 0, 0, 1, 0, 1])


def tasks(thorough):
    out = []

    def add(fn, **k):
        out.append((fn, k))

    for b in ("vectorized", "loop", "C"):
        m = "linear" if b == "C" else "custom"
        for shape in ((2, 3), (3, 2), (1, 3), (3, 1), (2, 2)):
            nc = shape[0] * shape[1]
            masks = M6 if nc == 6 else ([1] + [0] * (nc - 1), [0, 1] + [0] * (nc - 2))
            add("grid", kind="ok", dim=2, n=2, shape=shape, backend=b, masks=masks, model=m)
        add("grid", kind="ok", dim=2, n=3, shape=(2, 3), backend=b, masks=M6[1:2], model=m, aniso=True)
        add("grid", kind="ok", dim=2, n=2, shape=(2, 3), backend=b, masks=M6[:1], model="linear", geographic=True)
        if b != "vectorized":
            add("grid", kind="ok", dim=2, n=2, shape=(1, 3), backend=b, masks=[[0, 1, 0]], model="linear", window=2)
            add("grid", kind="ok", dim=2, n=2, shape=(2, 1), backend=b, masks=[[0, 1]], model="linear", window=2, aniso=True)
        for bad in ((2, 2), (3, 3), (6,), (1, 6), (2, 3, 1)):
            add("badmask", kind="ok", dim=2, shape=(2, 3), bad=bad, backend=b)
        if b == "C":
            continue
        for shape in ((2, 2, 3), (3, 1, 2), (1, 3, 2)):
            nc = shape[0] * shape[1] * shape[2]
            masks = M6 if nc == 6 else ([1] + [0] * 11, [0, 1, 0, 0, 0, 1, 0, 1, 0, 0, 1, 0])
            add("grid", kind="ok", dim=3, n=2, shape=shape, backend=b, masks=masks)
            add("grid", kind="uk", dim=3, n=2, shape=shape, backend=b, masks=masks[:2], drifts=[])
            add("grid", kind="uk", dim=3, n=3, shape=shape, backend=b, masks=masks[:2], drifts=["spec"])
        for shape in ((2, 2, 2), (2, 1, 2), (1, 2, 2), (2, 2, 1)):
            add("grid", kind="uk", dim=3, n=3, shape=shape, backend=b, masks=[[0, 1] + [0] * (shape[0] * shape[1] * shape[2] - 2)], drifts=["spec"])
        add("grid", kind="uk", dim=3, n=3, shape=(3, 1, 2), backend=b, masks=M6[:1], drifts=["spec"], transposed=True)
        add("grid", kind="uk", dim=3, n=3, shape=(3, 1, 2), backend=b, masks=M6[:1], drifts=["func"])
        add("grid", kind="uk", dim=3, n=4, shape=(3, 1, 2), backend=b, masks=M6[:1], drifts=["lin"])
        add("grid", kind="ok", dim=3, n=2, shape=(3, 1, 2), backend=b, masks=M6[1:2], aniso=True)
        if b == "loop":
            add("grid", kind="ok", dim=3, n=2, shape=(2, 1, 1), backend=b, masks=[[0, 1]], window=2)
        for kd in ("ok", "uk"):
            for bad in ((2, 2, 2), (1, 2, 3), (12,), (3, 4), (2, 3, 2)):
                add("badmask", kind=kd, dim=3, shape=(2, 2, 3), bad=bad, backend=b)
        for bad in ((2, 2), (3, 3), (6,), (1, 6), (2, 3, 1)):
            add("badmask", kind="uk", dim=2, shape=(2, 3), bad=bad, backend=b)
        for drifts in ([], ["lin"], ["well"], ["extZx"], ["extZy"], ["spec"], ["spec2"], ["func"], ["spec", "func"]):
            n = 4 if drifts in (["lin"], ["spec2"], ["spec", "func"]) else 3
            for shape in ((2, 3), (3, 2), (2, 2), (1, 2)) if drifts == ["spec"] else ((2, 3), (2, 2)) if drifts == ["spec2"] else ((2, 3),):
                add("grid", kind="uk", dim=2, n=n, shape=shape, backend=b, masks=M6[:2] if shape[0] * shape[1] == 6 else [[0, 1] + [0] * (shape[0] * shape[1] - 2)], drifts=drifts)
            if "spec" in str(drifts):
                add("grid", kind="uk", dim=2, n=n, shape=(2, 3), backend=b, masks=M6[:1], drifts=drifts, transposed=True)
        add("grid", kind="uk", dim=2, n=3, shape=(3, 1), backend=b, masks=[[0, 1, 0]], drifts=["spec"])
        add("grid", kind="uk", dim=2, n=3, shape=(1, 3), backend=b, masks=[[0, 1, 0]], drifts=["spec"])
        add("grid", kind="uk", dim=2, n=3, shape=(2, 1), backend=b, masks=[[0, 1]], drifts=["func"], aniso=True)
        if thorough:
            add("grid", kind="ok", dim=3, n=2, shape=(2, 3, 4), backend=b, masks=[[0, 1, 0, 0] * 6])
    return out
