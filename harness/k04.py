"""K04: all backends return the same numbers."""
from .common import *

ID = "K04"


def backends(kind, dim, window, model):
    if window:
        return ["loop", "C"] if dim == 2 else ["loop"]
    return ["vectorized", "loop"] + (["C"] if kind == "ok" and dim == 2 else [])


def agree(env, kind, dim, n, aniso=False, where="mix", exact=True, drifts=(), window=None, pinv=None, model="linear", dup=False):
    geo, pts, mod, qs, (kw, ekw, fd, fq) = setup(env, kind, dim, n, aniso, where, model, drifts)
    if fd:
        wellposed(env, geo, mod, pts, fd)
    if pinv:
        kw = dict(kw, pseudo_inv=True, pseudo_inv_type=pinv)
    if dup:
        pts = pts + [pts[0]]
        n += 1
        env.nonsing = False
    if window:
        ekw = dict(ekw, n_closest_points=window)
    zv = env.reals("v", n, -100, 100, PV)
    k = make(env, kind, dim, pts, zv, mod, geo, exact_values=exact, **kw)
    res = [(b, execute(env, k, "points", qs, backend=b, **ekw)) for b in backends(kind, dim, window, model)]
    for b, (z, ss) in res[1:]:
        env.eq("values of %s" % b, z, res[0][1][0])
        env.eq("variances of %s" % b, ss, res[0][1][1])


def grid(env, kind, dim, n, style, mask=None, exact=True, drifts=(), window=None, model="linear"):
    """A small grid through one datum; masked cells."""
    geo = Iso(env, dim)
    pts = points(env, n, dim)
    apart(env, geo, pts)
    mod = mkmodel(env, model)
    xs = [env.real("gx", -50, 50, ["3/2", 7, -2, 5, 4]), pts[1][0]]
    ys = [pts[1][1], env.real("gy", -50, 50, [6, "-5/2", 3, 9, 7])][: 2 if dim == 2 else 1]
    zs = [pts[1][2]] if dim == 3 else [None]
    cells = [(x, y) + ((z,) if dim == 3 else ()) for z in zs for y in ys for x in xs]
    qs = []
    for i, c in enumerate(cells):
        at = 1 if all(a is b for a, b in zip(c, pts[1])) else None
        qs.append((c, at))
        others = [p for j, p in enumerate(pts) if j != at]
        apart_from(env, geo, c, others)
    kw, ekw = {}, {}
    if kind == "uk":
        kw, ekw, fd, fq = drift_2d(env, drifts, geo, pts, qs, tuple([env.num(0)] * dim))
        if fd:
            wellposed(env, geo, mod, pts, fd)
        if "specified_drift_arrays" in ekw:
            shp = (len(ys), len(xs)) if dim == 2 else (1, len(ys), len(xs))
            ekw["specified_drift_arrays"] = [env.arr(a).reshape(shp) for a in ekw["specified_drift_arrays"]]
    if window:
        ekw = dict(ekw, n_closest_points=window)
    zv = env.reals("v", n, -100, 100, PV)
    k = make(env, kind, dim, pts, zv, mod, geo, exact_values=exact, **kw)
    shp = (len(ys), len(xs)) if dim == 2 else (1, len(ys), len(xs))
    mm = None
    if style == "masked":
        mm = env.np.array(mask, dtype=bool).reshape(shp)
        ekw = dict(ekw, mask=mm)
    args = [env.arr(xs), env.arr(ys)] + ([env.arr(zs)] if dim == 3 else [])
    ref = None
    for b in backends(kind, dim, window, model):
        z, ss = k.execute(style, *args, backend=b, **ekw)
        if ref is None:
            ref = (z, ss)
            continue
        for what, u, v in (("values", z, ref[0]), ("variances", ss, ref[1])):
            env.check("shape", u.shape == v.shape)
            if style == "masked":
                env.mask_is(what, u, mm)
                env.mask_is(what, v, mm)
            for idx in env.np.ndindex(*shp):
                if mm is None or not bool(mm[idx]):
                    env.check("%s of %s at %s" % (what, b, idx), env.same(raw(env, u)[idx], raw(env, v)[idx]))


def raw(env, a):
    return a.data if env.is_masked_array(a) else a


def geographic(env, n, exact, window=None):
    """Longitude / latitude."""
    geo = Sphere(env)
    pts = lonlat(env, "d", n)
    q = lonlat(env, "q", 1, [[15], [80], [-170], [33], [8]], [[12], [33], [50], [-44], [1]])[0]
    gapart(env, geo, pts, [q])
    env.nonsing = True
    mod = mkmodel(env, "linear")
    zv = env.reals("v", n, -100, 100, PV)
    k = make(env, "ok", 2, pts, zv, mod, geo, exact_values=exact)
    lon, lat = zip(*pts)
    ekw = dict(n_closest_points=window) if window else {}
    ref = None
    for b in ["loop", "C"] if window else ["vectorized", "loop", "C"]:
        r = k.execute("points", env.arr([q[0], lon[0]]), env.arr([q[1], lat[0]]), backend=b, **ekw)
        if ref is not None:
            env.eq("values of %s" % b, r[0], ref[0])
            env.eq("variances of %s" % b, r[1], ref[1])
        else:
            ref = r


BOUNDS = ("2-4 data points in [-50, 50], 2 target points (free / on a datum / on a well) or a 2x2 grid (2x1x1 in 3D) with several masks; "
          "ordinary and universal kriging in 2D and 3D; every drift type; exact on/off; pseudo-inverse on/off (both types, also with a "
          "duplicated datum); windows of 2 and 3; geographic coordinates with 2-3 data; every variogram function between the Python "
          "backends, the linear model with any slope and nugget against the compiled one")
OUTSIDE = "variogram models other than linear in the compiled backend (K10 decides that they equal the Python ones)"


def needs_c(fn, cfg):
    return fn == "geographic" or cfg.get("kind") == "ok" and cfg.get("dim") == 2


def tasks(thorough):
    out = []

    def add(fn, **k):
        out.append((fn, k))

    ns = (2, 3) if not thorough else (2, 3, 4)
    for n in ns:
        add("geographic", n=n, exact=True)
        add("geographic", n=n, exact=False)
        for exact in (True, False):
            for where in ("mix", "xim"):
                for aniso in (False, True) if n < 4 else (False,):
                    add("agree", kind="ok", dim=2, n=n, aniso=aniso, where=where, exact=exact)
                    add("agree", kind="ok", dim=3, n=n, aniso=aniso, where=where, exact=exact, model="custom")
                add("agree", kind="ok", dim=2, n=n, where=where, exact=exact, window=2)
            for pinv in ("pinv", "pinvh"):
                add("agree", kind="ok", dim=2, n=n, exact=exact, pinv=pinv)
                add("agree", kind="ok", dim=3, n=n, exact=exact, pinv=pinv, model="custom")
            add("agree", kind="ok", dim=2, n=2, exact=exact, pinv="pinv", dup=True, model="linear0")
            add("agree", kind="ok", dim=3, n=2, exact=exact, pinv="pinv", dup=True, model="linear0")
    add("agree", kind="ok", dim=2, n=3, where="mix", window=3)
    add("agree", kind="ok", dim=2, n=2, where="near")
    add("agree", kind="ok", dim=2, n=2, where="near", window=2)
    add("agree", kind="ok", dim=3, n=2, where="near", model="custom")
    add("agree", kind="ok", dim=3, n=2, where="near", window=2, model="custom")
    for dim in (2, 3):
        add("agree", kind="uk", dim=dim, n=3, where="near", drifts=["func"], model="custom")
    add("agree", kind="ok", dim=2, n=3, aniso=True, where="free2", window=2)
    add("geographic", n=2, exact=True, window=2)
    for drifts in (["lin"], ["well"], ["well2"], ["well@q"], ["well@d"], ["extZx"], ["extZy"], ["spec"], ["spec2"], ["func"], ["func2"],
                   ["lin", "spec"], ["well", "extZx"], ["spec", "func"], []):
        n = 4 if drifts and (drifts[0] in ("lin", "well2", "spec2", "func2") or len(drifts) > 1) else 3
        for where in ("mix", "xim"):
            add("agree", kind="uk", dim=2, n=n, where=where, drifts=drifts, model="custom")
        add("agree", kind="uk", dim=2, n=n, where="mix", exact=False, drifts=drifts, model="custom")
        add("agree", kind="uk", dim=2, n=n, where="mix", pinv="pinv", drifts=drifts, model="custom")
        if not any(d.startswith(("well", "ext")) for d in drifts) and drifts != ["lin", "spec"]:
            for where in ("mix", "xim"):
                add("agree", kind="uk", dim=3, n=n, where=where, drifts=drifts, model="custom")
            add("agree", kind="uk", dim=3, n=n, where="mix", exact=False, drifts=drifts, model="custom")
        if drifts in (["lin"], ["well"], ["func"]):
            add("agree", kind="uk", dim=2, n=n, aniso=True, where="mix", drifts=drifts, model="custom")
    for m in ([1, 0, 0, 0], [0, 1, 0, 1], [0, 0, 1, 0], [0, 0, 0, 0], [1, 1, 1, 1]):
        add("grid", kind="ok", dim=2, n=2, style="masked", mask=m)
        add("grid", kind="ok", dim=2, n=2, style="masked", mask=m, exact=False)
        add("grid", kind="ok", dim=2, n=2, style="masked", mask=m, window=2)
        for drifts in (["spec"], ["func"], ["extZx"], ["well"]):
            if m[0] + m[1] == 1 or drifts == ["spec"]:
                add("grid", kind="uk", dim=2, n=3, style="masked", mask=m, drifts=drifts, model="custom")
    for m in ([1, 0], [0, 1], [0, 0]):
        add("grid", kind="ok", dim=3, n=2, style="masked", mask=m, model="custom")
        add("grid", kind="uk", dim=3, n=3, style="masked", mask=m, model="custom", drifts=["spec"])
    add("grid", kind="ok", dim=2, n=3, style="grid")
    add("grid", kind="ok", dim=3, n=3, style="grid", model="custom")
    add("grid", kind="uk", dim=2, n=3, style="grid", model="custom", drifts=["spec"])
    add("grid", kind="uk", dim=3, n=3, style="grid", model="custom", drifts=["spec"])
    return out
