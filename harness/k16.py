"""K16: inputs stay unmodified; results repeat and do not depend on company."""
import itertools

import numpy

from .common import *

ID = "K16"


def arrays(env, kw):
    """Every array reachable from an argument."""
    out = []
    for v in kw if isinstance(kw, (list, tuple)) else kw.values():
        if isinstance(v, numpy.ndarray):
            out.append(v)
        elif isinstance(v, (list, tuple)) and v and isinstance(v[0], numpy.ndarray):
            out.extend(v)
    return out


def snapshot(kw):
    return [(a, a.copy()) for a in kw]


def unchanged(env, what, snap):
    for i, (a, b) in enumerate(snap):
        if a.dtype == bool:
            env.check("%s %d unmodified" % (what, i), bool((a == b).all()))
        else:
            env.eq("%s %d unmodified" % (what, i), a, b)


def spoil(kw):
    for a in kw:
        a[...] = (~a) if a.dtype == bool else 77.5


def lists(kw):
    return {k: (v, list(v)) for k, v in kw.items() if isinstance(v, list)}


def request(env, dim, style, qs):
    """Coordinate arrays and keywords of a request."""
    kw = {}
    if style == "points":
        return columns(env, [q for q, _ in qs]), kw
    cols = [env.arr(list(c)) for c in zip(*[q for q, _ in qs])]
    if style == "masked":
        m = env.np.zeros((2,) * dim, dtype=bool)
        m[(0,) * dim] = True
        kw["mask"] = m
    return cols, kw


def calls(env, kind, dim, n, backend, style, drifts=(), aniso=False, geographic=False, model="custom", where="free2", window=False, other=None):
    if geographic:
        geo = Sphere(env)
        pts = lonlat(env, "d", n)
        gapart(env, geo, pts)
        env.nonsing = True
        mod = mkmodel(env, model)
        qs = list(zip(env.reals("qlon", 2, -180, 180, [[12, 40], [7, -60], [150, 20], [60, 3], [-9, 17]]), env.reals("qlat", 2, -90, 90, [[8, 33], [-15, 5], [20, 60], [9, -44], [1, 13]])))
        for i, q in enumerate(qs):
            gapart(env, geo, [q], pts)
        qs = [(q, None) for q in qs]
        dr = ({}, {}, [], [])
    else:
        geo, pts, mod, qs, dr = setup(env, kind, dim, n, aniso, where, model, drifts)
    if style != "points" or other:  # all the nodes
        for q in itertools.product(*zip(*[q for q, _ in qs])):
            if geographic:
                gapart(env, geo, [q], pts)
            else:
                apart_from(env, geo, q, pts)
    zv = env.reals("v", n, -100, 100, PV)
    env.nonsing = True
    data = columns(env, pts) + [env.arr(list(zv))]
    kw = dict(mod.kw)
    kw.update(geo.kw)
    kw.update(dr[0])
    kw["nlags"] = 1
    given = data + arrays(env, kw)
    s, l = snapshot(given), lists(kw)
    if env.sym:
        env.no_statistics(CLS[kind, dim][0])
    k = kclass(env, kind, dim)(*data, **kw)
    unchanged(env, "constructor array", s)
    cols, ekw = request(env, dim, style, qs)
    ekw.update(shaped(env, dim, style, dr[1]))
    rq = cols + arrays(env, ekw)
    s2 = snapshot(rq)
    if window:
        ekw["n_closest_points"] = n
    b = dict(backend=backend)
    z1, v1 = k.execute(style, *cols, **ekw, **b)
    unchanged(env, "requested array", s2)
    unchanged(env, "constructor array after execute", s)
    for name, (a, o) in l.items():
        env.check("list %s unmodified" % name, len(a) == len(o) and all(x is y for x, y in zip(a, o)))
    z1, v1 = z1.copy(), v1.copy()
    # other requests in between
    for st, bk in (other or [("points", "vectorized")]):
        c2, e2 = request(env, dim, st, qs[::-1])
        e2.update(shaped(env, dim, st, {a: [x[::-1] for x in v] for a, v in dr[1].items()}))
        rz, rv = k.execute(st, *c2, backend=bk, **e2)
        rz[...] = 55.25  # the caller's own results
        rv[...] = 55.25
    spoil(given)
    z2, v2 = k.execute(style, *cols, **ekw, **b)
    env.eq("values again", z2, z1)
    env.eq("variances again", v2, v1)


def shaped(env, dim, style, ekw):
    """Specified drift at the nodes of a grid: take the values as given for
    points, repeated along the other axes."""
    if style == "points" or not ekw:
        return ekw
    return {a: [grid_of(env, x, dim) for x in v] for a, v in ekw.items()}


def grid_of(env, x, dim):
    return env.arr([[x[0], x[1]], [x[1], x[0]]]) if dim == 2 else env.arr([[[x[0], x[1]], [x[1], x[0]]], [[x[0], x[0]], [x[1], x[1]]]])


def company(env, kind, dim, n, backend, where, drifts=(), aniso=False, model="custom", exact=True, window=False):
    """A point's prediction alone, with others, and in another order."""
    geo, pts, mod, qs, dr = setup(env, kind, dim, n, aniso, where, model, drifts)
    zv = env.reals("v", n, -100, 100, PV)
    env.nonsing = True
    k = make(env, kind, dim, pts, zv, mod, geo, exact_values=exact, **dr[0])

    def run(idx):
        e = {a: [env.arr([x[i] for i in idx]) for x in v] for a, v in dr[1].items()}
        if window:
            e["n_closest_points"] = n
        return execute(env, k, "points", [qs[i] for i in idx], backend=backend, **e)

    za, va = run([0, 1])
    zb, vb = run([1, 0])
    zc, vc = run([0])
    zd, vd = run([1])
    ze, ve = run([0, 1, 0])
    for i, (z, v) in ((0, (zb[1], vb[1])), (0, (zc[0], vc[0])), (1, (zb[0], vb[0])), (1, (zd[0], vd[0])), (0, (ze[0], ve[0])), (0, (ze[2], ve[2])), (1, (ze[1], ve[1]))):
        env.eq("value of point %d" % i, z, za[i])
        env.eq("variance of point %d" % i, v, va[i])


BOUNDS = ("2-4 data points, 2 requested points or a 2x2 (2x2x2) grid; every style and backend, every drift kind, anisotropy, geographic coordinates; "
          "a second request of another style in between, whose results the caller overwrites; every constructor array overwritten afterwards; "
          "points alone, in both orders, repeated, on and off a datum")
OUTSIDE = "longer histories; aliasing of Python lists of parameters (only checked to be unmodified)"
needs_c = c_task


def tasks(thorough):
    out = []

    def add(f, **k):
        out.append((f, k))

    D2 = [[], ["lin"], ["well"], ["extZ"], ["spec"], ["func"], ["spec2", "lin"]]
    D3 = [[], ["lin"], ["spec"], ["func"]]
    for kd, dim in (("ok", 2), ("uk", 2), ("ok", 3), ("uk", 3)):
        bk = ["vectorized", "loop"] + (["C"] if (kd, dim) == ("ok", 2) else [])
        for b in bk:
            m = "linear" if b == "C" else "custom"
            for dr in [[]] if kd == "ok" else D2 if dim == 2 else D3:
                n = 2 if not dr else 3 + (dim if "lin" in dr else 0) - (1 if dim == 2 else 0)
                n = max(n, {0: 2, 1: 3}.get(len(dr), 4))
                if "lin" in dr:
                    n = dim + 2 + len(dr) - 1 + (1 if "spec2" in dr else 0)
                for st in ("points", "grid", "masked"):
                    o = [("grid", "vectorized"), ("masked", b)] if st == "points" and not dr else None
                    add("calls", kind=kd, dim=dim, n=n, backend=b, style=st, drifts=dr, model=m, other=o)
                    if not dr:
                        add("calls", kind=kd, dim=dim, n=n, backend=b, style=st, drifts=dr, aniso=True, model=m)
                        if dim == 2 and kd == "ok":
                            add("calls", kind=kd, dim=dim, n=n, backend=b, style=st, geographic=True, model=m)
                if b != "C" and dr and dr != ["lin"] and len(dr) < 2:
                    add("calls", kind=kd, dim=dim, n=3 if "func" not in dr or dim == 2 else 4, backend=b, style="points", drifts=dr, aniso=True, model=m)
                for w in ("free2", "mix", "xim"):
                    for ex in (True, False) if w != "free2" else (True,):
                        add("company", kind=kd, dim=dim, n=n, backend=b, where=w, drifts=dr, model=m, exact=ex)
                if not dr:
                    add("company", kind=kd, dim=dim, n=2, backend=b, where="mix", aniso=True, model=m)
            if kd == "ok" and b != "vectorized":
                add("calls", kind=kd, dim=dim, n=2, backend=b, style="points", model=m, window=True)
                for w in ("free2", "mix", "xim"):
                    for ex in (True, False) if w != "free2" else (True,):
                        add("company", kind=kd, dim=dim, n=2, backend=b, where=w, model=m, exact=ex, window=True)
                if True:
                    add("calls", kind=kd, dim=dim, n=3 if thorough and dim == 2 else 2, backend=b, style="grid", model=m, window=True)
    return out
