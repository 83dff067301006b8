"""K25: the compiled backend stays inside its buffers.

Symbolically every memory access of the Cython sources is checked (indices
against shapes, pointers against their blocks, BLAS and LAPACK arguments
against leading dimensions, reads of uninitialised variables).  Replays
compile the sources with bounds checks and run them with guard pages behind
every numpy array."""
from .common import *

ID = "K25"
CHECKED = True
HERE = [(0, 0), (4, 1), (1, 5), (-3, 2), (6, -4), (9, 8), (-7, -2), (2, -9)]
THERE = [(2, 3), (-5, 7), (8, 2), (0, 0), (3, -3), (-8, -8)]
PARS = {"linear": [2, Fraction(1, 2)], "power": [2, Fraction(3, 2), Fraction(1, 2)], "gaussian": [2, 10, Fraction(1, 2)],
        "spherical": [2, 10, Fraction(1, 2)], "exponential": [2, 10, Fraction(1, 2)]}


def run(env, k, style, qs, mask, window):
    """(values, variances) or the error, from the compiled backend."""
    kw = dict(backend="C")
    if window:
        kw["n_closest_points"] = window
    cols = [env.arr(list(c)) for c in qs]
    if mask is not None:
        kw["mask"] = env.np.array(mask, dtype=bool).reshape((len(qs[1]), len(qs[0])))

    def go():
        z, ss = k.execute(style, *cols, **kw)
        if mask is not None:
            z, ss = z.data, ss.data
        return z.reshape((-1,)), ss.reshape((-1,))

    return env.guarded(go)


def judge(env, name, res, npt, mask):
    kind, r = res
    env.check("%s: no error" % name, kind == "value", str(r)[:200] if kind != "value" else "")
    for what, a in zip(("values", "variances"), r):
        env.check("%s: number of %s" % (name, what), a.shape == (npt,))
        for i in range(npt):
            if mask is not None and mask[i]:
                env.check("%s: masked entry %d of %s untouched" % (name, i, what), env.same(a[i], 0))
            else:
                env.defined("%s: entry %d of %s" % (name, i, what), env.arr([a[i]]))


def request(env, n, style, shape, mask=None, windows=(None,), model="linear", exact=True, pinv=None, free=False, datum=False, geographic=False, aniso=False):
    """Values symbolic; coordinates symbolic (free) or a fixed layout."""
    env.nonsing = True
    geo = Iso(env)
    kw = {}
    if geographic:
        geo = Sphere(env)
        kw.update(geo.kw)
        pts = lonlat(env, "d", n)
        gapart(env, geo, pts)
    elif free:
        geo = mkgeo(env, aniso)
        kw.update(geo.kw)
        pts = points(env, n, 2)
        apart(env, geo, pts)
    else:
        pts = [tuple(env.num(v) for v in p) for p in HERE[:n]]
    if geographic:
        qs = [[env.real("qlon", -180, 180, [20, -45, 100, 60, -7])], [env.real("qlat", -90, 90, [10, 30, -60, 5, 1])]]
        gapart(env, geo, [(qs[0][0], qs[1][0])], pts)
    elif free:
        nodes = line_nodes(env, geo, pts, 0, "datum" if datum else "free", shape[0])
        qs = [[q[0] for q, _ in nodes], [nodes[0][0][1]] * (shape[0] if style == "points" else 1)]
    elif style == "points":
        at = ([pts[0]] if datum else []) + [tuple(env.num(v) for v in q) for q in THERE[:3] + THERE[4:]]
        qs = list(zip(*(at * 2)[:shape[0]]))
    else:
        xs = [(pts[0][0] if datum else env.num(2))] + [env.num(v) for v in (-5, 11, 7)]
        ys = [(pts[0][1] if datum else env.num(3))] + [env.num(v) for v in (7, -6, 12)]
        qs = [xs[:shape[0]], ys[:shape[1]]]
    zv = env.reals("v", n, -100, 100, PV + [p[::-1] + p for p in PV]) if n <= 7 else env.reals("v", n, -100, 100, [p + p for p in PV])
    if env.sym:
        env.no_statistics("pykrige.ok")
    if pinv:
        kw.update(pseudo_inv=True, pseudo_inv_type=pinv)
    kw.update(variogram_model=model, variogram_parameters=[env.num(Fraction(v)) for v in PARS[model]], nlags=1, exact_values=exact)
    k = kclass(env, "ok", 2)(*columns(env, pts), env.arr(list(zv)), **kw)
    npt = shape[0] if style == "points" else shape[0] * shape[1]
    for w in windows:
        judge(env, "window %s" % w, run(env, k, style, qs, mask, w), npt, mask)


def singular(env, n, style, window, dup, near, second=None, mask=None):
    """Duplicated data without nugget: the solve of a request whose window
    holds both fails, and the failure is reported."""
    pts = [tuple(env.num(v) for v in p) for p in HERE[:n]]
    pts[dup[1]] = pts[dup[0]]
    qs = [pts[i] if i is not None else (env.num(2), env.num(3)) for i in near]
    # close to the data of the given index, not on them
    qs = [(x + env.num(Fraction(1, 4)), y) for x, y in qs]
    zv = env.reals("v", n, -100, 100, PV)
    slope = env.real("slope", "1/10", 10, [1, 2, "1/2", 4, 3])
    if env.sym:
        env.no_statistics("pykrige.ok")
    k = kclass(env, "ok", 2)(*columns(env, pts), env.arr(list(zv)), variogram_model="linear", variogram_parameters=[slope, env.num(0)], nlags=1)
    kind, r = run(env, k, style, list(zip(*qs)) if style == "points" else [[qs[0][0]], [qs[0][1]]], mask, window)
    if mask and all(mask):
        env.check("nothing to solve", kind == "value")
    else:
        env.check("the failed solve is reported", kind == "error")


def lapack(env, n, window, npt, fail, code):
    """Whatever LAPACK reports for the solve number fail (symbolically only:
    a negative code cannot be provoked)."""
    pts = [tuple(env.num(v) for v in p) for p in HERE[:n]]
    if not env.sym:
        # a duplicated datum close to the failing request only
        pts[-1] = pts[-2]
        qs = [(env.num(1000), env.num(10 * i)) for i in range(npt)]
        qs[fail] = (pts[-1][0] + Fraction(1, 4), pts[-1][1])
        qs = [(float(x), float(y)) for x, y in qs]
    else:
        qs = [tuple(env.num(v) for v in q) for q in THERE[:npt]]
    zv = env.reals("v", n, -100, 100, PV)
    if env.sym:
        env.no_statistics("pykrige.ok")
        count = [0]

        def hook(size):
            count[0] += 1
            return code if count[0] == fail + 1 else 0

        env.c.dgesv_info = hook
    k = kclass(env, "ok", 2)(*columns(env, pts), env.arr(list(zv)), variogram_model="linear", variogram_parameters=[env.num(1), env.num(0)], nlags=1)
    kind, r = run(env, k, "points", list(zip(*qs)), None, window)
    env.check("the failed solve is reported", kind == "error")


BOUNDS = ("2-8 data points, 1-8 requests as points, grids and masked grids up to 3x3 with every mask of small grids, windows of 2 to all points and none, several "
          "windows in a row on one object; all five compiled models, exact or filtering, pseudo-inverse, a request on a datum; symbolic values, symbolic coordinates "
          "(anisotropic, geographic) up to 3 points, fixed layouts beyond; solves failing at any position")
OUTSIDE = "memory safety of numpy, scipy, BLAS and LAPACK themselves; symbolic sizes (sizes are enumerated within the bounds)"


def needs_c(fn, cfg):
    return True


def tasks(thorough):
    out = []

    def add(fn, **k):
        out.append((fn, k))

    import itertools

    for n in (2, 3, 4, 5, 6, 8):
        ws = [None] + [w for w in range(2, n + 1)]
        for npt in (1, 2, 3, 5, 8) if n < 6 else (1, 3):
            add("request", n=n, style="points", shape=[npt], windows=ws[:4], model="linear")
        if n > 3:
            add("request", n=n, style="points", shape=[2], windows=[n, 2, None, 3])
            add("request", n=n, style="points", shape=[2], windows=[n - 1, n, n - 1])
            for w in ws[4:]:
                add("request", n=n, style="points", shape=[2], windows=[w], model="linear")
    for m in PARS:
        for n in (2, 3):
            for ex in (True, False):
                for d in (True, False):
                    add("request", n=n, style="points", shape=[2], windows=[None, 2], model=m, exact=ex, datum=d)
    for t in ("pinv", "pinvh"):
        for n in (2, 3, 4):
            add("request", n=n, style="points", shape=[2], windows=[None, 2, n], pinv=t)
            add("request", n=n, style="grid", shape=[2, 2], windows=[None, 2, n], pinv=t)
    for sh in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (3, 3)):
        for n in (2, 3):
            for d in (False, True):
                add("request", n=n, style="grid", shape=list(sh), windows=[None, 2, n], datum=d)
        cells = sh[0] * sh[1]
        masks = list(itertools.product((0, 1), repeat=cells)) if cells <= 4 else [[0] * cells, [1] * cells, [i % 2 for i in range(cells)], [(i + 1) % 2 for i in range(cells)],
                                                                                  [i != cells - 1 for i in range(cells)], [i != 0 for i in range(cells)],
                                                                                  [i == 0 for i in range(cells)], [i == cells - 1 for i in range(cells)]]
        for mk in masks:
            add("request", n=3, style="masked", shape=list(sh), mask=[bool(v) for v in mk], windows=[None, 2, 3])
    for n in (2, 3):
        for w in ([None], [2], [3])[:n]:
            for d in (False, True):
                add("request", n=n, style="points", shape=[2], windows=w, free=True, datum=d)
                if n == 2:
                    add("request", n=n, style="grid", shape=[2, 1], windows=w, free=True, datum=d)
                    for mk in ([True, False], [False, True], [True, True]):
                        add("request", n=n, style="masked", shape=[2, 1], windows=w, free=True, datum=d, mask=mk)
        add("request", n=n, style="points", shape=[1], windows=[None], free=True, aniso=True)
    for w in ([None], [2]):
        add("request", n=2, style="points", shape=[1], windows=w, geographic=True)
    # failed solves
    for st in ("points", "grid"):
        add("singular", n=3, style=st, window=None, dup=[0, 2], near=[1])
        add("singular", n=3, style=st, window=3, dup=[0, 2], near=[1])
        add("singular", n=4, style=st, window=2, dup=[1, 3], near=[1])
        add("singular", n=4, style=st, window=3, dup=[1, 3], near=[1])
    add("singular", n=3, style="masked", window=3, dup=[0, 1], near=[0], mask=[False])
    add("singular", n=3, style="masked", window=3, dup=[0, 1], near=[0], mask=[True])
    add("singular", n=6, style="points", window=2, dup=[1, 3], near=[5, 1])
    add("singular", n=6, style="points", window=2, dup=[1, 3], near=[1, 5])
    add("singular", n=6, style="points", window=2, dup=[1, 3], near=[5, 4, 1])
    for npt in (1, 2, 3):
        for f in range(npt):
            for code in (1, 2, 3, -1, -3):
                add("lapack", n=4, window=2, npt=npt, fail=f, code=code)
    return out
