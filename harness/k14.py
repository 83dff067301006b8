"""K14: updating the variogram model."""
from .common import *

ID = "K14"


def setting(env, what, dim, tag):
    """Keyword arguments of one variogram setting."""
    kw = {}
    # A: scaling and angle differ from all other settings, R: common scaling
    # and different angle, U: the same with no scaling, T: different scaling and common angle
    if set("ARTU") & set(what):
        n = int(tag[1:])
        lo, hi = (Fraction(11, 10) + 3 * n, 4 + 3 * n) if not n else (Fraction(1, 10 * n), Fraction(9, 10 * n))

        def scal(a):
            return env.num(1) if "U" in what else env.num(2) if "R" in what else env.real("scal" + tag + a, lo, hi, [lo + (hi - lo) * Fraction(k + 1, 7) for k in range(5)])

        def ang(a):
            return env.num(30) if "T" in what else env.real("angle" + tag + a, 1 + 90 * n, 89 + 90 * n, [90 * n + r for r in (30, 75, 10, 60, 45)])

        if dim == 2:
            kw.update(anisotropy_scaling=scal(""), anisotropy_angle=ang(""))
        else:
            for a in "yz":
                kw["anisotropy_scaling_" + a] = scal(a)
            for a in "xyz":
                kw["anisotropy_angle_" + a] = ang(a)
    # C: common scaling and angle; a digit: the same except for one of them
    one = [ch for ch in what if ch in "12345C"]
    if one:
        names = ["anisotropy_scaling", "anisotropy_angle"] if dim == 2 else ["anisotropy_scaling_y", "anisotropy_scaling_z"] + ["anisotropy_angle_" + a for a in "xyz"]
        for i, a in enumerate(names):
            sc = "scaling" in a
            kw[a] = env.num(2 if sc else 30)
            if one[0] == str(i + 1):
                kw[a] = env.real(a + tag, 3, 4, ["7/2", 3, 4, "13/4", "10/3"]) if sc else env.real(a + tag, 40, 80, [45, 60, 75, 50, 70])
    if "c" in what:
        kw.update(mkmodel(env, "custom", tag).kw)
    if "l" in what:
        kw.update(mkmodel(env, "linear", tag).kw)
    if "d" in what:
        kw.update(variogram_model="linear", variogram_parameters=dict(
            slope=env.real("slope" + tag, "1/8", 10, [1, 2, "1/2", "3/2", 3]), nugget=env.real("nugget" + tag, 0, 5, ["1/2", 0, 1, "1/4", 0])))
    if "g" in what:
        kw.update(variogram_model="gaussian", variogram_parameters=[
            env.real("sill" + tag, 6, 10, [6, 7, 8, 9, 10]), env.real("range" + tag, "1/2", 50, [5, 6, 7, 8, 9]), env.real("nug" + tag, 0, 5, [1, 0, 2, 1, 3])])
    if "f" in what:
        kw.update(variogram_model="linear")
    if "w" in what:
        kw.update(weight=True)
    return kw


class Plain:
    kw = {}


def geometry(env, dim, n, kw):
    s = kw
    if not any(a.startswith("aniso") for a in s):
        return Iso(env, dim)
    if dim == 2:
        return Aniso2(env, s["anisotropy_scaling"], s["anisotropy_angle"])
    return Aniso3(env, s["anisotropy_scaling_y"], s["anisotropy_scaling_z"], *[s["anisotropy_angle_" + a] for a in "xyz"])


def update(env, kind, dim, n, backend, seq, drifts=(), nlags=1, layout=None, stats=False, style="points", geographic=False):
    """The settings seq[0], seq[1]... one after the other, against a new
    object with the last one."""
    if geographic:
        pts = lonlat(env, "d", n)
        base = Sphere(env)
        gapart(env, base, pts)
        env.nonsing = True
    elif layout == "line":
        pts = [tuple(env.num(c) for c in p[:dim]) for p in ((0, 0, 0), (1, 0, 0), (3, 0, 0))]
        base = Iso(env, dim)
    else:
        base = Iso(env, dim)
        pts = points(env, n, dim)
        apart(env, base, pts)
    sets = [setting(env, s, dim, "s%d" % i if "=" not in s else "s0") for i, s in enumerate(seq)]
    for s in sets:
        if "anisotropy_angle" in str(list(s)) and not geographic:
            apart(env, geometry(env, dim, n, s), pts)
    last = geometry(env, dim, n, sets[-1]) if not geographic else base
    if last is not base:
        apart(env, last, pts)
    zv = env.reals("v", n, -100, 100, PV)
    if "f" in str(seq):
        env.assume(env.OR(*[env.OR(zv[i] + env.num(Fraction(1, 8)) <= zv[0], zv[0] + env.num(Fraction(1, 8)) <= zv[i]) for i in range(1, n)]))
    if geographic:
        qs = [((env.real("qlon", -180, 180, [20, -45, 100, 60, -7]), env.real("qlat", -90, 90, [10, 30, -60, 5, 1])), None)]
        for p in pts:
            env.assume(base.dist(p, qs[0][0]) >= env.num(Fraction(1, 8)))
    else:
        qs = targets(env, base, pts, "free")
        for s in sets:
            if "anisotropy_angle" in str(list(s)):
                for q, _ in qs:
                    apart_from(env, geometry(env, dim, n, s), q, pts)
    kw, ekw, fd, fq = ({}, {}, [], [])
    if kind == "uk":
        kw, ekw, fd, fq = drift_2d(env, drifts, last, pts, qs, tuple([env.num(0)] * dim))
    pts0 = [tuple(p) for p in pts]
    ckw = dict(coordinates_type="geographic") if geographic else {}
    first = dict(sets[0], **ckw)

    def new(s):
        m = Model({k: v for k, v in s.items() if k.startswith("variogram")}, None)
        p = Plain()
        p.kw = {k: v for k, v in s.items() if not k.startswith("variogram")}
        return make(env, kind, dim, pts0, zv, m, p, nlags=s.get("nlags", nlags), **dict(kw, **(dict(stats=True) if stats else {})))

    k = new(first)
    for i, s in enumerate(sets[1:]):
        s = dict(s)
        if i == 0 and len(sets) > 2:
            execute(env, k, "points", qs, backend=backend, **ekw)
        model = s.pop("variogram_model")
        k.update_variogram_model(model, nlags=nlags, **s)
    ref = new(dict(sets[-1], **ckw))
    if kind == "uk":
        mod = Model(None, lambda d: ref.variogram_function(ref.variogram_model_parameters, env.arr([d]))[0])
        if not geographic:
            wellposed(env, last, mod, pts, fd)
    for a in ("lags", "semivariance", "variogram_model_parameters", "X_ADJUSTED", "Y_ADJUSTED", "Z_ADJUSTED", "epsilon", "delta", "sigma", "Q1", "Q2", "cR"):
        if hasattr(ref, a) != hasattr(k, a):
            env.check("attribute " + a, False)
        if hasattr(ref, a) and (stats or not a[0] in "edsQc") and getattr(ref, a) is not None:
            env.eq(a, getattr(k, a), getattr(ref, a))
    env.check("variogram model", k.variogram_model == ref.variogram_model)
    for st in ("points", "grid") if style == "both" else (style,):
        za, sa = execute(env, k, st, qs, backend=backend, **ekw)
        zb, sb = execute(env, ref, st, qs, backend=backend, **ekw)
        env.eq("values", za, zb)
        env.eq("variances", sa, sb)


BOUNDS = ("every class and backend, one to three updates between custom, linear, Gaussian and fitted models, with and without anisotropy and short-lag "
          "weights; 2-4 data points, one target; every drift; geographic coordinates; fit statistics for 2-3 points")
OUTSIDE = "more data points; GSTools models are decided in K27"
needs_c = c_task


def tasks(thorough):
    out = []

    def add(**k):
        out.append(("update", k))

    for kd, dim in (("ok", 2), ("uk", 2), ("ok", 3), ("uk", 3)):
        for b in ("vectorized", "loop") + (("C",) if (kd, dim) == ("ok", 2) else ()):
            last = "c" if b != "C" else "l"
            for seq in (["c", last], ["Ac", last], ["c", "A" + last], ["Ac", "A" + last], ["g", "l"], ["l", "g"], ["d", "l"],
                        ["A" + last, "l", "A" + last], ["A" + last, "=A" + last], ["A" + last, "l", "=A" + last],
                        ["R" + last, "R" + last], ["U" + last, "U" + last], ["l", "U" + last], ["T" + last, "T" + last], ["A" + last, "R" + last], ["l", "A" + last, last], ["l", "A" + last, "g"]):
                add(kind=kd, dim=dim, n=2, backend=b, seq=seq)
            for i in range(2 if dim == 2 else 5):
                for seq in (["C" + last, "%d%s" % (i + 1, last)], ["%d%s" % (i + 1, last), "C" + last]):
                    add(kind=kd, dim=dim, n=2, backend=b, seq=seq)
            for seq in (["c", "f"], ["f", "fw"], ["fw", "f"], ["f", last], ["fw", "g"]):
                add(kind=kd, dim=dim, n=3, backend=b, seq=seq, layout="line", nlags=3)
            for seq in (["c", last], ["Ac", last], ["l", "A" + last]):
                add(kind=kd, dim=dim, n=2, backend=b, seq=seq, stats=True)
        add(kind=kd, dim=dim, n=2, backend="loop", seq=["Ac", "Al", "Ac", "c"], style="both")
    for b in ("vectorized", "loop", "C"):
        for seq in (["c", "l"], ["l", "g", "l"]):
            add(kind="ok", dim=2, n=2, backend=b, seq=seq, geographic=True)
    for b in ("vectorized", "loop"):
        for d in (["well"], ["spec"], ["func"], ["extZx"], ["well2"], ["lin"]):
            n = 4 if d == ["lin"] else 3
            for seq in (["Cc", "1c"], ["2c", "Cc"], ["c", "Ac"], ["Ac", "c"], ["Rl", "Tc"], ["c", "Uc"], ["Ul", "Uc"]):
                if d == ["lin"]:
                    n = 3 if "A" in seq[-1] or "U" in seq[-1] else 4
                add(kind="uk", dim=2, n=n, backend=b, seq=seq, drifts=d)
        for d in (["spec"], ["func"]):
            add(kind="uk", dim=3, n=3, backend=b, seq=["Ac", "c"], drifts=d)
            add(kind="uk", dim=3, n=3, backend=b, seq=["c", "Ac"], drifts=d)
            add(kind="uk", dim=3, n=3, backend=b, seq=["c", "Uc"], drifts=d)
        add(kind="uk", dim=3, n=4, backend=b, seq=["Ac", "c"], drifts=["lin"])
    return out
