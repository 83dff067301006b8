"""K15: cross-validation statistics."""
from .common import *

ID = "K15"


def expected(env, geo, gam, pts, zv, skip=()):
    """Residuals and estimation variances of each datum after the first from
    the data before it."""
    out = []
    for i in range(1, len(pts)):
        if i in skip:
            continue
        A = gamma_matrix(env, geo, gam, pts[:i])
        b = gamma_rhs(env, geo, gam, pts[:i], pts[i], True)
        M = [[-v for v in A[r]] + [1] for r in range(i)] + [[1] * i + [0]]
        G = env.inv(M)
        B = [-v for v in b] + [1]
        x = []
        for r in range(i + 1):
            t = G[r][0] * B[0]
            for c in range(1, i + 1):
                t = t + G[r][c] * B[c]
            x.append(t)
        z, ss = x[0] * zv[0], -(x[0] * B[0])
        for r in range(1, i + 1):
            ss = ss - x[r] * B[r]
            if r < i:
                z = z + x[r] * zv[r]
        out.append((zv[i] - z, ss))
    return out


def bounded(env, ss):
    """Away from zero: the datum is not a repetition."""
    env.assume(ss >= env.num(Fraction(1, 100)))
    env.assume(env.sqrt(ss) >= env.num(Fraction(1, 10)))


def compare(env, k, exp):
    m = len(exp)
    env.check("number of residuals", len(k.delta) == m and len(k.sigma) == m and len(k.epsilon) == m)
    q1, q2, ls = env.num(0), env.num(0), env.num(0)
    for i, (d, ss) in enumerate(exp):
        s = env.sqrt(ss)
        env.check("residual %d" % i, env.same(k.delta[i], d))
        env.check("kriging standard deviation %d" % i, env.same(k.sigma[i], s))
        env.check("normalised residual %d" % i, env.same(k.epsilon[i], d / s))
        q1, q2, ls = q1 + d / s, q2 + d / s * (d / s), ls + env.log(ss)
    if m:
        q1 = env.abs(q1 / m)
        env.check("Q1", env.same(k.Q1, q1))
        env.check("Q2", env.same(k.Q2, q2 / m))
        env.check("cR", env.same(k.cR, q2 / m * env.exp(ls / m)))
    e = k.get_epsilon_residuals()
    env.eq("get_epsilon_residuals", list(e), list(k.epsilon))
    s = k.get_statistics()
    env.check("get_statistics", len(s) == 3 and (m == 0 or env.AND(env.same(s[0], k.Q1), env.same(s[1], k.Q2), env.same(s[2], k.cR))))


def fetch(env, k):
    """Printing and fetching change nothing."""
    import contextlib
    import io

    before = {a: list(getattr(k, a)) for a in ("delta", "sigma", "epsilon")}
    with contextlib.redirect_stdout(io.StringIO()):
        k.print_statistics()
        k.get_statistics()
        k.get_epsilon_residuals()
    for a, v in before.items():
        env.eq(a + " unchanged", list(getattr(k, a)), v)


def stats(env, kind, dim, n, aniso=False, geographic=False, model="custom", update=False, drifts=()):
    if geographic:
        geo = Sphere(env)
        pts = lonlat(env, "d", n)
        gapart(env, geo, pts)
    else:
        geo = mkgeo(env, aniso, dim)
        if aniso and update:  # equal settings: K14
            sc = geo.k if dim == 2 else geo.k[0]
            env.assume(env.OR(sc <= env.num(Fraction(9, 10)), sc >= env.num(Fraction(11, 10))))
        pts = points(env, n, dim)
        apart(env, geo, pts)
    env.nonsing = True
    mod = mkmodel(env, model)
    zv = env.reals("v", n, -100, 100, PV)
    exp = expected(env, geo, mod.gam, pts, zv)
    for _, ss in exp:
        bounded(env, ss)
    kw = {}
    if kind == "uk":
        kw = drift_2d(env, drifts, geo, pts, [], tuple([env.num(0)] * dim))[0]
    if update:
        k = make(env, kind, dim, pts, zv, mkmodel(env, "linear", "u"), Iso(env, dim) if not geographic else geo, **kw)
        if env.sym:  # the constructor's statistics were left out
            env.with_statistics(CLS[kind, dim][0])
        k.update_variogram_model(mod.kw["variogram_model"], mod.kw["variogram_parameters"], variogram_function=mod.kw.get("variogram_function"), nlags=1,
                                 **{a: b for a, b in geo.kw.items() if a.startswith("aniso")})
    else:
        k = make(env, kind, dim, pts, zv, mod, geo, stats=True, **kw)
    compare(env, k, exp)
    fetch(env, k)


def skipped(env, kind, dim, n, model="linear0"):
    """The last datum repeats the place of an earlier one: no residual."""
    geo = Iso(env, dim)
    pts = points(env, n, dim)
    apart(env, geo, pts)
    env.nonsing = True
    mod = mkmodel(env, model)
    zv = env.reals("v", n + 1, -100, 100, PV)
    pts = pts + [pts[n - 2]]
    exp = expected(env, geo, mod.gam, pts, zv, skip=(n,))
    for _, ss in exp:
        bounded(env, ss)
    k = make(env, kind, dim, pts, zv, mod, geo, stats=True)
    compare(env, k, exp)
    fetch(env, k)


def repeated(env, kind, dim, n, src, at, model="linear0", pinv=False, update=False):
    """Datum `at` repeats the place of datum `src`: no residual for it, and
    later data are still compared. Without nugget the pseudo inverse averages
    the two."""
    geo = Iso(env, dim)
    pts = points(env, n, dim)
    apart(env, geo, pts)
    env.nonsing = True
    mod = mkmodel(env, model)
    if model != "linear0":
        env.assume(mod.gam(env.num(0)) >= env.num(Fraction(1, 8)))
    pts = pts[:at] + [pts[src]] + pts[at:]
    zv = env.reals("v", n + 1, -100, 100, PV)
    if model == "linear0":
        exp = expected(env, geo, mod.gam, pts[:at], zv)
        z2 = list(zv)
        z2[src] = (zv[src] + zv[at]) / 2
        exp = exp + expected(env, geo, mod.gam, pts[:at] + pts[at + 1:], z2[:at] + z2[at + 1:])[at - 1:]
    else:
        exp = expected(env, geo, mod.gam, pts, zv, skip=(at,))
    for _, ss in exp:
        bounded(env, ss)
    kw = {"pseudo_inv": True} if pinv else {}
    if update:
        first = mkmodel(env, "linear", "u")
        env.assume(first.gam(env.num(0)) >= env.num(Fraction(1, 8)))
        k = make(env, kind, dim, pts, zv, first, geo, **kw)
        if env.sym:
            env.with_statistics(CLS[kind, dim][0])
        k.update_variogram_model(mod.kw["variogram_model"], mod.kw["variogram_parameters"], variogram_function=mod.kw.get("variogram_function"), nlags=1)
    else:
        k = make(env, kind, dim, pts, zv, mod, geo, stats=True, **kw)
    compare(env, k, exp)
    fetch(env, k)


def off(env):
    """Without enable_statistics there is nothing to report; predictions are
    the same."""
    geo = Iso(env, 2)
    pts = points(env, 2, 2)
    apart(env, geo, pts)
    mod = mkmodel(env, "linear")
    zv = env.reals("v", 2, -100, 100, PV)
    env.nonsing = True
    q = targets(env, geo, pts, "free")
    a = make(env, "ok", 2, pts, zv, mod, geo, stats=True)
    b = make(env, "ok", 2, pts, zv, mod, geo)
    za, sa = execute(env, a, "points", q)
    fetch(env, a)
    zb, sb = execute(env, b, "points", q)
    env.eq("values", za, zb)
    env.eq("variances", sa, sb)
    zc, sc = execute(env, a, "points", q)
    env.eq("values again", zc, za)


BOUNDS = ("2-3 data points (thorough: 4) in [-50, 50] pairwise at least 1/8 apart, estimation variances at least 1/100 or, for a repeated place, zero; "
          "any variogram, linear models; every class; anisotropy, geographic coordinates, drifts; constructor and update")
OUTSIDE = "more data points; variances between the two; plots"


def tasks(thorough):
    out = []

    def add(f, **k):
        out.append((f, k))

    for kd, dim in (("ok", 2), ("uk", 2), ("ok", 3), ("uk", 3)):
        for u in (False, True):
            for n in (2, 3) + ((4,) if thorough else ()):
                add("stats", kind=kd, dim=dim, n=n, update=u)
                add("stats", kind=kd, dim=dim, n=n, update=u, model="linear")
            for n in (2, 3):
                add("stats", kind=kd, dim=dim, n=n, update=u, aniso=True)
        for n in (2, 3):
            add("skipped", kind=kd, dim=dim, n=n)
        for src, at in ((0, 1), (0, 2), (1, 2)):
            for u in (False, True):
                if at == 1:
                    add("repeated", kind=kd, dim=dim, n=2, src=src, at=at, pinv=True, update=u)
                add("repeated", kind=kd, dim=dim, n=2 if at == 1 else 3, src=src, at=at, pinv=True, update=u)
                for m in ("custom", "linear"):
                    for pv in (False, True):
                        add("repeated", kind=kd, dim=dim, n=2 if at < 3 else 3, src=src, at=at, model=m, pinv=pv, update=u)
        if kd == "uk":
            for d in (["well"], ["spec"], ["func"]) if dim == 2 else (["spec"], ["func"]):
                add("stats", kind=kd, dim=dim, n=3, drifts=d)
    for u in (False, True):
        for n in (2, 3):
            add("stats", kind="ok", dim=2, n=n, geographic=True, update=u)
    add("off")
    return out
