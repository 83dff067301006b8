"""K02: universal kriging honours every drift term."""
from .common import *

ID = "K02"


def uk(env, dim, n, backend, aniso, where, exact, drifts, style="points", axis=0, mask=None):
    geo = mkgeo(env, aniso, dim)
    pts = points(env, n, dim)
    apart(env, geo, pts)
    mod = mkmodel(env, "custom")
    qs = targets(env, geo, pts, where) if style == "points" else line_nodes(env, geo, pts, axis, where)
    unb = not (aniso or "ext" in str(drifts))
    center = center_of(env, pts) if aniso and ("func" in str(drifts) or "lin" in str(drifts)) else tuple([env.num(0)] * dim)
    kw, ekw, fd, fq = drift_2d(env, drifts, geo, pts, qs, center)

    def run(zv):
        k = make(env, "uk", dim, pts, zv, mod, geo, exact_values=exact, **kw)
        return run_line(env, k, style, qs, axis, mask, backend, **ekw)

    lam, sss = zip(*[run(u) for u in units(env, n)])
    zv = env.reals("v", n, -100, 100, PV)
    z, ss = run(zv)
    A = gamma_matrix(env, geo, mod.gam, pts)
    for k, (q, at) in enumerate(qs):
        if z[k] is None:
            continue
        acc = 0
        for i in range(n):
            acc = acc + lam[i][k] * zv[i]
            env.check("variance independent of the values", env.same(sss[i][k], ss[k]))
        env.check("weighted sum of the data", env.same(z[k], acc))
        b = gamma_rhs(env, geo, mod.gam, pts, q, exact, at)
        uk_equations(env, "UK", A, b, [lam[i][k] for i in range(n)], ss[k], fd, [f[k] for f in fq], unb)


BOUNDS = ("2D and 3D, 3-4 data points in [-50, 50] pairwise at least 1/8 apart, 2 target points (free, or on a datum), also as rows of two grid nodes along every axis with and without a mask; no drift, every "
          "drift term alone (1-2 wells, also exactly on a datum or target; 1-2 specified arrays; 1-2 arbitrary functions; external grid "
          "of one cell) and five combinations; every variogram function; anisotropy scaling in [1/10, 10], angles in [-360, 360]")
OUTSIDE = "more data points and drift terms; a well exactly on a point together with anisotropy (rounding decides there); grids with more cells (K20)"


def tasks(thorough):
    out = []

    def add(**k):
        out.append(("uk", k))

    for backend in ("vectorized", "loop"):
        for dim in (2, 3):
            add(dim=dim, n=2, backend=backend, aniso=False, where="near", exact=True, drifts=[])
            add(dim=dim, n=3, backend=backend, aniso=False, where="near", exact=True, drifts=["func"])
        for drifts in (["lin"], ["well"], ["well2"], ["well@q"], ["well@d"], ["extZx"], ["extZy"], ["spec"], ["spec2"], ["func"], ["func2"], []):
            many = drifts and drifts[0] in ("lin", "well2", "spec2", "func2")
            n = 4 if many else 3
            for where in ("free2", "mix"):
                if drifts == ["well@q"] and where == "mix" or drifts == ["well@d"] and where == "free2":
                    pass
                add(dim=2, n=n, backend=backend, aniso=False, where=where, exact=True, drifts=drifts)
            add(dim=2, n=n, backend=backend, aniso=False, where="mix", exact=False, drifts=drifts)
        for drifts in (["lin"], ["well"], ["func"], ["spec"], ["extZx"]):
            add(dim=2, n=3, backend=backend, aniso=True, where="mix", exact=True, drifts=drifts)
        for drifts in (["lin", "spec"], ["well", "extZx"], ["spec", "func"], ["extZy", "func"], ["well", "spec", "func"]):
            add(dim=2, n=4, backend=backend, aniso=False, where="mix", exact=True, drifts=drifts)
        for drifts in (["lin"], ["spec"], ["spec2"], ["func"], ["func2"], ["spec", "func"]):
            add(dim=3, n=4, backend=backend, aniso=False, where="mix", exact=True, drifts=drifts)
        add(dim=3, n=4, backend=backend, aniso=True, where="free", exact=False, drifts=["lin"])
        add(dim=3, n=3, backend=backend, aniso=False, where="free2", exact=False, drifts=["spec", "func"])
        for drifts in ([], ["lin"], ["well"], ["extZx"], ["extZy"], ["spec"], ["spec2"], ["func"]):
            for axis in (0, 1):
                for style, mask in (("grid", None), ("masked", [1, 0]), ("masked", [0, 1])):
                    if mask == [0, 1] and axis:
                        continue
                    add(dim=2, n=4 if drifts in (["lin"], ["spec2"]) else 3, backend=backend, aniso=False, where="free" if mask != [0, 1] else "datum", exact=True, drifts=drifts, style=style, axis=axis, mask=mask)
        for drifts in (["lin"], ["spec"], ["func"]):
            for axis in (0, 1, 2):
                for style, mask in (("grid", None), ("masked", [1, 0])):
                    add(dim=3, n=4 if drifts != ["spec"] else 3, backend=backend, aniso=False, where="free", exact=True, drifts=drifts, style=style, axis=axis, mask=mask)
    return out
