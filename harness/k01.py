"""K01: ordinary kriging is the best linear unbiased predictor."""
from .common import *

ID = "K01"


def okd(env, dim, n, backend, aniso, where, exact, model, style="points", axis=0, mask=None):
    env.nonsing = True
    geo = mkgeo(env, aniso, dim)
    pts = points(env, n, dim)
    apart(env, geo, pts)
    mod = mkmodel(env, model)
    qs = targets(env, geo, pts, where) if style == "points" else line_nodes(env, geo, pts, axis, where)

    def run(zv):
        ok = make(env, "ok", dim, pts, zv, mod, geo, exact_values=exact)
        return run_line(env, ok, style, qs, axis, mask, backend)

    lam, sss = zip(*[run(u) for u in units(env, n)])
    zv = env.reals("v", n, -100, 100, PV)
    z, ss = run(zv)
    A = gamma_matrix(env, geo, mod.gam, pts)
    for k, (q, at) in enumerate(qs):
        if z[k] is None:
            continue
        acc = 0
        for i in range(n):
            acc = acc + lam[i][k] * zv[i]
            env.check("variance independent of the values", env.same(sss[i][k], ss[k]))
        env.check("weighted sum of the data", env.same(z[k], acc))
        b = gamma_rhs(env, geo, mod.gam, pts, q, exact, at)
        kkt(env, "OK", A, b, [lam[i][k] for i in range(n)], ss[k])


BOUNDS = ("2-4 data points (5 in the thorough tier), coordinates in [-50, 50] pairwise at least 1/8 apart, 1-2 target points at least "
          "1/8 from the data or exactly on a datum; every variogram function (uninterpreted) in the Python backends, the linear model "
          "with any slope and nugget in the C backend; point lists, and rows of two grid nodes along every axis with and without a mask; anisotropy scaling in [1/10, 10], angles in [-360, 360] degrees; "
          "data values in [-100, 100]")
OUTSIDE = "more data points; bigger grids and masks are decided in K05, pseudo-inverse in K26, geographic coordinates in K08"
needs_c = c_task


def tasks(thorough):
    out = []
    for dim in (2, 3):
        for backend in ("vectorized", "loop") + (("C",) if dim == 2 else ()):
            model = "linear" if backend == "C" else "custom"
            for aniso in (False, True):
                for where in ("free", "datum", "mix"):
                    for exact in (True, False):
                        for n in (2, 3) if aniso else (3,):
                            out.append(("okd", dict(dim=dim, n=n, backend=backend, aniso=aniso, where=where, exact=exact, model=model)))
            for n in (4,) if not thorough or backend == "C" else (4, 5):
                out.append(("okd", dict(dim=dim, n=n, backend=backend, aniso=False, where="mix", exact=True, model=model)))
            if backend != "C":
                out.append(("okd", dict(dim=dim, n=3, backend=backend, aniso=True, where="mix", exact=True, model="linear")))
            for exact in (True, False):
                out.append(("okd", dict(dim=dim, n=2, backend=backend, aniso=False, where="near", exact=exact, model=model)))
            for axis in range(dim):
                for style, mask in (("grid", None), ("masked", [0, 1]), ("masked", [1, 0])):
                    for where in ("free", "datum"):
                        if where == "datum" and mask == [1, 0]:
                            continue
                        out.append(("okd", dict(dim=dim, n=2, backend=backend, aniso=False, where=where, exact=axis == 0, model=model, style=style, axis=axis, mask=mask)))
            out.append(("okd", dict(dim=dim, n=2, backend=backend, aniso=True, where="free", exact=True, model=model, style="masked", axis=1, mask=[1, 0])))
    return out
